"""Names: operators, moments and products of moments are built in an abstract program of a small scenario; their names are read back by the program that wrote them and by one that has not seen them."""
from itertools import combinations, permutations
import sa.nd as ndmod
from sa.nd import Nd, asarray
from sa.finite import paths, Host, T, Und, Raised
from checks.T03 import verdict
from checks.A02 import begin
from checks.A09 import Net, build

A, B, C, D, E = "names-of-operators", "names-of-moments", "products-in-any-order", "written-out", "different-names"
BAD = {x: x for x in (A, B, C, D, E)}


def power(symbols):
    return symbols[0] if len(symbols) == 1 else T("symbols", *sorted(symbols, key=repr))


HOOKS = {"_generate_lp": lambda R, *a: None, "Symbol": lambda R, n, **k: T("symbol", n), "symbol_prod": lambda R, l: power(R.iterate(l))}


def program(R, prog, h, kind, **kw):
    name = "InflationSDP" if kind == "sdp" else "InflationLP"
    p = Host(prog, name)
    p.closed = True
    f = prog.lookup(prog.cls(name), "__init__")
    R.invoke(f.node, f.mod, {}, [p, h], dict(kw, verbose=0), f)
    return p


def read(R, p, kind, what):
    return R.attr(p, "_sanitise_moment" if kind == "sdp" else "_sanitise_monomial").call(R, [what], {})


def sig(R, m):
    """the factors of a moment, as operators"""
    out = []
    for f in R.iterate(R.attr(m, "factors")):
        v = asarray(R, R.attr(f, "as_2d_array"))
        out.append(tuple(v.flat))
    return tuple(sorted(out))


def told(R, m):
    return R.attr(m, "name")


def go(R, prog, kind, net, order, words, levels):
    begin(R)
    R.texts = __import__("sa.text", fromlist=["x"])
    R.free_terms = True                 # symbols are different if their names are
    h = build(R, prog, net, order, "lists")
    p = program(R, prog, h, kind)
    ops = net.ops
    rows = [[o[0] + 1] + list(o[1:]) for o in ops]
    out = []

    def attempt(q, what):
        try:
            return read(R, q, kind, what)
        except Raised:
            return None

    # operators
    names = asarray(R, h.attr(R, "_lexrepr_to_all_names"))
    short = [(o[0],) + o[-2:] for o in ops]
    for i, o in enumerate(ops):
        for j in range(names.shape[1]):
            n = names.get((i, j))
            try:
                v = asarray(R, R.attr(p, "_interpret_operator_string").call(R, [n], {})).flat
            except Raised as e:
                out.append((A, f"the operator name {n} of {o} is refused"))
                continue
            first = next(k for k in range(len(ops)) if any(names.get((k, jj)) == n for jj in range(names.shape[1])))
            if list(v) != rows[i] and (short[first] != short[i] or list(v) != rows[first]):
                out.append((A, f"the name {n} of the operator {rows[i]} is read as {list(v)}"))
    if out:
        return out[:2]
    # moments
    full = [x for x in asarray(R, h.attr(R, "_lexrepr_to_names")).flat]
    moments = {}
    for w in words:
        m = read(R, p, kind, [rows[i] for i in w])
        s = sig(R, m)
        moments[s] = m
    for s, m in moments.items():
        for a in ("name", "legacy_name", "symbol"):
            n = R.attr(m, a)
            back = attempt(p, n)
            if back is None or sig(R, back) != s:
                out.append((B, f"the {a} {n} of {s} is " + ("refused" if back is None else f"read as {told(R, back)}")))
    for a in ("name", "legacy_name", "symbol"):
        seen = {}
        for s, m in moments.items():
            n = R.attr(m, a)
            n = n if isinstance(n, str) else repr(n)
            if seen.setdefault(n, s) != s:
                out.append((E, f"{seen[n]} and {s} have the same {a} {n}"))
    # products of two of them, factors in any order
    single = [(s, m) for s, m in moments.items() if len(s) == 1][:6]
    for (s, m), (t, n) in combinations(single, 2):
        for x, y in ((m, n), (n, m)):
            for a in ("name", "legacy_name"):
                text = R.attr(x, a) + "*" + R.attr(y, a)
                back = attempt(p, text)
                if back is None or sig(R, back) != tuple(sorted(s + t)):
                    out.append((C, f"the product {text} is " + ("refused" if back is None else f"read as {told(R, back)}")))
    for s, m in single[:3]:
        for text in (told(R, m) + "^2", told(R, m) + "*" + told(R, m)):
            back = attempt(p, text)
            if back is None or sig(R, back) != s + s:
                out.append((C, f"the product {text} is " + ("refused" if back is None else f"read as {told(R, back)}")))
    if out:
        return out[:2]
    # a program that has not seen the moments
    q = program(R, prog, h, kind)
    for w in words:
        s = sig(R, read(R, p, kind, [rows[i] for i in w]))
        for l, r in ("<>", ("P[", "]")):
            text = l + " ".join(full[i] for i in w) + r
            back = attempt(q, text)
            if back is None or sig(R, back) != s:
                out.append((D, f"{text}, written out, is " + ("refused" if back is None else f"read as {told(R, back)}")))
    for s, m in moments.items():
        q = program(R, prog, h, kind) if len(out) < 3 else q
        back = attempt(q, told(R, m))
        if back is not None and sig(R, back) != s:
            out.append((D, f"{told(R, m)}, not known yet, is read as {told(R, back)}"))
    return out[:3]


def run(rep, prog, kind, label, net, words):
    verdict(rep, "InflationSDP" if kind == "sdp" else "InflationLP", label, paths(prog, lambda R: go(R, prog, kind, net, list(net.sources) + list(net.latents) + list(net.names), words, None), hooks=dict(HOOKS), limit=20), BAD)


def check(prog, rep, tier):
    rep.rule(A, "every name of an operator is read as that operator; a name without copies as an operator of the same party, setting and outcome")
    rep.rule(B, "the name and the legacy name of a moment are read as that moment by the program that wrote them")
    rep.rule(C, "a product of moments is read as that product whatever the order of its factors, powers included")
    rep.rule(D, "operators written out between brackets are read as their moment; the name of a moment that is not known yet is refused or read as that moment")
    rep.rule(E, "different moments have different names")
    jobs = []
    nets = [("two parties, two copies", Net(["A", "B"], (2, 2), (2, 2), ["s"], [], {("s", "A"), ("s", "B")}, set(), (2,))),
            ("two sources, three outcomes", Net(["B", "A"], (2, 3), (1, 2), ["s", "t"], [], {("s", "A"), ("s", "B"), ("t", "B")}, set(), (2, 1))),
            ("instrument", Net(["A", "B"], (2, 2), (2, 1), ["s"], [], {("s", "A"), ("s", "B"), ("A", "B")}, set(), (1,)))]
    for label, net in nets:
        for kind in ("lp", "sdp"):
            net2 = Net(net.names, net.outs, net.priv, net.sources, net.latents, net.arrows, {"s"} if kind == "sdp" else set(), net.levels)
            ops = range(len(net2.ops))
            pairs = [(i, j) for i, j in combinations(ops, 2)]
            other = [(i, j) for i, j in pairs if net2.ops[i][0] != net2.ops[j][0]]
            own = [(i, j) for i, j in pairs if net2.ops[i][0] == net2.ops[j][0] and net2.ops[i][:-1] != net2.ops[j][:-1]]
            n = 40 if tier == "thorough" else 12
            words = [(i,) for i in ops] + other[:n] + own[:n // 2] + [(j, i) for i, j in other[-4:]] + [(j, i) for i, j in own[:n // 4]]
            words += [w + (k,) for w in own[:2] for k in ops if net2.ops[k][0] != net2.ops[w[0]][0]][:4]
            words += [(i, j, i) for i, j in own[:2]] if kind == "sdp" else []
            jobs.append((B, f"{kind} {label}", lambda r, *a: run(r, prog, *a), (kind, label, net2, words)))
    # numbers of more than one digit
    for kind in ("lp", "sdp"):
        for label, net in (("twelve settings", Net(["A", "B"], (2, 2), (12, 12), ["s"], [], {("s", "A"), ("s", "B")}, {"s"} if kind == "sdp" else set(), (1,))),
                           ("twelve outcomes", Net(["A", "B"], (12, 12), (1, 1), ["s"], [], {("s", "A"), ("s", "B")}, set(), (1,)))):
            at = {o: i for i, o in enumerate(net.ops)}
            pick = [i for o, i in at.items() if all(x in (0, 1, 2, 10, 11, 12) for x in o)][:40]
            far = [i for i in pick if label.endswith("outcomes") or net.ops[i][-1] == 0]
            a, b = [i for i in far if net.ops[i][0] == 0], [i for i in far if net.ops[i][0] == 1]
            jobs.append((E, f"{kind} {label}", lambda r, *x: run(r, prog, *x), (kind, label, net, [(i,) for i in pick] + [(i, j) for i in a for j in b])))
    rep.jobs(jobs)
