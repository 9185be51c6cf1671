"""Scenarios: the constructor is evaluated on scenarios with unknown arrows; all tables of the problem are compared with the unpacked and inflated scenario."""
from itertools import product, combinations
import sa.nd as ndmod
from sa.nd import Nd, asarray
from sa.finite import paths, Host, Hook, Native, Und, Raised, FSet
from checks.T03 import verdict
from checks.A02 import begin

A, B, C, D, E, F = "arrows", "settings", "operators", "overlaps", "commutation", "names"
BAD = {x: x for x in (A, B, C, D, E, F)}


class Net:
    """sources, latents, parties: lists of names; arrows: set of (parent, child)"""
    def __init__(self, names, outs, priv, sources, latents, arrows, quantum, levels):
        self.names, self.outs, self.priv, self.sources, self.latents, self.arrows, self.quantum, self.levels = names, outs, priv, sources, latents, arrows, quantum, levels
        N = range(len(names))
        self.boxes = {}                     # (party, party, source) -> 1 common, 2 common through something nonclassical
        self.hyper = {}
        for s, src in enumerate(sources):
            for p in N:
                if (src, names[p]) in arrows:
                    self.box(p, p, s, src in quantum)
                for q in N:
                    for l in latents:
                        if (src, l) in arrows and (l, names[p]) in arrows and (l, names[q]) in arrows:
                            self.box(p, q, s, src in quantum and l in quantum)
            for p in N:
                self.hyper[s, p] = int((p, p, s) in self.boxes)
        self.parents = [[q for q in N if (names[q], names[p]) in arrows] for p in N]
        self.children = [any((names[p], names[q]) in arrows for q in N) for p in N]
        self.settings = [list(product(*[range(priv[p])] + [range(outs[q]) for q in self.parents[p]])) for p in N]
        self.copies = [list(product(*[range(1, levels[s] + 1) if self.hyper[s, p] else (0,) for s in range(len(sources))])) for p in N]
        self.ops = [(p,) + c + (s, o) for p in N for c in self.copies[p] for s in range(len(self.settings[p])) for o in range(outs[p])]

    def box(self, p, q, s, quantum):
        self.boxes[p, q, s] = max(self.boxes.get((p, q, s), 0), 2 if quantum else 1)

    def legal(self):
        return all(self.copies) and all(any(self.hyper[s, p] for s in range(len(self.sources))) for p in range(len(self.names)))

    def notcomm(self, x, y):
        p, q, n = x[0], y[0], len(self.sources)
        kind = [self.boxes.get((p, q, s), 0) for s in range(n)]
        if not any(k == 2 and x[1 + s] == y[1 + s] for s, k in enumerate(kind)):
            return False
        if any(k and x[1 + s] != y[1 + s] for s, k in enumerate(kind)):
            return True
        return p == q and x[-2] != y[-2]

    def text(self):
        return ", ".join(f"{a}->{b}" for a, b in sorted(self.arrows)) + f" (nonclassical: {sorted(self.quantum)}, copies {self.levels})"


def dagof(R, net, order):
    """insertion order of the parents given"""
    d = {}
    for x in order:
        ch = [b for a, b in sorted(net.arrows) if a == x]
        if ch:
            R.setitem(d, x, ch)
    return d


def build(R, prog, net, order, style):
    kw = dict(dag=dagof(R, net, order), outcomes_per_party=list(net.outs), settings_per_party=list(net.priv), inflation_level_per_source=list(net.levels),
              classical_sources=[s for s in net.sources if s not in net.quantum], nonclassical_intermediate_latents=[l for l in net.latents if l in net.quantum],
              classical_intermediate_latents=[l for l in net.latents if l not in net.quantum], order=tuple(net.names), verbose=0)
    if style == "uniform":
        kw["inflation_level_per_source"] = net.levels[0]
    if style == "all":
        kw["classical_sources"] = "all"
    if style == "tuples":
        for x in ("outcomes_per_party", "settings_per_party", "inflation_level_per_source", "classical_sources"):
            kw[x] = tuple(kw[x])
    if style == "defaults":
        kw["settings_per_party"] = ()
        kw["inflation_level_per_source"] = ()
        kw["order"] = ()
    h = Host(prog, "InflationProblem")
    f = prog.lookup(prog.cls("InflationProblem"), "__init__")
    R.invoke(f.node, f.mod, {}, [h], kw, f)
    return h


def table(R, v, shape, what):
    v = asarray(R, v)
    if any(not isinstance(x, int) for x in v.flat):
        raise Und(f"entries of {what}")
    if v.shape != tuple(shape):
        return None
    return [int(x) for x in v.flat]


def judge(R, h, net):
    N, S = len(net.names), len(net.sources)
    out = []
    d = net.text()
    at = lambda n: h.attr(R, n)
    def want(kind, name, shape, exp, text=""):
        got = table(R, at(name), shape, name)
        if got != exp:
            out.append((kind, f"{d}: {name} is {got if got is not None else 'of another shape'} instead of {exp}{text}"))
        return got == exp
    names = list(R.iterate(at("names")))
    if names != list(net.names):
        return [(A, f"{d}: the parties are {names} instead of {list(net.names)}")]
    srcs = list(R.iterate(asarray(R, at("_actual_sources")).flat))
    if srcs != list(net.sources):
        return [(A, f"{d}: the sources are {srcs} instead of {list(net.sources)}")]
    want(A, "hypergraph", (S, N), [net.hyper[s, p] for s in range(S) for p in range(N)])
    want(A, "has_children", (N,), [int(x) for x in net.children])
    if R.truth(at("is_network")) != (not any(net.children)):
        out.append((A, f"{d}: is_network is {at('is_network')}"))
    want(A, "inflation_level_per_source", (S,), list(net.levels))
    want(A, "_classical_sources", (S,), [int(s not in net.quantum) for s in net.sources])
    want(A, "_nonclassical_sources", (S,), [int(s in net.quantum) for s in net.sources])
    for p, v in enumerate(R.iterate(at("parents_per_party"))):
        got = table(R, v, (len(net.parents[p]),), "parents_per_party")
        if got != net.parents[p]:
            out.append((A, f"{d}: the parents of {net.names[p]} are {got} instead of {net.parents[p]}"))
    for name, v in zip(net.names, range(1, N + 1)):
        if R.getitem(at("names_to_ints"), name) != v:
            out.append((A, f"{d}: party {name} has another number in names_to_ints"))
    want(B, "outcomes_per_party", (N,), list(net.outs))
    want(B, "private_settings_per_party", (N,), list(net.priv))
    want(B, "settings_per_party", (N,), [len(x) for x in net.settings])
    shape = tuple(R.iterate(at("expected_distro_shape")))
    if shape != tuple(net.outs) + tuple(net.priv):
        out.append((B, f"{d}: the expected shape of distributions is {shape}"))
    for p, m in enumerate(R.iterate(at("effective_to_parent_settings"))):
        got = {}
        for k in R.iterate(m):
            got[k] = tuple(R.iterate(R.getitem(m, k)))
        if got != dict(enumerate(net.settings[p])):
            out.append((B, f"{d}: the settings of {net.names[p]} stand for {got} instead of {dict(enumerate(net.settings[p]))}"))
    if out:
        return out
    # operators
    W = S + 3
    lex = asarray(R, at("_lexorder"))
    if len(lex.shape) != 2 or lex.shape[1] != W:
        return [(C, f"{d}: the list of operators has shape {lex.shape}")]
    rows = [tuple(lex.get((i, j)) for j in range(W)) for i in range(lex.shape[0])]
    if any(not isinstance(x, int) for r in rows for x in r):
        raise Und("entries of _lexorder")
    ops = [(r[0] - 1,) + r[1:] for r in rows]
    if set(ops) != set(net.ops) or len(ops) != len(net.ops):
        x = sorted(set(ops) ^ set(net.ops)) or [x for x in ops if ops.count(x) > 1]
        return [(C, f"{d}: the operator (party, copies, setting, outcome) = {x[0]} is {'missing' if x[0] not in ops else 'listed twice' if x[0] in net.ops else 'not one of the scenario'}")]
    n = len(ops)
    if at("_nr_operators") != n:
        out.append((C, f"{d}: {at('_nr_operators')} operators are counted, {n} are listed"))
    if ops != sorted(ops):
        out.append((C, f"{d}: the operators are not listed in order of party, copies, setting and outcome"))
    per = [[list(asarray(R, g).flat) for g in asarray(R, v).elements(R)] if asarray(R, v).shape[0] else [] for v in R.iterate(at("_ortho_idxs_per_party"))]
    flat = [list(asarray(R, g).flat) for g in R.iterate(at("_ortho_idxs"))]
    meas = {}
    for i, o in enumerate(ops):
        meas.setdefault(o[:-1], []).append(i)
    if [g for v in per for g in v] != flat or sorted(flat) != sorted(meas.values()):
        out.append((C, f"{d}: the groups of outcomes of one measurement are {flat} instead of {sorted(meas.values())}"))
    elif len(per) != N or any(ops[g[0]][0] != p for p, v in enumerate(per) for g in v):
        out.append((C, f"{d}: groups of outcomes are listed for another party"))
    else:
        want(C, "_template_idxs", (len(flat),), [g[0] for g in flat])
        want(C, "party_from_lexidx", (n,), [r[0] for r in rows])
        want(C, "party_from_templateidx", (len(flat),), [rows[g[0]][0] for g in flat])
        groups = [[tuple(x.flat) for x in asarray(R, g).elements(R)] for g in R.iterate(at("_ortho_groups"))]
        if groups != [[rows[i] for i in g] for g in flat]:
            out.append((C, f"{d}: the orthogonal operators are not those of the groups of outcomes"))
        gp = [[[tuple(x.flat) for x in asarray(R, g).elements(R)] for g in asarray(R, v).elements(R)] for v in R.iterate(at("_ortho_groups_per_party"))]
        if [g for v in gp for g in v] != groups or [len(v) for v in gp] != [len(v) for v in per]:
            out.append((C, f"{d}: the orthogonal operators of the parties are not those of the groups of outcomes"))
    for p, m in enumerate(R.iterate(at("measurements"))):
        m = asarray(R, m)
        got = None
        if m.shape == (len(net.copies[p]), len(net.settings[p]), net.outs[p], W):
            got = [tuple(m.get((c, s, o, j)) - (j == 0) for j in range(W)) for c in range(m.shape[0]) for s in range(m.shape[1]) for o in range(m.shape[2])]
        if got != [x for x in net.ops if x[0] == p]:
            out.append((C, f"{d}: the measurements of {net.names[p]} are not all copies, settings and outcomes"))
    ev = asarray(R, at("original_dag_events"))
    got = [tuple(ev.get((i, j)) for j in range(3)) for i in range(ev.shape[0])] if len(ev.shape) == 2 and ev.shape[1] == 3 else None
    exp = [(p + 1, s, o) for p in range(N) for s in range(net.priv[p]) for o in range(net.outs[p])]
    if got is None or sorted(got) != exp:
        out.append((C, f"{d}: the events of the original scenario are {got}"))
    # overlaps
    fac = table(R, at("_lexorder_for_factorization"), (n,), "_lexorder_for_factorization")
    ov = asarray(R, at("_inflation_indices_overlap"))
    if fac is None or len(ov.shape) != 2 or any(not 0 <= x < ov.shape[0] for x in fac):
        out.append((D, f"{d}: operators have no place in the table of overlaps"))
    else:
        for i, j in product(range(n), repeat=2):
            c1, c2 = ops[i][1:-2], ops[j][1:-2]
            if (fac[i] == fac[j]) != (c1 == c2):
                out.append((D, f"{d}: operators on copies {c1} and {c2} have {'the same' if c1 != c2 else 'different'} places in the table of overlaps"))
                break
            w = any(x and x == y for x, y in zip(c1, c2))
            if R.truth(ov.get((fac[i], fac[j]))) != w:
                out.append((D, f"{d}: operators on copies {c1} and {c2} are {'not ' if w else ''}found to overlap"))
                break
    apart = [(x, y) for x, y in combinations(ops, 2) if not any(a and a == b for a, b in zip(x[1:-2], y[1:-2]))]
    if apart and not R.truth(at("ever_factorizes")):
        out.append((D, f"{d}: products never factorise, although {apart[0][0]} and {apart[0][1]} share no source"))
    nc = asarray(R, at("_default_notcomm"))
    if nc.shape != (n, n):
        out.append((E, f"{d}: the table of commutation has shape {nc.shape}"))
    else:
        for i, j in product(range(n), repeat=2):
            w = net.notcomm(ops[i], ops[j])
            if R.truth(nc.get((i, j))) != w:
                out.append((E, f"{d}: {ops[i]} and {ops[j]} {'commute' if w else 'do not commute'} in the table"))
                break
    return out


def judge_names(R, h, net):
    d = net.text()
    out = []
    ops = net.ops
    inflated = any(x > 1 for x in net.levels)
    for name, key in (("_lexrepr_to_names", lambda o: o if inflated else (o[0],) + o[-2:]), ("_lexrepr_to_copy_index_free_names", lambda o: (o[0],) + o[-2:])):
        v = asarray(R, h.attr(R, name))
        if v.shape != (len(ops),) or any(not isinstance(x, str) for x in v.flat):
            raise Und("names of operators")
        by = {}
        for o, x in zip(ops, v.flat):
            other = by.setdefault(x, o)
            if key(other) != key(o):
                out.append((F, f"{d}: {name}: {other} and {o} have the same name {x}"))
                break
        for o, x in zip(ops, v.flat):
            given = dict(zip([net.names[q] for q in net.parents[o[0]]], net.settings[o[0]][o[-2]][1:]))
            told = x.rsplit("do(", 1)[1] if "do(" in x else ""
            lost = [(q, w) for q, w in given.items() if f"{q}={w}" not in told]
            wrong = [q for q in net.names if q not in given and f"{q}=" in told]
            if lost or wrong:
                out.append((F, f"{d}: {name}: {o} is named {x}, but its parents have the outcomes {given}"))
                break
        back = {}
        for o, x in zip(ops, v.flat):
            if back.setdefault(key(o), x) != x:
                out.append((F, f"{d}: {name}: {key(o)} has the names {back[key(o)]} and {x}"))
                break
    v = asarray(R, h.attr(R, "_lexrepr_to_all_names"))
    if len(v.shape) != 2 or v.shape[0] != len(ops):
        return out + [(F, f"{d}: the lists of names have shape {v.shape}")]
    by = {}
    for i, o in enumerate(ops):
        for j in range(v.shape[1]):
            x = v.get((i, j))
            k = (o[0],) + o[-2:]
            if by.setdefault(x, k) != k:
                out.append((F, f"{d}: {by[x]} and {k} share the name {x}"))
                return out
    return out


def run(rep, prog, label, names, outs, priv, sources, latents, maybe, fixed, levels, quantum=(), maybe_quantum=(), order=None, style="lists", named=False):
    def go(R):
        begin(R)
        R.texts = __import__("sa.text", fromlist=["x"])
        arrows = set(fixed) | {e for e in maybe if R.boolean("arrow", *e)}
        q = set(quantum) | {x for x in maybe_quantum if R.boolean("nonclassical", x)}
        if any(not any(a == l for a, _ in arrows) for l in latents) or any(not any(a == s for a, _ in arrows) for s in sources):
            return []                       # a node without children is not part of a scenario
        net = Net(names, outs, priv, sources, latents, arrows, q, levels)
        if not net.legal():
            return []
        for l in latents:
            if l in q and all(a not in q for a, b in arrows if b == l):
                return []                   # refused: F03
        h = build(R, prog, net, order or list(sources) + list(latents) + list(names), style)
        r = judge(R, h, net)
        if named and not r:
            r = judge_names(R, h, net)
        return r
    verdict(rep, "InflationProblem", label, paths(prog, go, hooks={}, limit=3000), BAD)


def check(prog, rep, tier):
    rep.rule(A, "parties, sources, arrows, numbers of copies and kinds of sources of the problem are those of the scenario; all arrows of small scenarios unknown")
    rep.rule(B, "the settings of a party are all combinations of a private setting and the outcomes of its parents, each once")
    rep.rule(C, "the operators are all combinations of party, copies of its sources, setting and outcome, each once; outcomes of one measurement form one group")
    rep.rule(D, "operators have one place in the table of overlaps exactly if they act on the same copies, and overlap exactly if they share a copy; products are not treated as indivisible if two operators share none")
    rep.rule(E, "operators fail to commute exactly if they share a nonclassical source copy and differ in another common source or, at one party, in the setting")
    rep.rule(F, "different operators have different names, the same operator has one")
    P = lambda *ps: [(a, b) for a, b in ps]
    allto = lambda ss, ps: [(s, p) for s in ss for p in ps]
    two, three = ["A", "B"], ["A", "B", "C"]
    run(rep, prog, "two parties, two sources", two, (2, 3), (2, 1), ["s", "t"], [], allto("st", two), [], (2, 1), maybe_quantum=("s", "t"))
    run(rep, prog, "parents among three parties", ["B", "A", "C"], (2, 3, 2), (1, 2, 1), ["s"], [], P(("B", "A"), ("B", "C"), ("A", "C")), allto("s", three), (1,), quantum=("s",), named=True)
    run(rep, prog, "parents and copies", two, (2, 2), (2, 2), ["t", "s"], [], P(("A", "B"), ("t", "A"), ("s", "B")), P(("s", "A"), ("t", "B")), (2, 2), maybe_quantum=("s", "t"), named=True)
    run(rep, prog, "intermediate latent", two, (2, 2), (2, 1), ["s", "t"], ["l"], allto("st", ["l"]) + [("s", "A"), ("l", "B")], P(("l", "A"), ("t", "B")), (2, 1), maybe_quantum=("s", "t", "l"))
    run(rep, prog, "two intermediate latents", two, (2, 2), (2, 1), ["s"], ["l", "m"], allto("lm", two), allto("s", ["l", "m"]), (2,), quantum=("s",), maybe_quantum=("l", "m"))
    run(rep, prog, "three parties in a triangle", three, (2, 2, 2), (1, 1, 1), ["s", "t", "u"], [], [], P(("s", "A"), ("s", "B"), ("t", "B"), ("t", "C"), ("u", "A"), ("u", "C")), (2, 2, 1), maybe_quantum=("s",), quantum=("t",), named=True)
    run(rep, prog, "parents listed first", two, (2, 3), (1, 2), ["s", "t"], [], P(("A", "B")), P(("s", "A"), ("s", "B"), ("t", "B")), (3, 1), quantum=("t",), order=["A", "s", "B", "t"], named=True)
    for levels in ((1, 1), (1, 2)):
        run(rep, prog, f"two sources with {levels} copies", two, (2, 2), (1, 1), ["s", "t"], [], allto("st", two), [], levels, quantum=("s",))
    run(rep, prog, "one party", ["A"], (2,), (2,), ["s"], [], [], [("s", "A")], (2,), maybe_quantum=("s",), named=True)
    for style in ("uniform", "all", "tuples"):
        run(rep, prog, f"given as {style}", two, (2, 3), (2, 1), ["s", "t"], [], P(("t", "A")), P(("s", "A"), ("s", "B"), ("t", "B")), (2, 2), quantum=() if style == "all" else ("s",), style=style)
    run(rep, prog, "defaults", two, (2, 3), (1, 1), ["s", "t"], [], P(("t", "A"), ("A", "B")), P(("s", "A"), ("s", "B"), ("t", "B")), (1, 1), quantum=("s", "t"), style="defaults", named=True)
