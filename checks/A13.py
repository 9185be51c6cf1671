"""Linear programs end to end: the program of a scenario with unknown arrows is generated; variables, constraints and factorisation conditions are compared with the events of the inflation, as functions of all outcomes averaged over the exchanges of copies."""
from itertools import combinations, permutations, product
from fractions import Fraction
from sa.nd import Nd, asarray
from sa.finite import paths, T, Und, Raised
from checks.T03 import verdict
from checks.A02 import begin
from checks.A07 import Coo, make_coo, rowterms, rank, functional
from checks.A08 import cliques, maximal
from checks.A09 import Net, build
from checks.N10 import program, power

A, B, C, D, E, F = "variables-of-the-program", "inequalities-of-the-program", "equalities-of-the-program", "equalities-are-complete", "factorisation-conditions", "a-new-program-is-unconstrained"
BAD = {x: x for x in (A, B, C, D, E, F)}
HOOKS = {"Symbol": lambda R, n, **k: T("symbol", n), "symbol_prod": lambda R, l: power(R.iterate(l)), "coo_array": make_coo, "coo_matrix": make_coo}


def reader(R, p):
    """what the judge looks at; a table that is gone is not a wrong table"""
    def at(a):
        try:
            return R.attr(p, a)
        except Raised as e:
            if not str(e).startswith("AttributeError") or a in PUBLIC:
                raise
            raise Und(f"no attribute {a}")
    return at


PUBLIC = {"monomials", "moments", "momentmatrix", "factorization_conditions", "quadratic_factorization_conditions", "known_moments", "moment_lowerbounds", "moment_upperbounds", "semiknown_moments", "objective", "measurements", "names"}


class Events:
    def __init__(self, net, full):
        self.net, self.ops = net, net.ops
        self.meas = sorted({o[:-1] for o in net.ops})
        self.at = {o: i for i, o in enumerate(net.ops)}
        self.outs = [net.outs[m[0]] for m in self.meas]
        self.kids = [full or net.children[m[0]] for m in self.meas]
        n = len(self.meas)
        ok = lambda a, b: not net.notcomm(a + (0,), b + (0,))
        self.edges = {(i, j) for i, j in combinations(range(n), 2) if ok(self.meas[i], self.meas[j])}
        cs = cliques(n, self.edges)
        ev = lambda c, w: tuple(sorted(self.at[self.meas[i] + (a,)] for i, a in zip(c, w)))
        self.events = [ev(c, w) for c in cs for w in product(*[range(self.outs[i] - (0 if self.kids[i] else 1)) for i in c])]
        self.maximal = [ev(c, w) for c in maximal(cs) for w in product(*[range(self.outs[i]) for i in c])]
        self.all = list(product(*[range(o) for o in self.outs]))
        self.group = []
        S = len(net.sources)
        for g in product(*[list(permutations(range(1, l + 1))) for l in net.levels]):
            g = [(0,) + x for x in g]
            self.group.append([self.at[(o[0],) + tuple(g[s][o[1 + s]] for s in range(S)) + o[1 + S:]] for o in self.ops])
        self.values = {}

    def orbit(self, e):
        return min(tuple(sorted(g[o] for o in e)) for g in self.group)

    def value(self, e):
        """probability of an event as a function of all outcomes, the copies exchanged in all ways"""
        e = self.orbit(e)
        if e not in self.values:
            t = [0] * len(self.all)
            for g in self.group:
                need = [(self.meas.index(self.ops[g[o]][:-1]), self.ops[g[o]][-1]) for o in e]
                for i, w in enumerate(self.all):
                    t[i] += all(w[m] == a for m, a in need)
            self.values[e] = tuple(t)
        return self.values[e]

    def factors(self, e):
        S = len(self.net.sources)
        parts = []
        for o in e:
            share = lambda p: any(self.ops[o][1 + s] and self.ops[o][1 + s] == self.ops[q][1 + s] for q in p for s in range(S))
            hit = [p for p in parts if share(p)]
            parts = [p for p in parts if not share(p)] + [tuple(sorted(sum(hit, ()) + (o,)))]
        return tuple(sorted(self.orbit(p) for p in parts))

    def show(self, e):
        n = self.net
        return "".join(f"[{n.names[self.ops[o][0]]}{list(self.ops[o][1:-2])} setting {self.ops[o][-2]} = {self.ops[o][-1]}]" for o in e) or "1"


def sig(R, m, V):
    """the factors of a moment, as events"""
    out = []
    for f in R.iterate(R.attr(m, "factors")):
        v = asarray(R, R.attr(f, "as_2d_array")).nested()
        out.append(V.orbit(tuple(sorted(V.at[(r[0] - 1,) + tuple(r[1:])] for r in v))))
    return tuple(sorted(x for x in out if x))


def judge(R, p, V, d):
    out = []
    at = reader(R, p)
    mons = list(R.iterate(at("monomials")))
    sigs = [sig(R, m, V) for m in mons]
    orbits = {V.orbit(e): e for e in V.events}
    want = {}
    for e in orbits:
        want.setdefault(V.factors(e), e)
    show = lambda s: "*".join(f"<{V.show(x)}>" for x in s) or "1"
    if len(set(sigs)) != len(sigs) or set(sigs) != set(want):
        x = sorted(set(sigs) ^ set(want)) or [s for s in sigs if sigs.count(s) > 1]
        return [(A, f"{d}: the moment {show(x[0])} is {'missing' if x[0] in want and x[0] not in sigs else 'listed wrongly'} among the variables")]
    if sigs[0] != () or at("n_columns") != len(mons):
        out.append((A, f"{d}: the first variable is {show(sigs[0])}, {at('n_columns')} columns for {len(mons)} variables"))
    to, fro = at("compmonomial_to_idx"), at("compmonomial_from_idx")
    for i, m in enumerate(mons):
        if R.getitem(to, m) != i or R.getitem(fro, i) is not m or R.attr(m, "idx") != i:
            out.append((A, f"{d}: the variable {show(sigs[i])} of column {i} has the index {R.getitem(to, m)}, {R.attr(m, 'idx')}"))
            break
    value = {j: V.value(want[s]) for j, s in enumerate(sigs)}
    poly = lambda r: " ".join(f"{c:+d}*{show(sigs[j])}" for j, c in sorted(r.items()))
    # inequalities
    M = at("minimal_sparse_inequalities")
    N = at("minimal_sparse_equalities")
    if not isinstance(M, Coo) or not isinstance(N, Coo):
        raise Und("constraints not recognised")
    for X in (M, N):
        if X.shape[1] != len(mons):
            out.append((B, f"{d}: constraints of {X.shape[1]} columns"))
            return out
    need = {}
    for e in V.maximal:
        need.setdefault(V.value(e), e)
    got = {}
    for r in rowterms(M):
        f = functional(r, value)
        got[f] = r
        if f not in need:
            out.append((B, f"{d}: the inequality {poly(r)} >= 0 is not the probability of a maximal event"))
            break
    for f, e in need.items():
        if f not in got:
            out.append((B, f"{d}: the probability of the maximal event {V.show(e)} is not required to be non-negative"))
            break
    # equalities
    rows = rowterms(N)
    for r in rows:
        f = functional(r, value)
        if any(f):
            w = V.all[next(i for i, x in enumerate(f) if x)]
            out.append((C, f"{d}: the equality {poly(r)} = 0 does not hold if the measurements give {w}"))
            break
    else:
        free = rank([[r.get(j, 0) for j in range(len(mons))] for r in rows]) if rows else 0
        dim = rank([list(value[j]) for j in range(len(mons))])
        if len(mons) - free != dim:
            out.append((D, f"{d}: {len(mons)} variables with {free} independent equalities, but the events have {dim} independent probabilities"))
    # factorisation
    index = {s: i for i, s in enumerate(sigs)}
    name = [R.attr(m, "name") for m in mons]
    prods = {i for i, s in enumerate(sigs) if len(s) > 1}
    for a, quad in (("factorization_conditions", False), ("quadratic_factorization_conditions", True)):
        forms = {}
        for form in (a, f"sparse_{a}", f"{a}_by_name"):
            c = at(form)
            forms[form] = {(k if isinstance(k, (int, str)) else R.getitem(to, k)): [x if isinstance(x, (int, str)) else R.getitem(to, x) for x in R.iterate(v)] for k, v in c.items()}
        base = forms.pop(a)
        if set(base) != prods:
            out.append((E, f"{d}: {a} are listed for {[name[i] for i in sorted(set(base) ^ prods)][:2]} wrongly"))
            continue
        for i, v in base.items():
            if tuple(sorted(sum([sigs[j] for j in v], ()))) != sigs[i] or any(not sigs[j] for j in v) or (len(v) != 2 if quad else any(len(sigs[j]) != 1 for j in v)):
                out.append((E, f"{d}: {a}: {name[i]} = {' * '.join(name[j] for j in v)}"))
                break
        for form, got in forms.items():
            want_ = {(name[i] if form.endswith("name") else i): [name[j] if form.endswith("name") else j for j in v] for i, v in base.items()}
            if got != want_:
                out.append((E, f"{d}: {form} differ from {a}"))
    # a new program
    known = at("known_moments")
    if {R.getitem(to, k): v for k, v in known.items()} != ({} if at("supports_problem") else {0: 1}):      # supports: the unit is bounded
        out.append((F, f"{d}: a new program has known moments {[R.attr(k, 'name') for k in known]}"))
    if [R.attr(k, "name") for k, v in at("objective").items() if v]:
        out.append((F, f"{d}: a new program has an objective"))
    for a in ("moment_lowerbounds", "moment_upperbounds", "semiknown_moments"):
        b = {R.getitem(to, k): v for k, v in at(a).items()}
        b.pop(0, None)
        if b:
            out.append((F, f"{d}: a new program has {a} {b}"))
    return out


def run(rep, prog, label, names, outs, priv, sources, maybe, fixed, levels, quantum=(), maybe_quantum=(), **kw):
    def go(R):
        begin(R)
        R.texts = __import__("sa.text", fromlist=["x"])
        R.free_terms = True
        arrows = set(fixed) | {e for e in maybe if R.boolean("arrow", *e)}
        q = set(quantum) | {x for x in maybe_quantum if R.boolean("nonclassical", x)}
        if any(not any(a == s for a, _ in arrows) for s in sources):
            return []
        net = Net(names, outs, priv, sources, [], arrows, q, levels)
        if not net.legal():
            return []
        h = build(R, prog, net, list(sources) + list(names), "lists")
        p = program(R, prog, h, "lp", **kw)
        return judge(R, p, Events(net, bool(kw)), net.text() + (f", {kw}" if kw else ""))
    verdict(rep, "InflationLP", label, paths(prog, go, hooks=HOOKS, limit=600), BAD)


def check(prog, rep, tier):
    rep.rule(A, "the variables of the program are the moments of the events of all compatible sets of measurements (last outcomes left out where normalisation determines them), one per class of events that exchanges of copies identify, the unit first; each has its factors and its column")
    rep.rule(B, "the inequalities, as functions of all outcomes averaged over the exchanges of copies, are the probabilities of the maximal compatible events, each of which is required")
    rep.rule(C, "the equalities vanish for every outcome of the measurements")
    rep.rule(D, "the equalities are all linear relations between the variables")
    rep.rule(E, "factorisation conditions are listed for exactly the products, with moments of the program whose product they are; the tables by column and by name say the same")
    rep.rule(F, "a new program knows the unit only and has no objective and no bounds")
    two, three = ["A", "B"], ["A", "B", "C"]
    P = lambda *ps: [(a, b) for a, b in ps]
    jobs = []
    cases = [("two sources", two, (2, 2), (1, 1), ["s", "t"], P(("s", "A"), ("t", "B")), P(("t", "A"), ("s", "B")), (2, 1)),
             ("settings", two, (2, 2), (2, 1), ["s"], [], P(("s", "A"), ("s", "B")), (2,)),
             ("three outcomes", two, (3, 2), (1, 1), ["s", "t"], P(("s", "B"),), P(("s", "A"), ("t", "B")), (1, 2)),
             ("three copies", two, (2, 2), (1, 1), ["s", "t"], P(("s", "B"),), P(("s", "A"), ("t", "B")), (3, 1)),
             ("line", three, (2, 2, 2), (1, 1, 1), ["s", "t"], P(("s", "C"),), P(("s", "A"), ("s", "B"), ("t", "B"), ("t", "C")), (1, 2)),
             ("parents", two, (2, 3), (1, 1), ["s"], P(("A", "B"), ("B", "A")), P(("s", "A"), ("s", "B")), (1,)),
             ("parents and copies", two, (2, 2), (1, 1), ["s"], P(("A", "B"),), P(("s", "A"), ("s", "B")), (2,)),
             ("parents, two sources", two, (2, 2), (1, 1), ["s", "t"], P(("A", "B"),), P(("s", "A"), ("t", "B"), ("s", "B")), (1, 2))]
    for c in cases:
        jobs.append((A, c[0], lambda r, *a: run(r, prog, *a), c))
    mq = {"maybe_quantum": ("s", "t")}
    for c, k in ((cases[0], mq), (cases[1], {"maybe_quantum": ("s",)}), (cases[0], {"include_all_outcomes": True}), (cases[2], {"supports_problem": True}), (cases[4], mq), (cases[6], {"maybe_quantum": ("s",)})):
        jobs.append((A, f"{c[0]} {k}", lambda r, k, *a: run(r, prog, *a, **k), (k, f"{c[0]}, {', '.join(k)}") + c[1:]))
    rep.jobs(jobs)
