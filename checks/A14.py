"""SDP relaxations end to end: constructor and relaxation are evaluated on scenarios with unknown arrows and kinds of sources; columns, entries, moments, bounds and equalities are compared with the products of the scenario's operators."""
from itertools import combinations, permutations, product
import sa.nd as ndmod
from sa.nd import Nd, asarray
from sa.finite import paths, T, Und, Raised
from checks.T03 import verdict
from checks.A01 import reach
from checks.A02 import begin
from checks.A09 import Net, build
from checks.A13 import Events, HOOKS, reader
from checks.N10 import program

A, B, C, D, E, F = "columns-of-the-relaxation", "entries-of-the-relaxation", "moments-of-the-entries", "moments-bounded-below", "equalities-of-the-relaxation", "a-new-relaxation-is-unconstrained"
BAD = {x: x for x in (A, B, C, D, E, F)}


class Words:
    def __init__(self, net, full):
        self.net, self.ops, self.full = net, net.ops, full
        n = len(net.ops)
        self.at = {o: i for i, o in enumerate(net.ops)}
        self.orth = {(i, j) for i in range(n) for j in range(n) if i != j and net.ops[i][:-1] == net.ops[j][:-1]}
        self.nc = {(i, j) for i in range(n) for j in range(n) if i != j and (i, j) not in self.orth and net.notcomm(net.ops[i], net.ops[j])}
        self.all_commute = not self.nc
        S = len(net.sources)
        self.S = S
        self.group, self.perms = [], []
        for g in product(*[list(permutations(range(1, l + 1))) for l in net.levels]):
            g = [(0,) + x for x in g]
            self.perms.append(g)
            self.group.append([self.at[(o[0],) + tuple(g[s][o[1 + s]] for s in range(S)) + o[1 + S:]] for o in self.ops])
        self.m_reach, self.m_canon = {}, {}

    def used(self, i):
        o = self.ops[i]
        return self.full or self.net.children[o[0]] or o[-1] < self.net.outs[o[0]] - 1

    def reach(self, w):
        if w not in self.m_reach:
            r = reach(w, self.nc, True)
            if any((x[i], x[i + 1]) in self.orth for x in r for i in range(len(x) - 1)):
                self.m_reach[w] = None
            else:
                k = min(map(len, r))
                self.m_reach[w] = frozenset(x for x in r if len(x) == k)
        return self.m_reach[w]

    def canon(self, w):
        """the class of a product under commutation and exchanges of copies"""
        if w not in self.m_canon:
            r = self.reach(w)
            self.m_canon[w] = None if r is None else min(tuple(g[o] for o in x) for g in self.group for x in r)
        return self.m_canon[w]

    def copies(self, w):
        return {(s, self.ops[o][1 + s]) for o in w for s in range(self.S) if self.ops[o][1 + s]}

    def split(self, w):
        parts = []
        for o in w:
            hit = [p for p in parts if self.copies((o,)) & self.copies(p)]
            parts = [p for p in parts if p not in hit] + [sum(hit, ()) + (o,)]
        return [tuple(o for o in w if o in p) for p in parts]

    def sig(self, w):
        """the factors of a product, None if it is zero; a product and its conjugate have the same"""
        r = self.reach(w)
        if r is None:
            return None
        return self.join(self.split(min(r)))

    def join(self, parts):
        return min(tuple(sorted(self.canon(p) for p in parts)), tuple(sorted(self.canon(p[::-1]) for p in parts)))

    def positive(self, w):
        """palindromes are never negative"""
        return self.reach(w[::-1]) == self.reach(w)

    def reflected(self, w):
        """neither are u u', where u' is the conjugate of u with other copies of what u' does not share with u"""
        for x in self.reach(w):
            for i in range(len(x) // 2 + 1):
                u, c, v = x[:i], x[i:len(x) - i], x[len(x) - i:]
                if len(c) > 1 and any((a, b) in self.nc for a in c for b in c):
                    continue
                for g, t in zip(self.group, self.perms):
                    if self.reach(tuple(g[o] for o in u[::-1])) != self.reach(v):
                        continue
                    moved = {(a, b) for a, b in self.copies(u) if t[a][b] != b}
                    if not moved & (self.copies(v) | self.copies(c)):
                        return True
        return False

    def show(self, w):
        n = self.net
        return "<" + " ".join(f"{n.names[self.ops[o][0]]}{list(self.ops[o][1:-2])}(setting {self.ops[o][-2]}, outcome {self.ops[o][-1]})" for o in w) + ">" if w else "1"


def word(R, V, v):
    v = asarray(R, v)
    if len(v.shape) != 2:
        raise Und("product not recognised")
    return tuple(V.at[(r[0] - 1,) + tuple(r[1:])] for r in v.nested())


def npa(V, k):
    ops = [i for i in range(len(V.ops)) if V.used(i)]
    want = set()
    for n in range(k + 1):
        for w in product(ops, repeat=n):
            r = V.reach(w)
            if r is not None and len(min(r)) == n:
                want.add(r)
    return want


def local(V, k):
    ops = [i for i in range(len(V.ops)) if V.used(i)]
    want = set()
    N = range(len(V.net.names))
    for f in product(range(k + 1), repeat=len(N)):
        for ws in product(*[product([o for o in ops if V.ops[o][0] == p], repeat=f[p]) for p in N]):
            w = sum(ws, ())
            r = V.reach(w)
            if r is not None and len(min(r)) == len(w):
                want.add(r)
    return want


def factors(R, V, m):
    """the factors of a moment as given by its atoms"""
    return [word(R, V, R.attr(f, "as_2d_array")) for f in R.iterate(R.attr(m, "factors"))]


def judge(R, p, V, spec, d):
    out = []
    at = reader(R, p)
    cols = [tuple(o - 1 for o in asarray(R, c).flat) for c in R.iterate(at("generating_monomials_1d"))]
    n = len(cols)
    reached = [V.reach(c) for c in cols]
    want = npa(V, int(spec[3:])) if spec.startswith("npa") else local(V, int(spec[5:]))
    if len(set(reached)) != n or set(reached) != want:
        x = [r for r in want if r not in reached] or [r for r in reached if r not in want] or [r for r in reached if reached.count(r) > 1]
        return [(A, f"{d}: the column {V.show(min(x[0])) if x[0] else x[0]} is {'missing' if x[0] in want and x[0] not in reached else 'listed wrongly'}")]
    if cols[0] != () or at("n_columns") != n:
        out.append((A, f"{d}: the first column is {V.show(cols[0])}, {at('n_columns')} columns instead of {n}"))
    M = asarray(R, at("momentmatrix"))
    if M.shape != (n, n):
        return [(B, f"{d}: the moment matrix has the shape {M.shape} for {n} columns")]
    if any(not isinstance(x, int) for x in M.flat):
        raise Und("moment matrix not recognised")
    name = lambda i, j: f"({V.show(cols[i])})^† {V.show(cols[j])}"
    by, of = {}, {}
    for i in range(n):
        for j in range(n):
            w = cols[i][::-1] + cols[j]
            s, x = V.sig(w), M.get((i, j))
            if (s is None) != (x == 0):
                return out + [(B, f"{d}: the entry of {name(i, j)} is {x} although the product is {'' if s is None else 'not '}zero")]
            if s is None:
                continue
            a, b = by.setdefault(x, (s, i, j)), of.setdefault(s, (x, i, j))
            if a[0] != s:
                return out + [(B, f"{d}: {name(i, j)} and {name(*a[1:])} are different moments with the same entry")]
            if b[0] != x:
                return out + [(B, f"{d}: {name(i, j)} and {name(*b[1:])} are the same moment with different entries")]
    # moments
    zero = any(not x for x in M.flat)
    table = {i: m for i, m in at("compmoment_from_idx").items()}
    if set(table) != set(by) | ({0} if zero else set()):
        return out + [(C, f"{d}: moments are recorded for the indices {sorted(set(table) ^ set(by))[:3]} wrongly")]
    sigs, atoms = {}, {}
    for i, m in table.items():
        if i == 0:
            if m is not at("Zero"):
                out.append((C, f"{d}: the index 0 does not stand for zero"))
            continue
        f = factors(R, V, m)
        s = V.join([x for x in f if x])
        if s != by[i][0] or any(len(V.split(x)) > 1 for x in f):
            return out + [(C, f"{d}: the entry of {name(*by[i][1:])} is recorded as the moment {' '.join(map(V.show, f))}")]
        for x in f:
            y = atoms.setdefault(V.canon(x), x)
            if y != x:
                return out + [(C, f"{d}: the factor {V.show(x)} of one moment and {V.show(y)} of another are the same but are recorded differently")]
        if R.attr(m, "idx") != i:
            out.append((C, f"{d}: the moment of index {i} has the index {R.attr(m, 'idx')}"))
        sigs[i] = s
    if sigs.get(1) != ():
        out.append((C, f"{d}: the index 1 does not stand for the unit"))
    for a in ("moments", "monomials"):
        l = list(R.iterate(at(a)))
        if sorted(R.attr(m, "idx") for m in l) != sorted(table) or any(table[R.attr(m, "idx")] is not m for m in l):
            out.append((C, f"{d}: {a} are not the moments of the entries"))
    # bounds
    lower = {R.attr(m, "idx"): v for m, v in at("moment_lowerbounds").items()}
    mm = {R.attr(m, "idx") for m in R.iterate(at("hermitian_moments"))}
    known = {R.attr(m, "idx"): v for m, v in at("known_moments").items()}
    for i, s in sigs.items():
        if i == 1:
            continue
        if V.all_commute or all(V.positive(w) for w in s):
            if i not in mm or (i not in known and lower.get(i) != 0):
                out.append((D, f"{d}: the moment {R.attr(table[i], 'name')}, which is never negative, is not bounded below by zero"))
                break
        elif i in mm or i in lower:
            x = [w for w in s if not V.positive(w)]
            if any(not V.reflected(w) for w in x):
                out.append((D, f"{d}: the moment {' '.join(map(V.show, s))} is bounded below by {lower.get(i)} although it can be negative"))
                break
    if at("moment_upperbounds"):
        out.append((F, f"{d}: a new relaxation has upper bounds"))
    if [R.attr(k, "name") for k, v in at("objective").items() if v]:
        out.append((F, f"{d}: a new relaxation has an objective"))
    if known != ({1: 1, 0: 0} if zero else {1: 1}) and known != {1: 1} and not (at("supports_problem") and known in ({}, {0: 0})):
        out.append((F, f"{d}: a new relaxation has known moments {[R.attr(table[k], 'name') for k in known]}"))
    # equalities
    eqs = list(R.iterate(at("moment_equalities")))
    if eqs:
        W = Events(V.net, V.full)
        val = {i: [sum(c) for c in zip(*[outcome(W, cols[a][::-1] + cols[b], g) for g in W.group])] for i, (s, a, b) in by.items()}
        poly = lambda e: " ".join("%+d*%s" % (c, R.attr(table[i], "name")) for i, c in e)
        for e in eqs:
            e = [(R.attr(m, "idx"), c) for m, c in e.items()]
            if any(not isinstance(c, int) for _, c in e):
                raise Und("coefficients of equalities")
            tot = [sum(c * val[i][k] for i, c in e if i) for k in range(len(W.all))]
            if any(tot):
                k = next(k for k, x in enumerate(tot) if x)
                out.append((E, f"{d}: the equality {poly(e)} = 0 does not hold if the measurements give {W.all[k]}"))
                break
    return out


def outcome(W, w, g):
    """the value of a product of projectors for all outcomes, its copies exchanged"""
    need = [(W.meas.index(W.ops[g[o]][:-1]), W.ops[g[o]][-1]) for o in w]
    return [int(all(x[m] == a for m, a in need)) for x in W.all]


def run(rep, prog, spec, label, names, outs, priv, sources, maybe, fixed, levels, quantum=(), maybe_quantum=(), **kw):
    def go(R):
        begin(R)
        R.texts = __import__("sa.text", fromlist=["x"])
        R.free_terms = True
        arrows = set(fixed) | {e for e in maybe if R.boolean("arrow", *e)}
        q = set(quantum) | {x for x in maybe_quantum if R.boolean("nonclassical", x)}
        if any(not any(a == s for a, _ in arrows) for s in sources):
            return []
        net = Net(names, outs, priv, sources, [], arrows, q, levels)
        if not net.legal():
            return []
        h = build(R, prog, net, list(sources) + list(names), "lists")
        p = program(R, prog, h, "sdp", **kw)
        R.call(R.attr(p, "generate_relaxation"), [spec], {})
        return judge(R, p, Words(net, bool(kw)), spec, f"{spec} of {net.text()}" + (f", {kw}" if kw else ""))
    verdict(rep, "InflationSDP.generate_relaxation", f"{label}, {spec}", paths(prog, go, hooks=HOOKS, limit=600), BAD)


def check(prog, rep, tier):
    rep.rule(A, "the columns of a level are the nonzero products of that many operators (last outcomes that normalisation determines left out), one per class of products that commutation identifies, the unit first")
    rep.rule(B, "two entries have the same index exactly if the products of their row and column are the same moment: equal up to commutation, repeated projectors, exchanges of copies and conjugation; the index is 0 exactly for products that vanish")
    rep.rule(C, "every index has the moment whose factors are the connected parts of the product of an entry carrying it, each recorded in the same form everywhere; the lists of moments are those of the entries, 1 stands for the unit and 0 for zero")
    rep.rule(D, "moments whose factors read the same backwards up to commutation are bounded below by zero; other moments are not, unless a factor is a product with its own conjugate on other copies of what the two do not share")
    rep.rule(E, "the equalities hold whatever the measurements give")
    rep.rule(F, "a new relaxation knows the unit only and has no objective and no upper bounds")
    two, three = ["A", "B"], ["A", "B", "C"]
    P = lambda *ps: [(a, b) for a, b in ps]
    ST = {"maybe_quantum": ("s", "t")}
    Q = {"maybe_quantum": ("s",)}
    cases = [("npa2", "one party, two sources", ["A"], (2,), (2,), ["s", "t"], [], P(("s", "A"), ("t", "A")), (1, 2), (), ("s", "t")),
             ("npa2", "settings", two, (2, 2), (2, 1), ["s"], [], P(("s", "A"), ("s", "B")), (1,), (), ("s",)),
             ("local1", "two copies", two, (2, 2), (2, 1), ["s"], [], P(("s", "A"), ("s", "B")), (2,), (), ("s",)),
             ("npa2", "two sources", two, (2, 2), (1, 1), ["s", "t"], P(("s", "A"), ("t", "B")), P(("t", "A"), ("s", "B")), (2, 1), (), ("s", "t")),
             ("local1", "line", three, (2, 2, 2), (1, 1, 1), ["s", "t"], P(("s", "C"),), P(("s", "A"), ("s", "B"), ("t", "B"), ("t", "C")), (1, 2), (), ("s", "t")),
             ("npa2", "three outcomes", two, (3, 2), (1, 2), ["s", "t"], P(("s", "B"),), P(("s", "A"), ("t", "B")), (1, 1), (), ("s", "t")),
             ("npa1", "three copies", two, (2, 2), (1, 1), ["s", "t"], P(("s", "B"),), P(("s", "A"), ("t", "B")), (3, 1), (), ("s", "t")),
             ("npa1", "two copies each", ["A"], (2,), (2,), ["s", "t"], [], P(("s", "A"), ("t", "A")), (2, 2), (), ("s", "t")),
             ("npa1", "two copies each, two parties", two, (2, 2), (1, 1), ["s", "t"], P(("s", "A"), ("t", "B")), P(("t", "A"), ("s", "B")), (2, 2), (), ("s", "t")),
             ("npa2", "parents", two, (2, 2), (1, 1), ["s"], P(("A", "B"),), P(("s", "A"), ("s", "B")), (1,), (), ("s",)),
             ("local1", "parents and copies", two, (2, 2), (1, 1), ["s", "t"], P(("A", "B"),), P(("s", "A"), ("t", "B"), ("s", "B")), (2, 1), (), ("s", "t"))]
    if tier == "thorough":
        cases += [("npa3", "settings", two, (2, 2), (2, 1), ["s"], [], P(("s", "A"), ("s", "B")), (1,), (), ("s",)),
                  ("npa2", "three copies", ["A"], (2,), (2,), ["s", "t"], [], P(("s", "A"), ("t", "A")), (1, 3), (), ("s", "t")),
                  ("npa2", "two copies of two sources", ["A"], (2,), (2,), ["s", "t"], [], P(("s", "A"), ("t", "A")), (2, 2), (), ("s", "t"))]
    jobs = [(B, f"{c[0]} {c[1]}", lambda r, *a: run(r, prog, *a), c) for c in cases]
    for k in ({"include_all_outcomes": True}, {"supports_problem": True}):
        for c in (cases[1], cases[3]):
            jobs.append((B, f"{c[0]} {c[1]} {k}", lambda r, k, *a: run(r, prog, *a, **k), (k, f"npa1", f"{c[1]}, {', '.join(k)}") + c[2:]))
    rep.jobs(jobs)
