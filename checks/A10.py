"""Generating sets: the construction of columns is evaluated on operators whose commutation is unknown; the columns are compared with the products the specification asks for."""
from itertools import product, combinations
import sa.nd as ndmod
from sa.nd import Nd, asarray
from sa.finite import paths, Host, Hook, Und, Raised
from checks.T03 import verdict
from checks.A02 import begin
from checks.A01 import reach

A, B, C, D = "columns-of-a-level", "columns-of-physical-sets", "columns-given-explicitly", "index-of-columns"
LEV, PHY, EXP, IDX = "level", "physical", "explicit", "index"
RULES = {LEV: A, PHY: B, EXP: C, IDX: D}


class World:
    """party -> list of numbers of outcomes of its measurements"""
    def __init__(self, R, parties):
        self.parties = parties
        self.meas = [(p, o) for p, os in enumerate(parties) for o in os]
        self.first, self.ops = [], []
        seen = {}
        for i, (p, o) in enumerate(self.meas):
            s = seen[p] = seen.get(p, -1) + 1
            self.first.append(len(self.ops))
            self.ops += [(p, s, a, i) for a in range(o)]
        self.n = len(self.ops)
        pairs = [(i, j) for i, j in combinations(range(len(self.meas)), 2) if self.meas[i][0] == self.meas[j][0] or len(parties) < 3 and i == 0 and j == len(self.meas) - 1]
        self.edges = {(i, j) for i, j in pairs if R.boolean("not commuting", i, j)}
        self.children = [R.boolean("has children", p) for p in range(len(parties))]

    def clash(self, i, j):
        return (i, j) in self.edges or (j, i) in self.edges

    def nc(self, shift):
        m = self.n + shift
        on = lambda a, b: a >= shift and b >= shift and self.clash(self.ops[a - shift][3], self.ops[b - shift][3])
        return Nd((m, m), [on(a, b) for a in range(m) for b in range(m)], "bool")

    def orth(self):
        m = self.n + 1
        on = lambda a, b: not a or not b or a != b and self.ops[a - 1][3] == self.ops[b - 1][3]
        return Nd((m, m), [on(a, b) for a in range(m) for b in range(m)], "bool")

    def used(self, op):
        """whether the operator is one of the program: the last outcome follows from the others unless the party has children"""
        p, s, a, i = self.ops[op - 1]
        return a < self.meas[i][1] - (0 if self.children[p] else 1)

    def pairs(self):
        return {(a, b) for a in range(1, self.n + 1) for b in range(1, self.n + 1) if self.clash(self.ops[a - 1][3], self.ops[b - 1][3])}

    def classes(self, words):
        """equal products, leaving out those that are zero or shorter"""
        nc, out = self.pairs(), set()
        for w in words:
            c = reach(w, nc, True)
            if any(self.ops[x[i] - 1][3] == self.ops[x[i + 1] - 1][3] and x[i] != x[i + 1] for x in c for i in range(len(x) - 1)):
                continue
            if min(map(len, c)) < len(w):
                continue
            out.add(frozenset(c))
        return out

    def block(self, ps):
        return self.classes(product(*[[o for o in range(1, self.n + 1) if self.ops[o - 1][0] == p and self.used(o)] for p in ps]))

    def text(self, w):
        return "".join("ABC"[self.ops[o - 1][0]] + f"[{self.ops[o - 1][1]},{self.ops[o - 1][2]}]" for o in w) or "1"

    def shown(self):
        return f"measurements {self.parties}, not commuting {sorted(self.edges)}, parties with children {[p for p, c in enumerate(self.children) if c]}"


def host(R, prog, W):
    rows = [[p + 1, s, a] for p, s, a, i in W.ops]
    n = W.n
    names = ["A", "B", "C"][:len(W.parties)]
    cg = []
    eye = [Nd((n + 1,), [i == j for j in range(n + 1)], "bool") for i in range(n)]
    for i, (p, o) in enumerate(W.meas):
        k = o - (0 if W.children[p] else 1)
        cg.append(Nd((k, n + 1), [x for a in range(k) for x in eye[W.first[i] + a].flat], "bool"))
    cards = [max(os) for os in W.parties]
    ip = Host(prog, "InflationProblem", _default_notcomm=W.nc(0), _template_idxs=Nd((len(W.meas),), W.first), party_from_templateidx=Nd((len(W.meas),), [p + 1 for p, o in W.meas]))
    h = Host(prog, "InflationSDP", verbose=0, names=names, nr_parties=len(W.parties), _lexorder=Nd((n + 1, 3), [0, 0, 0] + [x for r in rows for x in r]), _notcomm=W.nc(1), _orthomat=W.orth(), InflationProblem=ip,
             outcome_cardinalities=Nd((len(W.parties),), [c + (1 if W.children[p] else 0) for p, c in enumerate(cards)]), has_children=Nd((len(W.parties),), list(W.children), "bool"), all_operators_commute=not W.edges, canon_lexmon_from_hash={},
             identity_operator=Nd((0, 3), []), zero_operator=Nd((1, 3), [0, 0, 0]), _CG_limited_ortho_groups_as_boolarrays=cg, blank_bool_array=Nd((1, n + 1), [False] * (n + 1), "bool"), _lexeye=Nd((n + 1, n + 1), [i == j for i in range(n + 1) for j in range(n + 1)], "bool"))
    return h


def lexrepr(W):
    table = {(p + 1, s, a): i + 1 for i, (p, s, a, m) in enumerate(W.ops)}
    table[0, 0, 0] = 0

    def f(R, mon):
        m = asarray(R, mon)
        if len(m.shape) == 1 and m.shape[0] == 0:
            return Nd((0,), [])
        if len(m.shape) != 2 or m.shape[1] != 3:
            raise Und("operators")
        return Nd((m.shape[0],), [table[tuple(m.get((i, j)) for j in range(3))] for i in range(m.shape[0])])
    return f


def column(R, v):
    v = asarray(R, v)
    if len(v.shape) != 1 or any(not isinstance(x, int) for x in v.flat):
        raise Und("columns not recognised")
    return tuple(int(x) for x in v.flat)


def judge(R, h, W, got, want, kind, first=True):
    """want: classes of equal products"""
    cols = [column(R, c) for c in R.iterate(got)]
    out, d = [], W.shown()
    nc = W.pairs()
    cls = [frozenset(reach(c, nc, True)) for c in cols]
    if any(not 0 < o <= W.n for c in cols for o in c):
        return [(kind, f"{d}: the columns contain {next(c for c in cols if any(not 0 < o <= W.n for o in c))}, which is not a product of operators")]
    for c, k in zip(cols, cls):
        if k not in want:
            return [(kind, f"{d}: the column {W.text(c)} was not asked for")]
        if cls.count(k) > 1:
            return [(kind, f"{d}: the column {W.text(c)} is listed twice")]
    lost = want - set(cls)
    if lost:
        return [(kind, f"{d}: the column {W.text(min(min(lost, key=lambda k: min(map(len, k)))))} is missing")]
    if first and cols[0] != ():
        out.append((kind, f"{d}: the first column is {W.text(cols[0])} instead of the identity"))
    return out + index(R, h, W, cols)


def index(R, h, W, cols):
    d, out = W.shown(), []
    stored = [column(R, c) for c in R.iterate(h.attr(R, "generating_monomials_1d"))]
    if stored != cols:
        out.append((IDX, f"{d}: the columns returned are not those of the program"))
    if h.attr(R, "n_columns") != len(stored):
        out.append((IDX, f"{d}: {h.attr(R, 'n_columns')} columns are counted, {len(stored)} are listed"))
    table = h.attr(R, "genmon_1d_to_index")
    keys = {tuple(R.iterate(k)): R.getitem(table, k) for k in R.iterate(table)}
    if keys != {c: i for i, c in enumerate(stored)}:
        out.append((IDX, f"{d}: the index of columns is {keys}"))
    return out


def call(R, h, W, spec, **kw):
    return h.attr(R, "build_columns").call(R, [spec], kw)


def level(W, spec, top):
    N = range(len(W.parties))
    word = [(p,) * 0 for p in N]
    if spec.startswith("npa"):
        k = int(spec[3:])
        k = min(k, top) if top else k
        seqs = [s for m in range(k + 1) for s in product(N, repeat=m) if list(s) == sorted(s)]
    else:
        l = spec[5:]
        caps = [int(x) for x in l] if len(l) == len(W.parties) else [int(l)] * len(W.parties)
        seqs = [tuple(p for p in N for _ in range(f[p])) for f in product(*[range(c + 1) for c in caps]) if not top or sum(f) <= top]
    return seqs


def run_level(rep, prog, parties, spec, top=0):
    def go(R):
        begin(R)
        R.texts = __import__("sa.text", fromlist=["x"])
        W = World(R, parties)
        R.hooks["mon_to_lexrepr"] = lexrepr(W)
        h = host(R, prog, W)
        kw = dict(max_monomial_length=top) if top else {}
        if isinstance(spec, str):
            seqs = level(W, spec, top)
            got = call(R, h, W, spec, **kw)
        else:
            seqs = [tuple(s) for s in spec]
            got = call(R, h, W, [list(s) for s in spec], **kw)
        want = set().union(*[W.block(s) for s in seqs])
        return judge(R, h, W, got, want, LEV, isinstance(spec, str) or not spec[0])
    verdict(rep, "InflationSDP.build_columns", f"{spec}" + (f", length up to {top}" if top else "") + f", measurements {parties}", paths(prog, go, hooks={}, limit=700), {LEV: A, IDX: D})


def run_physical(rep, prog, parties, spec, top=0):
    def go(R):
        begin(R)
        R.texts = __import__("sa.text", fromlist=["x"])
        W = World(R, parties)
        R.hooks["mon_to_lexrepr"] = lexrepr(W)
        h = host(R, prog, W)
        got = call(R, h, W, spec, **(dict(max_monomial_length=top) if top else {}))
        l = spec[8:]
        caps = [99] * len(parties) if not l else [int(x) for x in l] if len(l) == len(parties) else [int(l)] * len(parties)
        want = set()
        for m in range(len(W.meas) + 1):
            for c in combinations(range(len(W.meas)), m):
                if any(W.clash(i, j) for i, j in combinations(c, 2)) or top and m > top or any(sum(W.meas[i][0] == p for i in c) > cap for p, cap in enumerate(caps)):
                    continue
                for w in product(*[[o for o in range(1, W.n + 1) if W.ops[o - 1][3] == i and W.used(o)] for i in c]):
                    want.add(frozenset(reach(w, W.pairs(), True)))
        return judge(R, h, W, got, want, PHY)
    verdict(rep, "InflationSDP.build_columns", f"{spec}" + (f", length up to {top}" if top else "") + f", measurements {parties}", paths(prog, go, hooks={}, limit=700), {PHY: B, IDX: D})


def run_explicit(rep, prog, parties, form, cols):
    def go(R):
        begin(R)
        W = World(R, parties)
        R.hooks["mon_to_lexrepr"] = lexrepr(W)
        h = host(R, prog, W)
        row = lambda o: [W.ops[o - 1][0] + 1] + list(W.ops[o - 1][1:3])
        given = [Nd((len(c),), c) if form == "numbers" else Nd((len(c), 3), [x for o in c for x in row(o)]) for c in cols]
        got = [column(R, c) for c in R.iterate(call(R, h, W, given))]
        want, d = list(dict.fromkeys(cols)), W.shown()
        want = sorted(cols, key=lambda x: (len(x), x)) if len(want) < len(cols) else cols
        out = []
        if got != [tuple(c) for c in want] and len(set(cols)) == len(cols):
            out.append((EXP, f"{d}: the columns {[W.text(c) for c in cols]} were given, the program has {[W.text(c) for c in got]}"))
        if set(got) != set(cols):
            out.append((EXP, f"{d}: the columns {[W.text(c) for c in cols]} were given, the program has {[W.text(c) for c in got]}"))
        if len(set(got)) == len(got):
            out += index(R, h, W, got)
        return out
    verdict(rep, "InflationSDP.build_columns", f"columns as {form}: {cols}", paths(prog, go, hooks={}, limit=700), {EXP: C, IDX: D})


def check(prog, rep, tier):
    rep.rule(A, "npa, local and block specifications give exactly the distinct non-zero products of operators of the blocks they stand for, up to the requested length, the identity first; operators of last outcomes only for parties with children")
    rep.rule(B, "physical specifications give exactly the products of outcomes of compatible measurements, with the requested number of operators per party and in total")
    rep.rule(C, "columns given as arrays are the columns of the program, in that order")
    rep.rule(D, "the columns, their number and their index agree")
    small, mid = [(2, 2), (2,)], [(3,), (2, 2)]
    for spec in ("npa1", "npa2", "npa3", "local1", "local2", "local12", "local21"):
        run_level(rep, prog, small, spec)
    for spec in ("npa2", "local12"):
        run_level(rep, prog, mid, spec)
    run_level(rep, prog, [(2,), (2,), (2, 2)], "npa2")
    run_level(rep, prog, [(2,), (2,), (2, 2)], "local1")
    run_level(rep, prog, [(2,), (2,), (2, 2)], "local112")
    for spec, top in (("npa3", 2), ("npa2", 3), ("local2", 2), ("local12", 1), ("local1", 5)):
        run_level(rep, prog, small, spec, top)
    for spec in ([[], [0], [1], [0, 1]], [[], [0], [0, 0], [1, 1], [1, 0], [0, 1]], [[0], [], [0, 1, 1]]):
        run_level(rep, prog, small, spec)
    for spec, top in (("physical", 0), ("physical1", 0), ("physical2", 0), ("physical12", 0), ("physical21", 0), ("physical", 2), ("physical2", 1)):
        run_physical(rep, prog, small, spec, top)
        run_physical(rep, prog, mid, spec, top)
    run_physical(rep, prog, [(2,), (2,), (2, 2)], "physical112")
    for form in ("numbers", "operators"):
        run_explicit(rep, prog, small, form, [(), (1,), (3, 1), (5,)])
        run_explicit(rep, prog, small, form, [(), (5,), (1,)])
