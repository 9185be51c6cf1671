"""Which operators commute: decided over equality patterns of copies, parties and settings."""
from itertools import combinations
from sa.finite import *

TABLE = "sources_to_check_for_party_pair_commutation"
R1 = "pairwise-rule"
R2 = "matrix-of-the-rule"
R3 = "common-sources-of-a-pair"
R4 = "matrix-used"

P, X, O = Pos("party"), Pos("setting"), Pos("outcome")


class Rel(Native):
    """the table of common sources, indexed by two parties counted from zero"""

    def __init__(self, p, q, rows):
        self.p, self.q, self.rows = p, q, rows

    def item(self, R, i):
        if not (isinstance(i, tuple) and len(i) in (2, 3)):
            raise Und("index of the table")
        key = []
        for x in i[:2]:
            for j, ref in enumerate((self.p, self.q)):
                if R.arith("-", x, ref) == -1:
                    key.append(j)
                    break
            else:
                raise Und("index of the table")
        row = self.rows[tuple(key)]
        if len(i) == 3:
            return R.getitem(row, i[2])
        return row


def classes(same, E):
    """patterns of one source: (copy of 1, copy of 2, relation 1-2, 1-1, 2-2)"""
    none, cl, qu = 0, 1, 2
    out = []
    if same:
        out.append((0, 0, none, none, none))
        for r in (cl, qu):
            out += [("a", "a", r, r, r), ("a", "b", r, r, r)]
        return out
    for r1 in (cl, qu):
        for r2 in (cl, qu):
            for r in range(0, min(r1, r2) + 1):
                out += [("a", "a", r, r1, r2), ("a", "b", r, r1, r2)]
    for r1 in (cl, qu):
        out += [("a", 0, none, r1, none), (0, "b", none, none, r1)]
    out.append((0, 0, none, none, none))
    return out


def configuration(cls, same, sx, so, E):
    """two operators and the table for a set of source patterns"""
    srcs = [Pos(("source",) + c, True) for c in cls]
    p = sym("p", "party", 1)
    q = p if same else sym("q", "party", 1)
    ops = []
    for side in (0, 1):
        ax = [P] + srcs + [X, O]
        d = {(P,): (p, q)[side]}
        for s, c in zip(srcs, cls):
            v = c[side]
            d[(s,)] = 0 if v == 0 else sym((v, s.name), ("copy", s.name), 1)
        d[(X,)] = sym("x" if sx or side == 0 else "x'", "setting", 0)
        d[(O,)] = sym("o" if so or side == 0 else "o'", "outcome", 0)
        ops.append(Arr((tuple(ax),), d))
    sax = (tuple(srcs),)
    row = lambda i: Arr(sax, {(s,): E[c[i]] for s, c in zip(srcs, cls)})
    tab = Rel(p, q, {(0, 1): row(2), (1, 0): row(2), (0, 0): row(3), (1, 1): row(4)})
    return ops, tab, tuple(srcs)


def commute(cls, same, sx):
    shared = any(c[2] == 2 and c[0] == c[1] for c in cls)
    differ = any(c[2] >= 1 and c[0] != c[1] for c in cls)
    return not (shared and (differ or (same and not sx)))


def describe(cls, same, sx):
    w = {0: "unrelated", 1: "classical", 2: "quantum"}
    t = ["same party" if same else "different parties", "same setting" if sx else "different settings"]
    for a, b, r, _, _ in cls:
        if r:
            t.append(f"{'same' if a == b else 'different'} copy of a common {w[r]} source")
        elif a and b:
            t.append(f"{'same' if a == b else 'different'} copy of a source that is not common to the pair")
    return ", ".join(t)


def pairwise(rep, prog, E, same, size):
    f = prog.find_func("nb_operators_commute")
    if f is None:
        rep.undecided(R1, "nb_operators_commute", "function not found")
        return
    n = 0
    for k in range(1, size + 1):
        for cls in combinations(classes(same, E), k):
            for sx in (True, False):
                for so in (True, False):
                    ops, tab, srcs = configuration(cls, same, sx, so, E)
                    want = commute(cls, same, sx)
                    for R, res in paths(prog, lambda R: R.truth(R.call(f, [ops[0], ops[1], tab], {})), known_axes=[srcs, ops[0].axes[0]]):
                        n += 1
                        if isinstance(res, Und):
                            rep.undecided(R1, f.name, f"{res} [{describe(cls, same, sx)}]")
                            return
                        if isinstance(res, Raised):
                            rep.violation(R1, f.name, f"raises for operators with {describe(cls, same, sx)}: {res}", repr(f))
                            return
                        if res != want:
                            rep.violation(R1, f.name, f"says the operators {'commute' if res else 'do not commute'} for {describe(cls, same, sx)}"
                                          + ("" if so else ", different outcomes"), repr(f))
                            return
    rep.functions |= {repr(f)}
    rep.count("patterns_decided", n)
    rep.held(R1, f"{f.name}: {'same party' if same else 'different parties'}", f"{n} equality patterns with up to {size} kinds of source")


def matrix(rep, prog):
    f = prog.find_func("commutation_matrix")
    if f is None:
        rep.undecided(R2, "commutation_matrix", "function not found")
        return
    n = 0
    for commuting in (False, True):
        for size in (1, 2, 3, 4):
            rows = tuple(Pos(("op", i)) for i in range(size))
            cols = (P, Pos("src", True), X, O)
            names = {}
            data = {}
            for r in rows:
                for c in cols:
                    data[(r, c)] = sym((r.name, c.name), ("cell", c.name, r.name), 1)
                names[data[(r, P)]] = r
            lex = Arr((rows, cols), data)
            tab = Rel(sym("p", "party", 1), sym("q", "party", 1), {})

            def hook(R, a, b, t, **k):
                if t is not tab:
                    raise Und("table")
                i, j = (names.get(x.data.get((P,))) for x in (a, b))
                if i is None or j is None:
                    raise Und("operator")
                if i == j:
                    return True
                return R.boolean("commute", frozenset((i.name, j.name)))

            def go(R):
                m = R.asarr(R.call(f, [lex, tab, commuting], {}))
                if not isinstance(m, Arr) or len(m.axes) != 2 or any(len(a) != size for a in m.axes):
                    raise Und("result")
                bad = []
                for i, p in enumerate(m.axes[0]):
                    for j, q in enumerate(m.axes[1]):
                        got = R.truth(m.data[(p, q)])
                        want = False if i == j or commuting else not R.boolean("commute", frozenset((rows[i].name, rows[j].name)))
                        if got != want:
                            bad.append((i, j, got))
                return bad
            for R, res in paths(prog, go, hooks={"nb_operators_commute": hook}, known_axes=[rows, cols]):
                n += 1
                if isinstance(res, Und):
                    rep.undecided(R2, f.name, str(res))
                    return
                if isinstance(res, Raised):
                    rep.violation(R2, f.name, f"raises for {size} operators: {res}", repr(f))
                    return
                if res:
                    i, j, got = res[0]
                    rep.violation(R2, f.name, f"entry ({i},{j}) of {size} operators says they {'do not commute' if got else 'commute'} against the pairwise rule"
                                  + (" (commuting=True)" if commuting else ""), repr(f))
                    return
    rep.functions |= {repr(f)}
    rep.held(R2, f.name, f"{n} patterns of up to 4 operators")


def scenario(R, nsrc, nlat):
    """a scenario of two parties whose arrows are branched on"""
    parties, lats = ["A", "B"], [f"L{i}" for i in range(nlat)]
    srcs = [f"S{i}" for i in range(nsrc)]
    dag, nc, ncl = {}, [], []
    for s in srcs:
        dag[s] = FSet([x for x in parties + lats if R.boolean("arrow", s, x)])
        nc.append(1 if R.boolean("nonclassical", s) else 0)
    for l in lats:
        dag[l] = FSet([x for x in parties if R.boolean("arrow", l, x)])
        if R.boolean("nonclassical", l):
            ncl.append(l)
    return parties, lats, srcs, dag, nc, ncl


def relation(p, q, s, lats, dag, nc, ncl, i):
    kids = dag[s].items
    r = 1 + nc[i] if p == q and p in kids else 0
    for l in lats:
        if l in kids and p in dag[l].items and q in dag[l].items:
            r = max(r, 2 if nc[i] and l in ncl else 1)
    return r


def build(rep, prog):
    """-> encoding of (not common, classical, quantum) used by the table"""
    E = (0, 1, 2)
    own = owner(prog, "InflationProblem", TABLE)
    own = [f for f in own if span(f, TABLE)]
    if not own:
        rep.undecided(R3, TABLE, "no method assigns the table")
        return E
    f = own[0]
    if f.name != "__init__":
        rep.undecided(R3, TABLE, f"assigned in {f.name}")
        return E
    body = span(f, TABLE)
    seen, wrong, n = {0: set(), 1: set(), 2: set()}, [], 0
    for nsrc, nlat in ((2, 1), (1, 2)):
        def go(R):
            parties, lats, srcs, dag, nc, ncl = scenario(R, nsrc, nlat)
            me = Host(prog, "InflationProblem", names=parties, dag=dag, _actual_sources=Arr.of(srcs, "src"), nr_sources=nsrc, nr_parties=2,
                      _nonclassical_sources=Arr.of(nc, "src"), _classical_sources=Arr.of([1 - x for x in nc], "src"),
                      intermediate_latents=FSet(lats), nonclassical_intermediate_latents=FSet(ncl),
                      classical_intermediate_latents=FSet([l for l in lats if l not in ncl]), hypergraph=Arr((tuple(Pos(("r", i)) for i in range(nsrc)), tuple(Pos(("r", i)) for i in range(2))),
                                                                    {(Pos(("r", i)), Pos(("r", j))): 0 for i in range(nsrc) for j in range(2)}))
            env = {"self": me, "names_to_integers": {"A": 0, "B": 1}, "inflation_level_per_source": None}
            R.block(body, env, f.mod)
            t = me.attrs.get(TABLE)
            if not isinstance(t, Arr) or [len(a) for a in t.axes] != [2, 2, nsrc]:
                raise Und("shape of the table")
            out = []
            for a, p in enumerate(parties):
                for b, q in enumerate(parties):
                    for i, s in enumerate(srcs):
                        v = norm(t.data[tuple(ax[x] for ax, x in zip(t.axes, (a, b, i)))])
                        if not isinstance(v, (int, bool)):
                            raise Und("entry of the table")
                        out.append((relation(p, q, s, lats, dag, nc, ncl, i), int(v), p == q, dag, ncl, s, nc[i]))
            return out
        for R, res in paths(prog, go, limit=5000):
            n += 1
            if isinstance(res, Und):
                rep.undecided(R3, TABLE, str(res))
                return E
            if isinstance(res, Raised):
                continue
            for t in res:
                seen[t[0]].add(t[1])
                if t[1] != t[0]:
                    wrong.append(t)
    rep.functions |= {repr(f)}
    if all(len(s) == 1 for s in seen.values()) and len(set.union(*seen.values())) == 3:
        enc = tuple(next(iter(seen[i])) for i in (0, 1, 2))
        rep.held(R3, TABLE, f"{n} scenarios of two parties, values {enc}")
        return enc
    if wrong:
        w = {0: "not common", 1: "common and classical", 2: "common and quantum"}
        t = wrong[0]
        rep.violation(R3, TABLE, f"a source that is {w[t[0]]} for {'two operators of one party' if t[2] else 'two parties'} is entered as {t[1]}: "
                      f"source {'nonclassical' if t[6] else 'classical'} with children {sorted(t[3][t[5]].items)}, latents "
                      + str({k: (sorted(v.items), 'nonclassical' if k in t[4] else 'classical') for k, v in t[3].items() if k[0] == 'L'}), repr(f))
    return E


def used(rep, prog):
    own = [f for f in owner(prog, "InflationProblem", "_default_notcomm") if span(f, "_default_notcomm")]
    if not own:
        rep.undecided(R4, "_default_notcomm", "no method assigns it")
        return
    f = own[0]
    body = span(f, "_default_notcomm")
    rows = tuple(Pos(("op", i)) for i in range(3))
    cols = (P, Pos("src", True), X, O)
    lex = Arr((rows, cols), {(r, c): sym((r.name, c.name), ("cell", c.name, r.name), 1) for r in rows for c in cols})

    class Marker(Native):
        pass
    for go_q in ((0, 0), (0, 1), (1, 0), (1, 1)):
        tab, mark = Rel(sym("p", "party", 1), sym("q", "party", 1), {}), Marker()
        calls = []

        def hook(R, a, t=None, commuting=False, sources_to_check_for_pairwise=None, **k):
            t = sources_to_check_for_pairwise if t is None else t
            if a is not lex or t is not tab:
                raise Und("arguments of commutation_matrix")
            calls.append(R.truth(commuting))
            return mark

        def go(R):
            me = Host(prog, "InflationProblem", _nonclassical_sources=Arr.of(list(go_q), "src"), _classical_sources=Arr.of([1 - x for x in go_q], "src"),
                      _lexorder=lex, nr_sources=2, _nr_operators=3)
            me.attrs[TABLE] = tab
            R.block(body, {"self": me}, f.mod)
            v = me.attrs["_default_notcomm"]
            if v is mark:
                return not calls[-1] or not any(go_q)
            if isinstance(v, Arr) and all(x in (0, False) for x in v.data.values()):
                return not any(go_q)
            raise Und("value")
        for R, res in paths(prog, go, hooks={"commutation_matrix": hook}, known_axes=[rows]):
            where = f"_default_notcomm with nonclassical sources {list(go_q)}"
            if isinstance(res, Und):
                rep.undecided(R4, "_default_notcomm", str(res))
                return
            if res is not True:
                rep.violation(R4, "_default_notcomm", f"the matrix of a problem is not the one of the rule: {where}" + (f" ({res})" if isinstance(res, Raised) else ""), repr(f))
                return
    rep.functions |= {repr(f)}
    rep.held(R4, "_default_notcomm", "with and without nonclassical sources")


def check(prog, rep, tier):
    rep.rule(R1, "on every equality pattern the pairwise predicate equals: not commuting iff a common quantum source in the same copy, and a common source in different copies or the same party with different settings")
    rep.rule(R2, "every entry of the matrix is the pairwise predicate of its row and column, on both sides of the diagonal; the diagonal is empty; with commuting=True all is empty")
    rep.rule(R3, "a source is entered for a pair of parties as common/classical/quantum as the arrows of the scenario say: direct children only with themselves, children of one latent with each other, quantum only through nonclassical source and latent")
    rep.rule(R4, "a problem with a nonclassical source uses the matrix of the rule on all its operators")
    E = rep.guard(R3, TABLE, build, rep, prog) or (0, 1, 2)
    items = [(R1, "nb_operators_commute: same party", pairwise, (prog, E, True, 5)),
             (R1, "nb_operators_commute: different parties", pairwise, (prog, E, False, 3 if tier == "quick" else 4)),
             (R2, "commutation_matrix", matrix, (prog,)), (R4, "_default_notcomm", used, (prog,))]
    rep.jobs(items, 300)
