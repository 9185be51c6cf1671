"""Inflation symmetries: discovery and application of the symmetries are evaluated on scenarios with abstract operators; permutations and merged moments are compared with the relabellings of copies."""
from itertools import product, combinations, permutations
import sa.nd as ndmod
from sa.nd import Nd, Sym, asarray
from sa.finite import paths, Host, Hook, Native, Und, Raised, T
from checks.T03 import verdict
from checks.A01 import reach, matrix

A, B, C, D, E, F = "symmetries-are-the-relabellings-of-copies", "identity-first", "column-permutations-follow-the-operators", "moments-merged-exactly-along-orbits", "events-merged-exactly-along-orbits", "one-representative-per-orbit"
BAD, FIRST = "bad", "first"
QT = "inflation.sdp.quantum_tools"


def begin(R):
    R.nd = ndmod
    R.LIMIT = 10 ** 9


def rows(v, R, width):
    v = asarray(R, v)
    if len(v.shape) != 2 or v.shape[1] != width or any(not isinstance(x, int) for x in v.flat):
        raise Und("permutations not recognised")
    return [tuple(v.flat[i * width:(i + 1) * width]) for i in range(v.shape[0])]


def operators(hyper, levels, per=1):
    """all operators [party, copies, setting, outcome] of a scenario; hyper[s][p]"""
    out = []
    for p in range(len(hyper[0])):
        for cs in product(*[range(1, levels[s] + 1) if hyper[s][p] else (0,) for s in range(len(hyper))]):
            for a in range(per):
                out.append((p + 1,) + cs + (0, a))
    return out


def relabelled(op, source, perm):
    o = list(op)
    if o[1 + source]:
        o[1 + source] = perm[o[1 + source] - 1]
    return tuple(o)


def expected(ops, levels):
    pos = {o: i for i, o in enumerate(ops)}
    group = {tuple(range(len(ops)))}
    for s, n in enumerate(levels):
        one = []
        for perm in permutations(range(1, n + 1)):
            new = [relabelled(o, s, perm) for o in ops]
            if all(o in pos for o in new):
                one.append(tuple(pos[o] for o in new))
        group = {tuple(g[i] for i in h) for g in group for h in one}
    return group


def run_discover(rep, prog, hyper, levels, per, drop, symbolic):
    ops = [o for i, o in enumerate(operators(hyper, levels, per)) if i not in drop]

    def go(R):
        begin(R)
        n = len(ops)
        xs = {}
        # settings are unknown: operators that differ in nothing else share the symbol
        def cell(o):
            return [o[0]] + list(o[1:-2]) + [xs.setdefault(o[0], Sym(f"x{o[0]}", 0)) if symbolic else 0, o[-1]]
        lex = Nd((n, len(ops[0])), [v for o in ops for v in cell(o)])
        lookup = {}
        for i, row in enumerate(lex.elements(R)):
            R.setitem(lookup, ndmod.method(R, row, "tobytes", [], {}), i)
        h = Host(prog, "InflationProblem", inflation_level_per_source=list(levels), _nr_operators=n, _lexorder=lex, _lexorder_lookup=lookup, verbose=0, nr_sources=len(levels))
        got = rows(h.attr(R, "discover_lexorder_symmetries").call(R, [], {}), R, n)
        want = expected(ops, levels)
        d = f"copies {levels}, sources of parties {hyper}" + (f", {len(drop)} operators left out" if drop else "")
        wrong = [g for g in got if g not in want]
        if wrong:
            return [(BAD, f"{d}: {wrong[0]} is no relabelling of copies; operators {ops}"[:300])]
        miss = sorted(want - set(got))
        if miss:
            return [(BAD, f"{d}: the relabelling {miss[0]} is missing; operators {ops}"[:300])]
        if got[0] != tuple(range(n)):
            return [(FIRST, f"{d}: the first symmetry is {got[0]} instead of the identity, which its users leave out")]
        return []
    verdict(rep, "InflationProblem.discover_lexorder_symmetries", f"copies {levels} of {hyper}, {per} outcomes, without {sorted(drop)}", paths(prog, go, hooks={}, limit=200), {BAD: A, FIRST: B})


def closure(gens, n):
    group, todo = {tuple(range(n))}, [tuple(range(n))]
    while todo:
        g = todo.pop()
        for h in gens:
            x = tuple(g[i] for i in h)
            if x not in group:
                group.add(x)
                todo.append(x)
    return sorted(group)


def canon(w, nc):
    return min(reach(w, nc))


def run_columns(rep, prog, cols, syms, nc, label):
    """cols: words; syms: operator permutations, index 0 fixed, identity first"""
    k = len(syms[0]) - 1

    def go(R):
        begin(R)
        lex = [Nd((len(w),), w) for w in cols]
        idx = {w: i for i, w in enumerate(cols)}
        h = Host(prog, "InflationSDP", generating_monomials_1d=lex, n_columns=len(cols), genmon_1d_to_index=dict(idx), verbose=0, _notcomm=matrix(k, nc), _orthomat=matrix(k, ()), all_operators_commute=False,
                 lexorder_symmetries=Nd((len(syms), k + 1), [x for s in syms for x in s]), canon_lexmon_from_hash={})
        got = rows(h.attr(R, "_discover_columns_symmetries").call(R, [], {}), R, len(cols))
        want = set()
        for s in syms:
            new = [canon(tuple(s[i] for i in w), nc) for w in cols]
            if all(w in idx for w in new):
                want.add(tuple(idx[w] for w in new))
        ident = tuple(range(len(cols)))
        for g in got:
            if g not in want:
                return [(BAD, f"{label}: {g} is not the action of a symmetry on the columns {cols}")]
        miss = sorted(want - set(got) - {ident})
        if miss:
            return [(BAD, f"{label}: the action {miss[0]} of a symmetry on the columns {cols} is left out")]
        return []
    verdict(rep, "InflationSDP._discover_columns_symmetries", label, paths(prog, go, hooks={}, limit=20), {BAD: C})


def orbits_of(vals, act):
    """vals: items; act(g, x) for generators; returns item -> frozenset"""
    lab = {v: v for v in vals}
    changed = True
    while changed:
        changed = False
        for v in vals:
            for w in act(v):
                a, b = lab[v], lab[w]
                if a != b:
                    lab = {x: (a if l == b else l) for x, l in lab.items()}
                    changed = True
    return lab


def invariant(part, group, n):
    """coarsest-needed closure: classes of pairs such that the group permutes classes"""
    prs = [(i, j) for i in range(n) for j in range(i, n)]
    img = lambda g, p: tuple(sorted((g[p[0]], g[p[1]])))
    lab = dict(part)
    changed = True
    while changed:
        changed = False
        for p, q in combinations(prs, 2):
            if lab[p] == lab[q]:
                for g in group:
                    a, b = lab[img(g, p)], lab[img(g, q)]
                    if a != b:
                        lab = {x: (a if l == b else l) for x, l in lab.items()}
                        changed = True
    return lab


def run_apply(rep, prog, group, listed, n, label):
    """group: permutations of the columns; listed: those handed over"""
    prs = [(i, j) for i in range(n) for j in range(i, n)]
    img = lambda g, p: tuple(sorted((g[p[0]], g[p[1]])))

    def go(R):
        begin(R)
        f = prog.func("apply_inflation_symmetries", QT)
        seen = set()
        merges = [()] + [(m,) for m in combinations(prs, 2)] + ([] if n > 3 else [(a, b) for a, b in combinations(list(combinations(prs, 2)), 2)][::7])
        for ms in merges:
            lab = {p: i for i, p in enumerate(prs)}
            for p, q in ms:
                a, b = lab[p], lab[q]
                lab = {x: (a if l == b else l) for x, l in lab.items()}
            lab = invariant(lab, group, n)
            key = tuple(prs.index(min(q for q in prs if lab[q] == lab[p])) for p in prs)
            if key in seen:
                continue
            seen.add(key)
            classes = sorted(set(key))
            orb = orbits_of(classes, lambda c: [key[prs.index(img(g, prs[c]))] for g in listed or [tuple(range(n))]])
            zeros = [None] + [z for z in classes if z != key[0] and all(orb[x] != orb[z] for x in classes if x != z)][:2]
            for z in zeros:
                live = [c for c in classes if c != z]
                nums = list(permutations(range(1, len(live) + 1))) if len(live) <= 3 else [tuple(range(1, len(live) + 1)), tuple(range(len(live), 0, -1)), tuple(range(2, len(live) + 1)) + (1,)]
                for num in nums:
                    val = dict(zip(live, num))
                    val[z] = 0
                    m = Nd((n, n), [val[key[prs.index(tuple(sorted((i, j))))]] for i in range(n) for j in range(n)])
                    before = list(m.flat)
                    sy = Nd((len(listed), n), [x for g in listed for x in g]) if listed else Nd((0,), [])
                    res = R.iterate(R.call(f, [m, sy], {}))
                    bad = judge(R, before, res, n, {val[c]: orb[c] for c in classes}, f"{label}: entries {[before[i * n:(i + 1) * n] for i in range(n)]} under {listed}")
                    if bad:
                        return bad
        return []
    verdict(rep, "apply_inflation_symmetries", label, paths(prog, go, hooks={}, limit=5), {BAD: D})


def judge(R, old, res, n, orbit, d):
    if len(res) != 3:
        raise Und("result not recognised")
    m, table, reps = asarray(R, res[0]), res[1], asarray(R, res[2])
    if m.shape != (n, n) or any(not isinstance(x, int) for x in list(m.flat) + list(reps.flat)):
        raise Und("result not recognised")
    items = [tuple(R.iterate(x)) for x in R.iterate(R.method(table, "items", [], {}))]
    t = dict(items)
    new, back = {}, {}
    for v, w in zip(old, m.flat):
        if (v == 0) != (w == 0):
            return [(BAD, f"{d}: the entry {v} becomes {w}")]
        o = orbit[v]
        if new.setdefault(o, w) != w:
            return [(BAD, f"{d}: the entry {v} is not merged with the entries it is mapped to ({[m.flat[i * n:(i + 1) * n] for i in range(n)]})")]
        if back.setdefault(w, o) != o:
            return [(BAD, f"{d}: entries that no symmetry maps to each other are merged ({[m.flat[i * n:(i + 1) * n] for i in range(n)]})")]
        if t.get(v) != w:
            return [(BAD, f"{d}: the table of orbits sends {v} to {t.get(v)}, the matrix has {w}")]
    if 1 in old and 1 not in m.flat:
        return [(BAD, f"{d}: no entry has index 1 any more")]
    if 1 in old and t[1] != 1:
        return [(BAD, f"{d}: the entry 1 becomes {t[1]}")]
    rs = [r for r in reps.flat if r in orbit]
    if sorted(map(str, {orbit[r] for r in rs if r or 0 in old})) != sorted(map(str, {orbit[v] for v in old})) or len({orbit[r] for r in rs}) != len(rs):
        return [(BAD, f"{d}: the representatives {list(reps.flat)} are not one per orbit")]
    return []


def group_of(hyper, levels):
    return sorted(expected(operators(hyper, levels), levels))


def ident_first(g):
    i = tuple(range(len(g[0])))
    return [i] + [x for x in g if x != i]


def subsets(n, top):
    return [c for m in range(top + 1) for c in combinations(range(n), m)]


def run_events(rep, prog, hyper, levels, sizes, shared, drop=False):
    """LP: events as boolean vectors over the operators"""
    syms = ident_first(group_of(hyper, levels))
    n = len(syms[0])
    events = [s for s in subsets(n, 3) if len(s) in sizes]
    if drop:
        events = events[::-1][1::2] + events[-1:]

    def go(R):
        begin(R)
        vec = Nd((len(events), n), [i in e for e in events for i in range(n)], "bool")
        h = Host(prog, "InflationLP", lexorder_symmetries=Nd((len(syms), n), [x for s in syms for x in s]), verbose=0)
        k = {}
        if shared:
            table = {}
            for i, row in enumerate(vec.elements(R)):
                R.setitem(table, ndmod.method(R, row, "tobytes", [], {}), i)
            k["raw_hash_table"] = table
        v = asarray(R, h.attr(R, "_discover_inflation_orbits").call(R, [vec], k))
        if v.shape != (len(events),) or any(not isinstance(x, int) for x in v.flat):
            raise Und("orbits not recognised")
        orb = orbits_of(events, lambda e: [x for x in (tuple(sorted(s.index(i) for i in e)) for s in syms) if x in set(events)])
        for (i, e), (j, f) in combinations(list(enumerate(events)), 2):
            if (orb[e] == orb[f]) != (v.flat[i] == v.flat[j]):
                return [(BAD, f"copies {levels}: events {e} and {f} are {'not ' if orb[e] == orb[f] else ''}merged although {'a' if orb[e] == orb[f] else 'no'} symmetry maps one to the other")]
        return []
    verdict(rep, "InflationLP._discover_inflation_orbits", f"copies {levels} of {hyper}, {len(events)} events of {sorted(sizes)} operators, table {'given' if shared else 'made'}", paths(prog, go, hooks={}, limit=5), {BAD: E})


class Made(Native):
    def __init__(self, ops):
        self.ops = ops

    def __repr__(self):
        return f"moment of {self.ops}"


def run_atoms(rep, prog, hyper, levels):
    syms = ident_first(group_of(hyper, levels))
    n = len(syms[0])
    events = subsets(n, 2)

    def go(R):
        begin(R)
        for order in (events, events[::-1]):
            h = Host(prog, "InflationLP", lexorder_symmetries=Nd((len(syms), n), [x for s in syms for x in s]), verbose=0, blank_bool_vec=Nd((n,), [False] * n, "bool"), _atomic_monomial_from_hash={})
            made = {}
            for e in order + order:
                m = h.attr(R, "_AtomicMonomial").call(R, [Nd((len(e),), e)], {})
                if not isinstance(m, Made):
                    raise Und("moment not recognised")
                if made.setdefault(e, m) is not m:
                    return [(BAD, f"asking twice for the moment of {e} gives two moments")]
            orb = orbits_of(events, lambda e: [tuple(sorted(s.index(i) for i in e)) for s in syms])
            for e, f in combinations(events, 2):
                if (orb[e] == orb[f]) != (made[e] is made[f]):
                    return [(BAD, f"copies {levels}: {e} and {f} are {'different moments' if orb[e] == orb[f] else 'the same moment'} although {'a' if orb[e] == orb[f] else 'no'} symmetry maps one to the other")]
            for e in events:
                if orb.get(made[e].ops) != orb[e]:
                    return [(BAD, f"copies {levels}: the moment of {e} is made from {made[e].ops}, which no symmetry maps to it")]
        return []

    def make(R, lp, arr, *a, **k):
        v = asarray(R, arr)
        return Made(tuple(sorted(v.flat)))
    verdict(rep, "InflationLP._AtomicMonomial", f"copies {levels} of {hyper}", paths(prog, go, hooks={"InternalAtomicMonomial": make}, limit=5), {BAD: F})


def run_representative(rep, prog, syms, nc, k):
    words = [w for m in range(1, 4) for w in permutations(range(1, k + 1), m)]

    def go(R):
        begin(R)
        h = Host(prog, "InflationSDP", _notcomm=matrix(k, nc), _orthomat=matrix(k, ()), all_operators_commute=False, lexorder_symmetries=Nd((len(syms), k + 1), [x for s in syms for x in s]), canon_lexmon_from_hash={})
        first = {}
        orb = orbits_of(sorted({canon(w, nc) for w in words}), lambda w: [canon(tuple(s[i] for i in w), nc) for s in syms])
        for w in words:
            res = R.iterate(h.attr(R, "_inflation_orbit_and_rep_1d").call(R, [Nd((len(w),), canon(w, nc))], {}))
            variants = {tuple(R.iterate(x)) for x in R.iterate(res[0])}
            r = tuple(asarray(R, res[1]).flat)
            o = orb[canon(w, nc)]
            want = {x for x in orb if orb[x] == o}
            if variants != want:
                return [(BAD, f"the orbit of {w} is found to be {sorted(variants)} instead of {sorted(want)}")]
            if r not in want:
                return [(BAD, f"the representative {r} of {w} is not in its orbit")]
            if first.setdefault(o, r) != r:
                return [(BAD, f"{w} has the representative {r}, another product of its orbit has {first[o]}")]
        return []
    verdict(rep, "InflationSDP._inflation_orbit_and_rep_1d", f"{len(syms)} symmetries of {k} operators, not commuting {sorted(nc)}", paths(prog, go, hooks={}, limit=5), {BAD: F})


BELL = ((1, 1),)
LINE = ((1, 1, 0), (0, 1, 1))
TRI = ((1, 1, 0), (0, 1, 1), (1, 0, 1))


def check(prog, rep, tier):
    rep.rule(A, "the symmetries of the operators are exactly the relabellings of the copies of the sources (those that map operators to operators), each source independently; settings unknown")
    rep.rule(B, "the identity is the first symmetry of the list (users skip the first one)")
    rep.rule(C, "a symmetry permutes the columns as it permutes their operators; symmetries that leave the generating set are not used, all others are")
    rep.rule(D, "two entries of the moment matrix are merged exactly if a symmetry maps one to the other; zero stays zero, the identity keeps index 1, the table of indices and the representatives agree with the matrix")
    rep.rule(E, "two events of a linear program are merged exactly if a symmetry maps one to the other")
    rep.rule(F, "all products of an orbit have the same representative, which is one of them")
    for hyper, levels, per in ((BELL, (1,), 1), (BELL, (2,), 1), (BELL, (2,), 2), (BELL, (3,), 1), (LINE, (2, 1), 1), (LINE, (1, 2), 2), (LINE, (2, 2), 1), (LINE, (3, 2), 1), (TRI, (2, 1, 2), 1), (TRI, (2, 2, 2), 1)) + (((TRI, (3, 2, 2), 1), (LINE, (3, 3), 1)) if tier != "quick" else ()):
        n = len(operators(hyper, levels, per))
        for drop in ((), (0,), (n - 1,)):
            run_discover(rep, prog, hyper, levels, per, set(drop), per == 2)
    two = [(0, 1, 2, 3, 4), (0, 2, 1, 4, 3)]
    three = [(0,) + tuple(x + 1 for x in p) for p in permutations(range(3))]
    for nc in ({(1, 2), (2, 1)}, {(1, 2), (2, 1), (3, 4), (4, 3)}, {(1, 3), (3, 1), (2, 4), (4, 2)}, set()):
        ncs = set(nc)
        for top in (1, 2):
            cols = sorted({canon(w, ncs) for m in range(top + 1) for w in permutations(range(1, 5), m)}, key=lambda w: (len(w), w))
            run_columns(rep, prog, cols, two, ncs, f"{len(cols)} columns, not commuting {sorted(ncs)}")
            run_columns(rep, prog, cols[:-1], two, ncs, f"{len(cols) - 1} columns, not closed, not commuting {sorted(ncs)}")
    for nc in (set(), {(a, b) for a in (1, 2, 3) for b in (1, 2, 3) if a != b}):
        cols = sorted({canon(w, nc) for m in range(3) for w in permutations(range(1, 4), m)}, key=lambda w: (len(w), w))
        run_columns(rep, prog, cols, three, nc, f"{len(cols)} columns, three copies, not commuting {sorted(nc)}")
        run_columns(rep, prog, [()] + [(i,) for i in (1, 2)], three, nc, f"3 columns, three copies, not closed, not commuting {sorted(nc)}")
        run_representative(rep, prog, three, nc, 3)
    for nc in ({(1, 2), (2, 1), (3, 4), (4, 3)}, {(1, 3), (3, 1), (2, 4), (4, 2)}):
        run_representative(rep, prog, two, nc, 4)
    for gens, n in (((), 2), (((1, 0),), 2), ((), 3), (((0, 2, 1),), 3), (((1, 2, 0),), 3), (((1, 0, 2), (0, 2, 1)), 3), (((0, 1, 3, 2),), 4), (((0, 2, 3, 1),), 4), (((0, 2, 1, 3), (0, 1, 3, 2)), 4)):
        g = closure([tuple(x) for x in gens], n)
        rest = [x for x in g if x != tuple(range(n))]
        run_apply(rep, prog, g, rest, n, f"{len(rest)} symmetries of {n} columns")
        if rest and n < 4:
            run_apply(rep, prog, g, ident_first(g), n, f"{len(rest)} symmetries and the identity, {n} columns")
        if len(rest) > 1:
            run_apply(rep, prog, g, rest[::-1], n, f"{len(rest)} symmetries of {n} columns in another order")
    for hyper, levels in ((BELL, (1,)), (BELL, (2,)), (BELL, (3,)), (LINE, (2, 1)), (LINE, (2, 2))):
        for sizes in ((0, 1, 2), (2,), (0, 1)):
            for shared in (False, True):
                run_events(rep, prog, hyper, levels, sizes, shared)
            run_events(rep, prog, hyper, levels, sizes, False, True)
        run_atoms(rep, prog, hyper, levels)
