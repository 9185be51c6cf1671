"""Constraints of linear programs: construction and constraint generation are evaluated on measurements with unknown compatibility; each row is compared, as a function of all outcomes, with the probability it has to state."""
from itertools import combinations, product
from fractions import Fraction
import sa.nd as ndmod, sa.coo as coomod
from sa.nd import Nd, asarray
from sa.finite import paths, Host, Hook, Native, Und, Raised, T
from checks.T03 import verdict
from checks.A02 import begin
from checks.A08 import graph, cliques, maximal

A, B, C, D = "inequalities-are-the-maximal-events", "equalities-hold-for-every-outcome", "equalities-are-complete", "variables-are-the-compatible-events"
INEQ, EQ, COMP, VARS, BAD = "ineq", "eq", "complete", "vars", "bad"


class Coo(Native):
    """a recorded sparse matrix"""
    def __init__(self, data, row, col, shape):
        self.data, self.row, self.col, self.shape = data, row, col, shape


def flatlist(R, v):
    out = []
    for x in R.iterate(v):
        if isinstance(x, Nd):
            if len(x.flat) != 1:
                raise Und("sparse entries")
            x = x.flat[0]
        out.append(x)
    return out


def make_coo(R, arg, shape=None, dtype=None, copy=False):
    if not isinstance(arg, tuple) or len(arg) != 2 or shape is None:
        raise Und("sparse matrix")
    data, rc = arg
    row, col = R.iterate(rc)
    shape = tuple(R.iterate(shape))
    r = Coo(*[flatlist(R, x) for x in (data, row, col)], shape)
    if len({len(r.data), len(r.row), len(r.col)}) > 1 or any(not isinstance(x, int) for x in r.row + r.col) or any(i >= shape[0] or i < 0 for i in r.row) or any(not 0 <= j < shape[1] for j in r.col):
        raise Raised("ValueError")
    return r


class Setup:
    """measurements: party -> list of numbers of outcomes"""
    def __init__(self, outs):
        self.outs = outs                    # per party: (number of measurements, outcomes)
        self.meas = [(p, o) for p, (m, o) in enumerate(outs) for _ in range(m)]
        self.first, self.ops = [], []
        for i, (p, o) in enumerate(self.meas):
            self.first.append(len(self.ops))
            self.ops += [(i, a) for a in range(o)]
        self.n = len(self.ops)
        self.all = list(product(*[range(o) for _, o in self.meas]))

    def event(self, ops):
        """probability of the event as a function of all outcomes"""
        return tuple(int(all(w[self.ops[o][0]] == self.ops[o][1] for o in ops)) for w in self.all)


def program(R, prog, S, edges, children, every, supports):
    ok = lambda i, j: i == j or (i, j) in edges or (j, i) in edges
    n = S.n
    nc = Nd((n, n), [not ok(S.ops[i][0], S.ops[j][0]) for i in range(n) for j in range(n)], "bool")
    rows = [[S.meas[i][0] + 1, 1, i, a] for i, a in S.ops]
    per = []
    for p, (m, o) in enumerate(S.outs):
        mine = [S.first[i] for i, (q, _) in enumerate(S.meas) if q == p]
        per.append(Nd((m, o), [f + a for f in mine for a in range(o)]))
    names = [f"n{i}" for i in range(n)]
    groups = [Nd((o, 4), [x for a in range(o) for x in rows[S.first[i] + a]]) for i, (p, o) in enumerate(S.meas)]
    P = Host(prog, "InflationProblem", names=["A", "B", "C"][:len(S.outs)], names_to_ints={}, verbose=0, _lexrepr_to_names=Nd((n,), names), _lexrepr_to_copy_index_free_names=Nd((n,), names),
             _lexrepr_to_all_names=Nd((n, 1), names), nr_sources=1, nr_parties=len(S.outs), hypergraph=Nd((1, len(S.outs)), [1] * len(S.outs)), is_network=not any(children),
             inflation_level_per_source=Nd((1,), [1]), settings_per_party=Nd((len(S.outs),), [m for m, _ in S.outs]), outcomes_per_party=Nd((len(S.outs),), [o for _, o in S.outs]),
             private_settings_per_party=Nd((len(S.outs),), [m for m, _ in S.outs]), expected_distro_shape=(), _nr_properties=4, _np_dtype=T("dtype"), _lexorder=Nd((n, 4), [x for r in rows for x in r]), _nr_operators=n,
             lexorder_symmetries=Nd((1, n), list(range(n))), has_children=Nd((len(S.outs),), children, "bool"), _ortho_idxs_per_party=per, _ortho_groups_per_party=[], _ortho_groups=groups, _default_notcomm=nc,
             _template_idxs=Nd((len(S.meas),), S.first), measurements=[], ever_factorizes=True)
    h = Host(prog, "InflationLP")
    f = prog.lookup(prog.cls("InflationLP"), "__init__")
    R.invoke(f.node, f.mod, {}, [h, P], dict(nonfanout=True, supports_problem=supports, include_all_outcomes=every, verbose=0), f)
    return h


def events(R, v, S):
    v = asarray(R, v)
    if len(v.shape) != 2 or v.shape[1] != S.n:
        raise Und("events not recognised")
    return [tuple(i for i in range(S.n) if R.truth(v.get((r, i)))) for r in range(v.shape[0])]


def functional(terms, funcs):
    """terms: column -> coefficient"""
    m = len(next(iter(funcs.values())))
    t = [0] * m
    for j, c in terms.items():
        for w, x in enumerate(funcs[j]):
            t[w] += c * x
    return tuple(t)


def rowterms(M):
    rows = [dict() for _ in range(M.shape[0])]
    for v, i, j in zip(M.data, M.row, M.col):
        rows[i][j] = rows[i].get(j, 0) + v
    return rows


def rank(rows):
    rows = [[Fraction(x) for x in r] for r in rows]
    r = 0
    for c in range(len(rows[0]) if rows else 0):
        p = next((i for i in range(r, len(rows)) if rows[i][c]), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        for i in range(len(rows)):
            if i != r and rows[i][c]:
                q = rows[i][c] / rows[r][c]
                rows[i] = [x - q * y for x, y in zip(rows[i], rows[r])]
        r += 1
    return r


def show(S, ops):
    return "".join(f"[measurement {S.ops[o][0]} = {S.ops[o][1]}]" for o in ops) or "1"


def poly(S, terms, vars_):
    return " ".join(f"{c:+d}*{show(S, vars_[j])}" for j, c in sorted(terms.items()))


def run(rep, prog, outs, kinds, every=False, supports=False, perm=False, swap=None):
    S = Setup(outs)
    label = f"measurements {outs}, all outcomes {every}, supports {supports}" + (", columns renumbered" if perm else "") + (", two copies" if swap else "")

    def go(R):
        begin(R)
        edges = graph(R, len(S.meas)) if swap is None else {(0, 1), (0, 2), (1, 2)} & {(i, j) for i, j in combinations(range(len(S.meas)), 2)}
        children = [R.boolean("party has children", p) for p in range(len(outs))]
        h = program(R, prog, S, edges, children, every, supports)
        full = [c or every or supports for c in children]
        d = f"{label}, compatible {sorted(edges)}, parties with children {[p for p, c in enumerate(children) if c]}"
        cs = cliques(len(S.meas), edges)
        raw = events(R, h.attr(R, "_raw_monomials_as_lexboolvecs"), S)
        want = {tuple(S.first[i] + a for i, a in zip(c, w)) for c in cs for w in product(*[range(S.meas[i][1] - (0 if full[S.meas[i][0]] else 1)) for i in c])}
        if set(raw) != want or len(raw) != len(want):
            x = sorted(set(raw) ^ want) or [r for r in raw if raw.count(r) > 1]
            return [(VARS, f"{d}: the event {show(S, x[0])} is {'missing' if x[0] in want and x[0] not in raw else 'listed wrongly'} among the variables")]
        if raw[0] != ():
            return [(VARS, f"{d}: the first variable is {show(S, raw[0])} instead of the unit")]
        maxi = events(R, h.attr(R, "_maximal_event_as_lexboolvecs"), S)
        mwant = {tuple(S.first[i] + a for i, a in zip(c, w)) for c in maximal(cs) for w in product(*[range(S.meas[i][1]) for i in c])}
        if set(maxi) != mwant:
            return [(VARS, f"{d}: the maximal events are {'incomplete' if mwant - set(maxi) else 'not all maximal'}: {show(S, sorted(mwant ^ set(maxi))[0])}")]
        n = len(raw)
        funcs = {e: S.event(e) for e in raw}
        group = [list(range(S.n))]
        if swap:
            group.append([S.first[dict([swap, swap[::-1]]).get(i, i)] + a for i, a in S.ops])
        img = lambda g, e: tuple(sorted(g[o] for o in e))
        orbit = lambda e: min(img(g, e) for g in group)
        sym = lambda e: tuple(Fraction(sum(col), len(group)) for col in zip(*[S.event(img(g, e)) for g in group]))
        reps = [e for e in raw if orbit(e) == e] if swap else list(raw)
        if swap and any(orbit(e) not in set(reps) for e in raw):
            raise Und("orbits of variables")
        if perm:
            reps = reps[:1] + reps[1:][::-1]
        h.setattr(R, "inverse", Nd((n,), [reps.index(orbit(e)) if swap else reps.index(e) for e in raw]))
        table = {}
        for i, row in enumerate(asarray(R, h.attr(R, "_raw_monomials_as_lexboolvecs")).elements(R)):
            R.setitem(table, ndmod.method(R, row, "tobytes", [], {}), i)
        h.setattr(R, "_raw_lookup_dict", table)
        vec = lambda es: Nd((len(es), S.n), [i in e for e in es for i in range(S.n)], "bool")
        h.setattr(R, "_monomials_as_lexboolvecs", vec(reps))
        mreps = [e for e in maxi if orbit(e) == e] if swap else maxi
        h.setattr(R, "_representative_maximal_events_as_lexboolvecs", vec(mreps))
        h.setattr(R, "n_columns", len(reps))
        value = {j: sym(e) for j, e in enumerate(reps)}
        out = []
        if "ineq" in kinds:
            M = h.attr(R, "minimal_sparse_inequalities")
            if not isinstance(M, Coo):
                raise Und("inequalities not recognised")
            rows = rowterms(M)
            got = [functional(r, value) for r in rows]
            need = {}
            for e in maxi:
                need.setdefault(sym(e), e)
            if M.shape != (len(rows), len(reps)):
                out.append((INEQ, f"{d}: the table of inequalities has shape {M.shape}"))
            for r, f in zip(rows, got):
                # combinations of equalities may be added: every outcome decides
                if f not in need:
                    out.append((INEQ, f"{d}: the inequality {poly(S, r, reps)} >= 0 is not the probability of a maximal event"))
                    break
            for f, e in need.items():
                if f not in got:
                    out.append((INEQ, f"{d}: the probability of the maximal event {show(S, e)} is not required to be non-negative"))
                    break
        if "eq" in kinds:
            M = h.attr(R, "minimal_sparse_equalities")
            if not isinstance(M, Coo):
                raise Und("equalities not recognised")
            rows = rowterms(M)
            for r in rows:
                f = functional(r, value)
                if any(f):
                    out.append((EQ, f"{d}: the equality {poly(S, r, reps)} = 0 does not hold if the measurements give {S.all[next(i for i, x in enumerate(f) if x)]}"))
                    break
            free = rank([[r.get(j, 0) for j in range(len(reps))] for r in rows]) if rows else 0
            dim = rank([list(value[j]) for j in range(len(reps))])
            if len(reps) - free != dim and not out:
                out.append((COMP, f"{d}: {len(reps)} variables with {free} independent equalities, but the events have {dim} independent probabilities"))
        return out
    verdict(rep, "InflationLP constraints", label, paths(prog, go, hooks={"_generate_lp": lambda R, *a: None, "Monomial": lambda R, *a, **k: T("monomial"), "coo_array": make_coo}, limit=600), {INEQ: A, EQ: B, COMP: C, VARS: D, BAD: A})


def check(prog, rep, tier):
    rep.rule(A, "the generated inequalities, written as functions of the outcomes of all measurements, are exactly the indicators of the maximal compatible events, each of which is required; up to three measurements, compatibility and children of the parties unknown")
    rep.rule(B, "the generated equalities vanish for every outcome of the measurements")
    rep.rule(C, "the generated equalities are all linear relations between the variables")
    rep.rule(D, "the variables are the events of all compatible sets of measurements (without the last outcome where normalisation determines it), the first one the unit; the maximal events are those of the maximal sets")
    both = ("ineq", "eq")
    for outs in ([(1, 2)], [(1, 3)], [(2, 2)], [(1, 2), (1, 2)], [(1, 3), (1, 2)], [(2, 2), (1, 2)], [(1, 2), (1, 2), (1, 2)]):
        run(rep, prog, outs, both)
    run(rep, prog, [(1, 3), (1, 2)], both, perm=True)
    run(rep, prog, [(1, 2), (1, 2), (1, 2)], both, perm=True)
    for every, supports in ((True, False), (False, True)):
        run(rep, prog, [(1, 2), (1, 3)], both, every, supports)
    for outs in ([(2, 2)], [(2, 3)], [(2, 2), (1, 2)]):
        run(rep, prog, outs, both, swap=(0, 1))
    if tier != "quick":
        for outs in ([(1, 3), (1, 3), (1, 2)], [(1, 2), (2, 3)], [(2, 2), (2, 2)]):
            run(rep, prog, outs, both)
