"""The forms of a component (moments, names, sparse matrices, solver arguments) are evaluated over symbolic coefficients and compared entry by entry."""
import sa.text as textmod, sa.coo as coomod
from sa.text import *
from sa.coo import Coo
from sa.finite import paths, Host, Arr, Und, Raised
from checks.T03 import c, verdict

A, B, D = "same-entries", "same-relations", "dictionaries-to-matrices"
BAD = "bad"
NAMES = ["1", "A", "B", "C", "K", "S"]


def start(R):
    R.texts, R.sparse, R.files, R.saved = textmod, coomod, {}, None
    R.LIMIT = 400000


def lp_host(prog, order=NAMES, sparse_eqs=(), **parts):
    """an InflationLP whose components are dictionaries over moments, its matrices are derived"""
    m = {n: Named(n, idx=i) for i, n in enumerate(order)}
    by = lambda d: {m[x]: v for x, v in d.items()}
    p = dict(obj={}, known={"1": 1}, semi={}, lower={}, upper={}, eqs=[], ineqs=[], eqs0=[], ineqs0=[], supports=False)
    p.update(parts)
    ix = {n: i for i, n in enumerate(order)}
    h = Host(prog, "InflationLP", verbose=0, _lp_has_been_generated=True, One=m["1"], known_moments=by(p["known"]), semiknown_moments={m[x]: (f, m[y]) for x, (f, y) in p["semi"].items()},
             objective=by(p["obj"]), moment_lowerbounds=by(p["lower"]), moment_upperbounds=by(p["upper"]), monomials=Arr.of([m[n] for n in order], "mons"), supports_problem=p["supports"],
             compmonomial_to_idx={m[n]: i for i, n in enumerate(order)}, n_columns=len(order), extra_equalities=[by(e) for e in p["eqs"]], extra_inequalities=[by(e) for e in p["ineqs"]],
             constant_term_name="constant_term", default_non_negative=True, maximize=True)
    mat = lambda es: Coo([[r, ix[x], v] for r, e in enumerate(es) for x, v in e.items()], (len(es), len(order)))
    over = {"monomial_names": lambda R, s: Arr.of(list(order), "names"), "minimal_sparse_equalities": lambda R, s: mat(p["eqs0"]), "minimal_sparse_inequalities": lambda R, s: mat(p["ineqs0"])}
    for n in list(over):
        if prog.lookup(prog.cls("InflationLP"), n) is None:
            h.attrs[n] = over.pop(n)(None, h)
    return h, over, m


def row(e, order=NAMES):
    return {order.index(x): Real.of(v) for x, v in e.items()}


def same_cells(R, got, want):
    return set(got) == set(want) and all(Real.of(got[k]) is not None and same(R, got[k], want[k]) for k in want)


def diff_matrix(R, m, want, width, what, ordered=True):
    """m: sparse matrix; want: one {column: coefficient} per row"""
    if not isinstance(m, Coo):
        raise Und(f"{what} is not a sparse matrix")
    if m.shape != (len(want), width):
        return [(BAD, f"{what} has shape {m.shape}, not {(len(want), width)}")]
    cells = m.cells(R)
    rows = [{j: v for (i, j), v in cells.items() if i == n} for n in range(len(want))]
    left = list(rows)
    for w in want:
        hit = next((r for r in left if same_cells(R, r, w)), None)
        if hit is None:
            # entries that are zero need not be stored in a constraint
            hit = next((r for r in left if same_cells(R, {k: v for k, v in r.items() if not Real.of(v).decided_zero(R)}, {k: v for k, v in w.items() if not v.decided_zero(R)})), None)
            if hit is not None and len(want) == 1 and ordered == "vector":
                return [(BAD, f"{what} has no entry for a moment whose value is zero")]
        if hit is None:
            return [(BAD, f"{what} has no row with the entries {w}, its rows are {rows}")]
        left.remove(hit)
    return []


def diff_dict(R, d, want, what, key=lambda k: k):
    if not isinstance(d, dict):
        raise Und(f"{what} is not a dictionary")
    got = {key(k): v for k, v in d.items()}
    for x, v in want.items():
        if x not in got:
            return [(BAD, f"{what} has no entry of {x}")]
        if Real.of(got[x]) is None or not same(R, got[x], v):
            return [(BAD, f"{what} has {got[x]!r} for {x}, not {v!r}")]
    for x in got:
        if x not in want:
            return [(BAD, f"{what} has an entry of {x}")]
    return []


def name(x):
    return getattr(x, "name", x)


VEC = {"objective": ("obj", "sparse_objective", "objective_by_name"), "known values": ("known", "sparse_known_vars", "known_vars_by_name"),
       "lower bounds": ("lower", "sparse_lowerbounds", "lowerbounds_by_name"), "upper bounds": ("upper", "sparse_upperbounds", "upperbounds_by_name")}
VALUES = {"none": {}, "one": {"B": rsym("b")}, "out of order": {"C": rsym("c"), "1": rsym("o"), "B": rsym("b")}, "adjacent": {"K": rsym("k"), "A": rsym("a")}}
ROWS = {"none": [], "one": [{"B": c("b"), "1": rsym("o")}], "several": [{"C": c("c"), "A": c("a"), "1": rsym("o")}, {"B": c("b")}, {"K": c("k"), "A": c("d")}]}


def has(prog, n):
    return prog.lookup(prog.cls("InflationLP"), n) is not None


def vectors(rep, prog, comp, label):
    part, sp, nm = VEC[comp]
    vals = VALUES[label]

    def go(R):
        start(R)
        h, over, m = lp_host(prog, **{part: vals})
        R.hooks.update(over)
        out = []
        if has(prog, sp):
            out += diff_matrix(R, h.attr(R, sp), [row(vals)], len(NAMES), sp, "vector")
        if has(prog, nm):
            out += diff_dict(R, h.attr(R, nm), vals, nm)
        return out
    verdict(rep, f"InflationLP {comp}", label, paths(prog, go, hooks={}, limit=600), {BAD: A})


LISTS = {"equalities": ("eqs", "eqs0", "sparse_equalities", "moment_equalities", "moment_equalities_by_name", "sparse_extra_equalities"),
         "inequalities": ("ineqs", "ineqs0", "sparse_inequalities", "moment_inequalities", "moment_inequalities_by_name", "sparse_extra_inequalities")}


def lists(rep, prog, comp, own, extra):
    part, part0, sp, mo, nm, ex = LISTS[comp]
    e0, e1 = ROWS[own], [{x: v * Real({(): -2}) for x, v in e.items()} for e in ROWS[extra]]

    def go(R):
        start(R)
        h, over, m = lp_host(prog, **{part: e1, part0: e0})
        R.hooks.update(over)
        want = [row(e) for e in e0 + e1]
        out = diff_matrix(R, h.attr(R, sp), want, len(NAMES), sp) if has(prog, sp) else []
        if has(prog, ex):
            out += diff_matrix(R, h.attr(R, ex), [row(e) for e in e1], len(NAMES), ex)
        for n in (mo, nm):
            if not has(prog, n):
                continue
            got = [{name(k): v for k, v in d.items()} for d in R.iterate(h.attr(R, n))]
            left = list(got)
            for w in e0 + e1:
                hit = next((g for g in left if not diff_dict(R, g, w, n)), None)
                if hit is None:
                    return out + [(BAD, f"{n} has no constraint {w}: {got}")]
                left.remove(hit)
            if left:
                return out + [(BAD, f"{n} has a constraint too many: {left[0]}")]
        return out
    verdict(rep, f"InflationLP {comp}", f"{own} of the scenario, {extra} of the user", paths(prog, go, hooks={}, limit=600), {BAD: A})


SEMI = {"none": {}, "one": {"S": (rsym("s"), "A")}, "several": {"S": (rsym("s"), "A"), "C": (rsym("t"), "B"), "A": (rsym("u"), "1")}}


def relations(rep, prog, label):
    semi = SEMI[label]

    def go(R):
        start(R)
        h, over, m = lp_host(prog, semi=semi)
        R.hooks.update(over)
        out = []
        if has(prog, "sparse_semiknown"):
            out += diff_matrix(R, h.attr(R, "sparse_semiknown"), [row({x: 1, y: -f}) for x, (f, y) in semi.items()], len(NAMES), "sparse_semiknown")
        if has(prog, "semiknown_by_name"):
            d = h.attr(R, "semiknown_by_name")
            if not isinstance(d, dict) or set(d) != set(semi) or any(tuple(d[x])[1] != y or not same(R, tuple(d[x])[0], f) for x, (f, y) in semi.items()):
                out.append((BAD, f"semiknown_by_name is {d}, not {semi}"))
        return out
    verdict(rep, "InflationLP proportionality relations", label, paths(prog, go, hooks={}, limit=600), {BAD: B})


# -- arguments of the solver ----------------------------------------------------------
def full(**k):
    p = dict(obj={"B": c("oB"), "1": rsym("o0")}, known={"1": 1, "K": rsym("k")}, semi={"S": (rsym("s"), "A")}, lower={"C": rsym("lC"), "A": rsym("lA")}, upper={"A": rsym("uA")},
             eqs=[{"B": c("e"), "1": c("f")}], eqs0=[{"A": c("g"), "C": c("h")}], ineqs=[{"C": c("i"), "B": c("j")}], ineqs0=[{"A": c("q")}])
    p.update(k)
    return p


PROBLEMS = {"all components": {}, "no relations": dict(semi={}), "no constraints": dict(eqs=[], eqs0=[], ineqs=[], ineqs0=[], semi={}), "no constraints but a relation": dict(eqs=[], eqs0=[], ineqs=[], ineqs0=[]),
            "no bounds": dict(lower={}, upper={}), "no objective": dict(obj={}), "nothing known": dict(known={"1": 1}, obj={"C": c("oC")}),
            "relation between other moments": dict(eqs0=[], ineqs=[], ineqs0=[], lower={}, upper={}), "bounds of other moments": dict(eqs0=[], ineqs=[], ineqs0=[], semi={})}


def matrices(rep, prog, label):
    p = full(**PROBLEMS[label])

    def go(R):
        start(R)
        h, over, m = lp_host(prog, **p)
        R.hooks.update(over)
        d = h.attr(R, "_prepare_solver_matrices").call(R, [], {})
        out = []
        for comp, part in (("objective", "obj"), ("known_vars", "known"), ("lower_bounds", "lower"), ("upper_bounds", "upper")):
            if comp not in d:
                out.append((BAD, f"{comp} is not passed"))
                continue
            out += diff_matrix(R, d[comp], [row(p[part])], len(NAMES), comp, "vector" if comp != "objective" else True)
        eqs = p["eqs0"] + p["eqs"] + [{x: 1, y: -f} for x, (f, y) in p["semi"].items()]
        for comp, rows in (("equalities", eqs), ("inequalities", p["ineqs0"] + p["ineqs"])):
            if comp not in d:
                out.append((BAD, f"{comp} is not passed"))
                continue
            out += diff_matrix(R, d[comp], [row(e) for e in rows], len(NAMES), comp)
        if [x for x in R.iterate(d.get("variables", []))] != NAMES:
            out.append((BAD, "the names of the variables are not those of the columns"))
        return out
    verdict(rep, "InflationLP._prepare_solver_matrices", label, paths(prog, go, hooks={}, limit=600), {BAD: A})


def converted(rep, prog, label, kinds, entry="convert_dicts"):
    """conversion of components given as dictionaries (by default), as matrices (M) or not at all (-)"""
    p = full(**PROBLEMS[label])
    cons = {"equalities": p["eqs0"] + p["eqs"], "inequalities": p["ineqs0"] + p["ineqs"]}
    vec = {"objective": p["obj"], "known_vars": p["known"], "lower_bounds": p["lower"], "upper_bounds": p["upper"]}
    given = [x for x in list(vec) + list(cons) if kinds.get(x) != "-"]

    def go(R):
        start(R)
        mat = lambda es: Coo([[r, NAMES.index(x), v] for r, e in enumerate(es) for x, v in e.items()], (len(es), len(NAMES)))
        kw = {}
        for x in given:
            es = cons.get(x, [vec.get(x)])
            kw[x] = mat(es) if kinds.get(x) == "M" else ([dict(e) for e in es] if x in cons else dict(vec[x]))
        before = {x: list(kw[x].entries) for x in kw if isinstance(kw[x], Coo)}
        if kinds.get("semiknown_vars") != "-":
            kw["semiknown_vars"] = {x: t for x, t in p["semi"].items()}
        kw["variables"] = list(NAMES)
        if kinds.get("variables") == "-":
            kw.pop("variables")
        kw.update(solve_dual=False, solverparameters=None, verbose=0)
        box = []
        R.hooks["solveLP_sparse"] = lambda R, *a, **k: box.append((a, k))
        f = prog.find_func(entry)
        d = R.invoke(f.node, f.mod, {}, [], dict(kw), f)
        if entry == "solveLP":
            if len(box) != 1 or box[0][0]:
                raise Und("call of the solver not recognised")
            d = box[0][1]
        names = list(NAMES)
        if entry == "solveLP":
            names = R.iterate(d.get("variables") or [])
            if "variables" in kw and names != kw["variables"]:
                return [(BAD, f"the variables given are {kw['variables']}, those passed are {names}")]
            if sorted(set(names)) != sorted(names):
                return [(BAD, "a variable occurs twice")]
            used = {x for y in given for e in cons.get(y, [vec.get(y)]) for x in e} | ({x for y, (_, z) in p["semi"].items() for x in (y, z)} if "semiknown_vars" in kw else set())
            if used - set(names):
                return [(BAD, f"{sorted(used - set(names))[0]} is not a variable")]
        semi = p["semi"] if kinds.get("semiknown_vars") != "-" else {}
        out = []
        for x in list(vec) + list(cons):
            rel = [{y: 1, z: -fac} for y, (fac, z) in semi.items()] if x == "equalities" else []
            if x not in given and not rel:
                if d.get(x) is not None:
                    out.append((BAD, f"{x} appears although it was not given"))
                continue
            es = (cons.get(x, [vec.get(x)]) if x in given else []) + rel
            m = d.get(x, kw.get(x))
            if not isinstance(m, Coo):
                out.append((BAD, f"{x} stays {type(m).__name__}"))
                continue
            out += diff_matrix(R, m, [row(e, names) for e in es], len(names), x, "vector" if x in vec and x != "objective" else True)
        extra = set(d) - set(vec) - set(cons)
        if extra and entry == "convert_dicts":
            out.append((BAD, f"{sorted(extra)[0]} was converted"))
        return out
    verdict(rep, entry, label + ", " + (", ".join(f"{k} {'not given' if v == '-' else 'as a matrix'}" for k, v in kinds.items()) or "dictionaries"), paths(prog, go, hooks={}, limit=600), {BAD: D})


KINDS = [{}, {"equalities": "M"}, {"equalities": "M", "inequalities": "M"}, {"equalities": "-"}, {"semiknown_vars": "-"}, {"objective": "M", "known_vars": "M"}, {"lower_bounds": "-", "upper_bounds": "-"}]


def stacked(rep, prog, label, blocks, fmt):
    def go(R):
        start(R)
        f = prog.find_func("vstack")
        ms, at = [], 0
        want, width = [], 0
        for n, w, k in blocks:
            es = [[r, (r + 2 * j) % w, rsym(f"v{at}{r}{j}")] for r in range(n) for j in range(2) if w > 2 or j == 0]
            ms.append(Coo(es, (n, w)).to(R, k))
            want += [{cc: v for rr, cc, v in es if rr == r} for r in range(n)]
            width, at = max(width, w), at + n
        m = R.invoke(f.node, f.mod, {}, [tuple(ms)], {} if fmt is None else {"format": fmt}, f)
        out = []
        if isinstance(m, Coo) and m.fmt != (fmt or "coo"):
            out.append((BAD, f"the format is {m.fmt}, not {fmt or 'coo'}"))
        if isinstance(m, Coo) and m.shape == (at, width):
            cells = m.cells(R)
            for i, w in enumerate(want):
                if not same_cells(R, {j: v for (r, j), v in cells.items() if r == i}, {j: Real.of(v) for j, v in w.items()}):
                    return out + [(BAD, f"row {i} of the stack is not the row of its block")]
            return out
        return out + diff_matrix(R, m, [{}] * at, width, "the stack")
    verdict(rep, "vstack", f"{label} {fmt or ''}".strip(), paths(prog, go, hooks={}, limit=600), {BAD: A})


STACKS = {"two": [(2, 4, "coo"), (1, 4, "coo")], "first empty": [(0, 4, "coo"), (2, 4, "coo")], "last empty": [(2, 4, "coo"), (0, 4, "coo")], "one of three": [(0, 4, "coo"), (2, 4, "coo"), (0, 4, "coo")],
          "none": [(0, 4, "coo"), (0, 4, "coo")], "three": [(1, 4, "coo"), (3, 4, "coo"), (2, 4, "coo")], "middle empty": [(1, 4, "coo"), (0, 4, "coo"), (2, 4, "coo")],
          "mixed formats": [(2, 4, "csr"), (2, 4, "coo")]}


def check(prog, rep, tier):
    rep.rule(A, "the dictionary over moments, the dictionary over names, the sparse matrix and the solver argument of a component have the same coefficient for the same moment in the same constraint")
    rep.rule(B, "the forms of the proportionality relations x = f*y agree, the matrix has the row x - f*y")
    rep.rule(D, "dictionaries passed to the solver interface become matrices with the same entries over the given variables; relations are added to the equalities, in whatever form these are given")
    prog.cls("InflationLP")
    jobs = [(A, f"InflationLP {comp}", vectors, (prog, comp, l)) for comp in VEC for l in VALUES]
    jobs += [(A, f"InflationLP {comp}", lists, (prog, comp, a, b)) for comp in LISTS for a in ROWS for b in ROWS]
    jobs += [(B, "InflationLP proportionality relations", relations, (prog, l)) for l in SEMI]
    if has(prog, "_prepare_solver_matrices"):
        jobs += [(A, "InflationLP._prepare_solver_matrices", matrices, (prog, l)) for l in PROBLEMS]
    if prog.find_func("convert_dicts") is not None:
        jobs += [(D, "convert_dicts", converted, (prog, l, k)) for l in PROBLEMS for k in KINDS]
    if prog.find_func("solveLP") is not None:
        jobs += [(D, "solveLP", converted, (prog, l, k, "solveLP")) for l in PROBLEMS for k in KINDS + [{"variables": "-"}, {"variables": "-", "semiknown_vars": "-"}]]
    if prog.find_func("vstack") is not None:
        jobs += [(A, "vstack", stacked, (prog, l, b, f)) for l, b in STACKS.items() for f in (None, "csr", "csc")]
    rep.jobs(jobs, 300)
