"""Bounds turned into constraints: every conversion is evaluated over symbolic bounds and the constraints compared with the bounds."""
from checks.M01 import *
from checks import T03

A, B = "bound-becomes-inequality", "vector-becomes-rows"

BOUNDS = {"lower": (dict(A=rsym("lA")), {}), "upper": ({}, dict(A=rsym("uA"))), "both of one": (dict(A=rsym("lA")), dict(A=rsym("uA"))), "none": ({}, {}),
          "several": (dict(C=rsym("lC"), A=rsym("lA")), dict(B=rsym("uB"), C=rsym("uC"))), "of a known moment": (dict(K=rsym("lK")), dict(K=rsym("uK"), B=rsym("uB"))),
          "of a proportional moment": (dict(S=rsym("lS")), dict(S=rsym("uS")))}


def forms(lower, upper):
    """(what, coefficients, constant) of the inequalities the bounds stand for"""
    return [(f"the lower bound of {x}", {x: Real.of(1)}, -Real.of(v)) for x, v in lower.items()] + \
           [(f"the upper bound of {x}", {x: Real.of(-1)}, Real.of(v)) for x, v in upper.items()]


def split(R, ineq, ones):
    """coefficients and constant; ones: what has the value 1"""
    t, k = {}, Real({})
    for x, v in ineq.items():
        if x in ones:
            k = k + Real.of(v)
        else:
            t[x] = t.get(x, Real({})) + Real.of(v)
    return t, k


def compare(R, ineqs, own, bounds, ones):
    """ineqs: all inequalities found; own: those of the program; bounds: forms"""
    left = [split(R, q, ones) for q in ineqs]
    out = []
    for what, t, k in [("an inequality of the program",) + split(R, q, ones) for q in own] + bounds:
        exact = next((f for f in left if same_cells(R, nz(R, f[0]), nz(R, t)) and same(R, f[1], k)), None)
        if exact is not None:
            left.remove(exact)
            continue
        near = next((f for f in left if set(f[0]) == set(t) and not any(same_cells(R, f[0], u) and same(R, f[1], c2) for _, u, c2 in bounds)), None)
        out.append((BAD, f"{what} becomes {T03.show(near)} >= 0" if near else f"there is no inequality for {what}"))
        if near is not None:
            left.remove(near)
    return out + [(BAD, f"there is an inequality {T03.show(f)} >= 0 that is not a bound") for f in left]


def nz(R, t):
    return {x: v for x, v in t.items() if not v.decided_zero(R)}


INEQS = [{"B": c("gB"), "1": rsym("g0")}]


def sdp_args(rep, prog, label):
    lower, upper = BOUNDS[label]
    S = T03.sdp_spec(names=["1", "A", "B", "C", "K", "S"], idx={"1": 1, "A": 2, "B": 3, "C": 4, "K": 5, "S": 6}, lower=lower, upper=upper, ineqs=INEQS, eqs=[], obj={"A": c("oA")})

    def go(R):
        start(R)
        h, hooks = T03.sdp_host(prog, S)
        h.attrs["momentmatrix"] = R.asarr(h.attrs.pop("_mat"))
        h.attrs.update(maskmatrices={m: Coo([], (3, 3)) for m in h.attrs["moments"]}, constant_term_name="constant_term")
        R.hooks.update(hooks)
        d = h.attr(R, "_prepare_solver_arguments").call(R, [], {})
        if not isinstance(d, dict) or not isinstance(d.get("inequalities"), list) or not isinstance(d.get("known_vars"), dict):
            raise Und("solver arguments not recognised")
        ones = {x for x, v in d["known_vars"].items() if v == 1}
        return compare(R, d["inequalities"], INEQS, forms(lower, upper), ones)
    verdict(rep, "InflationSDP._prepare_solver_arguments", label, paths(prog, go, hooks={}, limit=600), {BAD: A})


def lp_args(rep, prog, label, known1):
    lower, upper = BOUNDS[label]

    def go(R):
        start(R)
        h, over, m = lp_host(prog, **full(lower=lower, upper=upper, ineqs=INEQS, ineqs0=[], known={"1": 1, "K": rsym("k")} if known1 else {"K": 0}, supports=not known1))
        R.hooks.update(over)
        d = h.attr(R, "_prepare_solver_arguments").call(R, [], {"separate_bounds": False})
        if not isinstance(d, dict) or not isinstance(d.get("inequalities"), list) or not isinstance(d.get("known_vars"), dict):
            raise Und("solver arguments not recognised")
        ones = {x for x, v in d["known_vars"].items() if v == 1}
        out = compare(R, d["inequalities"], INEQS, forms(lower, upper), ones)
        names = set(R.iterate(d.get("variables", [])))
        for q in d["inequalities"]:
            for x in q:
                if x not in names and not out:
                    out.append((BAD, f"{x} is not one of the variables"))
        if d.get("lower_bounds") or d.get("upper_bounds"):
            out.append((BAD, "the bounds are passed a second time"))
        return out
    verdict(rep, "InflationLP._prepare_solver_arguments(separate_bounds=False)", label + ("" if known1 else ", unit moment not known"), paths(prog, go, hooks={}, limit=600), {BAD: A})


def lp_separate(rep, prog, label):
    lower, upper = BOUNDS[label]

    def go(R):
        start(R)
        h, over, m = lp_host(prog, **full(lower=lower, upper=upper, ineqs=INEQS, ineqs0=[]))
        R.hooks.update(over)
        out = []
        for n, k in (("_prepare_solver_arguments", {}), ("_prepare_solver_matrices", {})):
            if not has(prog, n):
                continue
            d = h.attr(R, n).call(R, [], k)
            for comp, want in (("lower_bounds", lower), ("upper_bounds", upper)):
                v = d.get(comp)
                if v is None:
                    out.append((BAD, f"{comp} are not passed"))
                elif isinstance(v, Coo):
                    out += diff_matrix(R, v, [row(want)], len(NAMES), comp, "vector")
                else:
                    out += diff_dict(R, v, want, comp)
        return out
    verdict(rep, "InflationLP separate bounds", label, paths(prog, go, hooks={}, limit=600), {BAD: A})


def lp_matrices(rep, prog, label):
    lower, upper = BOUNDS[label]

    def go(R):
        start(R)
        h, over, m = lp_host(prog, **full(lower=lower, upper=upper, ineqs=INEQS, ineqs0=[]))
        R.hooks.update(over)
        d = h.attr(R, "_prepare_solver_matrices").call(R, [], {"separate_bounds": False})
        q = d.get("inequalities") if isinstance(d, dict) else None
        if not isinstance(q, Coo):
            raise Und("solver arguments not recognised")
        cells = q.cells(R)
        rows = [{NAMES[j]: v for (i, j), v in cells.items() if i == n} for n in range(q.shape[0])]
        return compare(R, rows, INEQS, forms(lower, upper), {"1"})
    verdict(rep, "InflationLP._prepare_solver_matrices(separate_bounds=False)", label, paths(prog, go, hooks={}, limit=600), {BAD: A})


VECS = {"one": {2: rsym("v")}, "out of order": {4: rsym("v"), 1: rsym("w"), 3: rsym("x")}, "none": {}, "of the unit": {0: rsym("v"), 2: rsym("w")}}


def rows(rep, prog, label, style):
    vec = VECS[label]

    def go(R):
        start(R)
        f = prog.find_func("expand_sparse_vec")
        m = R.invoke(f.node, f.mod, {}, [Coo([[0, j, v] for j, v in vec.items()], (1, 5))], {"conversion_style": style}, f)
        if not isinstance(m, Coo):
            raise Und("result is not a sparse matrix")
        if m.shape != (len(vec), 5):
            return [(BAD, f"the shape is {m.shape}, not {(len(vec), 5)}")]
        cells = m.cells(R)
        for i, (j, v) in enumerate(vec.items()):
            if style == "eq":
                want = {j: Real.of(1)}
            else:
                sg = 1 if style == "lb" else -1
                want = {}
                for jj, vv in ((j, Real.of(sg)), (0, v if sg < 0 else -v)):
                    want[jj] = want.get(jj, Real({})) + vv
            got = {jj: Real.of(vv) for (r, jj), vv in cells.items() if r == i}
            if not same_cells(R, nz(R, got), nz(R, want)):
                return [(BAD, f"the row of {v!r} on variable {j} is {got}, not {want}")]
        return []
    verdict(rep, f"expand_sparse_vec {style}", label, paths(prog, go, hooks={}, limit=600), {BAD: B})


def check(prog, rep, tier):
    rep.rule(A, "for symbolic bounds (zero, positive, negative): a lower bound l of x is the inequality x - l >= 0, an upper bound u the inequality u - x >= 0, with a constant that is known to be 1; "
                "every other inequality is one of the program")
    rep.rule(B, "row i of the expanded vector is x, x - l or u - x for its i-th entry")
    prog.cls("InflationLP")
    prog.cls("InflationSDP")
    jobs = []
    for l in BOUNDS:
        if prog.lookup(prog.cls("InflationSDP"), "_prepare_solver_arguments") is not None:
            jobs.append((A, "InflationSDP._prepare_solver_arguments", sdp_args, (prog, l)))
        f = prog.lookup(prog.cls("InflationLP"), "_prepare_solver_arguments")
        if f is not None and "separate_bounds" in [x.arg for x in f.node.args.args]:
            jobs += [(A, "InflationLP._prepare_solver_arguments", lp_args, (prog, l, k)) for k in (True, False)]
        jobs.append((A, "InflationLP separate bounds", lp_separate, (prog, l)))
        f = prog.lookup(prog.cls("InflationLP"), "_prepare_solver_matrices")
        if f is not None and "separate_bounds" in [x.arg for x in f.node.args.args]:
            jobs.append((A, "InflationLP._prepare_solver_matrices", lp_matrices, (prog, l)))
    if prog.find_func("expand_sparse_vec") is not None:
        jobs += [(B, f"expand_sparse_vec {s}", rows, (prog, l, s)) for l in VECS for s in ("eq", "lb", "ub")]
    rep.jobs(jobs, 300)
