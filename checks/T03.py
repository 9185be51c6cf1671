"""Exported files contain the whole problem: the exporters are evaluated over symbolic coefficients and the files read back."""
from itertools import permutations
import sa.text as textmod
from sa.text import *
from sa.finite import paths, Host, Arr, Und, Raised
from sa.formats import read_lp, read_mps, read_sdpa

B1, B2, B3, B4 = "records-complete", "records-well-formed", "known-only-constraints", "bounds-of-proportional-moments"
MISSING, WRONG, BAD, KNOWNONLY, SEMIBOUND = "missing", "wrong", "bad", "known-only", "semi-bound"


def c(name):
    return rsym(name, False)


class Spec:
    """a problem over named moments with symbolic data"""
    def __init__(self, **k):
        self.names = ["1", "A", "B", "C", "K", "S"]
        self.known = {"1": 1, "K": rsym("k~")}
        self.semi = {"S": (c("s"), "A")}
        self.obj = {"1": rsym("o0"), "A": c("oA"), "B": c("oB")}
        self.eqs = [{"1": c("e0"), "A": c("eA"), "K": c("eK")}, {"A": c("fA"), "B": c("fB")}]
        self.ineqs = [{"1": c("g0"), "B": c("gB")}, {"B": c("hB"), "S": c("hS"), "K": c("hK")}]
        self.lower = {"A": rsym("lA"), "B": rsym("lB"), "C": rsym("lC")}
        self.upper = {"A": rsym("uA"), "C": rsym("uC")}
        self.nonneg = True
        self.__dict__.update(k)

    def normal(self, terms):
        """substitute what is known: (coefficients by unknown moment, constant)"""
        out, const = {}, Real({})
        for x, v in terms.items():
            v = Real.of(v)
            if x in self.semi and x not in self.known:
                f, x = self.semi[x]
                v = v * Real.of(f)
            if x in self.known:
                const = const + v * Real.of(self.known[x])
            else:
                out[x] = out.get(x, Real({})) + v
        return out, const


def clean(R, form):
    t, k = form
    return {x: v for x, v in t.items() if not v.decided_zero(R)}, k


def equal(R, a, b, sgn=1):
    (ta, ka), (tb, kb) = clean(R, a), clean(R, b)
    m = (lambda v: v) if sgn > 0 else (lambda v: -v)
    return set(ta) == set(tb) and all(same(R, v, m(tb[x])) for x, v in ta.items()) and same(R, ka, m(kb))


def match(R, wanted, found, diffs):
    """pair forms off, the exact ones first; wanted: (form, either sign?, what it is, kind of difference if missing)"""
    left, open_ = list(found), []
    for w in wanted:
        e, both = w[:2]
        for f in left:
            if equal(R, e, f) or both and equal(R, e, f, -1):
                left.remove(f)
                break
        else:
            open_.append(w)
    for e, both, what, missing in open_:
        te = clean(R, e)[0]
        if not te and e[1].decided_zero(R):
            continue
        if not te:
            near = next((f for f in left if not clean(R, f)[0]), None)
            if near is not None:
                left.remove(near)
                diffs.append((WRONG, f"{what} between known moments is written as {show(near)}, not as {show(e)}"))
            else:
                diffs.append((KNOWNONLY, f"{what} between known moments only is not in the file"))
            continue
        near = None if missing == SEMIBOUND else next((f for f in left if set(clean(R, f)[0]) == set(te)), None)
        if near is not None:
            left.remove(near)
            diffs.append((WRONG, f"{what} on {', '.join(sorted(te))} is written as {show(near)}, not as {show(e)}"))
        else:
            diffs.append((missing, f"{what} on {', '.join(sorted(te))} is not in the file"))
    return left


def show(form):
    t, k = form
    return " + ".join([f"({v!r})*{x}" for x, v in sorted(t.items())] + [f"({k!r})"])


def objective(R, got, gotk, want, wantk, diffs, const=True):
    g, w = clean(R, (got, gotk))[0], clean(R, (want, wantk))[0]
    for x in sorted(set(g) | set(w)):
        if x not in g:
            diffs.append((MISSING, f"the coefficient of {x} is missing from the objective"))
        elif x not in w or not same(R, g[x], w[x]):
            diffs.append((WRONG, f"the coefficient of {x} in the objective is {g[x]!r}, not {w.get(x, 0)!r}"))
    if const and not same(R, gotk, wantk):
        diffs.append((MISSING if gotk.decided_zero(R) else WRONG, f"the constant of the objective is {gotk!r}, not {wantk!r}"))


def compare_lp(R, S, P, name):
    """differences between the file problem P and the specification S under a naming of its variables"""
    diffs = []
    ren = lambda t: {name[x]: v for x, v in t.items()}
    cons = [(ren(t), r, k) for t, r, k in P.cons]
    used = {x for t, _, _ in cons for x in t} | {name[x] for x in P.obj}
    bounds = {name[x]: b for x, b in P.bounds.items()}
    fixed = set()
    for x in S.known:
        if x in used:
            hit = next((i for i, (t, r, k) in enumerate(cons) if r == "=" and set(t) == {x} and same(R, k, t[x] * Real.of(S.known[x]))), None)
            b = bounds.get(x, {})
            if hit is not None:
                cons.pop(hit)
            elif not (isinstance(b.get("lo"), Real) and isinstance(b.get("up"), Real) and same(R, b["lo"], S.known[x]) and same(R, b["up"], S.known[x])):
                diffs.append((WRONG, f"the known moment {x} is an unknown of the file"))
            fixed.add(x)
    for x, (f, y) in S.semi.items():
        if x in used or x in bounds:
            want = ({x: Real.of(1), y: -Real.of(f)}, Real({}))
            if y in S.known:
                want = ({x: Real.of(1)}, -(Real.of(f) * Real.of(S.known[y])))
            for i, (t, r, k) in enumerate(cons):
                if r == "=" and (equal(R, want, (t, -k)) or equal(R, want, (t, -k), -1)):
                    cons.pop(i)
                    break
            else:
                near = next((i for i, (t, r, k) in enumerate(cons) if set(t) == {x, y}), None)
                if near is not None:
                    diffs.append((WRONG, f"the relation {x} = s*{y} is written as {show((cons[near][0], -cons[near][2]))} {cons[near][1]} 0"))
                    cons.pop(near)
                else:
                    diffs.append((MISSING, f"the relation {x} = s*{y} is not in the file"))
    # objective
    g, gk = S.normal(ren(P.obj))
    gk = gk + P.const
    w, wk = S.normal(S.obj)
    if P.sense == "min":
        g, gk = {x: -v for x, v in g.items()}, -gk
    if P.sense is None:
        diffs.append((BAD, "no objective section"))
    objective(R, g, gk, w, wk, diffs)
    # constraints
    form = lambda t, k: (lambda n: (n[0], n[1] + -k))(S.normal(t))
    eqs = [form(t, k) for t, r, k in cons if r == "="]
    ge = [form(t, k) if r == ">=" else tuple(map(neg, form(t, k))) for t, r, k in cons if r != "="]
    left = match(R, [(S.normal(e), True, "an equality", MISSING) for e in S.eqs], eqs, diffs)
    lefti = match(R, [(S.normal(e), False, "an inequality", MISSING) for e in S.ineqs], ge, diffs)
    # bounds
    for x in S.names:
        if x in S.known:
            continue
        for w, spec, sg in (("lo", S.lower, 1), ("up", S.upper, -1)):
            what = f"the {'lower' if sg > 0 else 'upper'} bound of {x}"
            default = ("0" if S.nonneg and w == "lo" else "-inf" if w == "lo" else "inf")
            got = bounds.get(x, {}).get(w)
            explicit = got is not None
            if got is None:
                got = "0" if w == "lo" else "inf"
            want = spec.get(x)
            got = Real({}) if got == "0" else got
            want2 = Real({}) if want is None and default == "0" else default if want is None else Real.of(want)
            if isinstance(got, Real) and isinstance(want2, Real) and same(R, got, want2) or isinstance(got, str) and got == want2:
                continue
            if want is not None and not explicit:
                f = S.normal({x: sg})
                f = (f[0], f[1] + (-Real.of(want) if sg > 0 else Real.of(want)))
                hit = next((i for i, h in enumerate(lefti) if equal(R, f, h)), None)
                if hit is not None:
                    lefti.pop(hit)
                    continue
                diffs.append((MISSING, f"{what} is not in the file"))
            elif want is None and x not in used and not explicit:
                continue
            elif want is None and x in S.semi and explicit is False:
                diffs.append((WRONG, f"{what} is {got!r} in the file although it has none") if not S.nonneg else (WRONG, f"{what} is {got!r}"))
            else:
                diffs.append((WRONG, f"{what} is {got!r} in the file, not {want2!r}"))
    for f in left + lefti:
        if clean(R, f)[0]:
            diffs.append((WRONG, f"the file has a constraint that is not in the problem: {show(f)}"))
    return diffs


def neg(v):
    return {x: -y for x, y in v.items()} if isinstance(v, dict) else -v


def judge_lp(R, S, P):
    bad = [(BAD, b) for b in dict.fromkeys(P.bad)]
    if bad:
        return bad
    fv = sorted(P.vars)
    order = R.order
    conv = {}
    for x in fv:
        if x in S.names:
            conv[x] = x
        elif x[:1] == "x" and x[1:].isdigit() and int(x[1:]) < len(order):
            conv[x] = order[int(x[1:])]
    best = None
    cands = [conv] if len(conv) == len(fv) and len(set(conv.values())) == len(fv) else []
    d = compare_lp(R, S, P, conv) if cands else None
    if d == []:
        return []
    if len(fv) > len(S.names):
        return d if d is not None else [(WRONG, "the file has more variables than the problem")]
    for p in permutations(S.names, len(fv)):
        e = compare_lp(R, S, P, dict(zip(fv, p)))
        if not e or not any(w != KNOWNONLY for w, _ in e):
            return e
        if d is None or len(e) < len(d) and not cands:
            d = e
    return d


# -- linear programs -------------------------------------------------------------
def lp_host(prog, S):
    m = {n: Named(n, idx=i) for i, n in enumerate(S.names)}
    by = lambda d: {m[x]: v for x, v in d.items()}
    h = Host(prog, "InflationLP", verbose=0, default_non_negative=S.nonneg, _lp_has_been_generated=True, One=m["1"],
             known_moments=by(S.known), semiknown_moments={m[x]: (f, m[y]) for x, (f, y) in S.semi.items()}, objective=by(S.obj),
             moment_lowerbounds=by(S.lower), moment_upperbounds=by(S.upper), monomials=[m[n] for n in S.names], supports_problem=False,
             compmonomial_to_idx={m[n]: i for i, n in enumerate(S.names)}, n_columns=len(S.names), maximize=True)
    hooks = {"objective_by_name": lambda R, s: dict(S.obj), "known_vars_by_name": lambda R, s: dict(S.known),
             "semiknown_by_name": lambda R, s: dict(S.semi), "moment_equalities_by_name": lambda R, s: [dict(e) for e in S.eqs],
             "moment_inequalities_by_name": lambda R, s: [dict(e) for e in S.ineqs], "lowerbounds_by_name": lambda R, s: dict(S.lower),
             "upperbounds_by_name": lambda R, s: dict(S.upper), "monomial_names": lambda R, s: Arr.of(list(S.names), "names"),
             "moment_equalities": lambda R, s: [by(e) for e in S.eqs], "moment_inequalities": lambda R, s: [by(e) for e in S.ineqs]}
    return h, attributes(prog, h, hooks)


def attributes(prog, h, hooks):
    """values that are plain attributes in the source, not properties"""
    for n in list(hooks):
        if prog.lookup(prog.cls(h.cname), n) is None:
            h.attrs[n] = hooks.pop(n)(None, h)
    return hooks


LP = {"all components": {}, "no bounds, no relations": dict(lower={}, upper={}, semi={}, ineqs=[{"1": c("g0"), "B": c("gB")}]),
      "free variables": dict(nonneg=False), "known objective": dict(obj={"1": rsym("o0"), "K": c("oK")}, eqs=[{"A": c("eA"), "B": c("eB")}], ineqs=[]),
      "no objective": dict(obj={}, upper={}, semi={}), "only inequalities": dict(eqs=[], semi={}, upper={}),
      "two relations": dict(semi={"S": (c("s"), "A"), "B": (c("t"), "C")}, lower={"S": rsym("lS"), "A": rsym("lA")}, upper={"S": rsym("uS")}, obj={"S": c("oS"), "C": c("oC")}),
      "bounds of known moments": dict(lower={"K": rsym("lK"), "A": rsym("lA")}, upper={"K": rsym("uK"), "B": rsym("uB")}),
      "constraint between known moments": dict(eqs=[{"1": c("e0"), "K": c("eK")}, {"A": c("fA"), "B": c("fB")}], ineqs=[{"B": c("gB"), "1": c("g0")}], semi={}, lower={}, upper={})}


def start(R):
    R.texts, R.files, R.saved = textmod, {}, None
    R.LIMIT = 400000


def lp_paths(prog, S, ext, limit=1500):
    box = {}

    def go(R):
        start(R)
        h, hooks = lp_host(prog, S)
        R.hooks.update(hooks)
        R.order = list(S.names)
        h.attr(R, "write_to_file").call(R, ["out." + ext], {})
        f = R.files.get("out." + ext)
        if f is None or len(R.files) != 1:
            raise Und("the file written was not found")
        P = (read_lp if ext == "lp" else read_mps)(R, f.items)
        return judge_lp(R, S, P)
    yield from paths(prog, go, hooks={}, limit=limit)


def run_lp(rep, prog, ext, label, rules):
    S = Spec(**LP[label])
    verdict(rep, f"InflationLP.write_to_file .{ext}", label, lp_paths(prog, S, ext), rules)


def verdict(rep, con, label, gen, rules):
    """rules: kind of difference -> rule; kinds not listed belong to another property"""
    n = 0
    for R, res in gen:
        n += 1
        if isinstance(res, Und):
            for r in sorted(set(rules.values())):
                rep.undecided(r, con, f"{label}: {res}")
            return
        if isinstance(res, Raised):
            r = rules.get(BAD) or sorted(set(rules.values()))[0]
            rep.violation(r, con, f"{label}: fails with {res}")
            return
        hits = [(k, w) for k, w in res if k in rules]
        for k in sorted({k for k, _ in hits}):
            w = next(w for q, w in hits if q == k)
            rep.violation(rules[k], con if k not in (KNOWNONLY, SEMIBOUND) else con, w)
        rep.functions |= R.funcs
        if hits:
            return
    rep.count("paths", n)
    for r in sorted(set(rules.values())):
        rep.held(r, con, f"{label}: {n} paths")


# -- semidefinite programs ---------------------------------------------------------
def sdp_spec(**k):
    S = Spec(names=["1", "A", "B", "K", "S"], lower={"A": rsym("lA"), "B": rsym("lB")}, upper={"A": rsym("uA")},
             matrix=[["1", "A", "K"], ["A", "B", "S"], ["K", "S", "A"]], idx={"0": 0, "1": 1, "A": 2, "B": 3, "K": 4, "S": 5}, zero=False)
    S.__dict__.update(k)
    if S.zero:
        S.names = ["0"] + S.names
        S.known = {"0": 0, **S.known}
    return S


SDP = {"all components": {}, "zero entries": dict(zero=True, matrix=[["1", "A", "0"], ["A", "B", "S"], ["0", "S", "K"]]),
       "nothing known": dict(names=["1", "A", "B"], known={"1": 1}, semi={}, matrix=[["1", "A", "B"], ["A", "A", "B"], ["B", "B", "A"]],
                             eqs=[{"1": c("e0"), "A": c("eA")}], ineqs=[{"B": c("hB"), "A": c("hA")}]),
       "only constraints": dict(lower={}, upper={}), "only lower bounds": dict(upper={}, eqs=[], ineqs=[]), "only upper bounds": dict(lower={}, eqs=[], ineqs=[], upper={"A": rsym("uA"), "B": rsym("uB")}),
       "relation to a moment outside of the matrix": dict(names=["1", "A", "B", "S"], known={"1": 1}, matrix=[["1", "S", "B"], ["S", "S", "B"], ["B", "B", "1"]],
                                                          idx={"1": 1, "S": 2, "B": 3, "A": 4}, obj={"1": rsym("o0"), "B": c("oB")}, eqs=[{"S": c("eS"), "B": c("eB")}],
                                                          ineqs=[], lower={"B": rsym("lB")}, upper={}),
       "constraint between known moments": dict(eqs=[{"1": c("e0"), "K": c("eK")}, {"A": c("fA"), "B": c("fB")}], ineqs=[{"K": c("hK"), "1": c("h0")}], lower={}, upper={}),
       "bounds of proportional moments": dict(lower={"S": rsym("lS")}, upper={"A": rsym("uA"), "S": rsym("uS")}, eqs=[], ineqs=[]),
       "bounds of known moments": dict(lower={"K": rsym("lK"), "B": rsym("lB")}, upper={"K": rsym("uK"), "A": rsym("uA")}, eqs=[], ineqs=[])}


FEW = dict(obj={"1": 2, "A": rsym("oA~"), "B": -3}, eqs=[{"1": 2.5, "A": -1, "K": 2}, {"A": 1, "B": -2}], ineqs=[{"1": -0.5, "B": 1}, {"B": 3, "S": -2, "K": -1}],
           lower={"A": 0, "B": -0.25}, upper={"A": 0.75})
CSV = {"objective": dict(FEW, obj={"1": rsym("o0"), "A": c("oA"), "B": c("oB")}), "known objective": dict(FEW, obj={"1": rsym("o0"), "K": c("oK")}),
       "equalities": dict(FEW, eqs=[{"1": c("e0"), "A": c("eA"), "K": 2}, {"A": c("fA"), "B": -1}]),
       "inequalities": dict(FEW, ineqs=[{"1": 1, "B": c("gB")}, {"B": c("hB"), "S": c("hS"), "K": 2}]),
       "bounds": dict(FEW, lower={"A": rsym("lA"), "B": rsym("lB")}, upper={"A": rsym("uA"), "K": rsym("uK")}), "no constraints": dict(FEW, eqs=[], ineqs=[], lower={}, upper={}),
       "zero entries": dict(FEW, zero=True, matrix=[["1", "A", "0"], ["A", "B", "S"], ["0", "S", "K"]]),
       "nothing known": dict(FEW, **{k: v for k, v in SDP["nothing known"].items() if k not in ("eqs", "ineqs")}, eqs=[{"1": -1, "A": 1}], ineqs=[{"B": 3, "A": -2}])}


def sdp_host(prog, S):
    m = {n: Named(n, idx=S.idx[n], is_zero=n == "0", is_one=n == "1") for n in S.names}
    by = lambda d: {m[x]: v for x, v in d.items()}
    mat = [[S.idx[x] for x in row] for row in S.matrix]
    inmat = {x for row in S.matrix for x in row}
    h = Host(prog, "InflationSDP", verbose=0, One=m["1"], Zero=m.get("0"), known_moments=by(S.known), semiknown_moments={m[x]: (f, m[y]) for x, (f, y) in S.semi.items()},
             objective=by(S.obj), moment_lowerbounds=by(S.lower), moment_upperbounds=by(S.upper), moments=[m[n] for n in S.names],
             momentmatrix_has_a_zero=S.zero, momentmatrix_has_a_one=True, _relaxation_has_been_generated=True, maximize=True, n_vars=len(S.names))
    hooks = {"_processed_objective": lambda R, s: by(dict({"1": 0}, **S.obj)), "moment_equalities": lambda R, s: [by(e) for e in S.eqs],
             "moment_inequalities": lambda R, s: [by(e) for e in S.ineqs]}
    h.attrs["_mat"] = mat
    return h, attributes(prog, h, hooks)


def judge_sdpa(R, S, D):
    if D.bad:
        return [(BAD, b) for b in dict.fromkeys(D.bad)]
    used = {x for row in S.matrix for x in row}
    unknown = []
    for x in S.names:
        y = S.semi[x][1] if x in S.semi and x not in S.known else x
        if y not in S.known and y not in unknown:
            unknown.append(y)
    if D.nvars < len(unknown):
        return [(MISSING, f"the file has {D.nvars} variables for {len(unknown)} unknown moments")]
    if D.nvars > len(unknown):
        return [(BAD, f"the file announces {D.nvars} variables for {len(unknown)} unknown moments")]
    best = None
    for p in permutations(unknown):
        d = compare_sdpa(R, S, D, {i + 1: x for i, x in enumerate(p)})
        if not d:
            return []
        if best is None or len(d) < len(best):
            best = d
    return best


def compare_sdpa(R, S, D, name):
    diffs = []
    objective(R, {name[i + 1]: v for i, v in enumerate(D.cost)}, Real({}), S.normal(S.obj)[0], Real({}), diffs, False)
    forms = {}
    for (v, b, i, j), x in D.entries.items():
        t, k = forms.setdefault((b, i, j), ({}, Real({})))
        if v == 0:
            forms[(b, i, j)] = (t, k + -x)
        else:
            t[name[v]] = t.get(name[v], Real({})) + x
    n = len(S.matrix)
    main = next((b + 1 for b, s in enumerate(D.blocks) if s == n), None)
    if main is None:
        return diffs + [(MISSING, "the moment matrix is not in the file")]
    empty = ({}, Real({}))
    for i in range(n):
        for j in range(i, n):
            e, f = S.normal({S.matrix[i][j]: 1}), forms.pop((main, i + 1, j + 1), empty)
            if not equal(R, e, f):
                gone = not clean(R, f)[0] and f[1].decided_zero(R)
                diffs.append((MISSING if gone else WRONG, f"entry ({i + 1}, {j + 1}) of the moment matrix is {show(f)}, not {show(e)}"))
    if any(b == main for b, _, _ in forms):
        diffs.append((WRONG, "entries of the moment matrix below the diagonal"))
    got = [f for f in forms.values() if clean(R, f)[0] or not f[1].decided_zero(R)]
    wanted = []
    for q in S.eqs:
        e = S.normal(q)
        wanted += [(x, False, "an equality", MISSING) for x in (e, tuple(map(neg, e)))]
    wanted += [(S.normal(q), False, "an inequality", MISSING) for q in S.ineqs]
    for kind, sg, bs in (("lower", 1, S.lower), ("upper", -1, S.upper)):
        for x, v in bs.items():
            f = S.normal({x: sg})
            e = (f[0], f[1] + (-Real.of(v) if sg > 0 else Real.of(v)))
            if clean(R, f)[0]:
                wanted.append((e, False, f"the {kind} bound of {x}", SEMIBOUND if x in S.semi else MISSING))
            else:
                got = [g for g in got if not equal(R, e, g)]
    for f in match(R, wanted, got, diffs):
        diffs.append((WRONG, f"the file has a constraint that is not in the problem: {show(f)}"))
    return diffs


def sdp_paths(prog, S, ext, judge, limit=1500):
    def go(R):
        start(R)
        h, hooks = sdp_host(prog, S)
        h.attrs["momentmatrix"] = R.asarr(h.attrs.pop("_mat"))
        R.hooks.update(hooks)
        h.attr(R, "write_to_file").call(R, ["out." + ext], {})
        return judge(R, S)
    yield from paths(prog, go, hooks={}, limit=limit)


def sdpa(R, S):
    f = R.files.get("out.dat-s")
    if f is None or len(R.files) != 1:
        raise Und("the file written was not found")
    return judge_sdpa(R, S, read_sdpa(R, f.items))


def run_sdp(rep, prog, ext, label, rules):
    verdict(rep, f"InflationSDP.write_to_file .{ext}", label, sdp_paths(prog, sdp_spec(**(CSV if ext == "csv" else SDP)[label]), ext, {"dat-s": sdpa, "mat": mat, "csv": csv}[ext]), rules)


# -- MAT -------------------------------------------------------------------------
def plain(R, v):
    """nested lists"""
    if isinstance(v, Arr):
        return [plain(R, x) for x in R.iterate(v)]
    if isinstance(v, (list, tuple)):
        return [plain(R, x) for x in v]
    return v


def mat(R, S):
    d = R.saved
    if not isinstance(d, dict):
        raise Und("the data written was not found")
    diffs = []
    need = ("momentmatrix", "objective", "known_moments", "semiknown_moments", "moment_lowerbounds", "moment_upperbounds", "moment_equalities", "moment_inequalities", "moments_idx2name")
    for k in need:
        if k not in d:
            return [(MISSING, f"{k} is not in the file")]
    off = 1 if S.zero else 0
    ix = {n: i + off for n, i in S.idx.items()}
    eqv = lambda a, b: (Real.of(a) is not None and Real.of(b) is not None and same(R, a, b)) if isinstance(a, Real) or isinstance(b, Real) else a == b

    def table(key, want, optional=()):
        rows = [list(r) for r in plain(R, d[key])]
        for w in want:
            hit = next((r for r in rows if len(r) == len(w) and all(eqv(a, b) for a, b in zip(r, w))), None)
            if hit is not None:
                rows.remove(hit)
                continue
            if w in optional:
                continue
            near = next((r for r in rows if r and r[0] == w[0]), None)
            if near is not None:
                rows.remove(near)
            diffs.append((MISSING, f"{key}: the record {w} is {'written as ' + repr(near) if near else 'not in the file'}"))
        for r in rows:
            diffs.append((BAD, f"{key}: unexpected record {r}"))
    zero_ok = [[ix[x], v] for x, v in S.obj.items() if Real.of(v).decided_zero(R)]
    table("objective", [[ix[x], v] for x, v in S.obj.items()], zero_ok)
    table("known_moments", [[ix[x], v] for x, v in S.known.items()])
    table("semiknown_moments", [[ix[x], f, ix[y]] for x, (f, y) in S.semi.items()])
    table("moment_lowerbounds", [[ix[x], v] for x, v in S.lower.items()])
    table("moment_upperbounds", [[ix[x], v] for x, v in S.upper.items()])
    table("moments_idx2name", [[ix[x], x] for x in S.names])
    m = plain(R, d["momentmatrix"])
    if not all(m[i][j] == ix[S.matrix[i][j]] for i in range(3) for j in range(3)):
        diffs.append((BAD, "the entries of the moment matrix are not the numbers of its moments"))
    for key, want in (("moment_equalities", S.eqs), ("moment_inequalities", S.ineqs)):
        got = [x for x in plain(R, d[key])]
        for i, q in enumerate(want):
            w = {ix[x]: v for x, v in q.items()}
            ok = None
            for g in got:
                ms, cs = plain(R, g["moments"]), plain(R, g["coeffs"])
                if len(ms) == len(cs) and set(ms) == set(w) and all(eqv(b, w[a]) for a, b in zip(ms, cs)):
                    ok = g
                    break
            if ok is None:
                diffs.append((MISSING, f"{key}: a constraint is not in the file with its coefficients"))
            else:
                got.remove(ok)
        if got and not diffs:
            diffs.append((BAD, f"{key}: unexpected constraint"))
    return diffs


# -- CSV ----------------------------------------------------------------------------
def csv(R, S):
    f = R.files.get("out.csv")
    if f is None or len(R.files) != 1:
        raise Und("the file written was not found")
    ls = lines(f.items)
    if not ls or "".join(c for c in ls[0][:10] if isinstance(c, str)) != "Objective:":
        return [(BAD, "the first record is not the objective")]
    diffs = []

    def total(items, where):
        """sum of number*name terms"""
        from sa.formats import lex
        out, sgn, i = {}, 1, 0
        toks = lex(items)
        need = False
        while i < len(toks):
            k, v = toks[i][0], toks[i][1]
            if k == "op" and v in "+-":
                sgn, i, need = (sgn if v == "+" else -sgn), i + 1, False
                continue
            if need:
                if not (k == "num" and isinstance(toks[i][2], Num) and v.sign(R) < 0):
                    diffs.append((BAD, f"{where}: two terms without a sign between them"))
                    return out
            if k == "num":
                if i + 2 < len(toks) and toks[i + 1][:2] == ("op", "*") and toks[i + 2][0] == "name":
                    out[toks[i + 2][1]] = out.get(toks[i + 2][1], Real({})) + (v if sgn > 0 else -v)
                    i += 3
                else:
                    out["1"] = out.get("1", Real({})) + (v if sgn > 0 else -v)
                    i += 1
            elif k == "name":
                out[v] = out.get(v, Real({})) + Real.of(sgn)
                i += 1
            else:
                diffs.append((BAD, f"{where}: unexpected {v}"))
                return out
            sgn, need = 1, True
        return out

    def agree(got, want, where, key):
        for x in sorted(set(got) | set(want)):
            g, w = got.get(x), want.get(x)
            if w is None:
                if not g.decided_zero(R):
                    diffs.append((BAD, f"{where}: unexpected term of {x}"))
            elif g is None:
                if not Real.of(w).decided_zero(R):
                    diffs.append((MISSING, f"{where}: the term of {x} is not in the file"))
            elif not same(R, g, w):
                diffs.append((MISSING, f"{where}: the coefficient of {x} is {g!r}, not {w!r}"))
    agree(total(ls[0][10:], "objective"), S.obj, "objective", 0)
    heads = {"Bounds:": None, "Equalities": None, "Inequalities": None}
    for i, l in enumerate(ls):
        t = "".join(c for c in l if isinstance(c, str))
        for h in heads:
            if t.startswith(h):
                heads[h] = i
    if None in heads.values():
        return [(MISSING, f"the section {next(h for h, v in heads.items() if v is None)} is not in the file")]
    b, e, q = heads["Bounds:"], heads["Equalities"], heads["Inequalities"]

    def cells(l):
        out, cur = [], []
        for ch in l + [","]:
            if ch == ",":
                out.append(cur)
                cur = []
            elif ch != " ":
                cur.append(ch)
        return out
    rows = [cells(l) for l in ls[1:b]]
    n = len(S.matrix)
    if len(rows) != n or any(len(r) != n for r in rows):
        return [(BAD, "the rows of the moment matrix are not complete")]
    for i in range(n):
        for j in range(i, n):
            x = S.matrix[i][j]
            want = {"1": Real.of(S.known[x])} if x in S.known else {S.semi[x][1]: S.semi[x][0]} if x in S.semi else {x: Real.of(1)}
            agree(total(rows[i][j], f"matrix entry ({i + 1}, {j + 1})"), want, f"matrix entry ({i + 1}, {j + 1})", 0)
    brow = {}
    for l in ls[b + 2:e]:
        if l:
            r = cells(l)
            nm = "".join(c for c in r[0] if isinstance(c, str)).strip("'")
            if len(r) != 3 or nm in brow:
                diffs.append((BAD, f"bounds: the record of {nm} is not 'variable,lower,upper'"))
                continue
            brow[nm] = r[1:]
    for w, spec, word in ((0, S.lower, "lower"), (1, S.upper, "upper")):
        for x in S.names:
            cell = brow.get(x, [None, None])[w]
            none = cell is None or "".join(c for c in cell if isinstance(c, str)) in ("None", "") and not any(isinstance(c, Num) for c in cell)
            if x in spec:
                if none:
                    diffs.append((MISSING, f"the {word} bound of {x} is not in the file"))
                else:
                    agree(total(cell, f"{word} bound of {x}"), {"1": Real.of(spec[x])}, f"{word} bound of {x}", 0)
            elif not none:
                diffs.append((BAD, f"{x} has a {word} bound in the file"))
    for lo, hi, spec, word in ((e + 1, q, S.eqs, "equality"), (q + 1, len(ls), S.ineqs, "inequality")):
        got = [total(l, word) for l in ls[lo:hi] if l]
        for i, w in enumerate(spec):
            hit = next((g for g in got if set(g) == set(w) and all(same(R, g[x], w[x]) for x in w)), None)
            if hit is None:
                diffs.append((MISSING, f"an {word} is not in the file with its coefficients"))
            else:
                got.remove(hit)
        if got and not diffs:
            diffs.append((BAD, f"unexpected {word}"))
    return diffs


def jobs(prog, first, lp_rules, sdpa_rules, other_rules):
    out = []
    for label in LP:
        for ext in ("lp", "mps"):
            out.append((first, f"InflationLP.write_to_file .{ext}", run_lp, (prog, ext, label, lp_rules)))
    for label in SDP:
        out.append((first, "InflationSDP.write_to_file .dat-s", run_sdp, (prog, "dat-s", label, sdpa_rules)))
    for ext, labels in (("mat", SDP), ("csv", CSV)) if other_rules else ():
        for label in labels:
            out.append((first, f"InflationSDP.write_to_file .{ext}", run_sdp, (prog, ext, label, other_rules)))
    return out


def check(prog, rep, tier):
    rep.rule(B1, "for symbolic coefficients of every sign pattern, every objective term, constraint, relation and bound has a record in the file read back by the rules of its format")
    rep.rule(B2, "every record of the file is a complete record of the format")
    rep.rule(B3, "constraints all of whose moments are known are in the file as well")
    rep.rule(B4, "bounds of moments that are proportional to another moment are in the file as well")
    for n in ("InflationSDP", "InflationLP"):
        prog.cls(n)
        if prog.lookup(prog.cls(n), "write_to_file") is None:
            rep.undecided(B1, f"{n}.write_to_file", "method not found")
            return
    rep.jobs(jobs(prog, B1, {MISSING: B1, BAD: B2, KNOWNONLY: B3}, {MISSING: B1, BAD: B2, KNOWNONLY: B3, SEMIBOUND: B4}, {MISSING: B1, BAD: B2}), 300)
