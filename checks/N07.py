"""Critical values: the searches are evaluated against a program whose verdicts are unknown (any critical value); the result is compared with the verdicts."""
import sa.nd as ndmod
from sa.nd import Nd, asarray
from sa.finite import paths, Host, Hook, Native, FSet, T, Und, Raised, Ext
from checks.T03 import verdict
from checks.A02 import begin

A, B, C, D, E = "values-at-the-parameter", "options-of-the-search", "critical-value", "last-certificate", "refused-requests"
BAD = {x: x for x in (A, B, C, D, E)}


def plain(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def number(R, x):
    if isinstance(x, Nd):
        x = x.flat[0] if len(x.flat) == 1 else x
    if isinstance(x, Affine) and not x.a:
        x = x.b
    if not plain(x):
        raise Und(f"number {x!r}"[:60])
    return x


class Affine(Native):
    """a * parameter + b"""
    def __init__(self, a, b, p="v"):
        self.a, self.b, self.p = a, b, p

    def __repr__(self):
        return f"{self.a}*{self.p}+{self.b}"

    def at(self, v):
        return self.a * v + self.b

    def arith(self, R, op, o, flip):
        if isinstance(o, Nd):
            return NotImplemented if len(o.flat) != 1 else self.arith(R, op, o.flat[0], flip)
        if isinstance(o, Affine):
            if op in "+-" and o.p == self.p:
                x, y = (o, self) if flip else (self, o)
                s = 1 if op == "+" else -1
                return Affine(x.a + s * y.a, x.b + s * y.b, self.p)
            raise Und("product of the parameter")
        if isinstance(o, bool) or not plain(o):
            raise Und(f"arithmetic with {o!r}"[:60])
        if op == "+":
            return Affine(self.a, self.b + o, self.p)
        if op == "-":
            return Affine(-self.a, o - self.b, self.p) if flip else Affine(self.a, self.b - o, self.p)
        if op == "*":
            return Affine(self.a * o, self.b * o, self.p)
        if op == "/" and not flip:
            return Affine(self.a / o, self.b / o, self.p)
        raise Und(f"{op} of the parameter")

    def equals(self, R, o):
        return isinstance(o, Affine) and (self.a, self.b, self.p) == (o.a, o.b, o.p)

    def truth(self, R):
        return True

    def attr(self, R, n):
        par = Affine(1, 0, self.p)
        if n == "atoms":
            return Hook(lambda R, *k: FSet([PARS[self.p]] if self.a else []))
        if n == "free_symbols":
            return FSet([PARS[self.p]] if self.a else [])
        if n in ("evalf", "subs", "n"):
            def f(R, *a, subs=None):
                d = subs if subs is not None else a[0] if a and isinstance(a[0], dict) else dict([a]) if len(a) == 2 else None
                if d is None:
                    return self
                v = next((x for k, x in d.items() if isinstance(k, Affine) and k.p == self.p), None)
                return self if v is None else Affine(0, self.at(number(R, v)), self.p)
            return Hook(f)
        raise Und(f"attribute {n} of an expression")


PARS = {"v": Affine(1, 0, "v"), "w": Affine(1, 0, "w")}


class Key(Native):
    def __init__(self, name):
        self.name = name

    def text(self, R):
        return self.name

    def attr(self, R, n):
        if n == "name":
            return self.name
        raise Und(f"attribute {n} of a moment")

    def equals(self, R, o):
        return o is self


class Prog:
    """the program that is searched: for each value of the parameter an unknown verdict, the feasible values are an interval"""
    def __init__(self, R, keys, exprs, margin, steps, bounds):
        self.R, self.keys, self.exprs, self.margin, self.steps, self.bounds = R, keys, exprs, margin, steps, bounds
        self.best, self.worst = float("-inf"), float("inf")       # greatest value known feasible, least known infeasible
        self.given, self.log, self.faults, self.solved, self.roots = None, [], [], None, []
        self.host = Host(None, None)
        self.host.closed = True
        self.host.attrs.update(set_values=Hook(self.set_values), solve=Hook(self.solve), certificate_as_dict=Hook(self.certificate),
                               update_values=Hook(self.update))

    def update(self, R, *a, **k):
        raise Und("update of values")

    def set_values(self, R, values=None, **kw):
        if not isinstance(values, dict):
            raise Und("values")
        self.solved = None
        for n in ("objective_value", "solution_object", "success", "status"):
            self.host.attrs.pop(n, None)
        got = {(k.name if isinstance(k, Key) else k): number(R, v) for k, v in values.items()}
        if set(got) != {k.name for k in self.keys}:
            self.faults.append((A, f"the program gets values of {sorted(got)} instead of {sorted(k.name for k in self.keys)}"))
            raise Und("values")
        k, e = next((k, e) for k, e in zip(self.keys, self.exprs) if isinstance(e, Affine) and e.a)
        v = (got[k.name] - e.b) / e.a
        for k, e in zip(self.keys, self.exprs):
            w = e.at(v) if isinstance(e, Affine) else e
            if abs(got[k.name] - w) > 1e-12:
                self.faults.append((A, f"{k.name} = {got[k.name]} instead of {w} (the other moments have the parameter {v})"))
        self.given = v
        self.log.append(["values", v, dict(kw)])

    def solve(self, R, *a, **kw):
        if a:
            raise Und("positional options of solve")
        if self.given is None:
            self.faults.append((A, "the program is solved before it gets values"))
            raise Und("no values")
        v = self.given
        if v <= self.best:
            ok = True
        elif v >= self.worst or any(v > r for r in self.roots):
            ok = False
        elif v == self.bounds[0]:
            ok = True
        elif v == self.bounds[1]:
            ok = False
        else:
            ok = R.boolean("feasible", v)
        if ok:
            self.best = max(self.best, v)
            obj, root = self.margin, None
        else:
            self.worst = min(self.worst, v)
            obj, root = -1.0, None
            if self.steps is not None:
                lo = max(self.best, self.bounds[0])
                if not v > lo:
                    raise Und("values outside the bounds")
                opts = sorted({max(lo, v - s) for s in self.steps})
                root = R.choose(("certificate", v), opts)
                self.best = max(self.best, lo)
                self.worst = min(self.worst, v)
                self.roots.append(root)
        cert = {k.name: 0.0 for k in self.keys}
        if root is not None:
            # c_k (a v + b) + c_1: zero at the root, negative beyond
            k, e = next((k, e) for k, e in zip(self.keys, self.exprs) if isinstance(e, Affine) and e.a)
            cert[k.name] = -4.0 / e.a
            one = next(k for k in self.keys if k.name == "1")
            cert["1"] = 4.0 * root + 4.0 * e.b / e.a
        elif ok and not self.margin:
            cert = {}
        self.solved = (v, ok, root, cert)
        self.host.attrs.update(objective_value=obj, primal_objective=obj, success=True, status="feasible", solution_object={"dual_certificate": cert, "success": True, "status": "feasible", "primal_value": obj})
        self.log.append(["solve", v, dict(kw)])

    def certificate(self, R, *a, **k):
        if a or k or self.solved is None:
            raise Und("certificate")
        return {kk: v for kk, v in self.solved[3].items()} if self.steps is not None else {"certificate of": self.solved[0]} if self.solved[3] else {}


def bisect(R, f, a, b, args=(), xtol=2e-12, rtol=1e-15, maxiter=100, full_output=False, disp=True):
    """a root of a function that has different signs at the ends, up to the precision"""
    if full_output or R.iterate(args):
        raise Und("bisect")
    R.searched = {"xtol": xtol, "rtol": rtol, "maxiter": maxiter, "disp": disp}
    a, b = number(R, a), number(R, b)
    R.between = (a, b)
    fa, fb = number(R, R.call(f, [a], {})), number(R, R.call(f, [b], {}))
    if fa * fb > 0:
        raise Raised("ValueError")
    if not fa or not fb:
        return a if not fa else b
    while b - a > number(R, xtol):
        m = (a + b) / 2
        fm = number(R, R.call(f, [m], {}))
        if not fm:
            return m
        a, b = (m, b) if (fm > 0) == (fa > 0) else (a, m)
    return (a + b) / 2


def minimize(R, fun, x0, args=(), method=None, bounds=None, constraints=(), options=None, tol=None, **k):
    """the best point of an interval under affine conditions"""
    par = PARS["v"]
    lb, ub = float("-inf"), float("inf")
    if isinstance(bounds, Limits):
        lb, ub = bounds.lb, bounds.ub
    elif bounds is not None:
        (lo, hi), = [tuple(R.iterate(x)) for x in R.iterate(bounds)]
        lb, ub = [s if x is None else number(R, x) for x, s in ((lo, lb), (hi, ub))]
    if R.iterate(args) or k:
        raise Und("minimize")
    at = lambda f: next(g for g in [R.call(f, [Nd((1,), [par])], {})])
    for c in [constraints] if isinstance(constraints, dict) else R.iterate(constraints):
        if not isinstance(c, dict) or c.get("type") != "ineq":
            raise Und("constraint")
        g = single(at(c["fun"]))
        g = g if isinstance(g, Affine) else Affine(0, g)
        if g.a > 0:
            lb = max(lb, -g.b / g.a)
        elif g.a < 0:
            ub = min(ub, -g.b / g.a)
        elif g.b < 0:
            ub = float("-inf")
    o = single(at(fun))
    o = o if isinstance(o, Affine) else Affine(0, o)
    if ub < lb:
        R.between = (lb, lb)
        return Result(lb if lb > float("-inf") else number(R, single(x0)), 0.0)
    x = ub if o.a < 0 else lb if o.a > 0 else number(R, single(x0))
    if x in (float("inf"), float("-inf")):
        raise Und("unbounded search")
    R.between = (lb, ub)
    return Result(x, o.at(x))


def single(x):
    if isinstance(x, Nd):
        if len(x.flat) != 1:
            raise Und("more than one parameter")
        return x.flat[0]
    if isinstance(x, (list, tuple)):
        return single(x[0])
    return x


class Result(Native):
    def __init__(self, x, fun):
        self.d = {"x": Nd((1,), [x]), "fun": fun, "success": True, "status": 0}

    def item(self, R, i):
        if i in self.d:
            return self.d[i]
        raise Und("result of minimize")

    def attr(self, R, n):
        return self.item(R, n)


class Limits(Native):
    def __init__(self, R, lb, ub, keep_feasible=False):
        self.lb, self.ub = number(R, single(lb)), number(R, single(ub))


def lambdify(R, args, expr, modules=None, cse=False, **k):
    if not isinstance(expr, Affine):
        return Hook(lambda R, *a: expr)

    def f(R, *a):
        v = single(a[0])
        if isinstance(v, Affine):
            return Affine(expr.a * v.a, expr.a * v.b + expr.b, v.p)
        return expr.at(number(R, v))
    return Hook(f)


def isinst(R, o, cs):
    cs_ = cs if isinstance(cs, tuple) else (cs,)
    last = [getattr(c, "path", "").rsplit(".", 1)[-1] for c in cs_]
    if isinstance(o, (Affine, int, float)) and not isinstance(o, bool) and all(x in ("Real", "Number", "Expr", "Basic", "float", "int", "Symbol", "Rational", "Integral", "floating", "integer") for x in last):
        if isinstance(o, Affine):
            return bool({"Expr", "Basic"} & set(last)) or "Symbol" in last and (o.a, o.b) == (1, 0) or "Number" in last and any("sympy" in getattr(c, "path", "") for c in cs_) and not o.a
        return bool({"Real", "Number"} & set(last)) or type(o).__name__ in last
    h = R.hooks.pop("isinstance")
    try:
        return R.ext("builtins.isinstance", [o, cs], {})
    finally:
        R.hooks["isinstance"] = h


def hooks():
    def tofloat(R, x=0):
        x = single(x)
        if isinstance(x, Affine):
            if x.a:
                raise Raised("TypeError")
            return float(x.b)
        if isinstance(x, T):
            return x
        return float(number(R, x)) if not isinstance(x, str) else float(x)
    return {"bisect": bisect, "minimize": minimize, "Bounds": Limits, "lambdify": lambdify, "isinstance": isinst, "float": tofloat,
            "str": lambda R, x="": x.name if isinstance(x, Key) else x if isinstance(x, str) else str(number(R, x))}


EXPRS = {"two moments": (["p", "q", "1"], [("v", 0.5, 0.25), ("v", -2.0, 1.0), 1]),
         "a known moment": (["k", "p", "1"], [0.5, ("v", 1.0, 0.0), ("c", 1.0)])}


def expression(e):
    if isinstance(e, tuple):
        return Affine(e[1], e[2]) if e[0] == "v" else Affine(0, e[1])
    return e


def run(rep, prog, method, which, bounds, precision, margin, steps, opts, last):
    lo, hi = bounds or (0.0, 1.0)
    prec = opts.get("xtol", precision or 1e-4)

    def go(R):
        begin(R)
        R.texts = __import__("sa.text", fromlist=["x"])
        names, es = EXPRS[which]
        keys, exprs = [Key(n) for n in names], [expression(e) for e in es]
        P = Prog(R, keys, exprs, margin, steps, (lo, hi))
        values = dict(zip(keys, exprs))
        kw = dict(opts)
        if bounds:
            kw["bounds"] = Nd((2,), [lo, hi]) if last else [lo, hi]
        if precision:
            kw["precision"] = precision
        if last:
            kw["return_last_certificate"] = True
        f = prog.func("max_within_feasible", "inflation.optimization_utils")
        try:
            res = R.call(f, [P.host, values, method], kw)
        except (Und, Raised):
            if P.faults:
                return P.faults
            if P.roots and min(P.roots) >= hi - 2 * prec:
                return []       # the upper end is not told apart from a feasible one
            raise
        out = P.faults
        d = f"{method}, {which}, between {lo} and {hi}, verdicts " + ", ".join(f"{v:.5g}" for k, v, _ in P.log if k == "solve")[:90]
        # options
        for k, v, got in P.log:
            if k == "values":
                for n, dflt in (("use_lpi_constraints", False), ("only_specified_values", False)):
                    if got.get(n, dflt) is not opts.get(n, dflt):
                        out.append((B, f"{d}: the values are set with {n}={got.get(n, dflt)} instead of {opts.get(n, dflt)}"))
            else:
                for n, dflt in (("solve_dual", True), ("solverparameters", None)):
                    if got.get(n, dflt) is not opts.get(n, dflt):
                        out.append((B, f"{d}: the program is solved with {n}={got.get(n, dflt)} instead of {opts.get(n, dflt)}"))
                if got.get("feas_as_optim", False) is not True:
                    out.append((B, f"{d}: the program is not solved as an optimisation of feasibility"))
        if method == "bisection":
            for n in ("xtol", "rtol", "maxiter", "disp"):
                if n in opts and R.searched.get(n) != opts[n]:
                    out.append((B, f"{d}: {n}={R.searched.get(n)} instead of {opts[n]}"))
        if any(not lo - 1e-12 <= v <= hi + 1e-12 for k, v, _ in P.log if k == "values"):
            out.append((B, f"{d}: values outside the bounds are tried"))
        # result
        cert = None
        if last:
            if not isinstance(res, tuple) or len(res) != 2:
                return out + [(D, f"{d}: no certificate is returned")]
            res, cert = res
        elif isinstance(res, tuple):
            return out + [(D, f"{d}: more than the value is returned")]
        v = number(R, single(res))
        if method == "bisection":
            if not P.best - prec <= v <= P.worst + prec or P.worst - P.best > 2 * prec:
                out.append((C, f"{d}: {v} is returned, feasible up to {P.best}, infeasible from {P.worst}, precision {prec}"))
            if last and not (isinstance(cert, dict) and abs(cert.get("certificate of", 9) - v) <= 2 * prec):
                out.append((D, f"{d}: the certificate is {cert}, the value {v}"))
        else:
            top = min(P.roots)
            if v < top - 1e-12:
                out.append((C, f"{d}: {v} is returned although the values up to {top} are not excluded by any certificate"))
            if v > top + prec * (1 + 1e-9):
                out.append((C, f"{d}: {v} is returned although all values above {top} are excluded"))
            tried = [x for k, x, _ in P.log if k == "solve"]
            if min(tried) > v + 2 * prec:
                out.append((C, f"{d}: {v} is returned although the least value tried is {min(tried)} (precision {prec})"))
            if last:
                ok = isinstance(cert, dict) and {"1"} <= set(cert)
                k, e = next((k, e) for k, e in zip(keys, exprs) if isinstance(e, Affine) and e.a)
                if not ok or abs(cert[k.name] * e.at(v) + cert["1"]) > 4 * prec * (1 + 1e-9):
                    out.append((D, f"{d}: the certificate {cert} has no root near {v}"))
        return out
    verdict(rep, f"max_within_feasible {method}", f"{which}, bounds {bounds}, precision {precision}, {opts}{', with certificate' if last else ''}{', boundary' if not margin else ''}", paths(prog, go, hooks=hooks(), limit=900), BAD)


def refuse(rep, prog):
    def go(R):
        begin(R)
        R.texts = __import__("sa.text", fromlist=["x"])
        out = []
        f = prog.func("max_within_feasible", "inflation.optimization_utils")
        for what, method, exprs, verdicts in (
                ("an unknown method", "newton", [Affine(1.0, 0.0), 1], None),
                ("no parameter", "bisection", [0.5, 1], None), ("no parameter", "dual", [0.5, 1], None),
                ("two parameters", "bisection", [Affine(1.0, 0.0), Affine(1.0, 0.0, "w"), 1], None), ("two parameters", "dual", [Affine(1.0, 0.0), Affine(1.0, 0.0, "w"), 1], None),
                ("an upper end that is feasible", "bisection", [Affine(1.0, 0.0), 1], (1.0, 1.0)), ("a lower end that is infeasible", "bisection", [Affine(1.0, 0.0), 1], (-1.0, -1.0))):
            keys = [Key(n) for n in ["p", "q", "r"][:len(exprs) - 1] + ["1"]]
            P = Prog(R, keys, exprs, 1.0, None, (0.0, 1.0))
            if verdicts:
                def solve(R, *a, **k):
                    P.host.attrs["objective_value"] = verdicts[0]
                    P.solved = (0, verdicts[0] > 0, None, {"1": 1.0})
                P.host.attrs["solve"] = Hook(solve)
            try:
                R.call(f, [P.host, dict(zip(keys, exprs)), method], {"precision": 0.125})
            except Raised:
                continue
            out.append((E, f"{what} ({method}) is accepted"))
        return out
    verdict(rep, "max_within_feasible", "refused requests", paths(prog, go, hooks=hooks(), limit=50), {E: E})


def check(prog, rep, tier):
    rep.rule(A, "every verdict a search asks for is about the values of all moments at one value of the parameter, numbers unchanged")
    rep.rule(B, "values are set and the program is solved with the options that the caller gave, between the bounds of the caller")
    rep.rule(C, "for every critical value, the result is the critical value up to the precision (bisection), or the least value not excluded by the certificates up to the precision, never less (dual)")
    rep.rule(D, "the certificate that is returned is one obtained for a value within the precision of the result")
    rep.rule(E, "requests without exactly one parameter, of an unknown method, or whose bounds do not enclose the critical value are refused")
    jobs = [(E, "refused", lambda r: refuse(r, prog), ())]
    sp = T("solver parameters")
    h = 1 / 16
    fine = h / 2 if tier == "quick" else h / 8
    B_ = "bisection"
    cases = [(B_, "two moments", None, fine, 1.0, None, {}, False), (B_, "two moments", None, h, 0.0, None, {}, True), (B_, "a known moment", (-0.5, 1.5), h, 1.0, None, {}, True),
             (B_, "a known moment", (0.25, 0.5), h / 4, 0.0, None, {}, True), (B_, "a known moment", None, None, 1.0, None, {"xtol": 0.125}, False),
             (B_, "two moments", None, h, 1.0, None, {"xtol": 0.125, "rtol": 0.25, "maxiter": 50, "disp": False}, False),
             (B_, "two moments", None, h, 1.0, None, {"xtol": h / 4}, False)]
    options = [("use_lpi_constraints", True), ("only_specified_values", True), ("solve_dual", False), ("solverparameters", sp)]
    sets = [dict([o]) for o in options] + [dict(options)]
    steps = (h / 2, h, 3 * h, 8 * h)
    cases += [(B_, "two moments", None, 2 * h, 1.0, None, o, l) for o in sets for l in (False, True)]
    cases += [("dual", w, b, h, 1.0, steps, {}, l) for w in EXPRS for b in (None, (-0.5, 0.5), (0.25, 2.0)) for l in (False, True)]
    cases += [("dual", "two moments", None, h, 1.0, steps, o, l) for o in sets for l in (False, True)]
    for c in cases:
        jobs.append((C, f"{c[0]} {c[1]} {c[2]} {c[6]} {c[7]}", lambda r, *a: run(r, prog, *a), c))
    rep.jobs(jobs)
