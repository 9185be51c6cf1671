"""The linear program handed to MOSEK, block by block, in every mode and for every subset of components."""
import itertools
from sa.blocks import *

FLAGS = ("solve_dual", "default_non_negative", "relax_known_vars", "relax_inequalities")
SIG = ("maxnumcon", "maxnumvar", "c", "cfix", "aptrb", "aptre", "asub", "aval", "bkc", "blc", "buc", "bkx", "blx", "bux")
COMPS = ("objective", "known_vars", "inequalities", "equalities", "lower_bounds", "upper_bounds")
NAME = {"objective": "objective", "known_vars": "known values", "inequalities": "inequalities", "equalities": "equalities", "lower_bounds": "lower bounds", "upper_bounds": "upper bounds"}


class Undecided(Exception):
    pass


def bk(e):
    if isinstance(e, Ext) and ".boundkey." in e.path:
        return e.path.rsplit(".", 1)[1]
    raise Undecided(f"bound key {e!r}")


def modename(m):
    return ("dual" if m["solve_dual"] else "primal") + "".join(" " + f for f in FLAGS[1:] if m[f])


def window(B, arr, off, n):
    """content of positions off .. off+n of a vector, as one (constant or whole) content per segment"""
    if not isinstance(arr, Arr) or arr.perm or arr.ilv:
        raise Undecided("vector not derived")
    try:
        head, rest = B.split(arr.segs, off)
        mid, tail = B.split(rest, n)
    except Misaligned:
        raise Wrong("the parts of a vector do not line up with the rows they describe")
    if not mid:
        raise Wrong("a vector is shorter than the number of rows")
    return mid


def colarr(B, x):
    c = B.colarr(x) if not isinstance(x, U) else None
    if c is None:
        if isinstance(x, Arr) and not x.perm and not x.ilv and x.n not in (B.nv, B.nv + Lin(1)):
            raise Wrong(f"a vector over the variables has {x.n!r} entries")
        raise Undecided("vector over the variables not derived")
    return c


class Task:
    def __init__(self, B, mode):
        self.B, self.mode = B, mode
        ins = [(a, k) for p, a, k in B.calls if p.endswith(".inputdata")]
        if len(ins) != 1:
            raise Undecided(f"{len(ins)} calls of inputdata")
        a, k = ins[0]
        d = dict(zip(SIG, a))
        d.update(k)
        if set(SIG) - set(d):
            raise Undecided("arguments of inputdata missing")
        if any(isinstance(x, U) for x in d.values()):
            raise Undecided("an argument of inputdata was not derived: " + ", ".join(n for n, x in d.items() if isinstance(x, U)))
        self.d = d
        if any(p.rsplit(".", 1)[-1] in ("putaij", "putarow", "putacol", "putaijlist", "putconbound", "putvarbound", "putcj", "appendcons", "appendvars", "putclist", "putobj", "putcfix",
                                         "putvarboundlist", "putconboundlist", "putvarboundslice", "putconboundslice", "chgvarbound", "chgconbound", "putcslice") for p, _, _ in B.calls):
            raise Undecided("the task is also changed by other calls")
        m = d["aval"]
        if not (isinstance(m, tuple) and m[0] == "spdata" and isinstance(d["asub"], tuple) and d["asub"][0] == "indices" and d["asub"][1] is m[1]
                and isinstance(d["aptrb"], tuple) and isinstance(d["aptre"], tuple) and d["aptrb"][1] is m[1] and d["aptre"][1] is m[1]):
            raise Undecided("matrix argument not recognised")
        if (d["aptrb"][0], d["aptre"][0]) != ("ptrb", "ptre"):
            raise Wrong("the column pointers are not the start and end pointers of the matrix")
        self.M = m[1]
        self.sense = None
        for p, a, k in B.calls:
            if p.endswith(".putobjsense"):
                x = (a or list(k.values()))[0]
                self.sense = x.path.rsplit(".", 1)[-1] if isinstance(x, Ext) else None
        if self.sense is None:
            self.sense = "minimize"
        dual = mode["solve_dual"]
        # matrix[con, var] whatever the storage
        bs = self.M.batches()
        csc = self.M.fmt == "csc"
        if csc:
            tb, shape = [(n, r, c, v) for n, r, c, v in bs], self.M.shape
        else:
            tb, shape = [(n, c, r, v) for n, r, c, v in bs], self.M.shape[::-1]
        self.tshape = shape
        self.entries = [(n, c, r, v) for n, r, c, v in tb] if dual else tb


def expect_rows(mode, present):
    """component -> [(sense, relaxed)] the rows it must contribute"""
    rows = {}
    if "inequalities" in present:
        rows["inequalities"] = [(">", mode["relax_inequalities"])]
    if "equalities" in present:
        rows["equalities"] = [("=", False)]
    if "known_vars" in present:
        rows["known_vars"] = [(">", True), ("<", True)] if mode["relax_known_vars"] else [("=", False)]
    if mode["solve_dual"]:
        if "lower_bounds" in present:
            rows["lower_bounds"] = [(">", False)]
        if "upper_bounds" in present:
            rows["upper_bounds"] = [("<", False)]
    return rows


def blocks_of(T):
    """-> [(component, first row, number of rows, sign, slack coefficient)]"""
    B = T.B
    slacks, out = [], []
    for n, con, var, val in T.entries:
        if isinstance(con, U) or isinstance(var, U) or isinstance(val, U):
            raise Undecided("matrix entries not derived")
        if var == B.nv:
            slacks.append((n, con, val))
            continue
        if not var.t and not atoms(var):
            raise Wrong(f"coefficients are put at the fixed variable number {var!r}")
        at = [a for a in atoms(var)]
        if len(at) != 1 or var != sym(at[0]) or at[0][0] != "col":
            if any(a[0] in ("row", "arange") for a in at) or not at:
                raise Wrong("rows and columns of the constraint matrix are exchanged" if at else "coefficients are put at a wrong variable")
            raise Undecided(f"variable numbers {var!r}")
        C = at[0][1]
        if C in B.MATS:
            if (("row", C), 1) not in con.t:
                raise Undecided(f"row numbers {con!r}")
            off = con - sym(("row", C))
            s = {sym(("data", C)): 1, sym(("data", C)).scale(-1): -1}.get(val)
            if s is None:
                raise Wrong(f"the coefficients of the {NAME[C]} are {val!r}")
            size = next((sym(x + "(" + C + ")") for x in ("filled rows", "rows") if any(k == x + "(" + C + ")" for d in T.tshape for k, v in d.t)), None)
            if size is None:
                raise Undecided("number of rows")
        else:
            if (("arange",), 1) not in con.t:
                raise Undecided(f"row numbers {con!r}") if not con.const else Wrong(f"all {NAME[C]} are put into one row")
            off = con - sym(("arange",))
            s = val.c if isinstance(val, Lin) and val.const and val.c in (1, -1) else None
            if s is None:
                raise Wrong(f"the coefficient of the {NAME[C]} is {val!r}")
            size = n
        if atoms(off):
            raise Undecided("row numbers")
        out.append([C, off, size, s, None])
    for n, con, val in slacks:
        off = con - sym(("arange",))
        nonneg = lambda x: positive(x) or x == Lin(0)
        total = Lin(0)
        for b in out:
            if nonneg(b[1] - off) and nonneg(off + n - b[1] - b[2]):
                if b[4] is not None:
                    raise Wrong("two slack entries in one row")
                b[4] = val.c if val.const else None
                if b[4] not in (1, -1):
                    raise Wrong(f"slack coefficient {val!r}")
                total = total + b[2]
        if total != n:
            raise Wrong("the rows of the slack entries are not those of whole components")
    return out


def one_task(rep, con, T, present):
    B, mode = T.B, T.mode
    dual = mode["solve_dual"]
    relaxed = mode["relax_known_vars"] or mode["relax_inequalities"]
    say = Say(rep, con)
    d = T.d
    bl = blocks_of(T)
    rows = Lin()
    for b in bl:
        rows = rows + b[2]
    width = B.nv + Lin(1 if relaxed else 0)
    want_shape = (width, rows) if dual else (rows, width)
    for nm, a, w in (("number of constraints", lin(d["maxnumcon"]), want_shape[0]), ("number of variables", lin(d["maxnumvar"]), want_shape[1])):
        say.check("size", nm, a == w, f"is given as {a!r}, but the blocks have {w!r}")
    say.check("objective", "constant of the objective", plain(lin(d["cfix"])) == 0, "is not zero")
    say.check("objective", "sense", T.sense == ("minimize" if dual else "maximize"), f"the problem is a {T.sense[:-1]}ation")
    # --- rows
    want = {k: list(v) for k, v in expect_rows(mode, present).items()}
    cert = []
    for C, off, n, s, slack in bl:
        w = want.get(C)
        if not w:
            say.check("row", NAME[C], False, "more rows than the formulation has")
            continue
        # which of the expected rows this is
        if len(w) > 1 or w[0][1] and C == "known_vars":
            if slack is None:
                say.check("slack", NAME[C], False, "the relaxed rows have no slack")
                continue
            sense = ">" if slack * s > 0 else "<"
            hit = next((x for x in w if x[0] == sense), None)
            if hit is None:
                say.check("slack", NAME[C], False, f"both relaxed rows have the slack of a {'lower' if sense == '>' else 'upper'} limit")
                continue
            w.remove(hit)
        else:
            sense, rel = w.pop(0)
            if rel:
                say.check("slack", NAME[C], slack is not None and slack == s, "the slack is missing or has the wrong sign")
            else:
                say.check("slack", NAME[C], slack is None, "has a slack variable although it is not relaxed")
        b = sym(("data", C)).scale(s) if C not in B.MATS else Lin(0)
        low = sense == ">" and s > 0 or sense == "<" and s < 0
        if dual:
            key = "fr" if sense == "=" else "up" if low else "lo"
            for k, *e in [(n2, *x) for n2, *x in align(window(B, arr_of(d["bkx"], B), off, n), window(B, arr_of(d["blx"], B), off, n), window(B, arr_of(d["bux"], B), off, n), window(B, arr_of(d["c"], B), off, n))]:
                kk, lo, up, c = e
                say.check("row-sense", NAME[C], bk(kk) == key, f"the multiplier is {words(bk(kk))} where it must be {words(key)}")
                if key in ("lo", "up"):
                    say.check("row-sense", NAME[C] + " limit", (lo if key == "lo" else up) == Lin(0), "the multiplier is not bounded by zero")
                if isinstance(c, U):
                    raise Undecided("objective of the dual")
                say.check("row-value", NAME[C], c == b, f"contributes {c!r} to the dual objective instead of {b!r}")
        else:
            key = "fx" if sense == "=" else "lo" if low else "up"
            for k, kk, lo, up in align(window(B, arr_of(d["bkc"], B), off, n), window(B, arr_of(d["blc"], B), off, n), window(B, arr_of(d["buc"], B), off, n)):
                if isinstance(lo, U) or isinstance(up, U):
                    raise Undecided("right-hand side")
                say.check("row-sense", NAME[C], bk(kk) == key, f"rows are {words(bk(kk))} where they must be {words(key)}")
                say.check("row-value", NAME[C], (key == "up" or lo == b) and (key == "lo" or up == b), f"the right-hand side is {lo!r}/{up!r} instead of {b!r}")
        if C == "known_vars":
            cert.append((off, s))
    for C, w in want.items():
        say.check("row", NAME[C], not w, "no rows for this component" if len(w) == len(expect_rows(mode, present)[C]) else "one of the two relaxed rows is missing")
    # --- variables
    obj = {r: sym(("data", "objective")) if "objective" in r and not relaxed else Lin(0) for r in B.regions}
    objs = Lin(-1) if relaxed else None
    variants = (False,) if not mode["default_non_negative"] else (True, False) if relaxed else (True,)
    if dual:
        c = colarr(B, d["blc"]), colarr(B, d["buc"])
        keys = colarr(B, d["bkc"])
        fails = []
        for dnn in variants:
            f = []
            for r in list(B.regions) + (["slack"] if relaxed else []):
                get = lambda x: x.slack if r == "slack" else x.regs[r]
                k, lo, up = bk(get(keys)), get(c[0]), get(c[1])
                if isinstance(lo, U) or isinstance(up, U):
                    raise Undecided("right-hand side of the dual")
                w = objs if r == "slack" else obj[r]
                wk = "fx" if r == "slack" or not dnn or "lower_bounds" in r else "lo"
                if k != wk:
                    f.append(("variable-sense", label(r), f"the dual constraint is {words(k)} where it must be {words(wk)}"))
                if lo != w or wk == "fx" and up != w:
                    f.append(("objective", label(r), f"the dual constraint has the value {lo!r} instead of {w!r}"))
            fails.append(f)
    else:
        c = colarr(B, d["c"])
        for r in list(B.regions) + (["slack"] if relaxed else []):
            x, w = (c.slack, objs) if r == "slack" else (c.regs[r], obj[r])
            if isinstance(x, U):
                raise Undecided("objective")
            say.check("objective", label(r), x == w, f"the objective coefficient is {x!r} instead of {w!r}")
        keys, lo, up = colarr(B, d["bkx"]), colarr(B, d["blx"]), colarr(B, d["bux"])
        fails = []
        for dnn in variants:
            f = []
            for r in list(B.regions) + (["slack"] if relaxed else []):
                get = lambda x: x.slack if r == "slack" else x.regs[r]
                k = bk(get(keys))
                l = None if r == "slack" else sym(("data", "lower_bounds")) if "lower_bounds" in r else Lin(0) if dnn else None
                u = None if r == "slack" else sym(("data", "upper_bounds")) if "upper_bounds" in r else None
                wk = {(0, 0): "fr", (1, 0): "lo", (0, 1): "up", (1, 1): "ra"}[l is not None, u is not None]
                if any(isinstance(get(x), U) for x in (lo, up)):
                    raise Undecided("bounds of the variables")
                if k != wk:
                    f.append(("variable-sense", label(r), f"is {words(k)} where it must be {words(wk)}"))
                if l is not None and get(lo) != l:
                    f.append(("variable-bound", label(r), f"the lower bound is {get(lo)!r} instead of {l!r}"))
                if u is not None and get(up) != u:
                    f.append(("variable-bound", label(r), f"the upper bound is {get(up)!r} instead of {u!r}"))
            fails.append(f)
    best = min(fails, key=len)
    for rule in ("variable-sense", "variable-bound"):
        if not any(x[0] == rule for x in best):
            rep.held(rule, con)
    for rule, what, msg in best:
        say.check(rule, what, False, msg)
    return cert


def result(rep, con, T, present, cert, r):
    B, mode = T.B, T.mode
    dual = mode["solve_dual"]
    say = Say(rep, con)
    if not isinstance(r, dict):
        raise Undecided("result is not a dictionary")
    for key, w in (("primal_value", "dualobj" if dual else "primalobj"), ("dual_value", "primalobj" if dual else "dualobj")):
        v = r.get(key)
        if isinstance(v, Ext) and v.path.startswith("solution."):
            say.check("result", key, v.path == "solution." + w, f"is the {v.path[9:]} of the solver")
    x = r.get("x")
    if isinstance(x, tuple) and x and x[0] == "zipdict" and len(x) == 3 and isinstance(x[2], Arr):
        ok = len(x[2].segs) == 1 and x[2].segs[0][1] == sym(("y", "y" if dual else "xx", Lin(0)))
        say.check("result", "x", ok and isinstance(x[1], Ext), "does not pair the variables with their values in the solution")
    c = r.get("dual_certificate")
    if isinstance(c, tuple) and c and c[0] == "zipdict" and isinstance(c[2], ColArr):
        c = c[2]
        for reg in B.regions:
            v = c.regs[reg]
            if isinstance(v, U):
                rep.undecided("result", f"{con}: certificate, {label(reg)}", "entry not derived")
                continue
            w = Lin()
            if "known_vars" in reg:
                for off, s in cert:
                    w = w + sym(("y", "xx" if dual else "y", off)).scale(s)
            elif "objective" in reg:
                w = sym(("data", "objective")).scale(-1)
            say.check("result", "certificate, " + label(reg), v == w, f"the entry is {v!r} instead of {w!r}")


def arr_of(x, B):
    if isinstance(x, list):
        return B.np(x)
    if isinstance(x, Arr):
        return Arr(x.segs, "np", x.perm, x.ilv)
    if isinstance(x, ColArr):
        raise Wrong("a vector over the variables is used for the rows")
    raise Undecided("vector not derived")


def words(k):
    return {"fr": "free", "lo": "bounded below", "up": "bounded above", "ra": "bounded on both sides", "fx": "fixed"}.get(k, k)


def label(r):
    return "slack variable" if r == "slack" else "variables with " + (" and ".join(sorted(NAME[x] for x in r)) if r else "no entry in any component")


class Say:
    seen = {}

    def __init__(self, rep, con):
        self.rep, self.con = rep, con

    def check(self, rule, what, ok, msg):
        if ok:
            self.rep.held(rule, f"{self.con}: {what}")
        else:
            mode = self.con.split(" | ")[0]
            key = (rule, mode, what, msg)
            if key not in Say.seen:
                Say.seen[key] = self.con
                self.rep.violation(rule, f"{mode}: {what}", msg + f" (components present: {self.con.split(' | ')[1]})", WHERE[0])


WHERE = [""]


def one(rep, prog, mode, blank):
    f = prog.find_func("solveLP_sparse")
    WHERE[0] = f"{f.mod.rel}:{f.node.lineno}"
    names = {a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}
    for r in range(7):
        for present in itertools.combinations(COMPS, r):
            if not present and blank:
                continue
            con = f"{modename(mode)} | {', '.join(NAME[c] for c in present) or 'none'}{'' if not blank else ' (others omitted)'}"
            B = Blocks(prog, present, blank)
            args = {c: B.component(c) for c in COMPS if not (blank and c not in present)}
            args.update({k: mode[k] for k in FLAGS if k in names})
            args.update({k: v for k, v in (("verbose", 0), ("solverparameters", None), ("variables", Ext("variables", "v"))) if k in names})
            rep.count("combinations")
            try:
                res = B.call(f, [], args)
                rep.functions |= B.seen
                T = Task(B, mode)
                cert = one_task(rep, con, T, present)
                result(rep, con, T, present, cert, res)
            except Wrong as e:
                Say(rep, con).check("assembly", "constraint data", False, str(e))
            except (Undecided, Giveup) as e:
                rep.undecided("assembly", con, str(e)[:200])
            except Raised:
                Say(rep, con).check("assembly", "constraint data", False, "an error is raised for a valid combination of components")


def check(prog, rep, tier):
    rep.rule("row", "every block of rows of the constraint matrix belongs to one component, in the numbers the formulation has")
    rep.rule("row-sense", "the rows of the block (primal) or their multipliers (dual) have the bound key of the component's sense")
    rep.rule("row-value", "right-hand side (primal) or dual objective (dual) of the block are the component's values, or zero")
    rep.rule("slack", "the slack variable occurs in relaxed blocks only, with the sign that relaxes them")
    rep.rule("variable-sense", "bound keys of the variables (primal) or senses of the dual constraints follow from the bounds present and the default sign")
    rep.rule("variable-bound", "values of the bounds sit at their own variables")
    rep.rule("objective", "objective coefficients and direction of optimisation")
    rep.rule("size", "the numbers of constraints and variables are those of the blocks")
    rep.rule("assembly", "vectors that are combined have the same length; the matrix is in the storage form MOSEK expects")
    rep.rule("result", "values, variables and certificate entries are read from the matching parts of the solution")
    prog.find_func("solveLP_sparse")
    modes = [dict(zip(FLAGS, m)) for m in itertools.product((False, True), repeat=4)]
    rep.jobs([("assembly", modename(m) + (" blank" if b else ""), one, (prog, m, b)) for m in modes for b in (False, True)])
