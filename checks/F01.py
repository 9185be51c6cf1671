"""A numeric objective and success are reported only for a successful solve; every way out reports a status."""
from sa.api import *
from sa.model import AnchorMissing

FUSION = "mosek.fusion."
SDP_SCEN = [("PrimalAndDualFeasible", "ProblemStatus.PrimalAndDualFeasible", None, True)] + \
           [(s, "ProblemStatus." + s, None, False) for s in ("PrimalInfeasible", "DualInfeasible", "PrimalAndDualInfeasible", "IllPosed",
                                                            "PrimalInfeasibleOrUnbounded", "PrimalFeasible", "DualFeasible", "Unknown")] + \
           [("exception " + e, "ProblemStatus.Unknown", e, False) for e in ("OptimizeError", "SolutionError", "RuntimeError")] + \
           [("exception SolutionError, claimed " + s, "ProblemStatus." + s, "SolutionError", False) for s in ("Unknown", "PrimalInfeasible")]
LP_SCEN = [("optimal", "solsta.optimal", None, True)] + \
          [(s, "solsta." + s, None, False) for s in ("unknown", "prim_feas", "dual_feas", "prim_and_dual_feas", "prim_infeas_cer",
                                                    "dual_infeas_cer", "prim_illposed_cer", "dual_illposed_cer")]
STAT, OBJ = ("@status",), ("@objval",)


def stage(I, enum, exc, flags):
    """the solver answers with the status of the scenario"""
    name = (FUSION if enum.startswith("Problem") else "mosek.") + enum

    def status(I, st, nm, args, kwargs, node, deps):
        flags.setdefault("asked", True)
        return V(fn=frozenset([("ext", name)]), d=frozenset([STAT]))

    def sol_status(I, st, nm, args, kwargs, node, deps):
        flags.setdefault("asked", True)
        return unk([STAT])

    def solution(I, st, nm, args, kwargs, node, deps):
        flags.setdefault("asked", True)
        items = [unk() for _ in range(13)]
        items[1] = status(I, st, nm, args, kwargs, node, deps)
        return I.new_list(st, node, items, kind="tuple", extra="sol")

    def obj(I, st, nm, args, kwargs, node, deps):
        return V(f=frozenset([Term(1, (OBJ,), E)]), d=frozenset([OBJ]))

    def solve(I, st, nm, args, kwargs, node, deps):
        flags["solved"] = True
        if exc:
            from sa.interp import Dead
            flags["raising"] = True
            I.may_raise(st, exc)
            flags["raising"] = False
            raise Dead()
        return NONE

    def nothing(I, st, nm, args, kwargs, node, deps):
        return None
    I.ext_hooks.update({"().getProblemStatus": status, "().getsolution": solution, "().getsolsta": status, "().getPrimalSolutionStatus": sol_status,
                        "().getDualSolutionStatus": sol_status, "().getprimalobj": obj, "().getdualobj": obj, "().primalObjValue": obj,
                        "().dualObjValue": obj, "().solve": solve, "().optimize": solve})


def scenario(rep, prog, cls, label, enum, exc, good, dual):
    I, st, me = mk(prog, cls, stub=False, budget=1500000)
    flags = {}
    stage(I, enum, exc, flags)
    orig = I.compare
    fuzzy = []

    def cmp(st, op, a, b, n):
        v = orig(st, op, a, b, n)
        if v.const is None and (STAT in I.deps(st, a) or STAT in I.deps(st, b)):
            fuzzy.append(I.where(n))
        return v
    I.compare = cmp
    mr = I.may_raise

    def may_raise(st, kind, guard=None):        # nothing else goes wrong in this scenario
        if not flags.get("raising") and (kind == "ext" or not I.tries or any("*" in t["types"] for t in I.tries)):
            return False
        return mr(st, kind, guard)
    I.may_raise = may_raise
    con = f"{cls}.solve(solve_dual={dual}), solver answers {label}"
    r = apply(I, st, me, ("solve", "solve", (), {"solve_dual": dual}))
    rep.seen(I)
    if "solved" not in flags and "asked" not in flags:
        rep.undecided("numeric-objective", con, "the call of the external solver was not recognised")
        return
    if not r:
        if exc and not any(True for _ in ()):
            rep.violation("status-missing", con, "the error of the solver is not turned into a status", prog.method(cls, "solve").qual)
        elif good:
            rep.undecided("numeric-objective", con, "never returns normally")
        else:
            rep.violation("status-missing", con, "no status is reported: the call fails", prog.method(cls, "solve").qual)
        return
    suc, ov, po, stt = (self_attr(I, st, n) for n in ("success", "objective_value", "primal_objective", "status"))
    if suc.const is None or suc.const[0] not in ("bool", "NoneType"):
        if fuzzy or ("bool", True) not in suc.c:
            rep.undecided("numeric-objective", con, f"success could not be evaluated ({suc})"[:200])
            return
        rep.violation("numeric-objective", con, "success may be reported as true", prog.method(cls, "solve").qual) if not good else None
        return
    numeric = any(l == OBJ or mentions(l, OBJ[0]) for v in (ov, po) for l in all_labels(I, st, v) | set(I.deps(st, v)))
    if not good:
        if suc.const[1]:
            rep.violation("numeric-objective", con, "success is reported as true", prog.method(cls, "solve").qual)
        elif numeric and not fuzzy:
            rep.violation("numeric-objective", con, "the objective value of the solver is reported", prog.method(cls, "solve").qual)
        elif I.maybe_none(st, stt) == {True} or is_absent_only(stt):
            rep.violation("status-missing", con, "the status reported is None", prog.method(cls, "solve").qual)
        else:
            rep.held("numeric-objective", con, "success false, no numeric objective")
    else:
        if not suc.const[1]:
            rep.violation("numeric-objective", con, "an optimal solution is reported as unsuccessful", prog.method(cls, "solve").qual)
        elif not numeric and not ov.u:
            rep.violation("numeric-objective", con, "the objective value is not the one of the solver", prog.method(cls, "solve").qual)
        else:
            rep.held("numeric-objective", con, "success true, objective value of the solver")


def check(prog, rep, tier):
    rep.rule("numeric-objective", "solve() interpreted down to the external solver, for each status the solver can answer with (and for exceptions it can throw): "
                                  "success is true and the objective value is the solver's exactly for the optimal status")
    rep.rule("status-missing", "whatever the external solver answers or throws (SDP), solve() returns and has stored a status")
    jobs = []
    for cls, scen in (("InflationLP", LP_SCEN), ("InflationSDP", SDP_SCEN)):
        prog.method(cls, "solve")
        for label, enum, exc, good in scen:
            for dual in (True, False):
                jobs.append(("numeric-objective", f"{cls}.solve / {label} / {dual}", lambda r, *a: scenario(r, prog, *a), (cls, label, enum, exc, good, dual)))
    rep.jobs(jobs)
