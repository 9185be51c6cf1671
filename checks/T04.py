"""Exported files state the problem with the right sense and values: the same evaluation as T03, wrong coefficients and directions instead of absent records."""
from checks.T03 import WRONG, jobs

A = "sense-and-value"


def check(prog, rep, tier):
    rep.rule(A, "for symbolic coefficients of every sign pattern, what the file states about the moments, read by the rules of its format, is what the problem states: direction of the "
                "inequalities and of the objective, sign and value of coefficients, constants and bounds, substitution of known and proportional moments")
    for n in ("InflationSDP", "InflationLP"):
        prog.cls(n)
        if prog.lookup(prog.cls(n), "write_to_file") is None:
            rep.undecided(A, f"{n}.write_to_file", "method not found")
            return
    rep.jobs(jobs(prog, A, {WRONG: A}, {WRONG: A}, None), 300)
