"""Reset puts a group back to the state of a freshly built program, in every form of the request."""
from sa.api import *
from checks.F03 import construct
from checks.H01 import solve_summary

VAL = ("known_moments", "semiknown_moments", "extra_equalities", "extra_inequalities")
OBJ = ("objective", "maximize")
UP, LO = ("moment_upperbounds",), ("moment_lowerbounds",)
GROUPS = {"values": VAL, "objective": OBJ, "upperbounds": UP, "lowerbounds": LO, "bounds": UP + LO, "all": VAL + OBJ + UP + LO}
SET = [("set_values($A)", "set_values", ("$A",), {}, VAL[:2]), ("set_values($A, lpi)", "set_values", ("$A",), {"use_lpi_constraints": True}, VAL[:2]),
       ("update_values($A)", "update_values", ("$A",), {}, VAL[:2]), ("set_distribution($A)", "set_distribution", ("$A",), {}, VAL[:2]),
       ("set_extra_equalities($A)", "set_extra_equalities", ("$A",), {}, VAL[2:3]), ("set_extra_inequalities($A)", "set_extra_inequalities", ("$A",), {}, VAL[3:]),
       ("set_objective($A, max)", "set_objective", ("$A", "max"), {}, OBJ), ("set_objective($A, min)", "set_objective", ("$A", "min"), {}, OBJ),
       ("set_bounds($A, up)", "set_bounds", ("$A", "up"), {}, UP), ("set_bounds($A, lo)", "set_bounds", ("$A", "lo"), {}, LO)]
SUP = ("empty", frozenset([("supports_problem",)]))


def base(prog, cls):
    """-> I, st, program object, ok: freshly built program, values not describing supports"""
    import checks.F03 as f3
    real = f3.Interp

    def make(*a, **k):
        I = real(*a, **k)
        force(I, {SUP: True})
        return I
    f3.Interp = make
    try:
        I, st, me = construct(prog, cls, 4000000)
    finally:
        f3.Interp = real
    if me is None:
        return None
    if cls == "InflationSDP" and not apply(I, st, me, ("generate_relaxation", "generate_relaxation", ("$G",), {})):
        return None
    return I, st, me


def attrs(I, st, me):
    return I.get(st, next(iter(me.r))).attrs


def one(rep, prog, cls, todo, core):
    b = base(prog, cls)
    if b is None:
        rep.undecided("restored", f"{cls}(...)", "construction not understood")
        return
    I, st0, me = b
    n0 = len(I.unknowns or ())
    fresh = {n: canon(I, st0, v) for n, v in attrs(I, st0, me).items()}
    rep.seen(I)
    for ops, req in todo:
        st = st0.copy()
        con = f"{cls}(...); " + "; ".join(o[0] for o in ops)
        ok = True
        for o in ops:
            ok = ok and apply(I, st, me, o[:4])
        con += f"; reset({req!r})"
        if not ok:
            rep.undecided("restored", con, "a setter never returns normally")
            continue
        f = prog.method(cls, "reset")
        before = {n: canon(I, st, attrs(I, st, me)[n]) for n in SPEC if n in attrs(I, st, me)}
        if not apply(I, st, me, ("reset", "reset", (req,) if req != () else (), {})):
            rep.undecided("restored", con, "reset never returns normally")
            continue
        blind = [u for u in list(I.unknowns or ())[n0:] if "cut" in str(u[0])]
        groups = ("all",) if req == () else (req,) if isinstance(req, str) else tuple(req)
        want = {c for g in groups for c in GROUPS[g]}
        # whatever else a solve reads and these calls changed belongs to the group as well
        changed = {c for o in ops for c in o[4]}
        allg = "all" in groups or changed <= want
        now = attrs(I, st, me)
        for n in sorted(want | (set(core) & set(fresh) & set(now) if allg else set())):
            v = now.get(n)
            c = canon(I, st, v) if v is not None else "absent"
            if c == fresh.get(n):
                rep.held("restored", f"{con} / {n}")
                continue
            labels = {l for l in all_labels(I, st, v) | set(I.deps(st, v)) if mentions(l, "A")} if v is not None else ()
            why = f"still depends on {sorted(map(repr, labels))[0][:80]}" if labels else "differs from what a freshly built program holds"
            if n not in want and not labels:
                rep.undecided("restored", f"{con} / {n}", why)
            elif blind:
                rep.undecided("restored", f"{con} / {n}", str(blind[0])[:150])
            elif unknown_value(v):
                rep.undecided("restored", f"{con} / {n}", "value not understood")
            else:
                rep.violation("restored", f"{con} / {n}", f"after the reset {n} {why}", f.qual)


        for n in sorted(set(before) - want):
            v = now.get(n)
            if v is not None and canon(I, st, v) == before[n]:
                rep.held("others-kept", f"{con} / {n}")
            elif blind or unknown_value(v):
                rep.undecided("others-kept", f"{con} / {n}", str(blind[:1])[:150])
            else:
                rep.violation("others-kept", f"{con} / {n}", f"resetting {' and '.join(groups)} changes {n}", f.qual)


def unknown_value(v):
    return v is not None and bool(v.u)


def plans():
    p = []
    for o in SET:
        gs = [g for g, c in GROUPS.items() if set(o[4]) <= set(c)]
        for g in gs:
            p.append(([o], g))
            p.append(([o], [g]))
        p.append(([o], ()))
    A = {o[0]: o for o in SET}
    both = [A["set_bounds($A, up)"], A["set_bounds($A, lo)"]]
    every = [A["set_values($A)"], A["set_extra_equalities($A)"], A["set_extra_inequalities($A)"], A["set_objective($A, min)"]] + both
    p += [(every, r) for g in GROUPS for r in (g, [g])]
    p += [(both, "bounds"), (both, ["bounds"]), (both, ["upperbounds", "lowerbounds"]),
          ([A["set_values($A)"]] + both, ["values", "bounds"]), ([A["set_values($A)"]] + both, ["bounds", "values"]),
          ([A["set_objective($A, min)"], A["set_values($A)"]], ["values", "objective"]), ([A["set_objective($A, min)"], A["set_values($A)"]], ["objective", "values"]),
          ([A["set_extra_equalities($A)"], A["set_extra_inequalities($A)"]], "values"), ([A["set_extra_equalities($A)"], A["set_extra_inequalities($A)"]], ["values"]),
          (every, ()), (every, ["objective", "values", "bounds"]), (every, ["lowerbounds", "objective"])]
    return p


def supports(rep, prog, cls):
    """where values are represented by lower bounds, resetting (or replacing) the values touches those bounds again"""
    for nxt in (("reset('values')", "reset", ("values",), {}), ("reset(['values'])", "reset", (["values"],), {}), ("reset('all')", "reset", ("all",), {}),
                ("set_values(None)", "set_values", (None,), {}), ("set_values($B)", "set_values", ("$B",), {}), ("set_distribution($B)", "set_distribution", ("$B",), {})):
        I, st, me = mk(prog, cls, budget=2500000)
        force(I, {("empty", frozenset([("self", "supports_problem")])): False})
        con = f"{cls}, supports problem: set_values($A); {nxt[0]}"
        if not apply(I, st, me, ("set_values($A)", "set_values", ("$A",), {})):
            rep.undecided("supports-undone", con, "never returns normally")
            continue
        low = {l for l in all_labels(I, st, self_attr(I, st, "moment_lowerbounds")) if mentions(l, "A")}
        if not low:
            rep.held("supports-undone", con, "values are not represented by lower bounds")
            continue
        at, seen = Attrs(), []

        def hook(I, st, ev):
            a = at.of(I, st, ev)
            if a and a[0] == "moment_lowerbounds" and (ev.kind in ("attr", "delattr", "delitem", "item") or ev.kind == "mut"):
                v = ev.data.get("val")
                key = ev.data.get("key")
                late = v is not None and any(mentions(l, "B") for l in all_labels(I, st, v)) or key is not None and isinstance(key, V) and any(mentions(l, "B") for l in all_labels(I, st, key))
                if not late:
                    seen.append(ev)
        I.hooks.append(hook)
        f = prog.method(cls, nxt[1])
        if not apply(I, st, me, nxt):
            rep.undecided("supports-undone", con, "never returns normally")
        elif seen:
            rep.held("supports-undone", con)
        else:
            rep.violation("supports-undone", con, "the lower bounds that represent the values set first stay in force: nothing modifies moment_lowerbounds", f.qual)
        rep.seen(I)


def check(prog, rep, tier):
    rep.rule("restored", "on a freshly built program: after setting components and resetting their group (by name, inside a list, or everything), every attribute of the group, "
                         "and everything else a solve reads, has the canonical content it had before")
    rep.rule("others-kept", "and every user-specified component of another group has the canonical content it had before the reset")
    got = rep.jobs(("restored", cls, lambda r, c: solve_summary(prog, c, r), (cls,)) for cls in CLASSES)
    rep.rule("supports-undone", "in a supports problem, where set values become lower bounds, resetting or replacing the values removes or restores entries of the lower bounds")
    ps = plans()
    jobs = [("supports-undone", cls, lambda r, c: supports(r, prog, c), (cls,)) for cls in CLASSES]
    for cls, g in zip(CLASSES, got):
        core = set(g[1]) - set(g[2]) if g else set()
        n = 2 if cls == "InflationLP" else 6
        for i in range(n):
            jobs.append(("restored", f"{cls} {i}", lambda r, *a: one(r, prog, *a), (cls, ps[i::n], core)))
    rep.jobs(jobs)
