"""A second call of a setter leaves nothing of the first."""
from sa.api import *
from checks.H07 import labels_of

VAL = ("known_moments", "semiknown_moments")
SETTERS = [("set_values", (), {}, VAL), ("set_values", (), {"use_lpi_constraints": True}, VAL), ("set_values", (), {"only_specified_values": True}, VAL), ("set_distribution", (), {}, VAL),
           ("set_objective", ("max",), {}, ("objective",)), ("set_objective", ("min",), {}, ("objective",)),
           ("set_bounds", ("up",), {}, ("moment_upperbounds",)), ("set_bounds", ("lo",), {}, ("moment_lowerbounds",)),
           ("set_extra_equalities", (), {}, ("extra_equalities",)), ("set_extra_inequalities", (), {}, ("extra_inequalities",))]


def op(s, arg):
    meth, more, kw, comp = s
    return (f"{meth}({', '.join(map(str, (arg,) + more))}{''.join(f', {k}={v}' for k, v in kw.items())})", meth, (arg,) + more, kw)


def survivors(I, st, v, test):
    return sorted({repr(l) for l in all_labels(I, st, v) | set(I.deps(st, v)) if test(l)})


def holds_base(I, st, name):
    """the component still is (or contains) what it held before"""
    root = ("self", name)
    v = self_attr(I, st, name)
    for oid in v.r:
        if I.issym(oid) and oid[1] == root:
            o = I.get(st, oid)
            if "nobase" not in o.tags:
                return "the object set earlier"
    return next((f"{l}" for l in all_labels(I, st, v) if isinstance(l, tuple) and l[:2] == root and len(l) > 2), None)


def anystate(rep, prog, cls, s, arg):
    I, st, me = mk(prog, cls, budget=1500000)
    o = op(s, arg)
    con = f"{cls}: arbitrary state; {o[0]}"
    if not apply(I, st, me, o):
        rep.undecided("no-survivor", con, "never returns normally")
        return
    rep.seen(I)
    f = prog.method(cls, s[0])
    blind = [u for u in I.unknowns or () if "cut" in str(u[0])]
    for c in s[3]:
        x = holds_base(I, st, c)
        if x and blind:
            rep.undecided("no-survivor", f"{con} / {c}", str(blind[0])[:150])
        elif x:
            rep.violation("no-survivor", f"{con} / {c}", f"{c} still contains {x}", f.qual)
        else:
            rep.held("no-survivor", f"{con} / {c}")


def pair(rep, prog, cls, s, s0, mid, arg):
    """s0(B); mid; s(A): no B in the component, nor in what the solver receives"""
    I, st, me = mk(prog, cls, budget=2500000)
    if s[3] == VAL:
        force(I, NO_SUPPORT)        # in supports problems values become lower bounds (and back); see H05
    ops = [op(s0, "$B")] + ([mid] if mid else []) + [op(s, arg)]
    con = f"{cls}: " + "; ".join(o[0] for o in ops)
    for o in ops:
        if not apply(I, st, me, o):
            rep.undecided("no-survivor", con, f"{o[0]} never returns normally")
            return
    f = prog.method(cls, s[0])
    blind = [u for u in I.unknowns or () if "cut" in str(u[0])]
    for c in s[3]:
        got = survivors(I, st, self_attr(I, st, c), lambda l: mentions(l, "B"))
        if got and blind:
            rep.undecided("no-survivor", f"{con} / {c}", str(blind[0])[:150])
        elif got:
            rep.violation("no-survivor", f"{con} / {c}", f"{c} still depends on the earlier argument ({got[0][:80]})", f.qual)
        else:
            rep.held("no-survivor", f"{con} / {c}")
    apply(I, st, me, ("solve", "solve", (), {}))
    rep.seen(I)
    for fn, args, kw, s1, ds in I.stub.calls[-1:]:
        for k, x in kw.items():
            got = survivors(I, s1, x, lambda l: mentions(l, "B"))
            if got and blind:
                rep.undecided("no-survivor-at-solver", f"{con}; solve / {k}", str(blind[0])[:150])
            elif got:
                rep.violation("no-survivor-at-solver", f"{con}; solve / {k}", f"the solver argument {k} still depends on the earlier argument ({got[0][:80]})", f.qual)
            else:
                rep.held("no-survivor-at-solver", f"{con}; solve / {k}")


def check(prog, rep, tier):
    rep.rule("no-survivor", "after a setter, run from an arbitrary state or after the same setter with a distinct argument (with or without another call between), "
                            "no label of the earlier content occurs in keys, values or dependences of the component")
    rep.rule("no-survivor-at-solver", "nor in any argument of a following solver call")
    jobs = []
    for cls in CLASSES:
        for s in SETTERS:
            prog.method(cls, s[0])
            same = [t for t in SETTERS if t[3] == s[3]]
            for arg in ("$A", None):
                jobs.append(("no-survivor", f"{cls} {s[0]}", lambda r, *a: anystate(r, prog, *a), (cls, s, arg)))
                for s0 in same if tier == "thorough" or s[3] != VAL else [t for t in same if t[0] != s[0] or t == s]:
                    jobs.append(("no-survivor", f"{cls} {s0[0]} {s[0]}", lambda r, *a: pair(r, prog, *a), (cls, s, s0, None, arg)))
            mids = [m for m in mutators(prog, cls, "C") if m[1] != "generate_relaxation"]
            for m in mids if tier == "thorough" else [m for m in mids if m[0] in ("set_values(C)", "set_bounds(C, 'up')", "set_objective(C, 'max')", "reset('values')", "update_values(C)")]:
                jobs.append(("no-survivor", f"{cls} {s[0]} {m[0]}", lambda r, *a: pair(r, prog, *a), (cls, s, s, m, "$A")))
    rep.jobs(jobs)
