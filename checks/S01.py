"""The sign of the objective on the way in and on the way out agree with the direction asked for last."""
from sa.api import *
from checks.F03 import construct


def cells(I, st, v, depth=0, seen=()):
    """numeric values held by a container (values of dicts, elements of arrays), each with its key"""
    out = []
    for oid in v.r:
        if oid in seen or depth > 3:
            continue
        o = I.get(st, oid)
        if o.kind in ("inst",):
            continue
        for x in list(o.items or ()):
            out.append((None, x))
        for k, x, gs in o.ents.values():
            out.append((k, x))
        for n in ("data",):
            if o.kind == "coo" and n in o.attrs:
                out += cells(I, st, o.attrs[n], depth + 1, seen + (oid,))
    return out


def signs(terms, root):
    """signs of the addends that contain (exactly once, undistorted) a label below root; None where unknown"""
    out = {}
    for t in terms:
        n = [l for l in t.l if mentions(l, root)]
        if not n:
            continue
        if len(n) == 1 and n[0][:1] == (root,) and isinstance(t.k, (int, float)):
            s = 0 if t.k == 0 else (1 if t.k > 0 else -1)
            out.setdefault(s if len(t.l) == 1 else None, t)
        else:
            out.setdefault(None, t)
    return out


def stored_signs(I, st, root):
    out = {}
    for k, x in cells(I, st, self_attr(I, st, "objective")):
        out.update({s: (k, t) for s, t in signs(x.f, root).items()})
    return out


def history(rep, prog, cls, ops, want, root, fresh=False):
    """want: direction in force; root: symbol of the objective set last (None: not looked at)"""
    if fresh:
        I, st, me = construct(prog, cls)
        if me is None:
            rep.undecided("out-sign", f"{cls}(...)", "constructor never returns")
            return
        selfid = next(iter(me.r))
    else:
        I, st, me = mk(prog, cls)
        selfid = SELF
    name = f"{cls}" + ("(...)" if fresh else "") + "".join("; " + o[0] for o in ops)
    for o in ops:
        if not apply(I, st, me, o):
            rep.undecided("in-sign", name, f"{o[0]} never returns")
            return
    rep.seen(I)
    w = 1 if want == "max" else -1
    f = prog.method(cls, "set_objective")
    if root:
        got = stored_signs(I, st, root)
        if -w in got:
            rep.violation("in-sign", name, f"the stored objective carries the coefficients of {root} with sign {-w:+d} for direction {want}", f.qual)
        elif w in got:
            rep.held("in-sign", name, f"sign {w:+d}")
        else:
            rep.undecided("in-sign", name, "no addend of the objective given was recognised in the stored objective")
    for dual in (True, False):
        s = st.copy()
        if not apply(I, s, me, ("solve", "solve", (), {"solve_dual": dual})):
            if fresh:
                continue
            rep.undecided("out-sign", name, "solve never returns")
            continue
        v = I.get(s, selfid).attrs.get("objective_value", ABSENT)
        got = {}
        for t in v.f:
            n = [l for l in t.l if l[:1] == ("@solver",) and not any("status" in str(p) for p in l)]
            if n:
                got[(1 if t.k > 0 else -1) if len(t.l) == 1 and isinstance(t.k, (int, float)) and t.k else None] = t
        con = f"{name}; solve(solve_dual={dual})"
        if any(isinstance(l, tuple) and len(l) == 2 and l[0] == "@abs" and mentions(l[1], "@solver") for t in v.f for l in t.l):
            rep.violation("out-sign", con, "the absolute value of the optimum is reported, which loses its sign", prog.method(cls, "solve").qual)
            continue
        if -w in got and None not in got and want is not None:
            rep.violation("out-sign", con, f"the optimum is reported with sign {-w:+d} although the direction set last is {want}", prog.method(cls, "solve").qual)
        elif set(got) == {w}:
            rep.held("out-sign", con, f"sign {w:+d}")
        else:
            rep.undecided("out-sign", con, f"sign of the reported optimum not determined ({v})"[:200])


def op(meth, *args, **kw):
    return (f"{meth}({', '.join(map(str, args))})", meth, args, kw)


def check(prog, rep, tier):
    rep.rule("in-sign", "symbolic coefficients of the objective given to set_objective appear in the stored objective with sign + for max (and by default) and - for min, whatever was set before")
    rep.rule("out-sign", "objective_value after solve carries the optimum of the solver interface with sign + / - for the direction in force, after every history of the listed kind")
    jobs = []

    def add(cls, ops, want, root, fresh=False):
        jobs.append(("out-sign", f"{cls} {'; '.join(o[0] for o in ops)}", lambda r, *a: history(r, prog, *a), (cls, ops, want, root, fresh)))
    for cls in CLASSES:
        prog.method(cls, "set_objective")
        for d in ("max", "min"):
            add(cls, [op("set_objective", "$A", d)], d, "A")
            for e in ("max", "min"):
                add(cls, [op("set_objective", "$B", e), op("set_objective", "$A", d)], d, "A")
            add(cls, [op("set_objective", "$A", d), op("set_objective", None)], "max", None)
            for m in mutators(prog, cls, "C"):
                if "objective" in m[0] or m[0] == "reset('all')" or "generate" in m[0]:
                    continue
                add(cls, [op("set_objective", "$A", d), m], d, "A")
        add(cls, [op("set_objective", "$B", "min"), op("set_objective", "$A")], "max", "A")
        for g in ("objective", "all"):
            add(cls, [op("set_objective", "$B", "min"), op("reset", g)], "max", None)
            add(cls, [op("set_objective", "$B", "min"), op("reset", g), op("set_objective", "$A")], "max", "A")
        add(cls, [], "max", None, True)
    rep.jobs(jobs)
