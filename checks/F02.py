"""Unknown option values are rejected, before anything changes and before a file is written."""
from sa.api import *
from sa.interp import Interp

OPTS = {    # what: (known values, [(label, class, method, args with the option as "?")])
    "kind of bound": (("up", "lo"), [(c, "set_bounds", ("$A", "?"), {}) for c in CLASSES]),
    "direction of optimisation": (("max", "min"), [(c, "set_objective", ("$A", "?"), {}) for c in CLASSES]),
    "direction of optimisation (no objective)": (("max", "min"), [(c, "set_objective", (None, "?"), {}) for c in CLASSES]),
    "kind of bound (none)": (("up", "lo"), [(c, "set_bounds", (None, "?"), {}) for c in CLASSES]),
    "reset group": (("all", "values", "bounds", "lowerbounds", "upperbounds", "objective"), [(c, "reset", ("?",), {}) for c in CLASSES]),
}
FORMATS = {"InflationLP": ("lp", "mps"), "InflationSDP": ("dat-s", "csv", "mat")}
FUNCS = {"optimisation method": (("bisection", "dual"), "max_within_feasible", "method"),
         "conversion style": (("eq", "lb", "ub"), "expand_sparse_vec", "conversion_style")}


def near(known):
    """values that are not known but resemble the known ones"""
    out = ["zzz", "", " "]
    for w in known:
        out += [w + "x", "x" + w, w + " ", w[:-1], w[1:], w + w]
    out += [a + " " + b for a in known for b in known if a != b][:2] + [",".join(known), str(list(known))]
    seen = []
    for w in out:
        if w not in known and w not in seen:
            seen.append(w)
    return seen


NONSTR = [None, 0, 1, True, 2.5]


def writes(ev):
    if ev.kind == "ext":
        n = ev.data.get("name", "")
        return n == "builtins.open" or n.endswith((".savemat", ".write", ".writelines", ".savetxt", ".to_csv", ".save", ".dump", "write_text", "write_bytes"))
    return ev.kind == "ucall" and ev.data.get("name") in ("write", "writelines", "write_text", "to_csv")


def run(prog, cls, meth, args, kw, setup=None):
    """-> (returns normally, [effects before that], I)"""
    I, st, me = mk(prog, cls)
    at = Attrs()
    eff = []

    def hook(I, st, ev):
        a = at.of(I, st, ev)
        if a and a[0] in SPEC:
            eff.append((f"{a[0]} changed", f"{ev.file}:{ev.line} {ev.fn}"))
        elif writes(ev):
            eff.append(("a file is written", f"{ev.file}:{ev.line} {ev.fn}"))
        elif ev.kind == "solver":
            eff.append(("the solver is called", f"{ev.file}:{ev.line} {ev.fn}"))
    I.hooks.append(hook)
    ok = apply(I, st, me, (meth, meth, args, kw))
    return ok, eff, I


def one(rep, prog, what, cls, meth, args, kw, shown):
    con = f"{cls}.{meth}({shown})"
    ok, eff, I = run(prog, cls, meth, args, kw)
    rep.seen(I)
    if ok:
        rep.violation("unknown-option", f"{cls}.{meth} / {what}", f"{shown} is accepted: a path returns normally", prog.method(cls, meth).qual)
    elif eff:
        rep.violation("rejected-late", f"{cls}.{meth} / {what}", f"{shown} is rejected only after {eff[0][0]}", eff[0][1])
    else:
        rep.held("unknown-option", con, "every path raises, nothing changed before")


def func(rep, prog, what, name, par, v):
    f = prog.find_func(name)
    I = Interp(prog, 400000, {"program": "InflationLP"})
    I.hooks.append(Summarise(effects(prog), SPEC))
    eff = []

    def hook(I, st, ev):
        if ev.kind in ("attr", "item", "mut", "delattr", "delitem") and isinstance(ev.data["oid"], tuple) and ev.data["oid"][2] is None:
            eff.append(("an argument is modified", f"{ev.file}:{ev.line} {ev.fn}"))
    I.hooks.append(hook)
    st = I.start()
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if par not in names:
        rep.undecided("unknown-option", f"{name} / {what}", f"no parameter {par}")
        return
    r = I.run(st, f, [C(v) if n == par else I.sym((n,)) for n in names])
    rep.seen(I)
    if r is not None:
        rep.violation("unknown-option", f"{name} / {what}", f"{par}={v!r} is accepted: a path returns normally", f.qual)
    elif eff:
        rep.violation("rejected-late", f"{name} / {what}", f"{par}={v!r} is rejected only after {eff[0][0]}", eff[0][1])
    else:
        rep.held("unknown-option", f"{name}({par}={v!r})", "every path raises")


def ctor(rep, prog, v):
    c = prog.cls("InflationProblem")
    f = prog.method("InflationProblem", "__init__")
    I = Interp(prog, 900000, {("self",): "InflationProblem"})
    st = I.start()
    oid = I.new_id(None, "new")
    st.heap[oid] = Obj("inst", c)
    names = [x.arg for x in f.node.args.args[1:]]
    if "classical_sources" not in names:
        rep.undecided("unknown-option", "InflationProblem / classical_sources", "no such parameter")
        return
    r = I.run(st, f, [I.ref(oid)] + [C(v) if n == "classical_sources" else I.sym((n,)) for n in names])
    rep.seen(I)
    if r is not None:
        rep.violation("unknown-option", "InflationProblem / classical-source keyword", f"classical_sources={v!r} is accepted: a path returns normally", f.qual)
    else:
        rep.held("unknown-option", f"InflationProblem(classical_sources={v!r})", "every path raises")


def check(prog, rep, tier):
    rep.rule("unknown-option", "interpreted with an option value outside the known ones (a fresh word, and words resembling the known values), no path of the public call returns normally")
    rep.rule("rejected-late", "no user-specified component is changed, no file opened or written and no solver called before the rejection")
    jobs, ctl = [], []
    for what, (known, uses) in OPTS.items():
        for cls, meth, args, kw in uses:
            ctl.append((f"{cls}.{meth} / {what}", lambda cls=cls, meth=meth, args=args, kw=kw, known=known: run(prog, cls, meth, tuple(known[0] if x == "?" else x for x in args), kw)[0]))
    for cls in CLASSES:
        ctl.append((f"{cls}.write_to_file / export format", lambda cls=cls: run(prog, cls, "write_to_file", ("out." + FORMATS[cls][0],), {})[0]))
    okay = rep.jobs(("unknown-option", c, lambda r, fn: fn(), (fn,)) for c, fn in ctl)
    for (c, fn), r in zip(ctl, okay):
        if r:
            rep.count("known_values_accepted")
        else:
            rep.undecided("unknown-option", c, "not even a known value is seen to return normally")
    for what, (known, uses) in OPTS.items():
        for cls, meth, args, kw in uses:
            for v in near(known) + ([x for x in NONSTR] if "reset" not in what else []):
                jobs.append(("unknown-option", f"{cls}.{meth} / {what}", lambda r, *a: one(r, prog, *a), (what, cls, meth, tuple(v if x == "?" else x for x in args), kw, repr(v))))
    for cls in CLASSES:
        for bad in ("zzz", "values2"):
            jobs.append(("unknown-option", f"{cls}.reset / reset group", lambda r, *a: one(r, prog, *a), ("reset group in a list", cls, "reset", ([bad],), {}, repr([bad]))))
        known = FORMATS[cls]
        for v in near(known):
            if v.strip() != v or "," in v or "[" in v:
                continue
            fn = "out." + v
            jobs.append(("unknown-option", f"{cls}.write_to_file / export format", lambda r, *a: one(r, prog, *a), ("export format", cls, "write_to_file", (fn,), {}, repr(fn))))
        for w in known[:1]:
            fn = f"out.{w}.zzz"
            jobs.append(("unknown-option", f"{cls}.write_to_file / export format", lambda r, *a: one(r, prog, *a), ("export format", cls, "write_to_file", (fn,), {}, repr(fn))))
    for what, (known, name, par) in FUNCS.items():
        prog.find_func(name)
        for v in near(known) + [None]:
            jobs.append(("unknown-option", f"{name} / {what}", lambda r, *a: func(r, prog, *a), (what, name, par, v)))
    for v in [x for x in near(("all",))] + ["none"]:
        if v.lower() != "all":
            jobs.append(("unknown-option", "InflationProblem / classical-source keyword", lambda r, *a: ctor(r, prog, *a), (v,)))
    rep.jobs(jobs)
