"""Ill-posed requests raise before anything is computed or changed."""
from sa.api import *
from sa.interp import Interp
from checks.H01 import glabels
from checks.H02 import attrs_in

CERT = [("certificate_as_dict", ()), ("certificate_as_probs", ()), ("certificate_as_string", ()), ("evaluate_certificate", ("$p",))]


def construct(prog, cls, budget=1500000):
    """-> I, st, value of a freshly constructed program"""
    I = Interp(prog, budget, {"inflationproblem": "InflationProblem", ("inflationproblem",): "InflationProblem", ("self",): cls})
    I.summ = Summarise(effects(prog), SPEC)
    I.hooks.append(I.summ)
    I.stub = StubSolver()
    I.hooks.append(I.stub)
    st = I.start()
    oid = I.new_id(None, "new")
    st.heap[oid] = Obj("inst", prog.cls(cls))
    f = prog.method(cls, "__init__")
    v = I.run(st, f, [I.ref(oid)] + [I.sym((p.arg,)) for p in f.node.args.args[1:]])
    return I, st, (I.ref(oid) if v is not None else None)


def strict(I, oid):
    """reading an attribute that a fresh program does not have raises"""
    def hook(I, st, ev):
        if ev.kind == "absent-read" and ev.data.get("oid") == oid:
            I.may_raise(st, "AttributeError")
            raise Dead()
    I.hooks.append(hook)


def before_generation(rep, prog):
    I, st, me = construct(prog, "InflationSDP")
    if me is None:
        rep.undecided("solve-before-relaxation", "InflationSDP(...)", "constructor never returns")
        return
    strict(I, next(iter(me.r)))
    for dual in (True, False):
        s = st.copy()
        I.stub.calls.clear()
        r = apply(I, s, me, ("solve", "solve", (), {"solve_dual": dual}))
        con = f"InflationSDP(...); solve(solve_dual={dual})"
        if I.stub.calls:
            rep.violation("solve-before-relaxation", con, "the solver is called although no relaxation has been generated", I.stub.calls[0][0].qual)
        elif r:
            rep.violation("solve-before-relaxation", con, "returns normally", prog.method("InflationSDP", "solve").qual)
        else:
            rep.held("solve-before-relaxation", con, "raises on every path")
    rep.seen(I)


def certificate(rep, prog, cls, setup):
    if setup is None:
        I, st, me = construct(prog, cls)
        if me is None:
            rep.undecided("certificate-without-solution", f"{cls}(...)", "constructor never returns")
            return
        strict(I, next(iter(me.r)))
        lab = f"{cls}(...)"
    else:
        I, st, me = mk(prog, cls)
        lab = f"{cls}.{setup[0]}"
        if not apply(I, st, me, setup):
            rep.held("certificate-without-solution", lab, "never returns")
            return
        I.hooks.append(lambda I, st, ev: absent(I, st, ev))
    for meth, args in CERT:
        r = apply(I, st.copy(), me, (meth, meth, args, {}))
        con = f"{lab}; {meth}"
        if r:
            rep.violation("certificate-without-solution", con, "returns normally although there is no current solution", prog.method(cls, meth).qual)
        else:
            rep.held("certificate-without-solution", con, "raises on every path")
    rep.seen(I)


def absent(I, st, ev):
    if ev.kind == "absent-read":
        I.may_raise(st, "AttributeError")
        raise Dead()


def about(labels, *names):
    a = set()

    def go(l):
        if isinstance(l, (tuple, frozenset)):
            for x in l:
                go(x)
        elif isinstance(l, str):
            a.add(l)
    go(frozenset(labels))
    return all(n in a for n in names)


def shape(rep, prog):
    """assume that the shapes differ: nothing may be set and the call may not return"""
    cls = "InflationLP"
    f = prog.method(cls, "set_distribution")
    names = [p.arg for p in f.node.args.args]
    I, st, me = mk(prog, cls)
    decided, eff, weak = [], [], []
    orig = I.contradict

    def contradict(pc, form, pol):
        if form == ("atom", "none", frozenset([("A",)])):
            return pol is True
        if form[0] == "atom" and form[1] in ("eq", "all") and len(form) > 2 and isinstance(form[2], frozenset) and \
                about(form[2], "A", "expected_distro_shape") and about(form[2], "@shape"):
            decided.append(form)
            return pol is True
        if form[0] == "atom":
            for x in form[2:]:
                if isinstance(x, frozenset) and about(x, "A") and about(x, "expected_distro_shape"):
                    weak.append(about(x, "@ndim") or about(x, "@size") or about(x, "@len") and not about(x, "@shape"))
        return orig(pc, form, pol)
    I.contradict = contradict
    at = Attrs()

    def hook(I, st, ev):
        a = at.of(I, st, ev)
        if a and a[0] in SPEC:
            eff.append((a[0], f"{ev.file}:{ev.line} {ev.fn}"))
    I.hooks.append(hook)
    r = apply(I, st, me, ("set_distribution", "set_distribution", ("$A",), {}))
    rep.seen(I)
    con = f"{cls}.set_distribution(array of another shape)"
    if not decided:
        if weak and all(weak):
            rep.violation("wrong-shape", con, "only the number of dimensions or entries is compared with the shape the scenario expects", f.qual)
            return
        if compared(prog, cls):
            rep.undecided("wrong-shape", con, "the comparison of the shapes was not recognised")
        else:
            rep.violation("wrong-shape", con, "the shape of the distribution is not compared with the one the scenario expects", f.qual)
    elif eff:
        rep.violation("wrong-shape", con, f"{eff[0][0]} is changed although the shape does not fit", eff[0][1])
    elif r:
        rep.violation("wrong-shape", con, "returns normally although the shape does not fit", f.qual)
    else:
        rep.held("wrong-shape", con, "raises on every path, nothing set before")


def compared(prog, cls):
    """is the expected shape used at all when a distribution is set?"""
    I, st, me = mk(prog, cls)
    used = []

    def hook(I, st, ev):
        if ev.kind == "read" and ev.data.get("name") == "expected_distro_shape":
            used.append(1)
    hook.reads = True
    I.hooks.append(hook)
    apply(I, st, me, ("set_distribution", "set_distribution", ("$A",), {}))
    return bool(used)


def outside(rep, prog, cls, dual):
    """an exit that depends on the known values and the program's moments precedes the solver call"""
    I, st, me = mk(prog, cls)
    moments = ("monomials",) if cls == "InflationLP" else ("moments",)
    exits, order = [], []

    def hook(I, st, ev):
        if ev.kind in ("assert", "raise"):
            labels = set()
            for g in ev.pc:
                labels |= glabels(g)
            if ev.kind == "assert":
                labels |= set(I.deps(st, ev.data["test"]))
            at = attrs_in(labels)
            ok = "known_moments" in at and any(m in at or m in ("monomials", "moments") and at & {"monomials", "moments", "compmonomial_to_idx"} for m in moments)
            if ok:
                order.append(("exit", ev, at))
        elif ev.kind == "solver":
            order.append(("solver", ev, None))
    I.hooks.append(hook)
    apply(I, st, me, ("solve", "solve", (), {"solve_dual": dual}))
    rep.seen(I)
    con = f"{cls}.solve(solve_dual={dual})"
    kinds = [k for k, _, _ in order]
    if "solver" not in kinds:
        rep.undecided("values-outside", con, "no solver call recognised")
    elif "exit" not in kinds[:kinds.index("solver")]:
        rep.violation("values-outside", con, "no path raises because a known value lies outside the program's moments before the solver is called", prog.method(cls, "solve").qual)
    else:
        ev = order[kinds.index("exit")][1]
        rep.held("values-outside", con, f"{ev.file}:{ev.line} {ev.fn}")


def forced(rep, prog, cls, dual):
    """assume that the known values are not among the moments: the solver may not be called"""
    I, st, me = mk(prog, cls)
    hit, decided = [], []
    orig = I.contradict
    want = {"monomials", "moments", "compmonomial_to_idx"}

    def contradict(pc, form, pol):
        if form[0] == "atom" and form[1] in ("issubset", "subset") and isinstance(form[2], frozenset):
            a = attrs_in(set(form[2]) | (set(form[3]) if len(form) > 3 and isinstance(form[3], frozenset) else set()))
            if "known_moments" in a and a & want:
                decided.append(form)
                return pol is True
        return orig(pc, form, pol)
    I.contradict = contradict
    apply(I, st, me, ("solve", "solve", (), {"solve_dual": dual}))
    con = f"{cls}.solve(solve_dual={dual}) with a known value outside the moments"
    if decided:
        if I.stub.calls:
            rep.violation("values-outside", con, "the solver is called", prog.method(cls, "solve").qual)
        else:
            rep.held("values-outside", con, "raises before the solver is called")


def check(prog, rep, tier):
    rep.rule("solve-before-relaxation", "after the constructor alone, solve() never reaches the solver interface and never returns")
    rep.rule("certificate-without-solution", "after the constructor, or after any call that changes the problem, every certificate routine raises on every path")
    rep.rule("wrong-shape", "under the assumption that the shape of the distribution differs from the expected one, set_distribution of an LP changes no component and never returns")
    rep.rule("values-outside", "before the solver is called, a raise or assert depends on the known values and on the moments of the program; when it is a subset test, its failure keeps the solver from being called")
    jobs = [("solve-before-relaxation", "InflationSDP.solve", lambda r: before_generation(r, prog), ()),
            ("wrong-shape", "InflationLP.set_distribution", lambda r: shape(r, prog), ())]
    for cls in CLASSES:
        for setup in [None] + [op for op in mutators(prog, cls)]:
            if setup is None or "generate" not in setup[0] and "update" not in setup[0]:
                jobs.append(("certificate-without-solution", f"{cls}.{setup[0] if setup else '(...)'}", lambda r, *a: certificate(r, prog, *a), (cls, setup)))
        for dual in (True, False):
            jobs.append(("values-outside", f"{cls}.solve", lambda r, *a: outside(r, prog, *a), (cls, dual)))
            jobs.append(("values-outside", f"{cls}.solve", lambda r, *a: forced(r, prog, *a), (cls, dual)))
    rep.jobs(jobs)
