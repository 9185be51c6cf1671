"""The objective the solver receives is the current one with the current values substituted."""
from sa.api import *
from checks.H01 import glabels

O = ("set_objective($O, max)", "set_objective", ("$O", "max"), {})
P = ("set_objective($P, min)", "set_objective", ("$P", "min"), {})
OMIN = ("set_objective($O, min)", "set_objective", ("$O", "min"), {})
NOOBJ = ("set_objective(None)", "set_objective", (None,), {})
K = ("set_values($K)", "set_values", ("$K",), {})
KO = ("set_values($K, only_specified_values=True)", "set_values", ("$K",), {"only_specified_values": True})
KL = ("set_values($K, use_lpi_constraints=True)", "set_values", ("$K",), {"use_lpi_constraints": True})
D = ("set_distribution($K)", "set_distribution", ("$K",), {})
U = ("update_values($K)", "update_values", ("$K",), {})
L = ("set_values($L)", "set_values", ("$L",), {})
LU = ("update_values($L)", "update_values", ("$L",), {})
RV = ("reset('values')", "reset", ("values",), {})
RVL = ("reset(['values'])", "reset", (["values"],), {})
RO = ("reset('objective')", "reset", ("objective",), {})
RA = ("reset('all')", "reset", ("all",), {})
SV0 = ("set_values(None)", "set_values", (None,), {})
BU = ("set_bounds($B, up)", "set_bounds", ("$B", "up"), {})
S = ("solve()", "solve", (), {})
# sequence -> labels whose product must occur, labels that must not occur
SEQS = [([O, k], "OK", "") for k in (K, KO, KL, D, U)] + [([k, O], "OK", "") for k in (K, KO, KL, D, U)] + \
       [([k, OMIN], "OK", "") for k in (K, U)] + [([OMIN, k], "OK", "") for k in (K, D)] + \
       [([P, k, O], "OK", "P") for k in (K, D)] + [([P, O, K], "OK", "P"), ([O, L, K], "OK", "L"), ([L, O, K], "OK", "L"), ([L, K, O], "OK", "L"), ([O, L, D], "OK", "L"),
        ([O, L, U], "OKL", ""), ([O, U, LU], "OKL", ""), ([O, K, BU], "OK", "B"), ([O, S, K], "OK", ""), ([K, S, O], "OK", ""), ([O, K, S], "OK", ""),
        ([O, L, RV, K], "OK", "L"), ([P, K, RO, O], "OK", "P"), ([O, K, RO, O], "OK", ""), ([K, RV, O], "O", "K"), ([O, L, S, RV], "O", "L"),
        ([O, K, RV], "O", "K"), ([O, KL, RV], "O", "K"), ([O, K, RVL], "O", "K"), ([O, D, RV], "O", "K"), ([O, U, RV], "O", "K"), ([O, K, SV0], "O", "K"), ([K, O, RV], "O", "K"),
        ([O, K, RO], "", "O"), ([K, O, RO], "", "O"), ([O, K, NOOBJ], "", "O"), ([O, K, RA], "", "OK"), ([K, O, RA], "", "OK"), ([O], "O", ""), ([OMIN], "O", "")]


def labs(I, st, v):
    return all_labels(I, st, v) | set(I.deps(st, v))


def entries(I, st, v):
    """(key, value, guards, oid) of every dictionary or array cell in v"""
    out = []
    for oid in v.r:
        o = I.get(st, oid)
        for k, x, gs in o.ents.values():
            out.append((k, x, gs, oid))
        for x in o.items or ():
            out.append((None, x, frozenset(), oid))
        for n in ("data",):
            if n in o.attrs:
                out += entries(I, st, o.attrs[n])
    return out


def products(I, st, v, roots):
    """signs of the addends that multiply labels of all the roots; None among them for an unknown sign"""
    out = set()
    for k, x, gs, oid in entries(I, st, v):
        for t in x.f:
            if all(any(mentions(l, r) for l in t.l) for r in roots):
                out.add(t.k if len(t.l) == len(roots) else None)
    return out


def own_labels(k):
    """labels of the thing itself, not of what it was chosen by"""
    return {oid[1] for oid in k.r if isinstance(oid, tuple)} | {l for t in k.f for l in t.l} if isinstance(k, V) else set()


def one(rep, prog, cls, ops, want, forbid):
    I, st, me = mk(prog, cls, budget=3000000)
    force(I, NO_SUPPORT)
    con = f"{cls}: " + "; ".join(o[0] for o in ops) + "; solve()"
    fo, fs = prog.method(cls, "set_objective"), prog.method(cls, "solve")
    stored = None
    for o in ops:
        if not apply(I, st, me, o):
            rep.undecided("current-objective", con, f"{o[0]} never returns normally")
            return
        if o[1] in ("set_objective",) or o in (RO, RA):
            stored = canon(I, st, self_attr(I, st, "objective"))
        elif stored is not None:
            now = canon(I, st, self_attr(I, st, "objective"))
            if now == stored:
                rep.held("stored-objective-kept", f"{con} after {o[0]}")
            else:
                rep.violation("stored-objective-kept", f"{con} after {o[0]}", f"{o[0]} changes the stored objective", prog.method(cls, o[1]).qual)
    n = len(I.stub.calls)
    apply(I, st, me, S)
    rep.seen(I)
    calls = I.stub.calls[n:]
    if not calls:
        rep.undecided("current-objective", con, "no solver call recognised")
        return
    blind = [u for u in I.unknowns or () if "cut" in str(u[0])]
    for fn, args, kw, s1, ds in calls:
        obj = kw.get("objective")
        if obj is None:
            rep.undecided("current-objective", con, "the solver gets no argument called objective")
            continue
        seen = labs(I, s1, obj)
        has = {r for r in "OKLPB" if any(mentions(l, r) for l in seen)}
        bad = [r for r in forbid if r in has]
        if bad:
            (rep.undecided if blind else rep.violation)("current-objective", con + f" without {'/'.join(bad)}", f"the objective at the solver still depends on what {'/'.join(bad)} set", *(() if blind else (fs.qual,)))
        elif forbid:
            rep.held("current-objective", con + f" without {forbid}")
        sub = cls == "InflationSDP"
        if "O" in want and "O" not in has:
            (rep.undecided if obj.u or blind else rep.violation)("current-objective", con, "the objective at the solver does not contain the objective set last", *(() if obj.u or blind else (fo.qual,)))
            continue
        if sub and set(want) - {"O"}:
            for r in sorted(set(want) - {"O"}):
                sg = products(I, s1, obj, ("O", r))
                if sg:
                    good = -1 if OMIN in ops else 1
                    sure = {s for s in sg if s is not None}
                    if sure and all(s * good < 0 for s in sure):
                        rep.violation("substituted", con + f" / {r}", "known values are substituted with the opposite sign", fo.qual)
                    else:
                        rep.held("substituted", con + f" / {r}")
                elif r in has or blind or obj.u:
                    rep.undecided("substituted", con + f" / {r}", "dependence without a product term")
                else:
                    rep.violation("substituted", con + f" / {r}", f"the values that {r} set are not substituted into the objective the solver receives", fo.qual)
        else:
            rep.held("current-objective", con)


def anystate(rep, prog, op):
    """from any state with proportionality relations: their coefficient and target occur, and what was substituted is taken out"""
    cls = "InflationSDP"
    I, st, me = mk(prog, cls, budget=3000000)
    force(I, NO_SUPPORT)
    removed = []

    def hook(I, st, ev):
        if ev.kind == "delitem" or ev.kind == "mut" and ev.data.get("how") in ("pop", "clear", "popitem"):
            oid = ev.data["oid"]
            if any(mentions(l, "O") for l in all_labels(I, st, I.ref(oid))):
                removed.append((own_labels(ev.data.get("key")), set().union(*map(glabels, ev.pc)) if ev.pc else set()))
    I.hooks.append(hook)
    con = f"{cls}, any state: {op[0]}; solve()"
    apply(I, st, me, op)
    apply(I, st, me, S)
    rep.seen(I)
    fo = prog.method(cls, "set_objective")
    for fn, args, kw, s1, ds in I.stub.calls:
        obj = kw.get("objective")
        if obj is None:
            continue
        semi, tgt = ("self", "semiknown_moments"), False
        sg = set()
        for k, x, gs, oid in entries(I, s1, obj):
            if k is not None and any(mentions(l, "self") and l[1:2] == ("semiknown_moments",) for l in all_labels(I, s1, k) if isinstance(l, tuple)):
                tgt = True
            for t in x.f:
                if any(l[:2] == semi for l in t.l) and any(mentions(l, "O") for l in t.l):
                    sg.add(t.k)
        seen = labs(I, s1, obj)
        dep = any(isinstance(l, tuple) and l[:2] == semi for l in seen)
        if sg and tgt:
            sure = {s for s in sg if s is not None}
            if sure and all(s < 0 for s in sure):
                rep.violation("proportional-substituted", con, "the proportionality coefficient enters with the opposite sign", fo.qual)
            else:
                rep.held("proportional-substituted", con)
        elif not dep and not obj.u:
            rep.violation("proportional-substituted", con, "proportionality relations are not substituted into the objective the solver receives", fo.qual)
        elif dep and sg and not tgt:
            rep.violation("proportional-substituted", con, "the coefficient of a proportionality relation does not go to the moment the relation points to", fo.qual)
        elif dep and tgt and not sg and not obj.u:
            rep.violation("proportional-substituted", con, "the objective coefficient is moved to the related moment without the coefficient of the relation", fo.qual)
        else:
            rep.undecided("proportional-substituted", con, "substitution not recognised")
        # what was substituted must not also stay a variable
        for name in ("known_moments", "semiknown_moments"):
            adds = any(any(l[:2] == ("self", name) for l in t.l) and any(mentions(l, "O") for l in t.l) for k, x, gs, oid in entries(I, s1, obj) for t in x.f)
            if not adds:
                continue
            c2 = con + f" / {name}"
            about = lambda ls: any(isinstance(l, tuple) and l[:2] == ("self", name) for l in ls)
            out = any(about(k) or not any(l[:1] == ("self",) for l in k if isinstance(l, tuple)) and about(g) for k, g in removed)
            guarded = False
            for oid, o in s1.heap.items():
                if o.kind == "dict":
                    plain = [gs for k, x, gs in o.ents.values() if k is not None and any(mentions(l, "O") for l in own_labels(k))]
                    guarded |= bool(plain) and all(gs and all(about(set().union(*map(glabels, g))) for g in gs) for gs in plain)
            if out or guarded:
                rep.held("taken-out", c2)
            elif any(not k or not all(isinstance(l, tuple) and l[:1] == ("self",) for l in k) for k, g in removed):
                rep.undecided("taken-out", c2, "removal not attributed")
            else:
                rep.violation("taken-out", c2, f"moments in {name} are substituted by their value but stay in the objective as variables too", fo.qual)


def check(prog, rep, tier):
    rep.rule("current-objective", "after every sequence of setting, replacing, updating and resetting objective and values, the objective argument of the solver call carries the label of "
                                  "the objective set last and no label of what was replaced or reset")
    rep.rule("substituted", "SDP: it contains addends multiplying the objective by the values in force, with the sign of the direction")
    rep.rule("stored-objective-kept", "no operation but those on the objective changes the canonical content of the stored objective")
    rep.rule("proportional-substituted", "SDP, any state: the objective coefficient times the coefficient of a proportionality relation goes to the moment of the relation")
    rep.rule("taken-out", "SDP: moments that were substituted do not also stay in the objective (their entries are deleted, or entries are copied under a guard about them)")
    jobs = [("current-objective", f"{cls} {[o[0] for o in ops]}", lambda r, *a: one(r, prog, *a), (cls, ops, w, n)) for cls in CLASSES for ops, w, n in SEQS]
    jobs += [("proportional-substituted", op[0], lambda r, *a: anystate(r, prog, *a), (op,)) for op in (O,)]
    rep.jobs(jobs)
