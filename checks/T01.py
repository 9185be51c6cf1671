"""Every user-specified component reaches the solver, on every moment and under its own meaning."""
from sa.api import *
from checks.T02 import lits
from checks.H04 import own_labels

# component -> (attribute of the program, arguments of the solver interface in which it may appear)
PARTS = {"objective": (("_processed_objective", "objective"), ("objective",)),
         "known values": (("known_moments",), ("known_vars",)),
         "proportionality relations": (("semiknown_moments",), ("semiknown_vars", "equalities")),
         "extra equalities": (("extra_equalities",), ("equalities",)),
         "extra inequalities": (("extra_inequalities",), ("inequalities",)),
         "built-in equalities": (("minimal_equalities", "minimal_sparse_equalities"), ("equalities",)),
         "built-in inequalities": (("minimal_inequalities", "minimal_sparse_inequalities"), ("inequalities",)),
         "lower bounds": (("moment_lowerbounds",), ("lower_bounds", "inequalities")),
         "upper bounds": (("moment_upperbounds",), ("upper_bounds", "inequalities"))}
ALL = {a for names, _ in PARTS.values() for a in names}
BOOL = ("solve_dual", "relax_known_vars", "relax_inequalities", "default_non_negative", "feas_as_optim")
OTHER = ("solverparameters", "verbose")
BENIGN = ("none", "type", "nan", "absentattr", "hasattr", "cached", "absent", "opaque")


def walk(I, s, v, pre=(frozenset(),), depth=0, seen=()):
    """(key, value, guard alternatives) of every cell reachable through the containers in v"""
    for oid in v.r:
        if oid in seen or depth > 4:
            continue
        o = I.get(s, oid)
        if o.kind == "inst" or o.kind == "sym" and not o.ents and "nobase" not in o.tags and depth:
            continue
        cells = [(k, x, gs) for k, x, gs in o.ents.values()] + [(None, x, frozenset()) for x in o.items or ()]
        if "data" in o.attrs and o.kind != "dict":
            cells += [(None, o.attrs["data"], frozenset())]
        for k, x, gs in cells:
            g2 = tuple(a | b for a in pre for b in (gs or (frozenset(),)))[:64]
            yield k, x, g2
            if x.r:
                yield from walk(I, s, x, g2, depth + 1, seen + (oid,))


def attrs_in(labels):
    out = set()

    def go(l):
        if isinstance(l, tuple):
            if len(l) > 1 and l[0] == "self" and l[1] in ALL:
                out.add(l[1])
            else:
                for x in l:
                    go(x)
        elif isinstance(l, frozenset):
            for x in l:
                go(x)
    for l in labels or ():
        go(l)
    return out


def restricts(lit, own, key, value_is_own, zero_counts):
    """why this literal keeps part of the component out; None when it does not"""
    if lit[0] == "any":
        rs = [[restricts(x, own, key, value_is_own, zero_counts) for x in alt] for alt in lit[1]]
        return None if any(not any(r) for r in rs) else next(x for r in rs for x in r if x)
    form, pol = lit
    if form[0] != "atom" or form[1] in BENIGN:
        return None
    kind = form[1]
    ls = attrs_in(form[2]) if isinstance(form[2], frozenset) else set()
    if kind == "empty" and isinstance(form[2], frozenset) and any(isinstance(l, tuple) and l[0] == "self" and len(l) > 2 for l in form[2]):
        kind = "zero"                       # truth value of an entry
    if kind == "member":
        return f"not for every moment (a condition on being in {'/'.join(sorted(ls))})" if ls - own else None
    if kind == "zero":
        if pol and ls:
            return f"only when {'/'.join(sorted(ls))} is zero"
        if not pol and ls & own and zero_counts and (key or value_is_own):
            return "not when its value is zero"
        return None
    if kind == "empty":
        if pol and ls - own:
            return None if not ls else f"only when {'/'.join(sorted(ls))} is empty"
        if not pol and ls and not ls & own:
            return f"only when {'/'.join(sorted(ls))} is not empty"
        return None
    if kind in ("sign", "eq", "partial", "cmp"):
        if ls:
            return f"only for some ({kind} of {'/'.join(sorted(ls))})"
        return None
    if kind == "brk":
        return "a loop over it can end before all entries are treated"
    return None


def component(rep, I, s, kw, part, names, args, con, where, blind):
    own = set(names)
    found, why = [], []
    unk = bool(blind)
    deps = False
    for a in args:
        v = kw.get(a)
        if v is None:
            continue
        unk = unk or v.u and not v.r
        zero_counts = part in ("known values", "lower bounds", "upper bounds")
        for k, x, gs in walk(I, s, v):
            x = I.numv(s, x)
            keyl = attrs_in(own_labels(k)) if isinstance(k, V) else set()
            vall = attrs_in({l for t in x.f for l in t.l})
            refl = attrs_in({q[1] for q in x.r if isinstance(q, tuple)})
            unk = unk or x.u and not x.f and not x.r and not x.c
            if not (keyl | vall | refl) & own:
                continue
            for t in x.f or (None,):
                g3 = [g | t.g for g in gs] if t is not None else gs
                if t is not None and not (keyl | refl) & own and not attrs_in(t.l) & own:
                    continue
                for g in g3:
                    bad = [w for f, p in g for l in lits(f, p) for w in [restricts(l, own, bool(keyl & own), bool(vall & own) and not keyl, zero_counts)] if w]
                    found.append((frozenset(l for f, p in g for l in lits(f, p)), tuple(sorted(set(bad)))))
        deps = deps or bool(attrs_in(all_labels(I, s, v) | set(I.deps(s, v))) & own)
    if found:
        rep.held("component-reaches-solver", f"{con}: {part}")
        if any(not b for g, b in found) or covered(found):
            rep.held("component-unrestricted", f"{con}: {part}")
        elif unk:
            rep.undecided("component-unrestricted", f"{con}: {part}", "guards not fully understood")
        else:
            rep.violation("component-unrestricted", f"{con}: {part}", f"reaches the solver {'; '.join(sorted(found, key=lambda f: (len(f[1]), repr(f[1])))[0][1])}", where)
    elif deps or part.startswith("built-in") and builtin(I, s, kw, names, args):
        rep.held("component-reaches-solver", f"{con}: {part}", "by dependence")
    elif unk:
        rep.undecided("component-reaches-solver", f"{con}: {part}", "the argument is not fully understood")
    else:
        rep.violation("component-reaches-solver", f"{con}: {part}", f"no argument of the solver ({', '.join(a for a in args)}) contains it", where)


def builtin(I, s, kw, names, args):
    """constraints computed from the scenario: what they depend on is what the argument depends on"""
    for n in names:
        s2 = s.copy()
        v = I.getattr(s2, I.sym(("self",)), n, None)
        if v is None or v.u and not v.r:
            continue
        want = set()
        for oid in v.r:                     # what the entries are made of; the width of the matrix does not count
            for m in ("data", "row", "col"):
                x = I.get(s2, oid).attrs.get(m)
                if x is not None:
                    want |= all_labels(I, s2, x) | set(I.deps(s2, x))
        want = {l for l in want if not attrs_in([l])}
        if not want:
            continue
        for a in args:
            if a in kw and want <= all_labels(I, s2, kw[a]) | set(I.deps(s2, kw[a])):
                return True
    return False


def covered(found):
    """alternatives that differ in one literal with both polarities cover everything"""
    work = {g for g, b in found}
    for _ in range(6):
        new = set()
        for a in work:
            for l in a:
                if l[0] == "any":
                    continue
                n = (l[0], not l[1])
                for b in work:
                    if n in b and a - {l} == b - {n}:
                        new.add(a - {l})
        if new <= work:
            break
        work |= new
    ok = [b for g, b in found]
    for g in work:
        if not g:
            return True
    return False


def run_solve(prog, cls, opts):
    I, st, me = mk(prog, cls, budget=3000000)
    force(I, NO_SUPPORT)
    f = prog.method(cls, "solve")
    I.run_method(st, me, "solve", [], {k: v for k, v in opts(I).items()})
    return I, st, f


def present(rep, prog, cls):
    """with every component present, whatever array or dictionary is handed over contains the built-in constraints"""
    I, st, me = mk(prog, cls, budget=3000000)
    table = {("empty", frozenset([("self", a)])): False for a in ALL}
    table.update(NO_SUPPORT)
    force(I, table)
    f = prog.method(cls, "solve")
    I.run_method(st, me, "solve", [], {})
    rep.seen(I)
    where = f"{f.mod.rel}:{f.node.lineno}"
    computed = [n for n in ALL if prog.lookup(prog.cls(cls), n) is not None]       # properties; plain attributes are recognised by their label
    for fn, args, kw, s, ds in I.stub.calls:
        for part, (attrs, names) in PARTS.items():
            if not part.startswith("built-in") or not any(n in computed for n in attrs):
                continue
            for a in names:
                if a not in kw or not kw[a].r:
                    continue
                got = [builtin(I, s, {a: I.ref(q)}, attrs, names) for q in kw[a].r]
                con = f"{cls}.solve -> {fn.name}: {part}, all components present"
                if all(got):
                    rep.held("component-reaches-solver", con)
                elif all(s.heap.get(q) is not None and s.heap[q].kind in ("coo", "list") for q in kw[a].r) and not I.unknowns:
                    rep.violation("component-reaches-solver", con, "the argument leaves it out", where)
                else:
                    rep.undecided("component-reaches-solver", con, "alternatives not understood")


def parts(rep, prog, cls):
    f = prog.method(cls, "solve")
    names = [a.arg for a in f.node.args.args[1:] + f.node.args.kwonlyargs]
    I, st, f = run_solve(prog, cls, lambda I: {n: I.sym(("$" + n,)) for n in names if n != "solver_arguments"})
    rep.seen(I)
    blind = [u for u in I.unknowns or () if "cut" in str(u[0])]
    if not I.stub.calls:
        rep.undecided("component-reaches-solver", f"{cls}.solve", "no call of the solver interface recognised")
        return
    for fn, args, kw, s, ds in I.stub.calls:
        kw = dict(kw)
        for p, a in zip([x.arg for x in fn.node.args.args], args):
            kw[p] = a
        con = f"{cls}.solve -> {fn.name}"
        where = f"{f.mod.rel}:{f.node.lineno}"
        for part, (attrs, where_args) in PARTS.items():
            component(rep, I, s, kw, part, attrs, where_args, con, where, blind or ds)
        for o in OTHER:
            if o not in names or o not in kw:
                if o in names:
                    rep.violation("option-own-meaning", f"{con}: {o}", "is not passed on", where)
                continue
            labels = {l for t in kw[o].f for l in t.l} | {q[1] for q in kw[o].r if isinstance(q, tuple)}
            mine = [l for l in labels if l == ("$" + o,)]
            foreign = [l for l in labels if isinstance(l, tuple) and str(l[0]).startswith("$") and l[0] != "$" + o]
            if foreign:
                rep.violation("option-own-meaning", f"{con}: {o}", f"receives the value of {foreign[0][0][1:]}", where)
            elif mine:
                rep.held("option-own-meaning", f"{con}: {o}")
            elif mentions(all_labels(I, s, kw[o]), "$" + o) or any(mentions(l, "$" + o) for l in I.deps(s, kw[o])) or kw[o].u:
                rep.undecided("option-own-meaning", f"{con}: {o}", "value not recognised")
            else:
                rep.violation("option-own-meaning", f"{con}: {o}", "is not passed on", where)


def flag(rep, prog, cls, opt, val):
    con = f"{cls}.solve({opt}={val})"
    I, st, f = run_solve(prog, cls, lambda I: {opt: C(val)})
    rep.seen(I)
    where = f"{f.mod.rel}:{f.node.lineno}"
    if not I.stub.calls:
        rep.undecided("option-own-meaning", con, "no call of the solver interface recognised")
    for fn, args, kw, s, ds in I.stub.calls:
        if opt not in kw:
            (rep.undecided if ds else rep.violation)("option-own-meaning", con, "is not passed on to the solver", *(() if ds else (where,)))
            continue
        v = kw[opt]
        got = {c[1] for c in v.c if c[0] == "bool"}
        foreign = {l for t in v.f for l in t.l if isinstance(l, tuple) and l[0] == "self"}
        if foreign:
            rep.violation("option-own-meaning", con, f"the solver receives {sorted('.'.join(map(str, l)) for l in foreign)[0]} instead", where)
        elif v.u or v.f or v.r:
            rep.undecided("option-own-meaning", con, "value not derived")
        elif val in got and (val or got == {False}):
            rep.held("option-own-meaning", con)
        else:
            rep.violation("option-own-meaning", con, f"the solver receives {sorted(map(str, got))}", where)


def check(prog, rep, tier):
    rep.rule("component-reaches-solver", "every component of the specification occurs as key or value in the argument of the solver interface meant for it")
    rep.rule("component-unrestricted", "whatever the value of its entries and whatever the other components hold")
    rep.rule("option-own-meaning", "every option of the solve call reaches the solver interface under its own name")
    jobs = [("component-reaches-solver", cls, parts, (prog, cls)) for cls in CLASSES]
    jobs += [("component-reaches-solver", cls, present, (prog, cls)) for cls in CLASSES]
    for cls in CLASSES:
        f = prog.method(cls, "solve")
        names = [a.arg for a in f.node.args.args]
        jobs += [("option-own-meaning", f"{cls} {o}={v}", flag, (prog, cls, o, v)) for o in BOOL if o in names for v in (True, False)]
    rep.jobs(jobs)
