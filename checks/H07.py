"""Frames: each public operation changes only the component it is asked to change."""
import ast
from sa.api import *
from checks.H01 import glabels
from checks.H02 import attrs_in

VALUES = {"known_moments", "semiknown_moments", "extra_equalities", "extra_inequalities"}
FRAME = {"set_values": VALUES, "update_values": {"known_moments", "semiknown_moments"}, "set_distribution": VALUES,
         "set_objective": {"objective", "maximize"}, "set_extra_equalities": {"extra_equalities"}, "set_extra_inequalities": {"extra_inequalities"}}
BOUND = {"up": {"moment_upperbounds"}, "lo": {"moment_lowerbounds"}}
SOFT = {"moment_lowerbounds", "moment_upperbounds"}       # values operations may drop / (supports) convert entries of these


REMOVE = ("clear", "pop", "popitem", "remove", "discard", "delitem", "difference_update", "intersection_update")


def frame(op):
    name, meth, args, kw = op
    if meth == "set_bounds":
        return BOUND[args[1]], set()
    if meth in FRAME:
        return FRAME[meth], (SOFT if "extra" not in meth and meth != "set_objective" else set())
    return set(), set()


OWNERS = {"set_values": ("set_values", "update_values", "set_distribution"), "update_values": ("set_values", "update_values", "set_distribution"), "set_distribution": ("set_distribution",)}


OBSERVE = ("solve", "write_to_file", "certificate_as_dict", "certificate_as_probs", "certificate_as_string", "evaluate_certificate", "evaluate_polynomial")


def options(prog, cls):
    """attributes that hold an argument of the constructor or of a public method as it was given -> methods that may set them"""
    out = {}
    c = prog.cls(cls)
    for k in prog.mro(c):
        for f in k.methods.values():
            if f.name.startswith("_") and f.name != "__init__" or f.kind in ("property", "cached", "static") or f.name in OBSERVE:
                continue
            names = {a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names:
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and t.attr not in SPEC and n.value.id == t.attr:
                            out.setdefault(t.attr, set()).update(OWNERS.get(f.name, (f.name,)))
    return {a: m for a, m in out.items() if not a.startswith("_")}


def labels_of(I, st, k, gs):
    out = set()
    if k is not None:
        out |= all_labels(I, st, k) | set(I.deps(st, k))
    for g in gs:
        for x in g:
            out |= glabels(x)
    return out


def only_expected(I, st, name):
    """None if the bounds keep every entry that does not belong to a moment with a value (or to supports bookkeeping), else what is wrong"""
    base = I.child(SELF, name)
    v = self_attr(I, st, name)
    if v.c and not v.r:
        return "replaced"
    hidden = lambda at: any(a not in SPEC and a.startswith("_") for a in at)
    root = ("self", name)
    for oid in v.r:
        o = I.get(st, oid)
        ents = list(o.ents.values())
        if base.r == frozenset([oid]):
            if "nobase" in o.tags:
                return "emptied"
            if o.attrs:
                return "changed"
        else:
            keep = [(k, x, gs) for k, x, gs in ents if k is not None and any(mentions(l, "#") and l[:2] == root for l in all_labels(I, st, k))]
            if not keep:
                return "replaced by an object without the earlier bounds"
            if not any(EE == gs or attrs_in(labels_of(I, st, None, gs)) & {"known_moments", "One", "Zero"} or mentions(frozenset(labels_of(I, st, None, gs)), "A") for k, x, gs in keep):
                return "filtered by a condition that does not concern the values"
            ents = [e for e in ents if e not in keep]
        for k, x, gs in ents:
            at = attrs_in(labels_of(I, st, k, gs) | all_labels(I, st, x))
            if "supports_problem" in at or hidden(at):
                continue
            return f"given new entries ({sorted(at)})"
        for d in o.dels:
            k, gs = d if isinstance(d, tuple) and len(d) == 2 else (d, E)
            at = attrs_in(labels_of(I, st, k, [gs]))
            ls = labels_of(I, st, k, [gs])
            if not ("known_moments" in at or hidden(at) or any(mentions(l, "A") for l in ls) or at & {"moments", "monomials", "One", "Zero"}):
                return f"deprived of entries ({sorted(at)})"
    return None


def run(rep, prog, cls, op, observer):
    I, st, me = mk(prog, cls, stub=not (observer and op[1] == "solve"), budget=1500000)
    hard, soft = (set(), set()) if observer else frame(op)
    at, touched, removed = Attrs(), {}, {}

    def hook(I, st, ev):
        if ev.kind in ("item", "delitem", "mut"):
            a = at.of(I, st, ev)
            if a:
                how = ev.data.get("how", ev.kind)
                if I.issym(ev.data["oid"]):
                    touched.setdefault(a[0], {})[how] = f"{ev.file}:{ev.line} {ev.fn}"
                    if how in REMOVE:
                        removed.setdefault(a[0], (how, f"{ev.file}:{ev.line} {ev.fn}"))
    I.hooks.append(hook)
    r = apply(I, st, me, op)
    rep.seen(I)
    con = f"{cls}.{op[0]}"
    f = prog.method(cls, op[1])
    rule = "observer-effect" if observer else "frame"
    if not r:
        rep.undecided(rule, con, "never returns normally")
        return
    blind = [u for u in I.unknowns if "cut" in str(u[0])] if I.unknowns else []
    for a, meths in sorted(options(prog, cls).items()):
        if op[1] in meths or meths <= {"__init__", "generate_relaxation"} and op[1] == "generate_relaxation":
            continue
        if unchanged(I, st, a):
            rep.held(rule, con + " / " + a)
        elif not blind:
            rep.violation(rule, con + " / " + a, f"{op[1]} changes the option {a}", f.qual)
    for a in SPEC:
        if a in hard:
            continue
        if "clear" in touched.get(a, ()):
            rep.violation(rule, con + " / " + a, f"{op[1]} empties {a}", touched[a]["clear"])
        elif unchanged(I, st, a) and (a not in touched or a in soft):
            rep.held(rule, con + " / " + a)
        elif blind:
            rep.undecided(rule, con + " / " + a, str(blind[0])[:150])
        elif a in soft:
            what = only_expected(I, st, a)
            if what:
                rep.violation(rule, con + " / " + a, f"{a} is {what}", f.qual)
            else:
                rep.held(rule, con + " / " + a, "only entries of moments with a value, or supports bookkeeping")
        else:
            rep.violation(rule, con + " / " + a, f"{op[1]} changes {a}", next(iter(touched[a].values())) if a in touched else f.qual)
    if observer and I.stub is not None or op[1] == "solve":
        if op[1] == "solve" and not I.stub:
            J, st2, me2 = mk(prog, cls)
            apply(J, st2, me2, op)
            calls = J.stub.calls
        else:
            calls = I.stub.calls
        reach = set()
        for fn, args, kw, s, ds in calls:
            for x in list(args) + list(kw.values()):
                reach |= attrs_in(all_labels(I, s, x) | set(I.deps(s, x)))
        for a, (how, where) in sorted(removed.items()):
            if a in reach and a not in SPEC:
                rep.violation("same-problem", f"{con} / {a}", f"{how} removes entries of {a}, from which the solver arguments are built", where)


def given(prog, cls):
    """a solve with every option given"""
    f = prog.method(cls, "solve")
    names = [a.arg for a in f.node.args.args[1:] + f.node.args.kwonlyargs]
    return ("solve(every option)", "solve", (), {n: "$" + n for n in names if n not in ("interpreter", "solve_dual", "solver_arguments")})


def twice(rep, prog, cls, mid, dual):
    """the problem handed to the solver is the same before and after an observing call"""
    solve = ("solve", "solve", (), {"solve_dual": dual})
    con = f"{cls}: solve(solve_dual={dual}); {mid[0] + '; ' if mid else ''}solve again"
    I, st, me = mk(prog, cls, budget=1500000)
    if not all(apply(I, st, me, op) for op in ([solve, mid, solve] if mid else [solve, solve])) or len(I.stub.calls) < 2:
        rep.undecided("same-problem", con, "fewer than two solver calls recognised")
        return
    rep.seen(I)
    a, b = I.stub.calls[0], I.stub.calls[-1]
    for k in sorted(set(a[2]) | set(b[2])):
        if k not in a[2] or k not in b[2]:
            rep.violation("same-problem", con + " / " + k, "passed to only one of the two solver calls", a[0].qual)
        elif canon(I, a[3], a[2][k]) == canon(I, b[3], b[2][k]):
            rep.held("same-problem", con + " / " + k)
        elif any("cut" in str(u[0]) for u in I.unknowns or ()):
            rep.undecided("same-problem", con + " / " + k, "not recognised as equal")
        else:
            rep.violation("same-problem", con + " / " + k, f"the second solve receives a different {k}", a[0].qual)


def check(prog, rep, tier):
    rep.rule("frame", "after a setter run from an arbitrary state, every user-specified component outside its frame is the same object with the same content "
                      "(value setters: bounds lose only entries of moments with a value; supports bookkeeping excepted)")
    rep.rule("observer-effect", "solve (down to the external solver), write_to_file, certificate and evaluation calls leave every user-specified component the same object with the same content")
    rep.rule("same-problem", "two solver calls with only observing calls between them receive arguments of the same symbolic content")
    jobs = []
    for cls in CLASSES:
        for op in mutators(prog, cls):
            if op[1] in ("reset", "generate_relaxation"):
                continue
            jobs.append(("frame", f"{cls}.{op[0]}", lambda r, *a: run(r, prog, *a), (cls, op, False)))
        for op in observers(prog, cls) + [("solve(dual)", "solve", (), {"solve_dual": True}), ("solve(primal)", "solve", (), {"solve_dual": False}), given(prog, cls)]:
            jobs.append(("observer-effect", f"{cls}.{op[0]}", lambda r, *a: run(r, prog, *a), (cls, op, True)))
        for dual in (True, False):
            for mid in [None] + [o for o in observers(prog, cls) if o[1] != "solve"]:
                jobs.append(("same-problem", f"{cls}", lambda r, *a: twice(r, prog, *a), (cls, mid, dual)))
    rep.jobs(jobs)
