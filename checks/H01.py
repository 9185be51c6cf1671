"""A typestate rule: no call that changes the problem leaves anything readable that an earlier solve computed."""
from sa.api import *


def solve_summary(prog, cls, rep):
    """which attributes of the program a solve reads, and which it fills with something that depends on the solver's answer"""
    I, st, me = mk(prog, cls)
    at = Attrs()
    reads, results, aliases = set(), set(), {}

    def hook(I, st, ev):
        if ev.kind in ("read", "absent-read") and ev.data.get("oid") == SELF:
            reads.add(ev.data["name"])
        a = at.of(I, st, ev)
        if a and a[1] in ("store", "content"):
            v = ev.data.get("val")
            labels = set()
            if v is not None:
                labels |= all_labels(I, st, v) | set(I.deps(st, v))
            for g in ev.pc:
                labels |= glabels(g)
            if any(mentions(l, "@solver") for l in labels):
                results.add(a[0])
    hook.reads = True
    I.hooks.append(hook)
    ok = apply(I, st, me, ("solve()", "solve", (), {}))
    rep.seen(I)
    return ok, reads, results, len(I.stub.calls)


def kept(prog, cls, op, rep, results):
    """which attributes a call that reads the solution fills with something computed from it"""
    I, st, me = mk(prog, cls)
    at = Attrs()
    out = set()

    def hook(I, st, ev):
        a = at.of(I, st, ev)
        if a and a[1] in ("store", "content") and a[0] not in results:
            v = ev.data.get("val")
            labels = all_labels(I, st, v) | set(I.deps(st, v)) if v is not None else set()
            if any(mentions(l, "@solver") or l[:1] == ("self",) and len(l) > 1 and l[1] in results for l in labels if isinstance(l, tuple)):
                out.add(a[0])
    I.hooks.append(hook)
    apply(I, st, me, op)
    rep.seen(I)
    return out


def glabels(g):
    out = set()

    def go(x):
        if isinstance(x, frozenset):
            out.update(x)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    go(g)
    return out


def modified(prog, cls, op, rep):
    I, st, me = mk(prog, cls)
    at = Attrs()
    mod = set()

    def hook(I, st, ev):
        a = at.of(I, st, ev)
        if a:
            mod.add(a[0])
    I.hooks.append(hook)
    apply(I, st, me, op)
    rep.seen(I)
    return mod


class Typestate:
    """state (changed?, results of an earlier solve still readable), followed along every path"""

    def __init__(self, core, results):
        self.core, self.results, self.at = core, results, Attrs()
        self.where = {}

    def __call__(self, I, st, ev):
        a = self.at.of(I, st, ev)
        if not a:
            return
        name, kind = a
        cur = st.mon.get("h01", frozenset([(False, frozenset(self.results))]))
        if name in self.core:
            self.where.setdefault(name, f"{ev.file}:{ev.line} {ev.fn}")
            cur = frozenset((True, s) for d, s in cur)
        if name in self.results and kind in ("store", "del"):
            v = ev.data.get("val")
            if v is None or not any(mentions(l, "@solver") or l == ("self", name) for l in all_labels(I, st, v)):
                cur = frozenset((d, s - {name}) for d, s in cur)
        st.mon["h01"] = cur


def check(prog, rep, tier):
    rep.rule("stale-result", "typestate along every path of every public mutator: once it has modified a component that solve() reads, "
                             "every attribute that a solve fills with solver output has been deleted or overwritten when the mutator returns")
    got = rep.jobs(("stale-result", cls, lambda r, c: solve_summary(prog, c, r), (cls,)) for cls in CLASSES)
    allops = [(cls, op) for cls in CLASSES for op in mutators(prog, cls)]
    allops.sort(key=lambda x: "generate" not in x[1][0])
    mods = rep.jobs(("stale-result", f"{c}.{op[0]}", lambda r, c, op: modified(prog, c, op, r), (c, op)) for c, op in allops)
    todo = []
    memo = rep.jobs(("stale-result", f"{cls}.{op[0]}", lambda r, c, op, res: kept(prog, c, op, r, res), (cls, op, g[2])) for cls, g in zip(CLASSES, got) if g for op in observers(prog, cls) if op[1] != "solve")
    memo = iter(memo)
    for cls, g in zip(CLASSES, got):
        if g is None:
            continue
        ok, reads, results, ncalls = g
        results = results | set().union(*[next(memo) or set() for op in observers(prog, cls) if op[1] != "solve"])
        rep.count("solver_calls", ncalls)
        if not ncalls or not results:
            rep.undecided("stale-result", f"{cls}.solve", "no solver call recognised")
            continue
        core = (reads & set().union(*[m or set() for (c, op), m in zip(allops, mods) if c == cls])) - results
        rep.counts[f"{cls}_core"] = sorted(core)
        rep.counts[f"{cls}_results"] = sorted(results)
        todo += [("stale-result", f"{c}.{op[0]}", lambda r, *a: one(prog, r, *a), (c, op, core, results)) for c, op in allops if c == cls]
    rep.jobs(todo)


def one(prog, rep, cls, op, core, results):
    I, st, me = mk(prog, cls)
    ts = Typestate(core, results)
    I.hooks.append(ts)
    st.mon["h01"] = frozenset([(False, frozenset(results))])
    con = f"{cls}.{op[0]}"
    if not apply(I, st, me, op):
        rep.held("stale-result", con, "never returns normally")
        return
    rep.seen(I)
    states = st.mon.get("h01", frozenset([(False, frozenset(results))]))
    left = set()
    for d, s in states:
        if d:
            left |= s
    if left:
        rep.violation("stale-result", con, f"the problem was changed ({', '.join(sorted(ts.where.values()))[:200]}) but {', '.join(sorted(left))} "
                      "of the previous solve can still be read", next(iter(sorted(ts.where.values())), ""))
    else:
        rep.held("stale-result", con, "changes nothing a solve reads" if not any(d for d, s in states) else "results dropped")
