"""Cache staleness: no cached value outlives a change of anything it was computed from."""
import ast
from sa.api import *
from sa.model import deco_names
from checks.H01 import glabels

HAS_GETTER = ("cached",)


def attrs_in(labels):
    """attributes of the program that labels speak about"""
    out = set()

    def go(l):
        if isinstance(l, tuple):
            if len(l) >= 2 and l[0] == "self" and isinstance(l[1], str):
                out.add(l[1])
            else:
                for x in l:
                    go(x)
        elif isinstance(l, frozenset):
            for x in l:
                go(x)
    for l in labels:
        go(l)
    return out


def entry_guards(I, st, v, seen=None, depth=0):
    seen = seen if seen is not None else set()
    out = set()
    for t in v.f:
        for gs in t.g:
            for g in gs:
                out |= glabels(g)
    if depth > 5:
        return out
    for oid in v.r:
        if oid in seen:
            continue
        seen.add(oid)
        o = st.heap.get(oid)
        if o is None or o.kind == "inst":
            continue
        for x in o.items or ():
            out |= entry_guards(I, st, x, seen, depth + 1)
        for k, x, gss in o.ents.values():
            for gs in gss:
                for g in gs:
                    out |= glabels(g)
            for y in (k, x):
                if y is not None:
                    out |= entry_guards(I, st, y, seen, depth + 1)
    return out


def value_sources(I, st, v):
    return attrs_in(all_labels(I, st, v) | set(I.deps(st, v)) | entry_guards(I, st, v))


def cached_members(prog, cls):
    """{name: Func} of cached properties, and of memoised methods without a key of their own"""
    props, lru = {}, {}
    for k in reversed(prog.mro(prog.cls(cls))):
        for n, f in k.methods.items():
            if f.kind == "cached":
                props[n] = f
            elif {"lru_cache", "cache"} & set(deco_names(f.node)):
                lru[n] = f
            else:
                props.pop(n, None); lru.pop(n, None)
    return props, lru


def sources_of_property(rep, prog, cls, f):
    I, st, me = mk(prog, cls)
    args = [me] if f.kind != "static" else []
    for p in f.node.args.args[len(args):]:
        args.append(I.sym(("$" + p.arg,)))
    v = I.run(st, f, args)
    rep.seen(I)
    return value_sources(I, st, v) if v is not None else set()


def empty_value(I, st, v):
    """a value that stands for 'nothing computed'"""
    if v is None:
        return True
    if v.c and not v.r and not v.f and not v.u and all(t == "NoneType" for t, x in v.c):
        return True
    if len(v.r) == 1 and not v.f and not v.u:
        o = st.heap.get(next(iter(v.r)))
        return o is not None and o.kind in ("dict", "list", "set", "tuple") and not o.ents and not o.items and not o.attrs and "nobase" not in o.tags
    return False


def lazy_fills(rep, prog, cls, op):
    """attributes an operation that is no mutator stores, and what their stored value is computed from"""
    I, st, me = mk(prog, cls)
    at = Attrs()
    out = {}

    def hook(I, st, ev):
        if ev.kind == "attr" and ev.data["oid"] == SELF:
            v = ev.data["val"]
            if not empty_value(I, st, v):
                labels = all_labels(I, st, v) | set(I.deps(st, v))
                if not any(mentions(l, "@solver") for l in labels) and not any(mentions(l, "@solver") for g in ev.pc for l in glabels(g)):
                    out.setdefault(ev.data["name"], set()).update(value_sources(I, st, v))
    I.hooks.append(hook)
    apply(I, st, me, op)
    rep.seen(I)
    return out


def eager(rep, prog, cls, op):
    """attributes (no user component) a mutator stores with content computed from user components"""
    I, st, me = mk(prog, cls)
    stored = set()

    def hook(I, st, ev):
        if ev.kind == "attr" and ev.data["oid"] == SELF and ev.data["name"] not in SPEC:
            stored.add(ev.data["name"])
    I.hooks.append(hook)
    out = {}
    if apply(I, st, me, op):
        for a in stored:
            src = value_sources(I, st, self_attr(I, st, a)) & set(SPEC)
            if src:
                out[a] = src
    rep.seen(I)
    return out


def solve_reads_first(rep, prog, cls):
    """attributes a solve reads before it stores them"""
    I, st, me = mk(prog, cls)
    stored, first = set(), set()

    def hook(I, st, ev):
        if ev.kind == "attr" and ev.data["oid"] == SELF:
            stored.add(ev.data["name"])
        elif ev.kind in ("read", "absent-read") and ev.data.get("oid") == SELF and ev.data["name"] not in stored:
            first.add(ev.data["name"])
    hook.reads = True
    I.hooks.append(hook)
    apply(I, st, me, ("solve()", "solve", (), {}))
    rep.seen(I)
    return first


class Stale:
    def __init__(self, sources, lru, initially, selfid=SELF, derived=()):
        self.derived = derived
        """sources: cached name -> attributes it was computed from"""
        self.src, self.lru, self.at, self.selfid = sources, lru, Attrs(selfid), selfid
        self.init = initially
        self.where, self.used = {}, {}

    def default(self, k):
        return frozenset([(False, self.init)]) if isinstance(k, tuple) and k[0] == "h02" else frozenset()

    def get(self, st, c):
        return st.mon.get(("h02", c), frozenset([(False, self.init)]))

    def __call__(self, I, st, ev):
        if ev.kind == "cache" and ev.data["oid"] == self.selfid and ev.data["name"] in self.src:
            c = ev.data["name"]
            cur = self.get(st, c)
            if (True, True) in cur:
                self.used[c] = f"{ev.file}:{ev.line} {ev.fn}"
            st.mon[("h02", c)] = frozenset((d, True) if p else (False, True) for d, p in cur)
            return
        if ev.kind == "cacheclear":
            for c in self.lru:
                if ev.data["fn"] is not None and getattr(ev.data["fn"], "name", None) == c:
                    st.mon[("h02", c)] = frozenset([(False, False)])
            return
        a = self.at.of(I, st, ev)
        if not a:
            return
        name, kind = a
        if name in self.src:
            if kind == "del":
                st.mon[("h02", name)] = frozenset([(False, False)])
                return
            if kind == "store":
                st.mon[("h02", name)] = frozenset([(False, not empty_value(I, st, ev.data["val"]))])
                return
            if ev.kind == "mut" and ev.data.get("how") == "clear":
                st.mon[("h02", name)] = frozenset([(False, False)])
                return
        if kind == "content" and ev.kind == "item" and name not in SPEC:
            return                      # insertion into a memo table
        for c, src in self.src.items():
            if name in src and name != c:
                if c in self.derived and (ev.kind == "delitem" or ev.kind == "mut" and ev.data.get("how") in ("pop", "discard", "remove")):
                    continue            # entries for moments the derived value has no term for any more
                self.where.setdefault((c, name), f"{ev.file}:{ev.line} {ev.fn}")
                st.mon[("h02", c)] = frozenset((p, p) for d, p in self.get(st, c))


def run_op(rep, prog, cls, op, sources, lru, initially, derived):
    I, st, me = mk(prog, cls)
    mon = Stale(sources, lru, initially, derived=derived)
    I.mon_default = mon.default
    I.hooks.append(mon)
    alive = apply(I, st, me, op)
    rep.seen(I)
    judge(rep, mon, st if alive else None, f"{cls}.{op[0]}")


def judge(rep, mon, st, con):
    for c in sorted(mon.src):
        why = sorted(w for (x, n), w in mon.where.items() if x == c)
        names = sorted(n for (x, n), w in mon.where.items() if x == c)
        if c in mon.used:
            rep.violation("stale-use", f"{con} / {c}", f"the cached {c} is used at {mon.used[c]} after {', '.join(names)}, which it was computed from, changed", why[0] if why else "")
        elif st is not None and (True, True) in mon.get(st, c):
            rep.violation("stale-cache", f"{con} / {c}", f"{', '.join(names)} changed but the copy of {c} computed from it stays cached", why[0] if why else "")
        elif why:
            rep.held("stale-cache", f"{con} / {c}", f"dropped or recomputed after {', '.join(names)} changed")
        else:
            rep.count("caches_unaffected")


SOLVE = ("solve()", "solve", (), {})


def traceless(rep, prog, cls, op):
    """the solver is handed the same problem after an operation whether or not the problem was solved before it"""
    con = f"{cls}: solve; {op[0]}; solve"
    res = []
    for ops in ([op, SOLVE], [SOLVE, op, SOLVE]):
        I, st, me = mk(prog, cls, budget=1500000)
        if len(ops) == 2:
            I.opcount = 1
        if not all(apply(I, st, me, o) for o in ops[:-1]):
            rep.count("raises")
            return
        n = len(I.stub.calls)
        if not apply(I, st, me, ops[-1]):
            rep.undecided("observed-before", con, "never returns normally")
            return
        rep.seen(I)
        res.append((I, I.stub.calls[n:]))
    (I, a), (J, b) = res
    if not a:
        rep.undecided("observed-before", con, "no solver call recognised")
        return
    cut = any("cut" in str(u[0]) for K in (I, J) for u in K.unknowns or ())
    if not b:
        if cut:
            rep.undecided("observed-before", con, "no solver call recognised")
        else:
            rep.violation("observed-before", con, "the solver is not called again when the problem was solved before the change", f"{a[0][0].qual}")
        return
    a, b = a[-1], b[-1]
    for k in sorted(set(a[2]) | set(b[2])):
        if k not in a[2] or k not in b[2]:
            rep.violation("observed-before", con + " / " + k, "passed to the solver in only one of the two histories", a[0].qual)
        else:
            x, y = (value_sources(K, c[3], c[2][k]) for K, c in ((I, a), (J, b)))
            if x <= y:
                rep.held("observed-before", con + " / " + k)
            elif cut:
                rep.undecided("observed-before", con + " / " + k, "not recognised as equal")
            else:
                rep.violation("observed-before", con + " / " + k, f"when the problem was solved before the change, {k} no longer follows {', '.join(sorted(x - y))}", a[0].qual)


def construct(rep, prog, cls, sources, lru):
    from sa.interp import Interp
    I = Interp(prog, 900000, {"inflationproblem": "InflationProblem", ("inflationproblem",): "InflationProblem", ("self",): cls})
    I.hooks.append(Summarise(effects(prog), SPEC))
    st = I.start()
    c = prog.cls(cls)
    oid = I.new_id(None, "new")
    st.heap[oid] = Obj("inst", c)
    mon = Stale(sources, lru, False, selfid=oid)
    I.mon_default = mon.default
    I.hooks.append(mon)
    f = prog.method(cls, "__init__")
    args = [I.ref(oid)] + [I.sym((p.arg,)) for p in f.node.args.args[1:]]
    v = I.run(st, f, args)
    rep.seen(I)
    judge(rep, mon, st if v is not None else None, f"{cls}(...)")


def check(prog, rep, tier):
    rep.rule("stale-cache", "for every cached value (cached property, memoised method, lazily filled attribute, derived attribute that a solve reads) and every public operation: "
                            "on every path, after anything the cached value was computed from (labels of the value and its guards) has changed, the cached copy is dropped or recomputed before the operation returns")
    rep.rule("stale-use", "no operation uses a cached copy after changing what it was computed from")
    rep.rule("observed-before", "for every public operation: the solver is called, with arguments that follow the same components, whether or not the problem was solved before the operation")
    plan = {}
    items, keys = [], []
    for cls in CLASSES:
        props, lru = cached_members(prog, cls)
        plan[cls] = (props, lru)
        for n, f in {**props, **lru}.items():
            items.append(("sources", f"{cls}.{n}", lambda r, c, f: sources_of_property(r, prog, c, f), (cls, f))); keys.append((cls, "prop", n))
        for op in observers(prog, cls):
            items.append(("sources", f"{cls}.{op[0]}", lambda r, c, op: lazy_fills(r, prog, c, op), (cls, op))); keys.append((cls, "lazy", op[0]))
        for op in mutators(prog, cls):
            if "generate" not in op[0] and "reset" not in op[0]:
                items.append(("sources", f"{cls}.{op[0]}", lambda r, c, op: eager(r, prog, c, op), (cls, op))); keys.append((cls, "eager", op[0]))
        items.append(("sources", f"{cls}.solve", lambda r, c: solve_reads_first(r, prog, c), (cls,))); keys.append((cls, "first", ""))
    res = dict(zip(keys, rep.jobs(items)))
    todo = []
    for cls in CLASSES:
        props, lru = plan[cls]
        src, lazy, eag = {}, {}, {}
        for (c, kind, n), r in res.items():
            if c != cls or r is None:
                continue
            if kind == "prop":
                src[n] = set(r)
            elif kind == "lazy":
                for a, s in r.items():
                    lazy.setdefault(a, set()).update(s)
            elif kind == "eager":
                for a, s in r.items():
                    eag.setdefault(a, set()).update(s)
        first = res.get((cls, "first", "")) or set()
        for a, s in lazy.items():
            if a not in SPEC:
                src.setdefault(a, set()).update(s)
        derived = set()
        for a, s in eag.items():
            if a in first and a not in src:
                src[a] = set(s)
                derived.add(a)
        for a in src:
            src[a] -= {a}
        # what a cached value takes from another cached value
        for _ in range(4):
            for a in src:
                for b in list(src[a]):
                    if b in src and b != a:
                        src[a] |= src[b] - {a}
        rep.counts[f"{cls}_caches"] = {a: sorted(s) for a, s in sorted(src.items())}
        rep.count("caches", len(src))
        for op in mutators(prog, cls) + observers(prog, cls):
            todo.append(("stale-cache", f"{cls}.{op[0]}", lambda r, *a: run_op(r, prog, *a), (cls, op, src, set(lru), True, derived)))
        for op in mutators(prog, cls):
            todo.append(("observed-before", f"{cls}.{op[0]}", lambda r, *a: traceless(r, prog, *a), (cls, op)))
        todo.append(("stale-cache", f"{cls}(...)", lambda r, *a: construct(r, prog, *a), (cls, src, set(lru))))
    todo.sort(key=lambda t: "generate" not in t[1] and "(...)" not in t[1])
    rep.jobs(todo)
