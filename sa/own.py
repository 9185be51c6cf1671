"""Which objects owned by its caller (its arguments, the program, the scenario, defaults, module data) each function may modify.

Every function of the package is interpreted on its own, with symbolic parameters.  Calls whose interpretation is expensive are not
inlined: they become edges, and what the callee modifies of its parameters is carried back to the caller (fixpoint)."""
import ast
from .api import *


class Edges:
    """call hook: expensive calls are recorded instead of being inlined"""

    def __init__(self, cost, top, limit=4000):
        self.cost, self.top, self.limit = cost, top, limit
        self.edges = []

    def __call__(self, I, st, ev):
        pass

    def call(self, I, st, func, args, kwargs, n, star, dstar):
        if func is self.top and not I.stack:
            return None
        big = len(list(ast.walk(func.node))) > 220 or I.cost.get(func, 0) > self.limit or any(f is func for f, _ in I.stack)
        if not big:
            return None
        names = [a.arg for a in func.node.args.posonlyargs + func.node.args.args]
        d = set()
        roots = {}
        for nm, v in list(zip(names, args)) + list(kwargs.items()):
            for o in v.r:
                if isinstance(o, tuple) and o[2] is None:
                    roots.setdefault(nm, set()).add(o[1])
            d |= I.deps(st, v)
        self.edges.append((func, roots, f"{I.cur().mod.rel}:{getattr(n, 'lineno', 0)}"))
        I.may_raise(st, "ext")
        path = ("@fn", func.name, slabels(d)[:6])
        return V(r=frozenset([("s", path, ("sum",))]), f=frozenset([Term(1, (path,), E)]), d=frozenset(d))


def is_package_inst(I, st, oid):
    return I.get(st, oid).cls is not None


def all_funcs(prog):
    out = []
    for m in prog.modules.values():
        out += list(m.funcs.values())
    for c in prog.classes.values():
        out += list(c.methods.values())
    return out


def analyse(rep, prog, f, limit=4000, budget=60000):
    """-> dict(muts={path: (how, where)}, edges=[...], alias={attr: {paths}}, ret={paths}, complete)"""
    types = {}
    me = None
    if f.cls is not None and f.kind != "static":
        types = {("self",): f.cls.name}
    I = Interp(prog, budget, types)
    I.cached_alias = True
    I.types = {**I.types, **types}
    hook = Edges(None, f, limit)
    I.hooks.append(hook)
    st = I.start()
    muts = {}

    def ev_hook(I, st, ev):
        d = ev.data
        if ev.kind in ("item", "mut", "delitem", "attr", "delattr"):
            o = d["oid"]
            if isinstance(o, tuple) and o[2] is None:
                p = o[1]
                if ev.kind == "delattr" and d["name"].startswith("__"):
                    return                      # a hasattr test that failed, not a deletion
                if I.types.get(("array", p[0])) and "[]" in p[1:]:
                    return                      # indexing an array with a list copies
                if ev.kind in ("attr", "delattr"):
                    p = p + ("." + d["name"],)
                muts.setdefault(p, (ev.kind if ev.kind != "mut" else d.get("how"), f"{ev.file}:{ev.line} {ev.fn}"))
        elif ev.kind in ("modattr", "clsattr", "extattr"):
            if ev.kind != "extattr":
                muts.setdefault(("module", d.get("mod") or d.get("cls"), d["name"]), ("store", f"{ev.file}:{ev.line} {ev.fn}"))
    I.hooks.append(ev_hook)
    args = []
    a = f.node.args
    for i, p in enumerate(a.posonlyargs + a.args + a.kwonlyargs):
        first = i == 0 and f.cls is not None and f.kind != "static"
        nm = "self" if first else "$" + p.arg
        t = ast.unparse(p.annotation) if p.annotation else ""
        if "ndarray" in t or "coo_" in t:
            I.types[("array", nm)] = True
        for cn in prog.classes:
            if t == cn:
                I.types[(nm,)] = cn
        if p.arg in ("infSDP", "problem", "inflationproblem") and not first:
            cn = "InflationProblem" if p.arg == "inflationproblem" else "InflationSDP"
            I.types.setdefault((nm,), cn)
        args.append(I.sym((nm,)))
    ka = {}
    for p in reversed(a.kwonlyargs):
        ka[p.arg] = args.pop()
    alias, ret, done = {}, set(), True
    try:
        v = I.run(st, f, args, ka)
        if v is not None:
            def outside(x):
                return {o[1] for o in x.r if isinstance(o, tuple) and o[2] is None and (str(o[1][0]).startswith("$") or o[1][0] in ("module", "default"))}
            for an, x in I.get(st, SELF).attrs.items():
                for o in x.r:
                    alias.setdefault((an,), set()).update(outside(x))
                    ob = st.heap.get(o)
                    if ob is not None and ob.kind != "inst" and not isinstance(o, tuple):
                        for y in list(ob.items or ()) + [e[1] for e in ob.ents.values()]:
                            for step in ("#", "[]"):
                                alias.setdefault((an, step), set()).update(outside(y))
            alias = {k: v for k, v in alias.items() if v}
            for o in v.r:
                if isinstance(o, tuple) and o[2] is None:
                    ret.add(o[1])
    except Budget:
        done = False
        rep.count("stopped_at_budget")
    rep.seen(I)
    return dict(muts=muts, edges=hook.edges, alias=alias, ret=ret, complete=done)


def effects_of(rep, prog, funcs=None):
    """{Func: {(root, path...): (how, where)}} after the fixpoint, and the raw results"""
    funcs = funcs or all_funcs(prog)
    res = dict(zip([f.qual for f in funcs], rep.jobs([("own", f.qual, lambda r, f: analyse(r, prog, f), (f,)) for f in funcs])))
    eff = {q: dict(r["muts"]) if r else {} for q, r in res.items()}
    changed = True
    while changed:
        changed = False
        for q, r in res.items():
            if not r:
                continue
            for func, roots, w in r["edges"]:
                sub = eff.get(func.qual)
                if not sub:
                    continue
                first = func.node.args.posonlyargs + func.node.args.args
                sname = first[0].arg if first and func.cls is not None and func.kind != "static" else None
                for p, (how, w2) in list(sub.items()):
                    nm = sname if p[0] == "self" else (p[0][1:] if isinstance(p[0], str) and p[0].startswith("$") else None)
                    if nm is None:
                        if p[0] in ("module", "default") and p not in eff[q]:
                            eff[q][p] = (how, w2); changed = True
                        continue
                    for base in roots.get(nm, ()):
                        np_ = base + p[1:]
                        if len(np_) <= 8 and np_ not in eff[q]:
                            eff[q][np_] = (how, f"{w2}, called at {w}")
                            changed = True
    return eff, res
