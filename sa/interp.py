"""Inlining abstract interpreter over the program model (joined states, no execution)."""
import ast
from .values import *
from .model import Program, Func, Cls, Module, AnchorMissing
from . import lib


class Budget(Exception):
    pass


class Dead(Exception):
    """the current path never continues (every continuation raises)"""


class Flow:
    __slots__ = ("next", "ret", "brk", "cont")

    def __init__(self, next=None, ret=None, brk=None, cont=None):
        self.next, self.ret, self.brk, self.cont = next, ret, brk, cont


class Event:
    __slots__ = ("kind", "node", "file", "line", "fn", "pc", "data", "stack")

    def __repr__(self):
        return f"{self.kind}@{self.file}:{self.line} in {self.fn} {self.data}"


class Closure:
    __slots__ = ("node", "fid", "mod", "cls", "name", "defaults")

    def __init__(self, node, fid, mod, cls, name, defaults):
        self.node, self.fid, self.mod, self.cls, self.name, self.defaults = node, fid, mod, cls, name, defaults

    def __hash__(self):
        return hash((id(self.node), self.fid))

    def __eq__(self, o):
        return isinstance(o, Closure) and o.node is self.node and o.fid == self.fid

    def __repr__(self):
        return f"<closure {self.name}>"


class Frame:
    __slots__ = ("fid", "parent", "mod", "cls", "func", "name", "nonlocals", "node")


class Interp:
    MAXDEPTH = 30
    MAXREC = 2

    def __init__(self, prog, budget=400000, types=None):
        self.p = prog
        self.budget = budget
        self.steps = 0
        self.events = []
        self.record = True
        self.hooks = []
        self.ext_hooks = {}
        self.frames = []
        self.tries = []
        self.stack = []         # (Func|Closure, call node)
        self.ids = {}
        self.iters = ()
        self.fidn = 0
        self.types = {"InflationProblem": "InflationProblem"}
        self.types.update(types or {})
        self.unknowns = []
        self.functions_seen = set()
        self.loop_depth = 0
        self.inline_deny = set()
        self.callret = []
        self.modconst = {}
        self.cache_getters = False
        self.cached_alias = False
        self.cost = {}

    # ------------------------------------------------------------ utilities
    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()

    def cur(self):
        return self.frames[-1]

    def where(self, node):
        f = self.cur()
        return f.mod.rel, getattr(node, "lineno", 0), f.name

    def emit(self, st, kind, node, **data):
        ev = Event()
        ev.kind, ev.node, ev.data, ev.pc = kind, node, data, st.pc
        ev.file, ev.line, ev.fn = self.where(node) if self.frames else ("?", 0, "?")
        ev.stack = tuple((getattr(f, "qual", getattr(f, "name", "?"))) for f, _ in self.stack)
        if self.record:
            self.events.append(ev)
        for h in self.hooks:
            h(self, st, ev)
        return ev

    def new_id(self, node, extra=None):
        key = (tuple(id(n) for _, n in self.stack), self.iters, id(node), extra)
        try:
            return self.ids[key]
        except KeyError:
            self.ids[key] = i = len(self.ids) + 1
            return i

    def alloc(self, st, node, obj, extra=None):
        i = self.new_id(node, extra)
        st.heap[i] = obj
        return i

    def ref(self, oid, d=E):
        return V(r=frozenset([oid]), d=d)

    def new_list(self, st, node, items=None, ents=None, kind="list", extra=None, tags=E):
        o = Obj(kind, items=tuple(items) if items is not None else None, ents=ents, tags=tags)
        return self.ref(self.alloc(st, node, o, extra or kind))

    def sym(self, path, owner=None):
        oid = ("s", path, owner)
        l = frozenset([path])
        return V(r=frozenset([oid]), f=frozenset([Term(1, (path,), E)]), d=l)

    def get(self, st, oid):
        o = st.heap.get(oid)
        if o is None:
            if isinstance(oid, tuple):
                o = Obj("sym", cls=self.type_of(oid[1]))
            else:
                o = Obj("inst")
        return o

    def type_of(self, path):
        t = self.types.get(path)
        if t is None and len(path) > 1:
            t = self.types.get(path[-1]) if isinstance(path[-1], str) else None
        if t is None:
            return None
        return self.p.classes.get(t) if isinstance(t, str) else t

    def child(self, oid, step):
        return self.sym(oid[1] + (step,), oid[2])

    def issym(self, oid):
        return isinstance(oid, tuple)

    # deps of a value including the contents of containers it refers to
    def deps(self, st, v, depth=0, seen=None):
        if not v.r or depth > 4:
            return v.d
        seen = seen if seen is not None else set()
        out = set(v.d)
        for oid in v.r:
            if oid in seen:
                continue
            seen.add(oid)
            o = st.heap.get(oid)
            if o is None:
                continue
            if o.kind == "inst":
                continue
            for x in (o.items or ()):
                out |= self.deps(st, x, depth + 1, seen)
            for k, x, gs in o.ents.values():
                if k is not None:
                    out |= self.deps(st, k, depth + 1, seen)
                out |= self.deps(st, x, depth + 1, seen)
            if o.kind == "coo":
                for x in o.attrs.values():
                    out |= self.deps(st, x, depth + 1, seen)
        return frozenset(out)

    # addends of a numeric value (elements for containers)
    def num(self, st, v, depth=0, zero=False):
        out = set(v.f)
        for t, x in v.c:
            if t in ("int", "float", "bool", "complex"):
                if x != 0 or zero:
                    out.add(Term(x if t != "bool" else int(x), (), E))
        if v.r and depth < 5:
            for oid in v.r:
                o = st.heap.get(oid)
                if o is None:
                    continue
                if o.kind in ("list", "tuple", "set", "array", "iter"):
                    for x in (o.items or ()):
                        out |= self.num(st, x, depth + 1, zero)
                    for k, x, gs in o.ents.values():
                        t = self.num(st, x, depth + 1, zero)
                        if gs != EE and t:
                            t = {Term(y.k, y.l, y.g | g) for y in t for g in gs}
                        out |= t
                elif o.kind in ("coo", "sym") and "data" in o.attrs:
                    out |= self.num(st, o.attrs["data"], depth + 1, zero)
        if len(out) > CAP_TERMS:
            out = set(list(out)[:CAP_TERMS])
        return frozenset(out)

    def unkn(self, st, v, depth=0):
        if v.u:
            return True
        for oid in v.r:
            o = st.heap.get(oid)
            if o is not None and depth < 4:
                for x in (o.items or ()):
                    if self.unkn(st, x, depth + 1): return True
                for k, x, gs in o.ents.values():
                    if self.unkn(st, x, depth + 1): return True
                if o.kind == "coo" and "data" in o.attrs and self.unkn(st, o.attrs["data"], depth + 1):
                    return True
        return False

    def numv(self, st, v):
        """v as a plain numeric value (no references)"""
        if not v.r:
            return v
        return V(f=self.num(st, v), d=self.deps(st, v), u=self.unkn(st, v))

    def elem(self, st, v):
        """join of the elements of v"""
        out = BOT
        for x, gs in self.elements(st, v):
            if gs != EE and x.f:
                x = x.with_(f=frozenset(Term(t.k, t.l, t.g | g) for t in x.f for g in gs))
            out = vjoin(out, x)
        return out

    def exact_items(self, st, v):
        if len(v.r) == 1 and not v.u and not v.fn:
            o = st.heap.get(next(iter(v.r)))
            if o is not None and o.kind in ("list", "tuple", "set", "iter") and o.items is not None and not o.ents:
                return o.items
            if o is not None and o.kind == "dict" and all(gs == EE and k.const for k, x, gs in o.ents.values()):
                return tuple(k for k, x, gs in o.ents.values())
        if v.const and not v.r and not v.u and not v.fn and not v.f:
            t, x = v.const
            if t == "str" and len(x) <= 40:
                return tuple(C(ch) for ch in x)
            if t == "tuple":
                return tuple(C(y) for y in x)
        return None

    def elements(self, st, v, mode="iter", node=None):
        """[(value, guard sets)] the alternatives an iteration over v yields"""
        out = []
        for oid in v.r:
            o = self.get(st, oid)
            if o.kind == "sym":
                base = "nobase" not in o.tags
                if base:
                    k, x = self.child(oid, "#"), self.child(oid, "[]")
                    ex = frozenset(l for l in v.d if l != oid[1][:len(l)])
                    if ex:
                        k, x = k.with_(d=k.d | ex), x.with_(d=x.d | ex)
                    out.append((self._mode(st, mode, k, x, (oid, "base")), EE))
                for K, (k, x, gs) in o.ents.items():
                    out.append((self._mode(st, mode, k if k is not None else x, x, (oid, K)), gs))
            elif o.kind == "dict":
                for K, (k, x, gs) in o.ents.items():
                    out.append((self._mode(st, mode, k, x, (oid, K)), gs))
            elif o.kind == "inst":
                out.append((unk(self.deps(st, v)), EE))
            elif o.kind == "coo":
                out.append((V(f=self.num(st, v), d=self.deps(st, v)), EE))
            else:
                for x in (o.items or ()):
                    out.append((x, EE))
                for K, (k, x, gs) in o.ents.items():
                    out.append((x, gs))
        if not v.r and (v.f or v.u):
            out.append((V(f=v.f, d=v.d, u=v.u), EE))
        for t, x in v.c:
            if t == "str":
                out.extend((C(ch), EE) for ch in x[:40])
            elif t in ("tuple", "list", "set", "frozenset", "range"):
                out.extend((C(y), EE) for y in list(x)[:64])
        if v.tok:
            out.append((unk(v.d), EE))
        return out

    def _mode(self, st, mode, k, x, extra):
        if mode == "iter" or mode == "keys":
            return k
        if mode == "values":
            return x
        key = ("pair", k, x, self.iters)
        i = self.ids.get(key)
        if i is None:
            self.ids[key] = i = len(self.ids) + 1
        st.heap[i] = Obj("tuple", items=(k, x))
        return self.ref(i)

    # ------------------------------------------------------------ state joins
    def join(self, a, b, ga=None, gb=None):
        if a is None: return b
        if b is None: return a
        if a is b: return a
        s = State()
        s.pc = a.pc if a.pc == b.pc else a.pc & b.pc
        for fid in a.frames.keys() | b.frames.keys():
            x, y = a.frames.get(fid), b.frames.get(fid)
            if x is None or y is None:
                s.frames[fid] = dict(x if y is None else y); continue
            f = {}
            for n in x.keys() | y.keys():
                p, q = x.get(n), y.get(n)
                if p is None: f[n] = q
                elif q is None: f[n] = p
                elif p is q: f[n] = p
                else: f[n] = vjoin(p, q, ga, gb)
            s.frames[fid] = f
        if a.heap is b.heap:
            s.heap = dict(a.heap)
        else:
            h = dict(a.heap)
            for oid, o in b.heap.items():
                p = h.get(oid)
                if p is None:
                    if self.issym(oid):
                        h[oid] = ojoin(self.get(a, oid), o, ga, gb, lambda n, oid=oid: self.lazy_attr(oid, n))
                    else:
                        h[oid] = o
                elif p is not o:
                    h[oid] = ojoin(p, o, ga, gb, (lambda n, oid=oid: self.lazy_attr(oid, n)) if self.issym(oid) else None)
            for oid, o in a.heap.items():
                if self.issym(oid) and oid not in b.heap:
                    h[oid] = ojoin(o, self.get(b, oid), ga, gb, lambda n, oid=oid: self.lazy_attr(oid, n))
            s.heap = h
        for k in a.mon.keys() | b.mon.keys():
            d = E if k in a.mon and k in b.mon else self.mon_default(k)
            s.mon[k] = a.mon.get(k, d) | b.mon.get(k, d)
        return s

    def mon_default(self, k):
        """value of a monitor on paths where it has not been set (overridable)"""
        return E

    def lazy_attr(self, oid, n):
        return self.child(oid, n)

    def assign_state(self, st, s2):
        st.frames, st.heap, st.pc, st.mon = s2.frames, s2.heap, s2.pc, s2.mon

    # ------------------------------------------------------------ exceptions
    def may_raise(self, st, kind, guard=None):
        """register the current state with the innermost handler that can catch `kind`"""
        hit = False
        for t in reversed(self.tries):
            if t["closed"]:
                continue
            sure = kind in t["types"] or "*" in t["types"]
            if sure or (kind not in BUILTIN_EXC and t["ext"]):
                s = st.copy()
                if guard is not None:
                    s.pc = s.pc | {guard}
                t["states"][kind] = self.join(t["states"].get(kind), s)
                hit = True
                if sure:
                    break
        return hit

    # ------------------------------------------------------------ guards
    def formula(self, st, v, node):
        if v.cond is not None:
            return v.cond
        return ("atom", "opaque", self.deps(st, v), (self.cur().mod.rel, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)))

    def truth(self, st, v):
        """True/False/None"""
        poss = set()
        for t, x in v.c:
            if t == "absent":
                continue
            poss.add(bool(x))
        for oid in v.r:
            o = self.get(st, oid)
            if o.kind == "sym":
                poss |= {True, False}
            elif o.kind in ("inst", "coo"):
                poss.add(True)
            elif o.kind == "array":
                poss |= {True, False}
            elif o.items is not None and not o.ents:
                poss.add(bool(o.items))
            elif not o.ents:
                poss.add(False)
            elif o.items:
                poss.add(True)
            elif any(gs == EE and self.definite(k) for k, x, gs in o.ents.values()):
                poss.add(True)
            else:
                poss |= {True, False}
        if v.f or v.u:
            if not (v.r and not v.u and all(self.issym(o) for o in v.r)):
                poss |= {True, False}
        if v.fn:
            poss.add(True)
        if v.tok is not None:
            for t in v.tok:
                poss.add(True if t and t != ("?",) else False)
                if t == ("?",): poss |= {True, False}
        if len(poss) == 1:
            return poss.pop()
        return None

    def definite(self, k):
        return k is not None and k.const is not None

    def contradict(self, pc, form, pol):
        return (form, not pol) in pc

    def branches(self, st, v, node):
        """-> (true_guards or None if infeasible, false_guards or None)"""
        t = self.truth(st, v)
        if t is True:
            return E, None
        if t is False:
            return None, E
        form = v.cond
        if form is None:
            labs = self.deps(st, v)
            has_c = bool(v.r)
            if has_c:
                form = ("not", ("atom", "empty", labs))
            elif v.f:
                form = ("not", ("atom", "zero", labs))
            else:
                form = self.formula(st, v, node)
        tg, fg = self.split(form)
        if any(self.contradict(st.pc, f, p) for f, p in tg): tg = None
        if any(self.contradict(st.pc, f, p) for f, p in fg): fg = None
        if tg is None and fg is None:
            return E, E
        return tg, fg

    def split(self, form):
        """formula -> (guards when true, guards when false)"""
        if form[0] == "not":
            a, b = self.split(form[1])
            return b, a
        if form[0] == "and":
            t = E
            for x in form[1:]:
                t |= self.split(x)[0]
            return t, frozenset([(form, False)])
        if form[0] == "or":
            f = E
            for x in form[1:]:
                f |= self.split(x)[1]
            return frozenset([(form, True)]), f
        return frozenset([(form, True)]), frozenset([(form, False)])

    # ------------------------------------------------------------ statements
    def block(self, st, body):
        flow = Flow(next=st)
        for s in body:
            if flow.next is None:
                break
            f = self.stmt(flow.next, s)
            flow.next = f.next
            for k in ("ret", "brk", "cont"):
                x = getattr(f, k)
                if x is not None:
                    setattr(flow, k, self.join(getattr(flow, k), x))
        return flow

    def stmt(self, st, n):
        self.tick()
        try:
            m = getattr(self, "s_" + type(n).__name__, None)
            if m is None:
                return Flow(next=st)
            return m(st, n)
        except Dead:
            return Flow()

    def s_Expr(self, st, n):
        if not isinstance(n.value, ast.Constant):
            self.ev(st, n.value)
        return Flow(next=st)

    def s_Assign(self, st, n):
        v = self.ev(st, n.value)
        for t in n.targets:
            self.assign(st, t, v, n)
        return Flow(next=st)

    def s_AnnAssign(self, st, n):
        if n.value is not None:
            self.assign(st, n.target, self.ev(st, n.value), n)
        return Flow(next=st)

    def s_AugAssign(self, st, n):
        t = n.target
        if isinstance(t, ast.Name):
            old = self.load_name(st, t)
            rhs = self.ev(st, n.value)
            # in-place on mutable objects
            muts = [o for o in old.r if self.get(st, o).kind in ("list", "set", "array", "dict")]
            symm = [o for o in old.r if self.issym(o)]
            if muts and not (isinstance(n.op, ast.Add) and any(self.get(st, o).kind == "tuple" for o in old.r)):
                for o in muts + symm:
                    self.emit(st, "mut", n, oid=o, how="augassign", val=rhs)
                if isinstance(n.op, (ast.Add, ast.BitOr)) and all(self.get(st, o).kind in ("list", "set", "dict") for o in muts):
                    for o in muts:
                        self.extend(st, o, rhs, n)
                    return Flow(next=st)
            elif symm and (self.is_arrayish(st, old) or self.is_containerish(st, rhs)):
                for o in symm:
                    self.emit(st, "mut", n, oid=o, how="augassign", val=rhs)
                    if isinstance(n.op, (ast.Add, ast.BitOr)) and self.is_containerish(st, rhs):
                        self.extend(st, o, rhs, n)
                        return Flow(next=st)
            v = self.binop(st, n.op, old, rhs, n)
            self.store_name(st, t.id, v)
        elif isinstance(t, ast.Attribute):
            base = self.ev(st, t.value)
            old = self.getattr(st, base, t.attr, t)
            rhs = self.ev(st, n.value)
            muts = [o for o in old.r if self.get(st, o).kind in ("list", "set", "dict", "array")]
            if muts:
                for o in muts:
                    self.emit(st, "mut", n, oid=o, how="augassign", val=rhs)
                if isinstance(n.op, (ast.Add, ast.BitOr)) and all(self.get(st, o).kind in ("list", "set", "dict") for o in muts):
                    for o in muts:
                        self.extend(st, o, rhs, n)
                    return Flow(next=st)
            elif old.r and any(self.issym(o) for o in old.r) and (self.is_containerish(st, rhs) or self.is_arrayish(st, old)):
                for o in old.r:
                    if self.issym(o):
                        self.emit(st, "mut", n, oid=o, how="augassign", val=rhs)
                        if isinstance(n.op, (ast.Add, ast.BitOr)) and self.is_containerish(st, rhs):
                            self.extend(st, o, rhs, n)
                if isinstance(n.op, (ast.Add, ast.BitOr)) and self.is_containerish(st, rhs):
                    return Flow(next=st)
            self.setattr(st, base, t.attr, self.binop(st, n.op, old, rhs, n), n)
        elif isinstance(t, ast.Subscript):
            base = self.ev(st, t.value)
            key = self.ev_index(st, t.slice)
            old = self.getitem(st, base, key, t)
            rhs = self.ev(st, n.value)
            cells = frozenset(("@cell", o) for o in base.r)
            v = self.binop(st, n.op, old, rhs, n)
            v = v.with_(d=v.d | cells)
            self.setitem(st, base, key, v, n, aug=type(n.op).__name__, rhs=rhs)
        return Flow(next=st)

    def is_containerish(self, st, v):
        return any(self.get(st, o).kind in ("list", "set", "tuple", "dict") for o in v.r)

    def is_arrayish(self, st, v):
        for o in v.r:
            if self.issym(o):
                p = o[1]
                if any(isinstance(x, str) and (x in lib.ARRAY_NAMES or x in self.p.array_attrs()) for x in p[-1:]):
                    return True
                if self.types.get(("array",) + p):
                    return True
        return False

    def s_Return(self, st, n):
        v = self.ev(st, n.value) if n.value is not None else NONE
        st.frames[self.cur().fid]["$ret"] = v
        return Flow(ret=st)

    def s_Pass(self, st, n):
        return Flow(next=st)

    def s_Break(self, st, n):
        return Flow(brk=st)

    def s_Continue(self, st, n):
        return Flow(cont=st)

    def s_Global(self, st, n):
        return Flow(next=st)

    def s_Nonlocal(self, st, n):
        self.cur().nonlocals |= set(n.names)
        return Flow(next=st)

    def s_Delete(self, st, n):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.frames[self.cur().fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(st, t.value)
                key = self.ev_index(st, t.slice)
                self.delitem(st, base, key, n)
            elif isinstance(t, ast.Attribute):
                base = self.ev(st, t.value)
                self.delattr(st, base, t.attr, n)
        return Flow(next=st)

    def s_Raise(self, st, n):
        name = "*unk"
        if n.exc is not None:
            e = n.exc
            if isinstance(e, ast.Call):
                for a in e.args:
                    self.ev(st, a)
                e = e.func
            if isinstance(e, ast.Name): name = e.id
            elif isinstance(e, ast.Attribute): name = e.attr
        self.emit(st, "raise", n, name=name)
        self.may_raise(st, name)
        return Flow()

    def s_Assert(self, st, n):
        v = self.ev(st, n.test)
        tg, fg = self.branches(st, v, n.test)
        if fg is not None:
            s = st.copy()
            s.pc |= fg
            self.emit(s, "assert", n, test=v)
            self.may_raise(s, "AssertionError")
        if tg is None:
            return Flow()
        self.refine(st, n.test, True)
        return Flow(next=st)

    def s_Import(self, st, n):
        env = st.frames[self.cur().fid]
        for a in n.names:
            nm = a.asname or a.name.split(".")[0]
            r = self.p.resolve_import(a.name if a.asname else a.name.split(".")[0], None)
            env[nm] = self.resolved(st, r)
        self.may_raise(st, "ImportError")
        return Flow(next=st)

    def s_ImportFrom(self, st, n):
        env = st.frames[self.cur().fid]
        m = self.cur().mod
        mod = n.module or ""
        if n.level:
            parts = m.name.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (n.level - 1)]
            mod = ".".join(parts + ([mod] if mod else []))
        for a in n.names:
            env[a.asname or a.name] = self.resolved(st, self.p.resolve_import(mod, a.name))
        self.may_raise(st, "ImportError")
        return Flow(next=st)

    def s_FunctionDef(self, st, n):
        fr = self.cur()
        dv = [self.ev(st, d) for d in n.args.defaults]
        c = Closure(n, fr.fid, fr.mod, fr.cls, n.name, tuple(dv))
        st.frames[fr.fid][n.name] = V(fn=frozenset([("clo", c)]))
        return Flow(next=st)

    def s_ClassDef(self, st, n):
        st.frames[self.cur().fid][n.name] = UNK
        return Flow(next=st)

    def s_With(self, st, n):
        for it in n.items:
            v = self.ev(st, it.context_expr)
            if it.optional_vars is not None:
                self.assign(st, it.optional_vars, v, n)
        return self.block(st, n.body)

    def s_If(self, st, n):
        v = self.ev(st, n.test)
        tg, fg = self.branches(st, v, n.test)
        if fg is None:
            self.refine(st, n.test, True)
            return self.block(st, n.body)
        if tg is None:
            self.refine(st, n.test, False)
            return self.block(st, n.orelse)
        pc0 = st.pc
        s1, s2 = st.copy(), st
        s1.pc = pc0 | tg
        s2.pc = pc0 | fg
        self.refine(s1, n.test, True)
        self.refine(s2, n.test, False)
        self.gone(s1, tg, n)
        self.gone(s2, fg, n)
        f1 = self.block(s1, n.body)
        f2 = self.block(s2, n.orelse)
        ga = next(iter(tg)) if len(tg) == 1 else (self.conj(tg), True)
        gb = next(iter(fg)) if len(fg) == 1 else (self.conj(fg), True)
        td = self.deps(st, v)
        out = Flow()
        for k in ("next", "ret", "brk", "cont"):
            a, b = getattr(f1, k), getattr(f2, k)
            if a is not None and b is not None:
                s = self.join(a, b, ga, gb)
                s.pc = pc0 if k == "next" else s.pc
                if td:
                    self.taint(s, a, b, td, k)
                setattr(out, k, s)
            else:
                setattr(out, k, a if a is not None else b)
        if out.next is not None and (f1.next is None) != (f2.next is None):
            dead = f2 if f1.next is not None else f1
            if dead.ret is None and dead.brk is None and dead.cont is None:
                out.next.pc = pc0
        return out

    def taint(self, s, a, b, td, k):
        """implicit flow: variables that differ between the branches depend on the test"""
        fid = self.cur().fid
        fa, fb, fs = a.frames.get(fid, {}), b.frames.get(fid, {}), s.frames.get(fid, {})
        for nme, x in list(fs.items()):
            p, q = fa.get(nme), fb.get(nme)
            if p is not None and q is not None and p is not q and p != q and not td <= x.d:
                fs[nme] = x.with_(d=x.d | td)

    def conj(self, gs):
        fs = [g[0] if g[1] else ("not", g[0]) for g in sorted(gs, key=repr)]
        return fs[0] if len(fs) == 1 else ("and",) + tuple(fs)

    def gs_guard(self, gs):
        """guard sets (DNF) -> set of guards to add to the path condition"""
        if gs == EE or E in gs:
            return E
        if len(gs) == 1:
            return next(iter(gs))
        common = frozenset.intersection(*gs)
        rest = [g - common for g in gs]
        if any(not r for r in rest):
            return common
        return common | {(("or",) + tuple(self.conj(r) for r in rest), True)}

    def gone(self, st, guards, node):
        """the branch is only taken when an attribute does not exist"""
        for form, pol in guards or ():
            if pol and form[:2] == ("atom", "absentattr") and len(form) > 4:
                o = self.get(st, form[4])
                if form[3] not in o.attrs:
                    st.heap[form[4]] = o.mut(attrs={**o.attrs, form[3]: ABSENT})
                    self.emit(st, "delattr", node, oid=form[4], name=form[3])

    def refine(self, st, test, pol):
        env = st.frames[self.cur().fid]
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(st, test.operand, not pol)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == pol:
                for x in test.values:
                    self.refine(st, x, pol)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and test.left.id in env:
            x = env[test.left.id]
            op, rhs = test.ops[0], test.comparators[0]
            if isinstance(rhs, ast.Constant) and rhs.value is None and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                isnone = pol == isinstance(op, (ast.Is, ast.Eq))
                env[test.left.id] = NONE.with_(d=x.d) if isnone else x.with_(c=x.c - NONE.c, cond=None)
            elif isinstance(rhs, ast.Constant) and isinstance(op, (ast.Eq, ast.NotEq)) and x.c and not x.u and not x.f:
                same = pol == isinstance(op, ast.Eq)
                keep = frozenset(c for c in x.c if (c[1] == rhs.value) == same)
                if keep:
                    env[test.left.id] = x.with_(c=keep, cond=None)
        elif isinstance(test, ast.Name) and test.id in env:
            x = env[test.id]
            keep = frozenset(c for c in x.c if bool(c[1]) == pol)
            if x.c and len(keep) != len(x.c):
                env[test.id] = x.with_(c=keep, cond=None)

    def loop_body(self, st, n, body):
        self.loop_depth += 1
        try:
            return self.block(st, body)
        finally:
            self.loop_depth -= 1

    def has_break(self, body):
        todo = list(body)
        while todo:
            x = todo.pop()
            if isinstance(x, ast.Break):
                return True
            if isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                if isinstance(x, (ast.For, ast.While)):
                    todo.extend(x.orelse)
                continue
            todo.extend(ast.iter_child_nodes(x))
        return False

    def s_For(self, st, n):
        it = self.ev(st, n.iter)
        return self.run_for(st, n, it, lambda s, x: self.assign(s, n.target, x, n), n.body, n.orelse)

    def run_for(self, st, n, it, bind, body, orelse=()):
        pc0 = st.pc
        exact = self.exact_items(st, it)
        ret = brk = None
        brkg = E
        if self.has_break(body):
            brkg = frozenset([(("atom", "brk", E, (self.cur().mod.rel, n.lineno)), False)])
        saved = self.iters
        if exact is not None and len(exact) <= 40:
            cur = st
            for i, x in enumerate(exact):
                if cur is None:
                    break
                self.iters = saved + (("x", i),)
                cur.pc = pc0
                try:
                    bind(cur, x)
                    f = self.loop_body(cur, n, body)
                except Dead:
                    f = Flow()
                cur = self.join(f.next, f.cont)
                ret, brk = self.join(ret, f.ret), self.join(brk, f.brk)
        else:
            els = self.elements(st, it)
            multi = len(els) > 1
            passes = 2 if self.loop_depth < 2 else 1
            seq = [(x, gs, i) for i, (x, gs) in enumerate(els)]
            if len(seq) > 24:
                seq = seq[:24]; self.unknowns.append(("loop alternatives capped", self.where(n)))
            if passes == 2 and len(seq) <= 6:
                seq = seq + [(x, gs, i + 100) for x, gs, i in seq]
            cur = st
            for x, gs, i in seq:
                self.iters = saved + ((id(n), i),)
                s = cur.copy()
                s.pc = pc0 | self.gs_guard(gs) | brkg
                try:
                    bind(s, x)
                    f = self.loop_body(s, n, body)
                except Dead:
                    f = Flow()
                nx = self.join(f.next, f.cont)
                ret, brk = self.join(ret, f.ret), self.join(brk, f.brk)
                if nx is not None:
                    nx.pc = pc0
                    g = self.gs_guard(gs)
                    cur = self.join(cur, nx, None, None if not g else next(iter(g)) if len(g) == 1 else (self.conj(g), True))
        self.iters = saved
        if cur is not None:
            cur.pc = pc0
            if orelse:
                f = self.block(cur, orelse)
                cur = f.next
                ret = self.join(ret, f.ret)
        if brk is not None:
            brk.pc = pc0
            cur = self.join(cur, brk)
            cur.pc = pc0
        return Flow(next=cur, ret=ret)

    def s_While(self, st, n):
        pc0 = st.pc
        saved = self.iters
        ret = brk = None
        cur, out = st, None
        for i in range(2):
            v = self.ev(cur, n.test)
            tg, fg = self.branches(cur, v, n.test)
            if fg is not None:
                s = cur.copy(); s.pc = pc0
                out = self.join(out, s)
            if tg is None:
                cur = None
                break
            self.iters = saved + ((id(n), i),)
            cur.pc = pc0 | tg
            f = self.loop_body(cur, n, n.body)
            cur = self.join(f.next, f.cont)
            ret, brk = self.join(ret, f.ret), self.join(brk, f.brk)
            if cur is None:
                break
            cur.pc = pc0
        if cur is not None:
            out = self.join(out, cur)
        self.iters = saved
        if brk is not None:
            brk.pc = pc0
            out = self.join(out, brk)
        if out is not None:
            out.pc = pc0
        return Flow(next=out, ret=ret)

    def s_Try(self, st, n):
        catch = []
        for h in n.handlers:
            types, ext = set(), False
            for x in self.exc_names(h.type):
                if x in ("Exception", "BaseException"):
                    types.add("*"); ext = True
                elif x == "LookupError":
                    types |= {"KeyError", "IndexError"}
                else:
                    types.add(x)
                    if x not in ("KeyError", "AttributeError", "IndexError", "StopIteration", "AssertionError", "ImportError", "ModuleNotFoundError"):
                        ext = True
            catch.append((types, ext))
        rec = {"types": set().union(*[t for t, e in catch]), "ext": any(e for t, e in catch), "states": {}, "closed": False}
        pc0 = st.pc
        keep = set(st.frames)
        self.tries.append(rec)
        try:
            f = self.block(st, n.body)
        finally:
            self.tries.pop()
        if f.next is not None:
            f.next.pc = pc0
            if n.orelse:
                g = self.block(f.next, n.orelse)
                f = Flow(g.next, self.join(f.ret, g.ret), self.join(f.brk, g.brk), self.join(f.cont, g.cont))
        out = f
        for h, hs in zip(n.handlers, self.dispatch(catch, rec["states"])):
            if hs is not None:
                hs.frames = {k: x for k, x in hs.frames.items() if k in keep}
                s = hs.copy()
                if h.name:
                    s.frames[self.cur().fid][h.name] = UNK
                g = self.block(s, h.body)
                if g.next is not None:
                    g.next.pc = pc0
                out = Flow(self.join(out.next, g.next), self.join(out.ret, g.ret),
                           self.join(out.brk, g.brk), self.join(out.cont, g.cont))
        if out.next is not None:
            out.next.pc = pc0
        if n.finalbody:
            res = Flow()
            for k in ("next", "ret", "brk", "cont"):
                x = getattr(out, k)
                if x is not None:
                    g = self.block(x, n.finalbody)
                    setattr(res, k, g.next)
                    if g.ret is not None:
                        res.ret = self.join(res.ret, g.ret)
            out = res
        return out

    def dispatch(self, catch, states):
        """state with which each handler is entered"""
        out = [None] * len(catch)
        for kind, s in states.items():
            named = any(kind in t for t, e in catch)
            for i, (types, ext) in enumerate(catch):
                sure = kind in types or "*" in types
                if sure or (not named and kind not in BUILTIN_EXC and ext):
                    out[i] = self.join(out[i], s)
                if sure:
                    break
        return out

    def exc_names(self, t):
        if t is None:
            return ["Exception"]
        if isinstance(t, ast.Tuple):
            return [x for e in t.elts for x in self.exc_names(e)]
        if isinstance(t, ast.Attribute):
            return [t.attr]
        if isinstance(t, ast.Name):
            return [t.id]
        return ["Exception"]

    def s_Match(self, st, n):
        v = self.ev(st, n.subject)
        out = Flow()
        cur = st
        pc0 = st.pc
        done = False
        for c in n.cases:
            if cur is None:
                break
            pat = c.pattern
            vals = None
            if isinstance(pat, ast.MatchValue):
                vals = [self.ev(cur, pat.value)]
            elif isinstance(pat, ast.MatchSingleton):
                vals = [C(pat.value)]
            elif isinstance(pat, ast.MatchOr) and all(isinstance(q, ast.MatchValue) for q in pat.patterns):
                vals = [self.ev(cur, q.value) for q in pat.patterns]
            elif isinstance(pat, ast.MatchAs) and pat.pattern is None:
                vals = "any"
            s = cur.copy()
            tg = fg = frozenset()
            if vals == "any":
                if pat.name:
                    s.frames[self.cur().fid][pat.name] = v
                if c.guard is None:
                    done = True
            elif vals is not None:
                forms = []
                poss = False; sure = False
                for w in vals:
                    r = self.compare(st, ast.Eq(), v, w, n)
                    tt = self.truth(st, r)
                    if tt is True: sure = True
                    if tt is not False:
                        poss = True
                        forms.append(self.formula(st, r, n))
                if not poss:
                    continue
                if sure:
                    done = True
                else:
                    form = forms[0] if len(forms) == 1 else ("or",) + tuple(forms)
                    tg, fg = self.split(form)
            s.pc = cur.pc | tg
            f = self.block(s, c.body)
            if f.next is not None:
                f.next.pc = pc0
            out = Flow(self.join(out.next, f.next), self.join(out.ret, f.ret), self.join(out.brk, f.brk), self.join(out.cont, f.cont))
            if done:
                cur = None
            else:
                cur.pc = cur.pc | fg
        if cur is not None:
            cur.pc = pc0
            out.next = self.join(out.next, cur)
        return out

    # ------------------------------------------------------------ assignment
    def store_name(self, st, name, v):
        fr = self.cur()
        fid = fr.fid
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if name in st.frames.get(p, {}):
                    fid = p; break
                p = self.parents.get(p)
        st.frames.setdefault(fid, {})[name] = v

    parents = {}

    def assign(self, st, t, v, node):
        if isinstance(t, ast.Name):
            self.store_name(st, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(st, t, v, node)
        elif isinstance(t, ast.Attribute):
            base = self.ev(st, t.value)
            self.setattr(st, base, t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            base = self.ev(st, t.value)
            key = self.ev_index(st, t.slice)
            self.setitem(st, base, key, v, node)
        elif isinstance(t, ast.Starred):
            self.assign(st, t.value, v, node)

    def unpack(self, st, t, v, node):
        items = self.exact_items(st, v)
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if items is not None and not star and len(items) == n:
            for e, x in zip(t.elts, items):
                self.assign(st, e, x, node)
            return
        if items is not None and star and len(items) >= n - 1:
            i = star[0]
            k = len(items) - (n - 1)
            for e, x in zip(t.elts[:i], items[:i]):
                self.assign(st, e, x, node)
            self.assign(st, t.elts[i].value, self.new_list(st, t, items[i:i + k]), node)
            for e, x in zip(t.elts[i + 1:], items[i + k:]):
                self.assign(st, e, x, node)
            return
        for i, e in enumerate(t.elts):
            x = BOT
            for oid in v.r:
                o = self.get(st, oid)
                if o.kind == "sym":
                    x = vjoin(x, self.child(oid, f"[={i}]"))
                elif o.items is not None and i < len(o.items):
                    x = vjoin(x, o.items[i])
                else:
                    x = vjoin(x, self.elem(st, self.ref(oid)))
            if not v.r:
                x = V(f=v.f, d=v.d, u=True)
            elif v.u:
                x = vjoin(x, unk(v.d))
            self.assign(st, e.value if isinstance(e, ast.Starred) else e, x, node)

    # ------------------------------------------------------------ attributes
    def getattr(self, st, v, name, node, call=False):
        self.tick()
        out = BOT
        for oid in v.r:
            o = self.get(st, oid)
            out = vjoin(out, self.obj_attr(st, oid, o, name, node, v))
        for f in v.fn:
            out = vjoin(out, self.fn_attr(st, f, name, node))
        if v.c and any(t not in ("NoneType", "absent") for t, x in v.c):
            out = vjoin(out, V(fn=frozenset([("bm", V(c=v.c, d=v.d), name)]), d=v.d))
        if v.tok:
            out = vjoin(out, V(fn=frozenset([("bm", V(tok=v.tok, d=v.d, f=v.f, u=v.u), name)]), d=v.d))
        if (v.f or v.u) and not v.r and not v.tok and not (v.fn and not v.f and all(f[0] in ("exti", "extm", "ext") for f in v.fn)):
            x = V(f=v.f, d=v.d, u=v.u)
            if name in lib.ALIAS_ATTRS:
                out = vjoin(out, x)
            elif name in lib.META_ATTRS:
                out = vjoin(out, unk(frozenset(("@" + name, l) for l in v.d)))
            elif v.u and not v.f and not lib.is_method_name(name):
                out = vjoin(out, unk(v.d).with_(fn=frozenset([("bm", x, name)])))
            else:
                out = vjoin(out, V(fn=frozenset([("bm", x, name)]), d=v.d, f=v.f, u=v.u))
        if out is BOT:
            out = unk(v.d)
        return out

    def obj_attr(self, st, oid, o, name, node, v):
        if name == "__dict__":
            return V(fn=frozenset([("dictof", oid)]))
        if name in ("__setattr__", "__getattribute__", "__delattr__") and (o.cls is None or self.p.lookup(o.cls, name) is None):
            return V(fn=frozenset([("bm", self.ref(oid), name)]))
        if name == "__class__":
            return V(fn=frozenset([("cls", o.cls)])) if o.cls else unk(v.d)
        if name in o.attrs:
            x = o.attrs[name]
            self.note_read(st, oid, name, node)
            if ("absent", None) in x.c:
                if self.tries:
                    self.may_raise(st, "AttributeError", (("atom", "absentattr", E, name), True))
                x = drop_absent(x)
                if x == BOT:
                    f = self.p.lookup(o.cls, name) if o.cls else None
                    if f is not None and f.kind == "cached":
                        return self.run_getter(st, oid, o, f, name, node)
                    self.emit(st, "absent-read", node, oid=oid, name=name)
                    if not self.tries:
                        return unk(v.d)
                    raise Dead()
            return x
        if o.kind == "coo":
            return self.coo_attr(st, oid, o, name, node, v)
        if o.cls is not None:
            f = self.p.lookup(o.cls, name)
            if f is not None:
                if f.kind in ("property", "cached"):
                    self.note_read(st, oid, name, node)
                    return self.run_getter(st, oid, o, f, name, node)
                if f.kind == "static":
                    return V(fn=frozenset([("fn", f)]))
                return V(fn=frozenset([("m", f, oid)]))
            if (o.cls.name, name) in self.p.aliases and name not in o.attrs:
                f = self.p.aliases[(o.cls.name, name)]
                rid = next(iter(self.child(oid, "InflationProblem").r)) if self.issym(oid) else oid
                return V(fn=frozenset([("m", f, rid)]))
            ca = self.p.class_attr(o.cls, name)
            if ca is not None:
                return self.ev_in_module(st, ca[0].mod, ca[1])
            self.note_read(st, oid, name, node)
            if not name.startswith("__") and not self.p.name_known(name):
                self.may_raise(st, "AttributeError")
                raise Dead()                    # no class of the package has or gets such an attribute
            if self.issym(oid):
                if self.tries and not name.startswith("__"):
                    self.may_raise(st, "AttributeError", (("atom", "absentattr", E, name), True))
                return self.child(oid, name).with_(fn=frozenset([("symattr", oid, name)]))
            if name.startswith("__") and name.endswith("__"):
                return V(fn=frozenset([("bm", self.ref(oid), name)]))
            # attribute never stored on an allocated object
            self.emit(st, "absent-read", node, oid=oid, name=name)
            if self.tries and self.may_raise(st, "AttributeError", (("atom", "absentattr", E, name), True)):
                raise Dead()
            return unk(v.d | {("@attr", name)})
        if o.kind == "sym":
            if name in lib.ALIAS_ATTRS:
                return V(r=frozenset([oid]), f=v.f, d=v.d)
            if name in lib.META_ATTRS:
                return unk(frozenset([("@" + name, oid[1])]))
            x = self.child(oid, name)
            if lib.is_method_name(name):
                return V(fn=frozenset([("bm", self.ref(oid, v.d).with_(f=v.f), name)]), d=v.d)
            cands = [f for f in self.p.cha.get(name, ()) if f.kind == "method"]
            if cands:
                return x.with_(fn=frozenset(("m", f, oid) for f in cands))
            self.note_read(st, oid, name, node)
            if self.tries:
                self.may_raise(st, "AttributeError", (("atom", "absentattr", E, name), True))
            return x.with_(fn=frozenset([("symattr", oid, name)]))
        # containers
        if name in lib.ALIAS_ATTRS:
            return V(r=frozenset([oid]), d=v.d)
        if name in lib.META_ATTRS:
            return unk(frozenset(("@" + name, l) for l in self.deps(st, self.ref(oid, v.d))))
        return V(fn=frozenset([("bm", self.ref(oid, v.d), name)]), d=v.d)

    def coo_attr(self, st, oid, o, name, node, v):
        if name in ("indices",):
            return o.attrs.get("col", UNK)
        if name in ("indptr",):
            return self.numv(st, o.attrs.get("row", UNK)).with_(f=E, u=True)
        if name in ("shape", "nnz", "ndim", "size", "dtype"):
            base = self.deps(st, o.attrs.get("data", UNK)) | self.deps(st, o.attrs.get("row", UNK))
            return unk(frozenset(("@" + name, l) for l in base))
        if name in ("rows",):
            return self.new_list(st, node, ents={("e", 1): (None, self.new_list(st, node, ents={("e", 1): (None, self.elem(st, o.attrs.get("col", UNK)), EE)}, extra=("rows1", oid)), EE)}, extra=("rows", oid))
        if name == "T":
            return V(r=frozenset([oid]), d=v.d)
        return V(fn=frozenset([("bm", self.ref(oid, v.d), name)]), d=v.d)

    def note_read(self, st, oid, name, node):
        for h in self.hooks:
            if getattr(h, "reads", False):
                self.emit(st, "read", node, oid=oid, name=name)
                return

    def note_look(self, st, oid, key, node):
        for h in self.hooks:
            if getattr(h, "looks", False):
                self.emit(st, "look", node, oid=oid, key=key)
                return

    def run_getter(self, st, oid, o, f, name, node):
        v = self.call_func(st, f, [self.ref(oid)], {}, node)
        if f.kind == "cached":
            self.emit(st, "cache", node, oid=oid, name=name, val=v)
            if self.cache_getters:
                ob = self.get(st, oid)
                st.heap[oid] = ob.mut(attrs={**ob.attrs, name: v})
            if self.cached_alias and self.issym(oid):
                v = vjoin(v, self.child(oid, name))       # the copy computed earlier
        return v

    def fn_attr(self, st, f, name, node):
        if f[0] == "ext":
            if f[1] + "." + name in lib.EXT_CONST:
                return lib.EXT_CONST[f[1] + "." + name]
            return V(fn=frozenset([("ext", f[1] + "." + name)]), d=E)
        if f[0] == "exti":
            if lib.is_plain_attr(name):
                return V(fn=frozenset([("exti", f[1] + "." + name)]), u=True, d=f[2] if len(f) > 2 else E)
            return V(fn=frozenset([("ext", f[1] + "()." + name) if len(f) < 3 else ("extm", f[1] + "()." + name, f[2])]))
        if f[0] == "cls" and f[1] is not None:
            m = self.p.lookup(f[1], name)
            if m is not None:
                return V(fn=frozenset([("fn", m)]))
            if name == "__new__":
                return V(fn=frozenset([("new", f[1])]))
            if name == "__name__":
                return C(f[1].name)
            ca = self.p.class_attr(f[1], name)
            if ca is not None:
                return self.ev_in_module(st, ca[0].mod, ca[1])
            return UNK
        if f[0] == "mod":
            return self.resolved(st, self.p.resolve_import(f[1].name, name))
        if f[0] == "symattr":
            return BOT
        if f[0] == "dictof":
            return V(fn=frozenset([("dictm", f[1], name)]))
        if f[0] == "super":
            for k in self.p.mro(f[1])[1:]:
                if name in k.methods:
                    return V(fn=frozenset([("m", k.methods[name], f[2])]))
            return V(fn=frozenset([("ext", "object." + name)]))
        if f[0] == "m" and name in ("cache_clear",):
            return V(fn=frozenset([("cacheclear", f[1], f[2])]))
        if f[0] in ("fn", "m", "clo") and name.startswith("__"):
            return unk()
        return UNK

    def setattr(self, st, base, name, v, node):
        self.tick()
        for oid in base.r:
            o = self.get(st, oid)
            if o.cls is not None:
                for k in self.p.mro(o.cls):
                    if name in k.setters:
                        self.call_func(st, k.setters[name], [self.ref(oid), v], {}, node)
                        break
                else:
                    self._set1(st, base, oid, o, name, v, node)
            else:
                self._set1(st, base, oid, o, name, v, node)
        for f in base.fn:
            if f[0] == "mod":
                self.emit(st, "modattr", node, mod=f[1].name, name=name, val=v)
            elif f[0] in ("cls",) and f[1] is not None:
                self.emit(st, "clsattr", node, cls=f[1].name, name=name, val=v)
            elif f[0] in ("ext", "exti", "extm"):
                self.emit(st, "extattr", node, ext=f[1], name=name, val=v)

    def _set1(self, st, base, oid, o, name, v, node):
        old = o.attrs.get(name)
        nv = v
        if len(base.r) > 1:
            nv = vjoin(v, old if old is not None else (self.child(oid, name) if self.issym(oid) else ABSENT))
        st.heap[oid] = o.mut(attrs={**o.attrs, name: nv})
        self.emit(st, "attr", node, oid=oid, name=name, val=v, old=old)

    def delattr(self, st, base, name, node, may=True):
        for oid in base.r:
            o = self.get(st, oid)
            cur = o.attrs.get(name)
            if self.tries and (cur is None or ("absent", None) in cur.c):
                # in both outcomes the attribute is gone
                s = st
                keep = st.heap.get(oid)
                st.heap[oid] = o.mut(attrs={**o.attrs, name: ABSENT})
                self.emit(st, "delattr", node, oid=oid, name=name)
                self.may_raise(st, "AttributeError")
                continue
            st.heap[oid] = o.mut(attrs={**o.attrs, name: ABSENT})
            self.emit(st, "delattr", node, oid=oid, name=name)

    # ------------------------------------------------------------ items
    def ev_index(self, st, n):
        if isinstance(n, ast.Slice):
            return self.slice_v(st, n)
        if isinstance(n, ast.Tuple) and any(isinstance(e, ast.Slice) for e in n.elts):
            d = E
            full = True
            for e in n.elts:
                if isinstance(e, ast.Slice):
                    x = self.slice_v(st, e)
                    full = full and ("slice", "full") in x.c
                else:
                    x = self.ev(st, e); full = False
                d |= self.deps(st, x)
            return V(c=frozenset([("slice", "full" if full else "nd")]), d=d)
        return self.ev(st, n)

    def slice_v(self, st, n):
        vs = [self.ev(st, x) if x is not None else None for x in (n.lower, n.upper, n.step)]
        if vs[0] is None and vs[1] is None and vs[2] is None:
            return V(c=frozenset([("slice", "full")]))
        cs = []
        d = E
        for x in vs:
            if x is None:
                cs.append(None)
            else:
                d |= self.deps(st, x)
                k = x.const
                cs.append(k[1] if k and k[0] in ("int", "NoneType", "bool") else "?")
        return V(c=frozenset([("slice", tuple(cs))]), d=d)

    def is_slice(self, key):
        return len(key.c) == 1 and next(iter(key.c))[0] == "slice"

    def getitem(self, st, v, key, node):
        self.tick()
        if v.fn:
            for f in v.fn:
                if f[0] == "dictof":
                    k = key.const
                    if k and k[0] == "str":
                        o = self.get(st, f[1])
                        if not self.issym(f[1]) and k[1] not in o.attrs:
                            self.may_raise(st, "KeyError")
                            raise Dead()
                        self.may_raise(st, "KeyError", (("atom", "absentattr", E, k[1]), True))
                        return drop_absent(self.obj_attr(st, f[1], o, k[1], node, v))
                    return UNK
        if self.is_slice(key):
            return self.getslice(st, v, key, node)
        kd = self.deps(st, key)
        out, dead = BOT, 0
        for oid in v.r:
            o = self.get(st, oid)
            if o.kind == "sym":
                out = vjoin(out, self.sym_lookup(st, oid, o, key, kd, node))
            elif o.kind == "dict":
                if not o.ents and not o.attrs and len(v.r) > 1:
                    dead += 1       # nothing can be found in it
                    self.may_raise(st, "KeyError")
                    continue
                try:
                    out = vjoin(out, self.dict_lookup(st, oid, o, key, kd, node))
                except Dead:
                    dead += 1
                    if dead == len(v.r) and not v.f and not v.u:
                        raise
            elif o.kind in ("list", "tuple", "iter"):
                k = key.const
                if o.items is not None and not o.ents and k and k[0] in ("int", "bool"):
                    i = int(k[1])
                    if -len(o.items) <= i < len(o.items):
                        out = vjoin(out, o.items[i]); continue
                self.may_raise(st, "IndexError")
                out = vjoin(out, self.elem(st, self.ref(oid)).with_(cond=None))
            elif o.kind in ("array", "set"):
                x = self.elem(st, self.ref(oid))
                # indexing with an array gives an array: keep as value
                pos = E
                for kk in o.ents:
                    if isinstance(kk, tuple) and kk and kk[0] == "i":
                        pos |= self.deps(st, kk[1])
                out = vjoin(out, x.with_(d=x.d | kd | v.d | pos))
            elif o.kind == "coo":
                out = vjoin(out, V(f=self.num(st, self.ref(oid)), d=self.deps(st, self.ref(oid)) | kd, u=self.unkn(st, self.ref(oid))))
            elif o.kind == "inst":
                m = self.p.lookup(o.cls, "__getitem__") if o.cls else None
                if m:
                    out = vjoin(out, self.call_func(st, m, [self.ref(oid), key], {}, node))
                else:
                    out = vjoin(out, unk(kd))
        if not v.r:
            if v.only_c and key.const and key.const[0] in ("int", "str"):
                for t, x in v.c:
                    try:
                        out = vjoin(out, C(x[key.const[1]]))
                    except Exception:
                        out = vjoin(out, UNK)
            elif v.tok:
                out = unk(v.d)
            else:
                out = V(f=v.f, d=v.d | kd, u=v.u or not v.f)
                self.may_raise(st, "KeyError")
        if kd and not kd <= out.d:
            out = out.with_(d=out.d | kd)
        return out

    def sym_lookup(self, st, oid, o, key, kd, node):
        self.note_look(st, oid, key, node)
        form = ("atom", "member", frozenset([oid[1]]), kd)
        self.may_raise(st, "KeyError", (form, False))
        k = key.const
        if k and k[0] in ("str", "int"):
            hit = o.ents.get(key)
            if hit:
                return hit[1]
            if "nobase" in o.tags:
                return unk(kd)
            return self.child(oid, f"[={k[1]}]")
        # exact same key stored before
        for K, (ek, x, gs) in o.ents.items():
            if ek is not None and ek == key and ek.d:
                return x if gs == EE or "nobase" in o.tags else vjoin(x, self.child(oid, "[]"))
        out = self.child(oid, "[]") if "nobase" not in o.tags else BOT
        pos = E
        for K, (ek, x, gs) in o.ents.items():
            if ek is None or ek.const is None:
                out = vjoin(out, x)
                if ek is not None and ("copyof" in o.tags or oid[2] is not None):
                    pos |= self.deps(st, ek)
        return out.with_(d=out.d | pos) if pos else out

    def dict_lookup(self, st, oid, o, key, kd, node):
        k = key.const
        exact = o.ents.get(key)
        if exact is not None:
            if exact[2] != EE:
                self.may_raise(st, "KeyError", (("atom", "member", frozenset([("obj", oid)]), kd), False))
            elif not k:
                self.may_raise(st, "KeyError", (("atom", "member", frozenset([("obj", oid)]), kd), False))
            return exact[1]
        out = BOT
        for K, (ek, x, gs) in o.ents.items():
            if k and ek.const and ek.const[1] != k[1] or self.enumlike(key) and self.distinct(key, ek):
                continue
            if self.enumlike(key) and key.fn == ek.fn and gs == EE:
                return x
            if ek.const and not k and key.c and not key.u and not key.f and not key.r and ek.const not in key.c:
                continue
            out = vjoin(out, x)
        self.may_raise(st, "KeyError", (("atom", "member", frozenset([("obj", oid)]), kd), False))
        if "$factory" in o.attrs:
            x = self.call(st, o.attrs["$factory"], [], {}, node)
            ob = self.get(st, oid)
            x = vjoin(out, x)
            st.heap[oid] = ob.mut(ents={**ob.ents, key: (key, x, frozenset([st.pc]))})
            return x
        dflt = o.attrs.get("$default")
        if dflt is not None:
            out = vjoin(out, dflt)
        elif out is BOT:
            # key certainly not there
            if (k or self.enumlike(key)) and o.kind == "dict" and (not o.ents and self.tries or o.ents and all(e[0] is not None and self.distinct(key, e[0]) for e in o.ents.values())):
                raise Dead()
            return unk(kd)
        return out

    def getslice(self, st, v, key, node):
        sl = next(iter(key.c))[1]
        out = BOT
        for oid in v.r:
            o = self.get(st, oid)
            if o.kind in ("list", "tuple") and o.items is not None and not o.ents and isinstance(sl, tuple) and "?" not in sl:
                out = vjoin(out, self.new_list(st, node, o.items[slice(*sl)], kind=o.kind, extra=("sl", oid)))
                continue
            if sl == "full":
                if o.kind == "list":
                    out = vjoin(out, self.copy_obj(st, oid, node))
                else:
                    out = vjoin(out, V(r=frozenset([oid]), d=v.d, f=v.f))
                continue
            if o.kind in ("list", "tuple", "iter"):
                g = (("atom", "partial", self.deps(st, self.ref(oid)), (self.cur().mod.rel, node.lineno, node.col_offset)), True)
                ents = {}
                for x, gs in self.elements(st, self.ref(oid)):
                    ents[("e", x)] = (None, x, frozenset(a | {g} for a in gs))
                out = vjoin(out, self.new_list(st, node, ents=ents, extra=("sl", oid), tags=o.tags))
            elif o.kind == "sym":
                # a slice of a list or an array: elements are some of the elements
                x = self.ref(oid, v.d | self.deps(st, key)).with_(f=v.f)
                if oid[1][-1] in lib.LIST_NAMES:
                    g = (("atom", "partial", frozenset([oid[1]]), (self.cur().mod.rel, node.lineno, node.col_offset)), True)
                    ents = {("e", 1): (None, self.child(oid, "#"), frozenset([frozenset([g])]))}
                    x = self.new_list(st, node, ents=ents, extra=("sl", oid))
                out = vjoin(out, x)
            else:
                out = vjoin(out, self.numv(st, self.ref(oid, v.d)) if o.kind in ("array", "coo") else unk(v.d))
        if not v.r:
            if v.tok is not None:
                return self.str_slice(v, sl)
            if v.only_c and isinstance(sl, tuple) and "?" not in sl:
                for t, x in v.c:
                    try:
                        out = vjoin(out, C(x[slice(*sl)]))
                    except Exception:
                        out = vjoin(out, UNK)
                return out
            out = V(f=v.f, d=v.d | self.deps(st, key), u=v.u)
        return out

    def str_slice(self, v, sl):
        toks = set()
        if isinstance(sl, tuple) and sl[0] in (None, 0) and isinstance(sl[1], int) and sl[1] < 0 and sl[2] is None:
            n = -sl[1]
            for t in v.tok:
                if t and isinstance(t[-1], str) and t[-1] != "?" and len(t[-1]) >= n:
                    r = t[-1][:-n]
                    toks.add(t[:-1] + ((r,) if r else ()))
                elif not t:
                    toks.add(())
                else:
                    toks.add(("?",))
            return v.with_(tok=frozenset(toks))
        if isinstance(sl, tuple) and isinstance(sl[0], int) and sl[0] > 0 and sl[1] is None and sl[2] is None:
            for t in v.tok:
                if t and isinstance(t[0], str) and t[0] != "?" and len(t[0]) >= sl[0]:
                    r = t[0][sl[0]:]
                    toks.add(((r,) if r else ()) + t[1:])
                else:
                    toks.add(("?",))
            return v.with_(tok=frozenset(toks))
        return v.with_(tok=frozenset([("?",)]), u=True)

    def setitem(self, st, base, key, v, node, aug=None, rhs=None):
        self.tick()
        for f in base.fn:
            if f[0] == "dictof":
                k = key.const
                if k and k[0] == "str":
                    self.setattr(st, self.ref(f[1]), k[1], v, node)
        for oid in base.r:
            o = self.get(st, oid)
            self.emit(st, "item", node, oid=oid, key=key, val=v, aug=aug, rhs=rhs)
            o = self.get(st, oid)
            if o.kind in ("dict", "sym"):
                ents = dict(o.ents)
                old = ents.get(key)
                gs = frozenset([st.pc])
                if old is not None:
                    gs = norm_gs(old[2] | gs)
                if len(base.r) > 1 and old is not None:
                    v2 = vjoin(old[1], v)
                else:
                    v2 = v
                ents[key] = (key, v2, norm_gs(gs))
                st.heap[oid] = o.mut(ents=ents)
            elif o.kind in ("list", "tuple"):
                k = key.const
                if o.items is not None and not o.ents and k and k[0] == "int" and -len(o.items) <= k[1] < len(o.items):
                    it = list(o.items); it[k[1]] = v
                    st.heap[oid] = o.mut(items=tuple(it))
                else:
                    ents = dict(o.ents)
                    ents[("e", v)] = (None, v, frozenset([st.pc]))
                    st.heap[oid] = o.mut(ents=ents)
            elif o.kind in ("array", "coo"):
                nv = self.numv(st, v) if self.exact_items(st, v) is None else self.elem(st, v)
                if o.kind == "coo":
                    continue
                if self.is_slice(key) and next(iter(key.c))[1] == "full":
                    x = self.elem(st, v) if v.r else v
                    st.heap[oid] = o.mut(ents={("e", x): (None, x, EE)}, items=None)
                else:
                    x = self.elem(st, v) if v.r and not any(self.issym(q) for q in v.r) else v
                    if x is BOT: x = v
                    ents = dict(o.ents)
                    ents[("i", key, x)] = (key, x, frozenset([st.pc]))
                    st.heap[oid] = o.mut(ents=ents)
            elif o.kind == "inst" and o.cls is not None:
                m = self.p.lookup(o.cls, "__setitem__")
                if m:
                    self.call_func(st, m, [self.ref(oid), key, v], {}, node)

    def delitem(self, st, base, key, node):
        for f in base.fn:
            if f[0] == "dictof":
                k = key.const
                if k and k[0] == "str":
                    self.delattr(st, self.ref(f[1]), k[1], node)
                    self.may_raise(st, "KeyError")
        for oid in base.r:
            o = self.get(st, oid)
            kd = self.deps(st, key)
            self.may_raise(st, "KeyError", (("atom", "member", frozenset([oid[1]]) if self.issym(oid) else frozenset([("obj", oid)]), kd), False))
            self.emit(st, "delitem", node, oid=oid, key=key)
            o = self.get(st, oid)
            if o.kind in ("dict", "sym"):
                ents = dict(o.ents)
                if key in ents and len(base.r) == 1:
                    del ents[key]
                    st.heap[oid] = o.mut(ents=ents)
                elif not key.const:
                    st.heap[oid] = o.mut(dels=o.dels | {(key, st.pc)})
            elif o.kind == "list" and o.items is not None:
                ents = dict(o.ents)
                for x in o.items:
                    ents[("e", x)] = (None, x, EE)
                st.heap[oid] = o.mut(items=None, ents=ents)

    def extend(self, st, oid, v, node):
        """container += v (list extend / set update / dict update)"""
        o = self.get(st, oid)
        items = self.exact_items(st, v)
        if o.kind == "dict" or (o.kind == "sym" and self.is_dict(st, v)):
            ents = dict(o.ents)
            for k, x, gs in self.pairs(st, v, node):
                g2 = frozenset(g | st.pc for g in gs)
                old = ents.get(k)
                if old is not None and not gs == EE:
                    x = vjoin(old[1], x); g2 = norm_gs(old[2] | g2)
                elif old is not None:
                    g2 = norm_gs(old[2] | g2)
                ents[k] = (k, x, g2)
            st.heap[oid] = o.mut(ents=ents)
            return
        if o.kind in ("list", "set") and o.items is not None and items is not None and not o.ents and len(o.items) + len(items) < 60:
            st.heap[oid] = o.mut(items=o.items + tuple(items))
            return
        ents = dict(o.ents)
        for x, gs in self.elements(st, v):
            K = ("e", x)
            g2 = frozenset(g | st.pc for g in gs)
            if K in ents:
                g2 = norm_gs(ents[K][2] | g2)
            ents[K] = (None, x, g2)
        st.heap[oid] = o.mut(ents=ents)

    def is_dict(self, st, v):
        return any(self.get(st, o).kind == "dict" for o in v.r) and True

    def pairs(self, st, v, node):
        """(key, value, guards) alternatives of a mapping or an iterable of pairs"""
        out = []
        for oid in v.r:
            o = self.get(st, oid)
            if o.kind == "dict":
                out.extend(o.ents.values())
            elif o.kind == "sym":
                if "nobase" not in o.tags:
                    out.append((self.child(oid, "#"), self.child(oid, "[]"), EE))
                out.extend((k, x, gs) for k, x, gs in o.ents.values() if k is not None)
            elif o.kind in ("list", "tuple", "iter", "set"):
                for e, gs in self.elements(st, self.ref(oid)):
                    it = self.exact_items(st, e)
                    if it is not None and len(it) == 2:
                        out.append((it[0], it[1], gs))
                    else:
                        out.append((unk(self.deps(st, e)), unk(self.deps(st, e)), gs))
        if v.u or (v.f and not v.r):
            out.append((unk(v.d), V(f=v.f, d=v.d, u=True), EE))
        return out

    # ------------------------------------------------------------ copying
    def copy_obj(self, st, oid, node, deep=False, seen=None):
        """new object with the same contents"""
        seen = seen if seen is not None else {}
        if oid in seen:
            return self.ref(seen[oid])
        o = self.get(st, oid)
        nid = self.new_id(node, ("copy", oid))
        seen[oid] = nid
        if o.kind == "sym":
            if deep:
                owner = ("cp", nid)
                sid = ("s", oid[1], owner)
                seen[oid] = sid
                if oid in st.heap:
                    st.heap[sid] = Obj("sym", o.cls, {k: self.deep(st, x, node, seen) for k, x in o.attrs.items()}, None,
                                       self._cp_ents(st, o, node, seen), o.tags)
                elif sid in st.heap:
                    del st.heap[sid]
                return V(r=frozenset([sid]), f=frozenset([Term(1, (oid[1],), E)]), d=frozenset([oid[1]]))
            # shallow: a new container with the same elements (owned by the original)
            owner = ("scp", nid)
            sid = ("s", oid[1], owner)
            k, x = self.child(oid, "#"), self.child(oid, "[]")
            ents = dict(o.ents)
            if "nobase" not in o.tags:
                ents[k] = (k, x, EE)
            st.heap[sid] = Obj("sym", o.cls, {}, None, ents, o.tags | {"nobase", "copyof"})
            return V(r=frozenset([sid]), f=frozenset([Term(1, (oid[1],), E)]), d=frozenset([oid[1]]))
        if o.kind == "inst":
            st.heap[nid] = o.mut(attrs={k: (self.deep(st, x, node, seen) if deep else x) for k, x in o.attrs.items()})
            return self.ref(nid)
        if deep:
            items = tuple(self.deep(st, x, node, seen) for x in o.items) if o.items is not None else None
            st.heap[nid] = Obj(o.kind, o.cls, {k: self.deep(st, x, node, seen) for k, x in o.attrs.items()}, items,
                               self._cp_ents(st, o, node, seen), o.tags)
        elif o.kind == "coo":
            st.heap[nid] = o.mut(attrs={k: self.deep(st, x, node, seen) for k, x in o.attrs.items()})
        else:
            st.heap[nid] = o.mut()
        return self.ref(nid)

    def _cp_ents(self, st, o, node, seen):
        out = {}
        for K, (k, x, gs) in o.ents.items():
            x2 = self.deep(st, x, node, seen)
            out[ekey("dict" if o.kind in ("dict", "sym") and k is not None else o.kind, k, x2)] = (k, x2, gs)
        return out

    def deep(self, st, v, node, seen):
        if not v.r:
            return v
        r = frozenset().union(*[self.copy_obj(st, o, node, True, seen).r for o in v.r])
        return v.with_(r=r)

    # ------------------------------------------------------------ expressions
    def ev(self, st, n):
        self.tick()
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return UNK
        return m(st, n)

    def e_Constant(self, st, n):
        v = n.value
        if isinstance(v, (str, int, float, bool, complex, bytes)) or v is None:
            return C(v)
        if v is Ellipsis:
            return V(c=frozenset([("slice", "full")]))
        return UNK

    def e_Name(self, st, n):
        return self.load_name(st, n)

    def load_name(self, st, n):
        name = n.id
        fr = self.cur()
        fid = fr.fid
        while fid is not None:
            env = st.frames.get(fid)
            if env is not None and name in env:
                return env[name]
            fid = self.parents.get(fid)
        r = self.p.resolve(fr.mod, name)
        if r is not None:
            return self.resolved(st, r)
        if name in lib.BUILTINS:
            return V(fn=frozenset([("ext", "builtins." + name)]))
        if name == "__name__":
            return UNK
        return UNK

    def resolved(self, st, r):
        if r is None:
            return UNK
        if r[0] == "fn":
            return V(fn=frozenset([("fn", r[1])]))
        if r[0] == "cls":
            return V(fn=frozenset([("cls", r[1])]))
        if r[0] == "mod":
            return V(fn=frozenset([("mod", r[1])]))
        if r[0] == "ext":
            if r[1] in lib.EXT_CONST:
                return lib.EXT_CONST[r[1]]
            return V(fn=frozenset([("ext", r[1])]))
        if r[0] == "const":
            m, name = r[1], r[2]
            return self.module_const(st, m, name)
        return UNK

    def module_const(self, st, m, name):
        """module-level data: containers become objects owned by the module"""
        e = m.consts.get(name)
        if e is None:
            return UNK
        if isinstance(e, ast.Constant):
            return C(e.value)
        if isinstance(e, (ast.Name, ast.Attribute)):
            return self.ev_in_module(st, m, e)
        if isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant):
            return self.ev_in_module(st, m, e)
        if isinstance(e, (ast.Lambda,)):
            return self.ev_in_module(st, m, e)
        if isinstance(e, (ast.Tuple,)) and all(isinstance(x, ast.Constant) for x in e.elts):
            return self.ev_in_module(st, m, e)
        if isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)):
            fname = e.func.id if isinstance(e.func, ast.Name) else e.func.attr
            if fname in ("itemgetter", "partial", "jit"):
                return self.ev_in_module(st, m, e)
        path = ("module", m.name, name)
        oid = ("s", path, None)
        v = self.sym(path)
        if oid not in st.heap and isinstance(e, (ast.Dict, ast.List, ast.Set, ast.Tuple)):
            x = self.ev_in_module(st, m, e)
            for q in x.r:
                o = st.heap.get(q)
                if o is not None:
                    st.heap[oid] = Obj(o.kind, None, {}, o.items, o.ents, o.tags | {"module"})
        if oid in st.heap:
            return V(r=frozenset([oid]), d=frozenset([path]))
        if isinstance(e, ast.Call):
            f = e.func
            nm = f.id if isinstance(f, ast.Name) else getattr(f, "attr", "")
            if nm in ("coo_array",):
                return V(r=v.r, d=E)
        return v

    def ev_in_module(self, st, m, e):
        fr = Frame()
        self.fidn += 1
        fr.fid, fr.parent, fr.mod, fr.cls, fr.func, fr.name, fr.nonlocals, fr.node = ("mod", m.name), None, m, None, None, "<module>", set(), None
        st.frames.setdefault(fr.fid, {})
        self.frames.append(fr)
        try:
            return self.ev(st, e)
        finally:
            self.frames.pop()

    def e_Attribute(self, st, n):
        base = self.ev(st, n.value)
        return self.getattr(st, base, n.attr, n)

    def e_Subscript(self, st, n):
        base = self.ev(st, n.value)
        key = self.ev_index(st, n.slice)
        return self.getitem(st, base, key, n)

    def e_NamedExpr(self, st, n):
        v = self.ev(st, n.value)
        self.assign(st, n.target, v, n)
        return v

    def e_Starred(self, st, n):
        return self.ev(st, n.value)

    def e_Tuple(self, st, n):
        return self.seq(st, n, "tuple")

    def e_List(self, st, n):
        return self.seq(st, n, "list")

    def e_Set(self, st, n):
        return self.seq(st, n, "set")

    def seq(self, st, n, kind):
        items, ents, exact = [], {}, True
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(st, e.value)
                it = self.exact_items(st, v)
                if it is not None and exact:
                    items.extend(it)
                else:
                    exact = False
                    for x, gs in self.elements(st, v):
                        ents[("e", x)] = (None, x, gs)
            else:
                items.append(self.ev(st, e))
        if not exact:
            for x in items:
                ents[("e", x)] = (None, x, EE)
            return self.new_list(st, n, ents=ents, kind=kind)
        return self.new_list(st, n, items, kind=kind)

    def e_Dict(self, st, n):
        i = self.new_id(n, "dict")
        ents = {}
        for k, x in zip(n.keys, n.values):
            if k is None:
                v = self.ev(st, x)
                for kk, xx, gs in self.pairs(st, v, n):
                    ents[kk] = (kk, xx, gs)
            else:
                kv, xv = self.ev(st, k), self.ev(st, x)
                ents[kv] = (kv, xv, EE)
        st.heap[i] = Obj("dict", ents=ents)
        return self.ref(i)

    def e_Lambda(self, st, n):
        fr = self.cur()
        dv = tuple(self.ev(st, d) for d in n.args.defaults)
        return V(fn=frozenset([("clo", Closure(n, fr.fid, fr.mod, fr.cls, "<lambda>", dv))]))

    def e_IfExp(self, st, n):
        v = self.ev(st, n.test)
        tg, fg = self.branches(st, v, n.test)
        if fg is None:
            return self.ev(st, n.body)
        if tg is None:
            return self.ev(st, n.orelse)
        pc0 = st.pc
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = pc0 | tg, pc0 | fg
        self.refine(s1, n.test, True)
        self.refine(s2, n.test, False)
        self.gone(s1, tg, n)
        self.gone(s2, fg, n)
        a = b = None
        try:
            a = self.ev(s1, n.body)
        except Dead:
            s1 = None
        try:
            b = self.ev(s2, n.orelse)
        except Dead:
            s2 = None
        if s1 is None and s2 is None:
            raise Dead()
        s = self.join(s1, s2)
        s.pc = pc0
        # refinement must not leak out of the expression
        fid = self.cur().fid
        s.frames[fid] = st.frames[fid] if fid in st.frames else s.frames[fid]
        self.assign_state(st, s)
        if a is None: return b
        if b is None: return a
        ga = next(iter(tg)) if len(tg) == 1 else (self.conj(tg), True)
        gb = next(iter(fg)) if len(fg) == 1 else (self.conj(fg), True)
        r = vjoin(a, b, ga, gb)
        return r.with_(d=r.d | self.deps(st, v))

    def e_BoolOp(self, st, n):
        isand = isinstance(n.op, ast.And)
        pc0 = st.pc
        out = BOT
        forms, ok = [], True
        last = None
        d = E
        for i, e in enumerate(n.values):
            v = self.ev(st, e)
            d |= v.d
            t = self.truth(st, v)
            if t is not None and t != isand:
                # decides the result here
                if i == 0:
                    return v
                if not forms:
                    return v
                r = FALSE if isand else TRUE
                if isand:
                    st.pc = pc0
                    return vjoin(out, v).with_(cond=None) if not self.allbool(out, v) else FALSE.with_(d=d)
                st.pc = pc0
                return TRUE.with_(d=d) if self.allbool(out, v) else vjoin(out, v)
            if t is not None and t == isand and i < len(n.values) - 1:
                continue
            tg, fg = self.branches(st, v, e)
            form = v.cond
            if form is None and t is None:
                if v.r:
                    form = ("not", ("atom", "empty", self.deps(st, v)))
                else:
                    form = self.formula(st, v, e)
            if t is None:
                forms.append(form)
                g = tg if isand else fg
                if g is not None:
                    st.pc = st.pc | g
            out = vjoin(out, v)
            last = v
            lastt = t
        st.pc = pc0
        if not forms:
            return last if last is not None else out
        cond = forms[0] if len(forms) == 1 else (("and" if isand else "or"),) + tuple(forms)
        if lastt is not None and lastt == isand:
            pass
        return out.with_(cond=cond, d=out.d | d, u=True, c=E if self.allbool(out) else out.c)

    def allbool(self, *vs):
        return all(not v.r and not v.f and not v.tok and all(t == "bool" for t, x in v.c) for v in vs)

    def e_UnaryOp(self, st, n):
        v = self.ev(st, n.operand)
        if isinstance(n.op, ast.Not):
            t = self.truth(st, v)
            if t is not None:
                return C(not t).with_(d=v.d)
            if v.cond is not None:
                form = v.cond
            elif v.r:
                form = ("not", ("atom", "empty", self.deps(st, v)))
            elif v.f:
                form = ("not", ("atom", "zero", self.deps(st, v)))
            else:
                form = self.formula(st, v, n.operand)
            form = form[1] if form[0] == "not" else ("not", form)
            return V(u=True, d=self.deps(st, v), cond=form)
        if isinstance(n.op, ast.USub):
            if v.only_c and all(t in ("int", "float", "bool") for t, x in v.c):
                return V(c=frozenset((type(-x).__name__, -x) for t, x in v.c), d=v.d)
            return V(f=self.scale(self.num(st, v), -1), d=self.deps(st, v), u=self.unkn(st, v) or self.nonnum(st, v))
        if isinstance(n.op, ast.UAdd):
            return v
        return unk(self.deps(st, v))

    def nonnum(self, st, v):
        return False

    def scale(self, terms, k):
        return frozenset(Term(t.k * k if t.k is not None and k is not None else None, t.l, t.g) for t in terms)

    def e_BinOp(self, st, n):
        a = self.ev(st, n.left)
        b = self.ev(st, n.right)
        return self.binop(st, n.op, a, b, n)

    def strlike(self, v):
        return v.tok is not None or (v.c and any(t == "str" for t, x in v.c))

    def toks(self, v):
        out = set(v.tok or ())
        for t, x in v.c:
            if t == "str":
                out.add((x,) if x else ())
        if not out or (v.tok is None and (v.f or v.u or v.r)):
            out.add((("v", v.with_(c=frozenset(c for c in v.c if c[0] != "str"))),))
        return out

    def concat(self, a, b):
        out = set()
        for x in self.toks(a):
            for y in self.toks(b):
                if x and y and isinstance(x[-1], str) and isinstance(y[0], str) and "?" not in (x[-1], y[0]):
                    t = x[:-1] + (x[-1] + y[0],) + y[1:]
                else:
                    t = x + y
                out.add(t)
        u = a.u or b.u
        if len(out) > CAP_TOK:
            out = set(sorted(out, key=lambda t: (len(t), repr(t)))[:CAP_TOK]); u = True
        out = {t if len(t) <= 40 else t[:40] for t in out}
        c = E
        if len(out) == 1:
            t = next(iter(out))
            if all(isinstance(x, str) for x in t):
                return V(c=frozenset([("str", "".join(t))]), d=a.d | b.d)
        return V(tok=frozenset(out), d=a.d | b.d, f=a.f | b.f)

    def binop(self, st, op, a, b, n):
        if self.strlike(a) or self.strlike(b):
            if isinstance(op, ast.Add):
                return self.concat(a, b)
            if isinstance(op, ast.Mod) and self.strlike(a):
                return self.percent(st, a, b)
            if isinstance(op, ast.Mult):
                return unk(a.d | b.d)
        # lists
        ka = {self.get(st, o).kind for o in a.r}
        kb = {self.get(st, o).kind for o in b.r}
        if isinstance(op, ast.Add) and ((ka & {"list", "tuple"} and not ka & {"array", "coo"}) or (kb & {"list", "tuple"} and not kb & {"array", "coo"} and not a.only_c)):
            if "array" not in ka | kb and not (a.f and not a.r) and not (b.f and not b.r):
                ia, ib = self.exact_items(st, a), self.exact_items(st, b)
                kind = "tuple" if "tuple" in ka | kb and "list" not in ka | kb else "list"
                if ia is not None and ib is not None:
                    return self.new_list(st, n, ia + ib, kind=kind)
                ents = {}
                for x, gs in self.elements(st, a) + self.elements(st, b):
                    ents[("e", x)] = (None, x, gs)
                return self.new_list(st, n, ents=ents, kind=kind)
        if isinstance(op, ast.Add) and a.r and b.r and all(self.issym(o) for o in a.r | b.r) and \
                all(isinstance(o[1][-1], str) and (o[1][-1] in lib.LIST_NAMES) for o in a.r | b.r):
            ents = {}
            for x, gs in self.elements(st, a) + self.elements(st, b):
                ents[("e", x)] = (None, x, gs)
            return self.new_list(st, n, ents=ents)
        if isinstance(op, ast.Mult) and (ka == {"list"} or ka == {"tuple"}) :
            # [x] * n
            ents = {}
            k = b.const
            it = self.exact_items(st, a)
            if it is not None and k and k[0] == "int" and 0 <= k[1] * len(it) < 40:
                return self.new_list(st, n, it * k[1], kind=next(iter(ka)))
            for x, gs in self.elements(st, a):
                ents[("e", x)] = (None, x.with_(d=x.d), gs)
            return self.new_list(st, n, ents=ents)
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and (ka | kb) & {"set"}:
            return lib.set_op(self, st, {ast.BitOr: "union", ast.BitAnd: "intersection", ast.Sub: "difference", ast.BitXor: "symmetric_difference"}[type(op)], a, [b], n)
        if isinstance(op, (ast.BitAnd, ast.Sub, ast.BitXor)) and isinstance(n, ast.BinOp) and \
                (self.is_keys(n.left) or self.is_keys(n.right) or "dict" in ka):
            return lib.set_op(self, st, {ast.BitAnd: "intersection", ast.Sub: "difference", ast.BitXor: "symmetric_difference"}[type(op)], a, [b], n)
        if isinstance(op, ast.BitOr) and "dict" in ka | kb:
            i = self.new_id(n, "dictor")
            st.heap[i] = Obj("dict")
            self.extend(st, i, a, n); self.extend(st, i, b, n)
            return self.ref(i)
        # pure constants
        if a.only_c and b.only_c and len(a.c) * len(b.c) <= 9:
            res = set()
            ok = True
            for ta, x in a.c:
                for tb, y in b.c:
                    try:
                        r = lib.PYOPS[type(op)](x, y)
                        res.add((type(r).__name__, r))
                    except Exception:
                        ok = False
            if ok and res:
                return V(c=frozenset(res), d=a.d | b.d)
            return unk(a.d | b.d)
        d = self.deps(st, a) | self.deps(st, b)
        u = self.unkn(st, a) or self.unkn(st, b)
        if isinstance(op, ast.Add):
            return self.nv(norm_terms(self.num(st, a) | self.num(st, b)), d, u)
        if isinstance(op, ast.Sub):
            return self.nv(norm_terms(self.num(st, a) | self.scale(self.num(st, b), -1)), d, u)
        if isinstance(op, (ast.Mult, ast.MatMult)):
            return self.nv(self.prod(self.num(st, a, zero=True), self.num(st, b, zero=True)), d, u)
        if isinstance(op, ast.Div):
            k = b.const
            if k and isinstance(k[1], (int, float)) and k[1]:
                return self.nv(self.scale(self.num(st, a), 1 / k[1]), d, u)
            inv = frozenset(Term(None if t.k is None else (1 / t.k if t.k else None), slabels(("@inv", l) for l in t.l), t.g) for t in self.num(st, b))
            return self.nv(self.prod(self.num(st, a), inv), d, u)
        if isinstance(op, ast.Pow):
            return V(f=frozenset(Term(None, t.l, t.g) for t in self.num(st, a)), d=d, u=u)
        return unk(d)

    def is_keys(self, n):
        return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("keys", "items") and not n.args

    def exact_loop(self):
        """no inexact iteration between the allocation and here"""
        return all(isinstance(i, tuple) and i[0] == "x" for i in self.iters)

    def nv(self, terms, d, u):
        if len(terms) > CAP_TERMS:
            terms = frozenset(list(terms)[:CAP_TERMS]); u = True
        return V(f=terms, d=d, u=u)

    def prod(self, a, b):
        out = set()
        for x in a:
            for y in b:
                k = None if x.k is None or y.k is None else x.k * y.k
                if k == 0:
                    continue
                l = slabels(x.l + y.l)
                if len(l) > 2:
                    l = tuple(z for i, z in enumerate(l) if i < 2 or l[i - 2] != z)     # powers above two are one
                out.add(Term(k, l, x.g | y.g))
        return norm_terms(frozenset(out))

    def percent(self, st, a, b):
        k = a.const
        if k and k[0] == "str":
            items = self.exact_items(st, b) or (b,)
            import re
            parts, i, pos = [], 0, 0
            for m in re.finditer(r"%(-?\d*\.?\d*)([sdifgeErGxX%])", k[1]):
                if m.start() > pos: parts.append(k[1][pos:m.start()])
                if m.group(2) == "%": parts.append("%")
                else:
                    if i < len(items): parts.extend(self.fmt_part(st, items[i], m.group(1) + m.group(2)))
                    i += 1
                pos = m.end()
            if pos < len(k[1]): parts.append(k[1][pos:])
            return self.mkstr(parts, self.deps(st, b))
        return V(tok=frozenset([("?",)]), d=a.d | b.d, u=True)

    def fmt_part(self, st, v, spec):
        k = v.const
        if k and k[0] in ("str", "int") and not spec:
            return [str(k[1])] if str(k[1]) else []
        if v.tok is not None and not spec and len(v.tok) == 1:
            return list(next(iter(v.tok)))
        if v.r and not v.f:
            v = V(r=v.r, f=self.num(st, v), d=self.deps(st, v), u=v.u)
        return [("v", v if not spec else v.with_(cond=("spec", spec)), spec) if spec else ("v", v)]

    def mkstr(self, parts, d):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
        if all(isinstance(x, str) for x in out):
            return V(c=frozenset([("str", "".join(out))]), d=d)
        return V(tok=frozenset([tuple(out)]), d=d)

    def e_JoinedStr(self, st, n):
        alts = [[]]
        d = E
        for p in n.values:
            if isinstance(p, ast.Constant):
                alts = [a + [str(p.value)] for a in alts]
            else:
                v = self.ev(st, p.value)
                d |= self.deps(st, v)
                spec = ""
                if p.format_spec is not None:
                    s = self.ev(st, p.format_spec)
                    spec = s.const[1] if s.const else "?"
                if (v.tok is not None and len(v.tok) > 1 and not spec) or (len(v.c) > 1 and v.only_c):
                    na = []
                    for t in sorted(self.toks(v), key=repr)[:CAP_TOK]:
                        na.extend(a + list(t) for a in alts)
                    if v.only_c:
                        na = [a + [str(x)] for a in alts for t, x in v.c]
                    alts = na[:CAP_TOK]
                else:
                    pp = self.fmt_part(st, v, spec)
                    alts = [a + pp for a in alts]
        vs = [self.mkstr(a, d) for a in alts]
        return vjoins(vs)

    def e_FormattedValue(self, st, n):
        return self.ev(st, n.value)

    def e_Compare(self, st, n):
        left = self.ev(st, n.left)
        res, forms = None, []
        d = E
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(st, rn)
            r = self.compare(st, op, left, right, n)
            t = self.truth(st, r)
            d |= r.d
            if t is False:
                return FALSE.with_(d=r.d)
            if t is None:
                forms.append(self.formula(st, r, n))
            left = right
        if not forms:
            return TRUE.with_(d=d)
        return V(u=True, d=d, cond=forms[0] if len(forms) == 1 else ("and",) + tuple(forms))

    def maybe_none(self, st, v):
        poss = set()
        for t, x in v.c:
            poss.add(t == "NoneType")
        for o in v.r:
            if self.issym(o) and self.get(st, o).cls is None and "copyof" not in self.get(st, o).tags and o[2] is None:
                poss |= {True, False} if self.nullable(o[1]) else {False}
            else:
                poss.add(False)
        if v.fn or v.tok is not None:
            poss.add(False)
        if v.f and not v.r:
            poss.add(False)
        if v.u:
            poss |= {True, False}
        return poss

    def nullable(self, path):
        return True

    def compare(self, st, op, a, b, n):
        d = self.deps(st, a) | self.deps(st, b)
        neg = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))
        def res(form, flip=False):
            if neg != flip:
                form = ("not", form)
            return V(u=True, d=d, cond=form)
        kb, ka = b.const, a.const
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            if ka and ka[0] == "NoneType" and not (kb and kb[0] == "NoneType"):
                a, b, ka, kb = b, a, kb, ka
            if kb and kb[0] == "NoneType":
                p = self.maybe_none(st, a)
                if p == {True} or p == {False}:
                    return C(p.pop() != neg).with_(d=d)
                return res(("atom", "none", self.deps(st, a)))
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            if a.only_c and b.only_c:
                poss = set()
                for ta, x in a.c:
                    for tb, y in b.c:
                        poss.add(bool(x == y))
                if len(poss) == 1:
                    return C(poss.pop() != neg).with_(d=d)
                return res(("atom", "eq", d, tuple(sorted(map(repr, a.c | b.c)))))
            fa = lib.tyname(self, st, a)
            fb = lib.tyname(self, st, b)
            if fa is not None and fb is not None and a.fn and b.fn:
                if fa[0] == "type?" or fb[0] == "type?":
                    return res(("atom", "type", d, str(fa[1]) + "/" + str(fb[1])))
                if len(a.fn) == 1 and len(b.fn) == 1 and not (a.c or a.r or a.u or b.c or b.r or b.u):
                    return C((fa[1] == fb[1]) != neg).with_(d=d)
            if kb and isinstance(kb[1], (int, float)) and not isinstance(kb[1], bool) and kb[1] == 0:
                if lib.is_len(a):
                    return res(("atom", "empty", lib.unwrap(d, "@len")))
                return res(("atom", "zero", d))
            if kb or ka:
                if lib.is_len(a) or lib.is_len(b):
                    return res(("atom", "len", d, repr((kb or ka)[1])))
                return res(("atom", "eq", d, repr((kb or ka)[1])))
            return res(("atom", "eq", d, tuple(sorted(((self.vsig(st, a)), (self.vsig(st, b)))))))
        if isinstance(op, (ast.In, ast.NotIn)):
            for f in b.fn:
                if f[0] == "dictof" and ka and ka[0] == "str":
                    o = self.get(st, f[1])
                    x = o.attrs.get(ka[1])
                    if x is not None and is_absent_only(x): return C(neg)
                    if x is not None and ("absent", None) not in x.c: return C(not neg)
                    if x is None and not self.issym(f[1]): return C(neg)
                    return res(("not", ("atom", "absentattr", E, ka[1], f[1])))
            items = self.exact_items(st, b)
            if items is None and b.only_c:
                items = [C(x) for t, s in b.c if t in ("tuple", "list", "set", "frozenset") for x in s] if all(t in ("tuple", "list", "set", "frozenset") for t, s in b.c) else None
                if items is None and a.only_c and kb and kb[0] == "str" and all(t == "str" for t, x in a.c):
                    poss = {x in kb[1] for t, x in a.c}
                    if len(poss) == 1:
                        return C(poss.pop() != neg).with_(d=d)
            if items is not None and all(x.const for x in items):
                if a.only_c:
                    poss = {any(x.const[1] == y for x in items) for t, y in a.c}
                    if len(poss) == 1:
                        return C(poss.pop() != neg).with_(d=d)
                return res(("atom", "in", self.deps(st, a), tuple(sorted(repr(x.const[1]) for x in items))))
            if not items and items is not None and not b.d:
                return C(neg)
            if items and self.enumlike(a):
                if any(self.enumlike(x) and x.fn == a.fn for x in items):
                    return C(not neg).with_(d=d)
                if all(self.distinct(a, x) for x in items):
                    return C(neg).with_(d=d)
            cont = b.d | frozenset(("obj", o) for o in b.r if not self.issym(o))
            cd = self.deps(st, b)
            # membership in an allocated dict with exactly this key
            if len(b.r) == 1 and a.const:
                o = st.heap.get(next(iter(b.r)))
                if o is not None and o.kind == "dict" and a in o.ents and o.ents[a][2] == EE:
                    return C(not neg).with_(d=d)
                if o is not None and o.kind == "dict" and all(k.const for k, x, g in o.ents.values()) and a not in o.ents:
                    return C(neg).with_(d=d)
            for o in b.r:
                self.note_look(st, o, a, n)
            return res(("atom", "member", cd or cont, self.deps(st, a)))
        # ordering
        if a.only_c and b.only_c:
            poss = set()
            for ta, x in a.c:
                for tb, y in b.c:
                    try:
                        poss.add(bool(lib.PYCMP[type(op)](x, y)))
                    except Exception:
                        poss |= {True, False}
            if len(poss) == 1:
                return C(poss.pop()).with_(d=d)
        opn = type(op).__name__
        if ka and not kb:
            a, b, ka, kb = b, a, kb, ka
            opn = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}[opn]
        if kb and isinstance(kb[1], (int, float)):
            k = kb[1]
            da = self.deps(st, a)
            if lib.is_len(a):
                src = lib.unwrap(da, "@len")
                if (opn, k) in (("Gt", 0), ("GtE", 1)):
                    return V(u=True, d=d, cond=("not", ("atom", "empty", src)))
                if (opn, k) in (("Lt", 1), ("LtE", 0)):
                    return V(u=True, d=d, cond=("atom", "empty", src))
                return V(u=True, d=d, cond=("atom", "len", src, opn + repr(k)))
            if lib.is_abs(a) or (a.f and all(all(lib.wrapk(l) == "@abs" for l in t.l) for t in a.f)):
                src = lib.unwrap(da, "@abs")
                if opn in ("Gt", "GtE"):
                    return V(u=True, d=d, cond=("not", ("atom", "zero", src)))
                return V(u=True, d=d, cond=("atom", "zero", src))
            sgn = self.sgn_key(st, a)
            if abs(k) < 1e-6 or k == 0:
                # x>0, x<=0, x<0, x>=0
                if opn in ("Gt",): return V(u=True, d=d, cond=("atom", "sign", da, "pos" if sgn >= 0 else "neg"))
                if opn in ("LtE",): return V(u=True, d=d, cond=("not", ("atom", "sign", da, "pos" if sgn >= 0 else "neg")))
                if opn in ("Lt",): return V(u=True, d=d, cond=("atom", "sign", da, "neg" if sgn >= 0 else "pos"))
                return V(u=True, d=d, cond=("not", ("atom", "sign", da, "neg" if sgn >= 0 else "pos")))
            return V(u=True, d=d, cond=("atom", "cmp", da, opn + repr(k)))
        return V(u=True, d=d, cond=("atom", "cmp", d, (self.vsig(st, a), opn, self.vsig(st, b))))

    def enumlike(self, v):
        """a constant of an external library (an enumeration member)"""
        return len(v.fn) == 1 and not (v.c or v.r or v.u or v.f or v.tok) and next(iter(v.fn))[0] == "ext"

    def distinct(self, a, b):
        """certainly different values"""
        if a.const and b.const:
            return a.const[1] != b.const[1]
        if self.enumlike(a):
            return self.enumlike(b) and a.fn != b.fn or b.const is not None
        return self.enumlike(b) and a.const is not None

    def sgn_key(self, st, a):
        ks = {t.k for t in a.f}
        if len(ks) == 1:
            k = next(iter(ks))
            if k is not None and k < 0:
                return -1
        return 1

    def vsig(self, st, v):
        return repr((sorted(map(repr, v.c)), sorted(map(lkey, self.deps(st, v)))))

    # comprehensions -------------------------------------------------------
    def comp(self, st, n, leaf, unwrap=False):
        """run generators; leaf(state) is called in each innermost state (mutates accumulators in the heap)"""
        fr = self.cur()
        # comprehension scope: a child frame
        nf = Frame()
        self.fidn += 1
        nf.fid = ("comp", self.new_id(n, "comp"))
        nf.parent, nf.mod, nf.cls, nf.func, nf.name, nf.nonlocals, nf.node = fr.fid, fr.mod, fr.cls, fr.func, fr.name, set(), fr.node
        st.frames[nf.fid] = {}
        self.parents[nf.fid] = fr.fid
        pc0 = st.pc
        gens = n.generators
        first = self.ev(st, gens[0].iter)

        def go(s, i, it):
            g = gens[i]
            holder = []

            def bodyrun(s2):
                for c in g.ifs:
                    v = self.ev(s2, c)
                    tg, fg = self.branches(s2, v, c)
                    if tg is None:
                        return s2
                    s2.pc = s2.pc | tg
                    self.refine(s2, c, True)
                if i + 1 < len(gens):
                    it2 = self.ev(s2, gens[i + 1].iter)
                    return go(s2, i + 1, it2)
                leaf(s2)
                return s2
            pcx = s.pc
            exact = self.exact_items(s, it)
            saved = self.iters
            if exact is not None and len(exact) <= 40:
                for j, x in enumerate(exact):
                    self.iters = saved + (("x", j),)
                    s.pc = pcx
                    s2 = s.copy()
                    try:
                        self.assign(s2, g.target, x, n)
                        s2 = bodyrun(s2)
                        s2.pc = pcx
                        s = s2
                    except Dead:
                        pass
            else:
                cur = s
                els = self.elements(s, it)[:24]
                for j, (x, gs) in enumerate(els):
                    self.iters = saved + ((id(g), j),)
                    s2 = cur.copy()
                    s2.pc = pcx | self.gs_guard(gs)
                    try:
                        self.assign(s2, g.target, x, n)
                        s2 = bodyrun(s2)
                        s2.pc = pcx
                        cur = self.join(cur, s2)
                    except Dead:
                        pass
                s = cur
            self.iters = saved
            s.pc = pcx
            return s
        self.frames.append(nf)
        try:
            s = go(st, 0, first)
        finally:
            self.frames.pop()
        s.pc = pc0
        s.frames.pop(nf.fid, None)
        self.assign_state(st, s)

    def e_ListComp(self, st, n, kind="list"):
        acc = self.new_id(n, "acc")
        exact = all(not g.ifs or True for g in n.generators) and len(n.generators) >= 1
        st.heap[acc] = Obj(kind, items=())
        def leaf(s):
            v = self.ev(s, n.elt)
            o = s.heap[acc]
            # exact only while every generator so far was exact: an entry under a guard is not
            if o.items is not None and all(isinstance(i, tuple) and i[0] == "x" for i in self.iters[depth0:]) and s.pc == pc0:
                s.heap[acc] = o.mut(items=o.items + (v,))
            else:
                ents = dict(o.ents)
                for x in (o.items or ()):
                    ents[("e", x)] = (None, x, EE)
                K = ("e", v)
                g = frozenset([s.pc])
                if K in ents: g = norm_gs(ents[K][2] | g)
                ents[K] = (None, v, g)
                s.heap[acc] = o.mut(items=None, ents=ents)
        depth0 = len(self.iters)
        pc0 = st.pc
        self.comp(st, n, leaf)
        return self.ref(acc)

    def e_GeneratorExp(self, st, n):
        return self.e_ListComp(st, n, "iter")

    def e_SetComp(self, st, n):
        return self.e_ListComp(st, n, "set")

    def e_DictComp(self, st, n):
        acc = self.new_id(n, "acc")
        st.heap[acc] = Obj("dict")
        def leaf(s):
            k, v = self.ev(s, n.key), self.ev(s, n.value)
            o = s.heap[acc]
            ents = dict(o.ents)
            g = frozenset([s.pc])
            if k in ents:
                g = norm_gs(ents[k][2] | g)
                v = v if self.exact_key(k) else vjoin(ents[k][1], v)
            ents[k] = (k, v, g)
            s.heap[acc] = o.mut(ents=ents)
        self.comp(st, n, leaf)
        return self.ref(acc)

    def exact_key(self, k):
        return k.const is not None

    def e_Await(self, st, n):
        return self.ev(st, n.value)

    def e_Yield(self, st, n):
        v = self.ev(st, n.value) if n.value else NONE
        env = st.frames[self.cur().fid]
        cur = env.get("$yield")
        if cur is None:
            env["$yield"] = self.new_list(st, self.cur().node, ents={}, kind="iter", extra="yield")
            cur = env["$yield"]
        for oid in cur.r:
            o = st.heap[oid]
            ents = dict(o.ents); ents[("e", v)] = (None, v, frozenset([st.pc]))
            st.heap[oid] = o.mut(ents=ents, items=None)
        return NONE

    def e_YieldFrom(self, st, n):
        v = self.ev(st, n.value)
        env = st.frames[self.cur().fid]
        cur = env.get("$yield")
        if cur is None:
            cur = env["$yield"] = self.new_list(st, self.cur().node, ents={}, kind="iter", extra="yield")
        for oid in cur.r:
            self.extend(st, oid, v, n)
        return NONE

    # ------------------------------------------------------------ calls
    def e_Call(self, st, n):
        # super().__init__ and locals() need the frame
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            fr = self.cur()
            if fr.cls is not None:
                selfv = self.frame_self(st)
                return V(fn=frozenset(("super", fr.cls, o) for o in selfv.r))
        fv = self.ev(st, n.func)
        args, star = [], None
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(st, a.value)
                it = self.exact_items(st, v)
                if it is not None and star is None:
                    args.extend(it)
                else:
                    star = vjoin(star or BOT, self.elem(st, v))
            else:
                args.append(self.ev(st, a))
        kwargs, dstar = {}, None
        for k in n.keywords:
            v = self.ev(st, k.value)
            if k.arg is None:
                for kk, x, gs in self.pairs(st, v, n):
                    c = kk.const
                    if c and c[0] == "str":
                        if gs != EE:
                            x = x.with_(f=frozenset(Term(t.k, t.l, t.g | g) for t in x.f for g in gs))
                            kwargs[c[1]] = x.with_(cond=("maybe",))
                        else:
                            kwargs[c[1]] = x
                    else:
                        dstar = vjoin(dstar or BOT, x)
            else:
                kwargs[k.arg] = v
        return self.call(st, fv, args, kwargs, n, star, dstar)

    def frame_self(self, st):
        fid = self.cur().fid
        while fid is not None:
            env = st.frames.get(fid, {})
            fr = env.get("$self")
            if fr is not None:
                return fr
            fid = self.parents.get(fid)
        return UNK

    def call(self, st, fv, args, kwargs, n, star=None, dstar=None):
        self.tick()
        fns = list(fv.fn)
        strong = [f for f in fns if f[0] != "symattr"]
        if strong:
            fns = strong
        if not fns:
            self.may_raise(st, "ext")
            d = fv.d
            for a in list(args) + list(kwargs.values()):
                d |= self.deps(st, a)
            self.unknowns.append(("call of unknown", self.where(n)))
            self.emit(st, "ucall", n, args=args, kwargs=kwargs)
            return unk(d)
        if len(fns) == 1:
            return self.call1(st, fns[0], args, kwargs, n, star, dstar, fv)
        if all(f[0] == "bm" and f[2] == "clear" for f in fns) and not args:
            # one variable, several candidates: whichever it is, it is empty afterwards
            oids = frozenset().union(*[f[1].r for f in fns])
            if self.locations(st, oids) <= 1:
                for f in sorted(fns, key=repr):
                    self.call1(st, f, args, kwargs, n, star, dstar, fv)
                return NONE
        outs, s_out = BOT, None
        alive = False
        for f in sorted(fns, key=repr):
            s = st.copy()
            try:
                v = self.call1(s, f, args, kwargs, n, star, dstar, fv)
            except Dead:
                continue
            alive = True
            outs = vjoin(outs, v)
            s_out = self.join(s_out, s)
        if not alive:
            raise Dead()
        s_out.pc = st.pc
        self.assign_state(st, s_out)
        return outs

    def call1(self, st, f, args, kwargs, n, star, dstar, fv):
        k = f[0]
        if k == "fn":
            return self.call_func(st, f[1], args, kwargs, n, star, dstar)
        if k == "m":
            if f[1].kind == "static":
                return self.call_func(st, f[1], args, kwargs, n, star, dstar)
            return self.call_func(st, f[1], [self.ref(f[2])] + list(args), kwargs, n, star, dstar)
        if k == "clo":
            return self.call_closure(st, f[1], args, kwargs, n, star, dstar)
        if k == "cls":
            return self.construct(st, f[1], args, kwargs, n, star, dstar)
        if k == "new":
            i = self.new_id(n, "new")
            st.heap[i] = Obj("inst", f[1])
            self.emit(st, "new", n, oid=i)
            return self.ref(i)
        if k == "ext" or k == "extm":
            return lib.call_ext(self, st, f[1], args, kwargs, n, star, dstar, f[2] if k == "extm" else E)
        if k == "exti":
            return lib.call_ext(self, st, f[1] + "()", args, kwargs, n, star, dstar, f[2] if len(f) > 2 else E)
        if k == "bm":
            return lib.call_method(self, st, f[1], f[2], args, kwargs, n, star, dstar)
        if k == "itemgetter":
            out = BOT
            if len(f[1]) == 1 and not f[2]:
                return self.getitem(st, args[0], f[1][0], n)
            if f[2]:
                x = BOT
                for key in f[1]:
                    x = vjoin(x, self.getitem(st, args[0], key, n))
                return self.new_list(st, n, ents={("e", x): (None, x, EE)}, kind="tuple", extra="ig")
            return self.new_list(st, n, [self.getitem(st, args[0], key, n) for key in f[1]], kind="tuple", extra="ig")
        if k == "partial":
            return self.call(st, f[1], list(f[2]) + list(args), {**dict(f[3]), **kwargs}, n, star, dstar)
        if k == "deco":
            return args[0] if args else UNK
        if k == "dictm":
            return lib.dictof_method(self, st, f[1], f[2], args, kwargs, n)
        if k == "cacheclear":
            self.emit(st, "cacheclear", n, fn=f[1], oid=f[2])
            return NONE
        if k == "symattr":
            # calling an attribute of a symbolic object: user supplied callable
            self.may_raise(st, "ext")
            d = fv.d
            for a in list(args) + list(kwargs.values()):
                d |= self.deps(st, a)
            self.emit(st, "symcall", n, oid=f[1], name=f[2], args=args)
            return V(u=True, d=d)
        if k == "super":
            return UNK
        d = fv.d
        for a in args:
            d |= self.deps(st, a)
        return unk(d)

    def locations(self, st, oids):
        """number of places (attributes, elements, variables) that may refer to one of these objects"""
        c = 0
        for env in st.frames.values():
            c += sum(1 for k, x in env.items() if isinstance(x, V) and x.r & oids)
        for o in st.heap.values():
            c += sum(1 for x in o.attrs.values() if isinstance(x, V) and x.r & oids)
            c += sum(1 for x in o.items or () if x.r & oids)
            c += sum(1 for k, x, g in o.ents.values() if x.r & oids)
        return c

    def construct(self, st, cls, args, kwargs, n, star=None, dstar=None):
        if cls is None:
            return UNK
        for h in self.hooks:
            r = getattr(h, "construct", None)
            if r:
                out = r(self, st, cls, args, kwargs, n)
                if out is not None:
                    return out
        i = self.new_id(n, ("inst", cls.name))
        st.heap[i] = Obj("inst", cls)
        self.emit(st, "new", n, oid=i)
        init = self.p.lookup(cls, "__init__")
        if init:
            self.call_func(st, init, [self.ref(i)] + list(args), kwargs, n, star, dstar)
        return self.ref(i)

    def call_func(self, st, func, args, kwargs, n, star=None, dstar=None):
        for h in self.hooks:
            r = getattr(h, "call", None)
            if r:
                out = r(self, st, func, args, kwargs, n, star, dstar)
                if out is not None:
                    return out
        self.functions_seen.add(func.qual)
        s0 = self.steps
        try:
            return self.inline(st, func, func.node, func.mod, func.cls, None, func.name, args, kwargs, n, star, dstar,
                           selfv=args[0] if func.cls is not None and func.kind != "static" and args else None)
        finally:
            c = self.steps - s0
            if c > self.cost.get(func, 0):
                self.cost[func] = c

    def call_closure(self, st, c, args, kwargs, n, star, dstar):
        return self.inline(st, c, c.node, c.mod, c.cls, c.fid, c.name, args, kwargs, n, star, dstar, defaults=c.defaults)

    def concrete(self, st, a):
        if a.const and not a.r and not a.f:
            return True
        it = self.exact_items(st, a)
        return it is not None and all(x.const for x in it)

    def inline(self, st, func, node, mod, cls, parent, name, args, kwargs, n, star=None, dstar=None, selfv=None, defaults=None):
        self.tick()
        rec = sum(1 for f, _ in self.stack if f is func or f == func)
        if rec >= self.MAXREC and rec < 8 and all(self.concrete(st, a) for a in list(args)[1 if selfv is not None or cls is not None else 0:] + list(kwargs.values())):
            rec = 0
        if len(self.stack) > self.MAXDEPTH or rec >= self.MAXREC:
            d = E
            for a in list(args) + list(kwargs.values()):
                d |= self.deps(st, a)
            self.unknowns.append(("recursion cut", name))
            self.may_raise(st, "ext")
            self.emit(st, "cut", n, fn=func, args=args)
            return unk(d)
        self.stack.append((func, n))
        fr = Frame()
        fr.fid = ("f", self.new_id(node, "frame"))
        fr.parent, fr.mod, fr.cls, fr.func, fr.name, fr.nonlocals, fr.node = parent, mod, cls, func, name, set(), node
        self.parents = self.parents if "parents" in self.__dict__ else dict(self.parents)
        self.parents[fr.fid] = parent
        pc0 = st.pc
        self.frames.append(fr)
        ld, self.loop_depth = self.loop_depth, self.loop_depth
        try:
            env = self.bind(st, node, args, kwargs, star, dstar, mod, defaults, n)
            if selfv is not None:
                env["$self"] = selfv
            st.frames[fr.fid] = env
            if isinstance(node, ast.Lambda):
                v = self.ev(st, node.body)
                st.frames.pop(fr.fid, None)
                return v
            f = self.block(st, node.body)
            out = None
            if f.next is not None:
                f.next.frames[fr.fid]["$ret"] = NONE
                out = f.next
            if f.ret is not None:
                if out is None:
                    out = f.ret
                else:
                    gd = E
                    if f.ret.pc != out.pc:
                        pass
                    out = self.join(out, f.ret)
            if out is None:
                raise Dead()
            v = out.frames[fr.fid].get("$ret", NONE)
            y = out.frames[fr.fid].get("$yield")
            if y is not None:
                v = y
            elif self.is_generator(node):
                v = self.new_list(out, node, items=(), kind="iter", extra="yield")
            keep = fr.fid in self.captured(v)
            if not self.has_closure(node):
                out.frames.pop(fr.fid, None)
            out.pc = pc0
            self.assign_state(st, out)
            for h in self.callret:
                h(self, st, func, args, v, n)
            return v
        finally:
            self.frames.pop()
            self.stack.pop()
            self.loop_depth = ld

    _gen = {}

    def is_generator(self, node):
        r = self._gen.get(id(node))
        if r is None:
            r = False
            todo = list(node.body)
            while todo:
                x = todo.pop()
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    r = True; break
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                todo.extend(ast.iter_child_nodes(x))
            self._gen[id(node)] = r
        return r

    _clo = {}

    def has_closure(self, node):
        r = self._clo.get(id(node))
        if r is None:
            r = any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(node) if x is not node)
            self._clo[id(node)] = r
        return r

    def captured(self, v):
        return ()

    def bind(self, st, node, args, kwargs, star, dstar, mod, defaults, n):
        a = node.args
        env = {}
        params = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        dn = a.defaults
        nd = len(dn)
        for i, p in enumerate(params):
            if i < len(args):
                env[p] = args[i]
            elif p in kwargs:
                v = kwargs.pop(p)
                if v.cond == ("maybe",) and i >= len(params) - nd:
                    v = vjoin(v.with_(cond=None), self.default(st, node, i - (len(params) - nd), mod, defaults))
                env[p] = v
            elif star is not None:
                env[p] = star
            elif i >= len(params) - nd:
                dv = self.default(st, node, i - (len(params) - nd), mod, defaults)
                env[p] = dv if dstar is None else vjoin(dv, V())
            elif dstar is not None:
                env[p] = dstar
            else:
                env[p] = UNK
        if a.vararg:
            extra = args[len(params):]
            if star is not None:
                ents = {("e", x): (None, x, EE) for x in list(extra) + [star]}
                env[a.vararg.arg] = self.new_list(st, node, ents=ents, kind="tuple", extra="vararg")
            else:
                env[a.vararg.arg] = self.new_list(st, node, extra, kind="tuple", extra="vararg")
        for i, p in enumerate(a.kwonlyargs):
            if p.arg in kwargs:
                env[p.arg] = kwargs.pop(p.arg)
            elif a.kw_defaults[i] is not None:
                env[p.arg] = self.default_expr(st, a.kw_defaults[i], node, ("kw", p.arg), mod)
            else:
                env[p.arg] = UNK
        if a.kwarg:
            i = self.new_id(node, "kwarg")
            ents = {C(k): (C(k), v.with_(cond=None) if v.cond == ("maybe",) else v, EE) for k, v in kwargs.items()}
            if dstar is not None:
                ents[UNK] = (unk(), dstar, EE)
            st.heap[i] = Obj("dict", ents=ents)
            env[a.kwarg.arg] = self.ref(i)
        return env

    def default(self, st, node, i, mod, defaults):
        if defaults is not None:
            return defaults[i] if i < len(defaults) else UNK
        return self.default_expr(st, node.args.defaults[i], node, i, mod)

    def default_expr(self, st, e, node, i, mod):
        """default argument objects live as long as the function: owned by it"""
        if isinstance(e, (ast.Dict, ast.List, ast.Set, ast.Call, ast.ListComp, ast.DictComp)):
            nm = getattr(node, "name", "<lambda>")
            path = ("default", mod.name, nm, str(i))
            oid = ("s", path, None)
            if oid not in st.heap:
                x = self.ev_in_module(st, mod, e)
                kinds = [st.heap[q] for q in x.r if q in st.heap]
                if kinds:
                    o = kinds[0]
                    st.heap[oid] = Obj(o.kind, o.cls, o.attrs, o.items, o.ents, o.tags)
                else:
                    return x
            return V(r=frozenset([oid]))
        return self.ev_in_module(st, mod, e)

    # ------------------------------------------------------------ entry points
    def start(self):
        st = State()
        fr = Frame()
        fr.fid, fr.parent, fr.mod, fr.cls, fr.func, fr.name, fr.nonlocals, fr.node = ("root",), None, next(iter(self.p.modules.values())), None, None, "<analysis>", set(), None
        self.frames = [fr]
        st.frames[fr.fid] = {}
        self.parents = {}
        return st

    def run(self, st, func, args, kwargs=None, node=None):
        """call func abstractly; returns value or None if it never returns"""
        try:
            return self.call_func(st, func, args, kwargs or {}, node or func.node)
        except Dead:
            return None

    def run_method(self, st, selfv, name, args=(), kwargs=None):
        oid = next(iter(selfv.r))
        o = self.get(st, oid)
        f = self.p.lookup(o.cls, name)
        if f is None:
            raise AnchorMissing(f"{o.cls.name}.{name} not found")
        return self.run(st, f, [selfv] + list(args), kwargs)


BUILTIN_EXC = {"KeyError", "AttributeError", "IndexError", "AssertionError", "ImportError", "StopIteration",
               "TypeError", "ValueError", "Exception", "NotImplementedError", "RuntimeError", "ZeroDivisionError"}
