"""Abstract histories of public calls on an LP or SDP program, from an arbitrary (symbolic) state."""
from .values import *
from .interp import Interp, Dead, Budget
from .effects import Effects, Summarise
from .model import AnchorMissing
from . import lib

SPEC = ("known_moments", "semiknown_moments", "objective", "maximize", "moment_lowerbounds", "moment_upperbounds",
        "extra_equalities", "extra_inequalities")
SELF = ("s", ("self",), None)
SOLVERS = ("solveLP", "solveSDP_MosekFUSION", "solveSDP", "solveLP_sparse", "solveLP_Mosek")
CLASSES = ("InflationLP", "InflationSDP")
_eff = {}


def effects(prog):
    if id(prog) not in _eff:
        _eff[id(prog)] = Effects(prog)
    return _eff[id(prog)]


class StubSolver:
    """calls of the solver interface return an unknown result and are recorded"""

    def __init__(self, names=SOLVERS):
        self.names, self.calls = names, []

    def __call__(self, I, st, ev):
        pass

    def call(self, I, st, func, args, kwargs, n, star, dstar):
        if func.name in self.names and func.cls is None:
            self.calls.append((func, args, dict(kwargs), st.copy(), dstar))
            I.emit(st, "solver", n, fn=func, args=args, kwargs=kwargs)
            return I.sym(("@solver",))
        return None


class Attrs:
    """tells which attribute of self an event concerns"""

    def __init__(self, selfid=SELF):
        self.selfid = selfid

    def of(self, I, st, ev):
        """-> (attr name, kind) or None; kind: store/del/content"""
        d = ev.data
        if ev.kind == "attr" and d["oid"] == self.selfid:
            return d["name"], "store"
        if ev.kind == "delattr" and d["oid"] == self.selfid:
            return d["name"], "del"
        if ev.kind in ("item", "delitem", "mut"):
            a = self.owner(I, st, d["oid"])
            if a:
                return a, "content"
        if ev.kind == "attr":
            a = self.owner(I, st, d["oid"])
            if a and I.get(st, d["oid"]).cls is None:
                return a, "content"
        return None

    def owner(self, I, st, oid, depth=0):
        o = I.get(st, self.selfid)
        for a, v in o.attrs.items():
            if oid in v.r:
                return a
        if isinstance(oid, tuple) and oid[2] is None:
            p = oid[1]
            sp = self.selfid[1] if isinstance(self.selfid, tuple) else None
            if sp is not None and len(p) > len(sp) and p[:len(sp)] == sp:
                a = p[len(sp)]
                # only while the attribute still holds (part of) the original object
                v = o.attrs.get(a)
                if v is None or len(p) > len(sp) + 1:
                    return a
        # containers nested in an attribute value
        if depth == 0:
            for a, v in o.attrs.items():
                for q in v.r:
                    ob = st.heap.get(q)
                    if ob is None or ob.kind in ("inst", "sym"):
                        continue
                    for x in list(ob.items or ()) + [e[1] for e in ob.ents.values()]:
                        if oid in x.r:
                            return a
        return None


def mk(prog, cls, watched=SPEC, stub=True, budget=600000, summarise=True, keep=(), names=None):
    I = Interp(prog, budget, {("self",): cls, "self": cls})
    I.types = {**I.types, ("self",): cls}
    I.summ = None
    if summarise:
        I.summ = Summarise(effects(prog), watched, keep=keep, **({"names": names} if names is not None else {}))
        I.hooks.append(I.summ)
    I.stub = StubSolver() if stub else None
    if stub:
        I.hooks.append(I.stub)
    st = I.start()
    return I, st, I.sym(("self",))


def force(I, table):
    """fix the outcome of atoms: {(kind, frozenset of labels): polarity}; returns the list of those that were met"""
    orig, met = I.contradict, []

    def contradict(pc, form, pol):
        if form[0] == "atom" and len(form) > 2:
            want = table.get((form[1], form[2])) if isinstance(form[2], frozenset) else None
            if want is not None:
                met.append(form)
                return pol is not want
        return orig(pc, form, pol)
    I.contradict = contradict
    return met


NO_SUPPORT = {("empty", frozenset([("self", "supports_problem")])): True}


def sym(I, name):
    return I.sym((name,))


def params(prog, cls, meth):
    f = prog.method(cls, meth)
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args][1:], f


# ---- operations: (name, method, args, kwargs); a string "$X" is the symbolic value X
def mutators(prog, cls, arg="A"):
    ops = []
    A = "$" + arg

    def add(name, meth, *args, **kw):
        ops.append((name, meth, args, kw))
    for m in ("set_values", "update_values", "set_distribution"):
        add(f"{m}({arg})", m, A)
        if m != "update_values":
            add(f"{m}(None)", m, None)
    add(f"set_values({arg}, use_lpi_constraints=True)", "set_values", A, use_lpi_constraints=True)
    add(f"set_values({arg}, only_specified_values=True)", "set_values", A, only_specified_values=True)
    for d in ("max", "min"):
        add(f"set_objective({arg}, '{d}')", "set_objective", A, d)
        add(f"set_objective(None, '{d}')", "set_objective", None, d)
    for b in ("up", "lo"):
        add(f"set_bounds({arg}, '{b}')", "set_bounds", A, b)
        add(f"set_bounds(None, '{b}')", "set_bounds", None, b)
    for m in ("set_extra_equalities", "set_extra_inequalities"):
        add(f"{m}({arg})", m, A)
        add(f"{m}(None)", m, None)
    for g in ("all", "values", "bounds", "lowerbounds", "upperbounds", "objective"):
        add(f"reset('{g}')", "reset", g)
    if cls == "InflationSDP":
        add(f"generate_relaxation({arg})", "generate_relaxation", A)
    return ops


def observers(prog, cls):
    return [("solve()", "solve", (), {}), ("write_to_file(f)", "write_to_file", ("$f",), {}),
            ("certificate_as_dict()", "certificate_as_dict", (), {}), ("certificate_as_probs()", "certificate_as_probs", (), {}),
            ("certificate_as_string()", "certificate_as_string", (), {}), ("evaluate_certificate(p)", "evaluate_certificate", ("$p",), {}),
            ("evaluate_polynomial(q, p)", "evaluate_polynomial", ("$q", "$p"), {})]


def val(I, x, st=None):
    if isinstance(x, str) and x.startswith("$"):
        return I.sym((x[1:],))
    if isinstance(x, V):
        return x
    if isinstance(x, list):
        return I.ref(I.alloc(st, None, Obj("list", items=tuple(C(y) for y in x)), extra=repr(x)))
    return C(x)


def apply(I, st, selfv, op, rename=None):
    """run one operation; False if it certainly raises"""
    name, meth, args, kw = op
    I.opcount = getattr(I, "opcount", 0) + 1
    I.iters = (("x", ("op", I.opcount)),)       # objects of different calls are different objects
    vs = []
    for a in args:
        if rename and isinstance(a, str) and a in rename:
            a = rename[a]
        vs.append(val(I, a, st))
    r = I.run_method(st, selfv, meth, vs, {k: val(I, x, st) for k, x in kw.items()})
    return r is not None


def self_attr(I, st, name, selfid=SELF):
    o = I.get(st, selfid)
    if name in o.attrs:
        return o.attrs[name]
    if I.issym(selfid):
        return I.child(selfid, name)
    return ABSENT


def mentions(x, root):
    if isinstance(x, tuple):
        return any(mentions(y, root) for y in x) if not (x and x[0] == root) else True
    if isinstance(x, frozenset):
        return any(mentions(y, root) for y in x)
    return x == root


def all_labels(I, st, v, depth=0, seen=None):
    """labels of data held in v (keys, values, addends), without guards"""
    seen = seen if seen is not None else set()
    out = set(v.d)
    for t in v.f:
        out |= set(t.l)
    for p in v.tok or ():
        for x in p:
            if isinstance(x, tuple) and x and x[0] == "v":
                out |= set(x[1].d)
    if depth > 5:
        return out
    for oid in v.r:
        if oid in seen:
            continue
        seen.add(oid)
        if isinstance(oid, tuple):
            out.add(oid[1])
        o = st.heap.get(oid)
        if o is None or o.kind == "inst":
            continue
        for x in o.items or ():
            out |= all_labels(I, st, x, depth + 1, seen)
        for k, x, gs in o.ents.values():
            if k is not None:
                out |= all_labels(I, st, k, depth + 1, seen)
            out |= all_labels(I, st, x, depth + 1, seen)
        if o.kind in ("coo",):
            for x in o.attrs.values():
                out |= all_labels(I, st, x, depth + 1, seen)
    return out


def unchanged(I, st, name, selfid=SELF):
    """attribute certainly holds what it held at the start"""
    o = I.get(st, selfid)
    base = I.child(selfid, name)
    v = o.attrs.get(name)
    if v is not None:
        if not (v.r == base.r and not v.c and not v.fn and v.tok is None):
            # cached property values may have been stored; anything else is a change
            return False
    for oid in base.r:
        ob = st.heap.get(oid)
        if ob is not None and (ob.ents or ob.dels or ob.attrs or ob.items is not None or "nobase" in ob.tags):
            return False
    # nested objects of the attribute
    p = next(iter(base.r))[1]
    for oid, ob in st.heap.items():
        if isinstance(oid, tuple) and oid[2] is None and len(oid[1]) > len(p) and oid[1][:len(p)] == p:
            if ob.cls is None and (ob.ents or ob.dels or ob.items is not None or "nobase" in ob.tags):
                return False
    return True


# ---- canonical content, for comparing the outcome of two histories
def canon(I, st, v, depth=0, seen=()):
    out = set()
    for c in v.c:
        if c[0] != "absent":
            out.add(("c", c[0] if c[0] != "bool" else "bool", repr(c[1])))
        else:
            out.add(("absent",))
    if v.tok:
        for t in v.tok:
            out.add(("tok",) + tuple(x if isinstance(x, str) else (x[0], canon(I, st, x[1], depth + 1, seen) if isinstance(x[1], V) else str(x[1])) for x in t))
    containers = False
    for oid in v.r:
        if oid in seen or depth > 6:
            out.add(("rec",)); continue
        o = I.get(st, oid)
        if o.kind == "sym":
            if "nobase" not in o.tags:
                out.add(("base", lkey(oid[1])))
            for k, x, gs in o.ents.values():
                if k is not None and I.issym(oid) and k.r and k == I.child(oid, "#") and x == I.child(oid, "[]"):
                    out.add(("base", lkey(oid[1]))); continue
                out.add(("e", canon(I, st, k, depth + 1, seen + (oid,)) if k is not None else None, canon(I, st, x, depth + 1, seen + (oid,))))
        elif o.kind == "inst":
            out.add(("inst", o.cls.name if o.cls else "?"))
        else:
            out.add(("kind", "seq" if o.kind in ("list", "tuple", "set", "iter") else o.kind))
            for x in o.items or ():
                out.add(("e", None, canon(I, st, x, depth + 1, seen + (oid,))))
            for k, x, gs in o.ents.values():
                out.add(("e", canon(I, st, k, depth + 1, seen + (oid,)) if k is not None and o.kind != "array" else None, canon(I, st, x, depth + 1, seen + (oid,))))
            if o.kind == "coo":
                for n in ("data", "row", "col"):
                    if n in o.attrs:
                        out.add((n, canon(I, st, o.attrs[n], depth + 1, seen + (oid,))))
    if not v.r:
        for t in v.f:
            out.add(("t", t.k, tuple(lkey(l) for l in t.l)))
    if v.u and not v.f and not v.r:
        out.add(("?",) + tuple(sorted(lkey(l) for l in v.d)))
    for f in v.fn:
        if f[0] not in ("symattr",):
            out.add(("fn", str(f[:2])))
    return frozenset(out)
