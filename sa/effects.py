"""Name-based transitive effects: which attribute names a function may store, mutate or read."""
import ast
from . import lib
from .values import *


def base_attr(n):
    """innermost attribute name of a chain of subscripts/attributes that ends in one: self.x[k].y -> the names"""
    names = []
    while isinstance(n, (ast.Subscript, ast.Attribute, ast.Call, ast.Starred)):
        if isinstance(n, ast.Attribute):
            names.append(n.attr)
            n = n.value
        elif isinstance(n, ast.Call):
            n = n.func
        else:
            n = n.value
    return names


class Effects:
    def __init__(self, prog):
        self.p = prog
        self.direct = {}
        self.allfuncs = []
        for m in prog.modules.values():
            self.allfuncs += list(m.funcs.values())
            for c in m.classes.values():
                self.allfuncs += list(c.methods.values()) + list(c.setters.values())
        self.getters = {}
        for f in self.allfuncs:
            if f.kind in ("property", "cached") or f.cls is not None:
                self.getters.setdefault(f.name, []).append(f)
        for f in self.allfuncs:
            self.direct[f] = self.scan(f)
        self._clo = {}

    def scan(self, f):
        stores, reads, calls, raises = set(), set(), set(), False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                if isinstance(n.ctx, ast.Load):
                    reads.add(n.attr)
                    if isinstance(n.value, ast.Name) and n.value.id == "self" and f.cls is not None:
                        g = self.p.lookup(f.cls, n.attr)
                        if g is not None: calls.add(g)
                    elif isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "super" and f.cls is not None:
                        for k in self.p.mro(f.cls)[1:]:
                            if n.attr in k.methods:
                                calls.add(k.methods[n.attr]); break
                    elif not lib.is_method_name(n.attr) and not n.attr.startswith("__"):
                        for g in self.getters.get(n.attr, ()):
                            calls.add(g)
                    if isinstance(n.value, ast.Name):
                        r = self.p.resolve(f.mod, n.value.id)
                        if r and r[0] == "mod":
                            r2 = self.p.resolve_import(r[1].name, n.attr)
                            if r2 and r2[0] == "fn": calls.add(r2[1])
                    for (cn, a), g in self.p.aliases.items():
                        if a == n.attr: calls.add(g)
                else:
                    stores.add(n.attr)
                    stores |= set(base_attr(n.value))
            elif isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
                stores |= set(base_attr(n))
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in lib.MUT_METHODS:
                    stores |= set(base_attr(n.func.value))
                if isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and len(n.args) > 1:
                    if isinstance(n.args[1], ast.Constant): stores.add(n.args[1].value)
                    else: stores.add("*" + (f.cls.name if f.cls else ""))
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("__setattr__", "__delattr__") and n.args:
                    if isinstance(n.args[0], ast.Constant): stores.add(n.args[0].value)
                    else: stores.add("*" + (f.cls.name if f.cls else ""))
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                r = self.p.resolve(f.mod, n.id)
                if r and r[0] == "fn": calls.add(r[1])
                elif r and r[0] == "cls":
                    for g in r[1].methods.values():
                        if g.name in ("__init__", "__new__", "__post_init__"): calls.add(g)
        return stores, reads, calls

    def closure(self, f):
        r = self._clo.get(f)
        if r is None:
            seen, todo, st, rd = {f}, [f], set(), set()
            while todo:
                g = todo.pop()
                if g not in self.direct:
                    continue
                s, r_, c = self.direct[g]
                st |= s; rd |= r_
                for h in c:
                    if h not in seen:
                        seen.add(h); todo.append(h)
            r = self._clo[f] = (frozenset(st), frozenset(rd), frozenset(seen))
        return r


MONO = {"_sanitise_moment", "_sanitise_monomial", "_AtomicMonomial", "_monomial_from_atoms", "Monomial", "Moment_1d", "Moment_2d",
        "_interpret_name", "_interpret_operator_string", "_interpret_atomic_string", "_to_canonical_memoized_1d",
        "_to_inflation_repr_1d", "_to_canonical_memoized", "_to_inflation_repr", "compute_marginal", "CompoundMoment", "compute_marginal",
        "nb_commuting", "mon_to_lexrepr", "factorize_monomial_1d", "_from_2dndarray"}


class Summarise:
    """call hook: monomial bookkeeping that cannot touch the attributes a rule watches is a pure function of its arguments"""

    def __init__(self, eff, watched, names=MONO, threshold=150000, keep=()):
        self.eff, self.watched, self.names, self.threshold = eff, frozenset(watched), names, threshold
        self.keep = set(keep)
        self.slow = set()
        self.active = {}
        self.used = set()

    def __call__(self, I, st, ev):
        pass

    def ok(self, f):
        st = self.eff.closure(f)[0]
        return not (st & self.watched) and not (st & {"*", "*InflationLP", "*InflationSDP", "*InflationProblem"})

    def call(self, I, st, func, args, kwargs, n, star, dstar):
        if func.name in self.keep:
            return None
        if func.name in self.names or func in self.slow:
            if self.ok(func):
                self.used.add(func.qual)
                return self.summary(I, st, func, args, kwargs, star, dstar)
            return None
        if I.cost.get(func, 0) > self.threshold and self.ok(func):
            self.used.add(func.qual)
            return self.summary(I, st, func, args, kwargs, star, dstar)
        return None

    def summary(self, I, st, func, args, kwargs, star=None, dstar=None):
        d = set()
        rest = args[1:] if func.cls is not None and func.kind != "static" else args
        for a in list(rest) + list(kwargs.values()) + [x for x in (star, dstar) if x is not None]:
            d |= I.deps(st, a)
        I.may_raise(st, "ext")
        lab = ("mono", func.name) + slabels(d)[:6]
        path = ("@fn", func.name, slabels(d)[:8])
        oid = ("s", path, ("sum",))
        return V(r=frozenset([oid]), f=frozenset([Term(1, (path,), E)]), d=frozenset(d))
