"""A model of the MOSEK Fusion modelling API: every variable, constraint and objective built, as symbolic sums."""
from .values import *
from .interp import Interp
from . import lib
import ast

DV = "@dv"


class Model:
    def __init__(self, I):
        self.I = I
        self.variables, self.constraints, self.objectives, self.domargs = {}, [], [], {}
        h = I.ext_hooks
        for n in ("add", "sub", "mul", "mulElm", "dot", "sum", "neg", "vstack", "hstack", "stack", "constTerm", "ones", "zeros", "reshape", "transpose", "outer", "flatten", "repeat", "mulDiag", "condense"):
            h["Expr." + n] = self.expr(n)
        for n in ("sparse", "dense", "eye", "diag", "zeros", "ones"):
            h["Matrix." + n] = self.matrix
        for n in ("inPSDCone", "greaterThan", "lessThan", "equalsTo", "unbounded", "inQCone", "inRange", "inRotatedQCone", "axis", "symmetric"):
            h["Domain." + n] = self.domain(n)
        for n in ("variable", "constraint", "objective"):
            h["()." + n] = getattr(self, n)
        for n in ("index", "reshape", "slice", "pick", "transpose", "asExpr", "diag", "fromTril"):
            h["()." + n] = self.same
        h["().level"] = self.read("level")
        h["().dual"] = self.read("dual")

    def nums(self, st, args):
        I = self.I
        out = []
        for a in args:
            it = I.exact_items(st, a) if a.r else None
            if it and any(self.isexpr(st, x) for x in it):
                out += list(it)
            else:
                out.append(a)
        return out

    def isexpr(self, st, v):
        return any(isinstance(l, tuple) and l[:1] == (DV,) for l in self.I.deps(st, v))

    def nv(self, st, v):
        """numeric content of an expression, a variable or a number"""
        I = self.I
        if v.fn and not v.f:
            ls = [l for l in self.I.deps(st, v) if isinstance(l, tuple) and l[:1] == (DV,)]
            if len(ls) == 1 and any(f[0] == "exti" for f in v.fn):
                return V(f=frozenset([Term(1, (ls[0],), E)]), d=v.d | frozenset(ls))
        return v

    def expr(self, name):
        def h(I, st, nm, args, kwargs, node, deps):
            xs = [self.nv(st, a) for a in self.nums(st, args)]
            if not xs:
                return None
            if name in ("add", "vstack", "hstack", "stack"):
                if name in ("vstack", "hstack", "stack") or len(xs) == 1:
                    return self.tag(st, lib.numeric(I, st, xs))
                r = xs[0]
                for x in xs[1:]:
                    r = I.binop(st, ast.Add(), I.numv(st, r), I.numv(st, x), node)
                return self.tag(st, r)
            if name == "sub" and len(xs) == 2:
                return self.tag(st, I.binop(st, ast.Sub(), I.numv(st, xs[0]), I.numv(st, xs[1]), node))
            if name in ("mul", "dot", "mulElm", "outer") and len(xs) == 2:
                return self.tag(st, I.binop(st, ast.Mult(), I.numv(st, xs[0]), I.numv(st, xs[1]), node))
            if name == "neg":
                return self.tag(st, I.binop(st, ast.Mult(), C(-1), I.numv(st, xs[0]), node))
            if name in ("ones", "zeros"):
                return C(1 if name == "ones" else 0)
            return self.tag(st, lib.numeric(I, st, xs[:1]))
        return h

    def tag(self, st, v):
        return v

    def matrix(self, I, st, nm, args, kwargs, node, deps):
        if nm.endswith("sparse") or nm.endswith("dense"):
            return lib.numeric(I, st, list(args)[-1:])
        return None

    def domain(self, name):
        def h(I, st, nm, args, kwargs, node, deps):
            k = args[0].const if args else None
            if k and isinstance(k[1], (int, float)):
                return V(c=frozenset([("str", f"@domain {name} {k[1]}")]))
            if args and name in ("equalsTo", "greaterThan", "lessThan"):
                a = I.numv(st, self.nv(st, args[0]))
                if I.num(st, a) and not I.unkn(st, a):
                    n = f"@domain {name} #{len(self.domargs)}"
                    self.domargs[n[8:]] = a
                    return V(c=frozenset([("str", n)]))
            return V(c=frozenset([("str", f"@domain {name} {'?' if args else ''}".strip())]))
        return h

    def dom(self, args):
        out = set()
        for a in args:
            for t, x in a.c:
                if t == "str" and x.startswith("@domain"):
                    out.add(x[8:])
        return out

    def variable(self, I, st, nm, args, kwargs, node, deps):
        args = list(args) + list(kwargs.values())
        l = (DV, f"{node.lineno}:{node.col_offset}")
        size = [a for a in args if not any(t == "str" for t, x in a.c)]
        d = frozenset().union(*[I.deps(st, a) for a in size]) if size else frozenset()
        doms = self.dom(args)
        o = self.variables.setdefault(l, {"domain": set(), "deps": set(), "line": node.lineno, "psd": False})
        o["domain"] |= doms
        o["deps"] |= d
        return V(fn=frozenset([("exti", "@model.variable()", frozenset([l]))]), u=True, d=frozenset([l]))

    def constraint(self, I, st, nm, args, kwargs, node, deps):
        args = list(args) + list(kwargs.values())
        doms = self.dom(args)
        ex = [a for a in args if not any(t == "str" for t, x in a.c) and not a.tok]
        l = ("@con", f"{node.lineno}:{node.col_offset}")
        e = I.numv(st, self.nv(st, ex[-1])) if ex else UNK
        if len(doms) == 1 and next(iter(doms)) in self.domargs:
            dn = next(iter(doms))
            e = I.numv(st, I.binop(st, ast.Sub(), e, self.domargs[dn], node))
            doms = {dn.split()[0] + " 0"}
        self.constraints.append((l, e, doms, frozenset(st.pc), node.lineno))
        return V(fn=frozenset([("exti", "@model.constraint()", frozenset([l]))]), u=True, d=frozenset([l]))

    def objective(self, I, st, nm, args, kwargs, node, deps):
        args = list(args) + list(kwargs.values())
        sense = {f[1].rsplit(".", 1)[-1] for a in args for f in a.fn if f[0] == "ext"}
        self.objectives.append((sense, I.numv(st, self.nv(st, args[-1])), frozenset(st.pc), node.lineno))
        return NONE

    def same(self, I, st, nm, args, kwargs, node, deps):
        ls = [l for l in deps if isinstance(l, tuple) and l[:1] in ((DV,), ("@con",))]
        if len(ls) == 1:
            return V(fn=frozenset([("exti", "@model.variable()", frozenset(ls))]), u=True, d=frozenset(ls))
        return None

    def read(self, what):
        def h(I, st, nm, args, kwargs, node, deps):
            ls = [l for l in deps if isinstance(l, tuple) and l[:1] in ((DV,), ("@con",))]
            if len(ls) == 1:
                l = ("@" + what,) + ls[0]
                return V(f=frozenset([Term(1, (l,), E)]), d=frozenset([l]))
            return None
        return h
