"""Abstract interpretation of code that assembles sparse matrices and vectors out of whole blocks.

A vector is a sequence of segments (length, content); lengths are linear expressions over the sizes of the components
(number of inequalities, of stored entries, ...), contents are linear expressions over the columns of a component's
coordinate form (its row numbers, column numbers, data), constants or solver constants.  A matrix is its coordinate
form plus a shape.  A vector indexed by the variables of the problem is kept per region: the set of components that
have an entry for the variable.  Nothing is executed and no size or entry is ever given a value; which components are
present and the boolean options of the function are the only things fixed, one combination at a time."""
import ast, copy, itertools


class Giveup(Exception):
    pass


class Misaligned(Giveup):
    """positions that cannot be compared: sizes of components are independent of each other"""


class Wrong(Exception):
    """the code certainly does something inconsistent"""


class U:
    def __repr__(self):
        return "?"


UNK = U()


class Lin:
    """linear expression over symbols (hashable)"""
    __slots__ = ("c", "t")

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = tuple(sorted(((k, v) for k, v in dict(t).items() if v), key=lambda x: repr(x[0])))

    def __add__(self, o):
        d = dict(self.t)
        for k, v in o.t:
            d[k] = d.get(k, 0) + v
        return Lin(self.c + o.c, d)

    def scale(self, k):
        return Lin(self.c * k, {a: v * k for a, v in self.t})

    def __sub__(self, o):
        return self + o.scale(-1)

    def __eq__(self, o):
        return isinstance(o, Lin) and (self.c, self.t) == (o.c, o.t)

    def __hash__(self):
        return hash((self.c, self.t))

    def __repr__(self):
        s = [f"{'' if v == 1 else str(v) + '*'}{'.'.join(map(str, k)) if isinstance(k, tuple) else k}" for k, v in self.t]
        if self.c or not s:
            s.append(str(self.c))
        return " + ".join(s)

    @property
    def const(self):
        return not self.t


def sym(s):
    return Lin(0, {s: 1})


def lin(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, bool):
        return Lin(int(x))
    if isinstance(x, (int, float)):
        return Lin(x)
    raise Giveup(f"not a number: {x!r}")


def isnum(x):
    return isinstance(x, (int, float, Lin)) and not isinstance(x, bool) or isinstance(x, bool)


def plain(x):
    return x.c if isinstance(x, Lin) and x.const else x


class Ext:
    """something of a library: module attribute, or a method result"""

    def __init__(self, path, tag=None):
        self.path, self.tag = path, tag

    def __repr__(self):
        return f"<{self.path}>"

    def __eq__(self, o):
        return isinstance(o, Ext) and (self.path, self.tag) == (o.path, o.tag)

    def __hash__(self):
        return hash((self.path, self.tag))


class Arr:
    """kind np|list; segs: [(len Lin, elem)]; elem: Lin | Ext | other atom; perm: order it was rearranged by; ilv: parallel vectors"""

    def __init__(self, segs, kind="np", perm=None, ilv=None):
        self.segs = [(lin(n), e) for n, e in segs if plain(lin(n)) != 0]
        self.kind, self.perm, self.ilv = kind, perm, ilv
        out = []
        for n, e in self.segs:
            if out and out[-1][1] == e and isconst(e):
                out[-1] = (out[-1][0] + n, e)
            else:
                out.append((n, e))
        self.segs = out

    def __len__(self):
        raise Giveup("length")

    @property
    def n(self):
        r = Lin()
        for n, e in self.segs:
            r = r + n
        if self.ilv:
            for a in self.ilv:
                r = r + a.n
        return r

    def map(self, f):
        return Arr([(n, f(e)) for n, e in self.segs], "np", self.perm, [a.map(f) for a in self.ilv] if self.ilv else None)

    def __repr__(self):
        return f"[{', '.join(f'{e!r} x {n!r}' for n, e in self.segs)}{' ilv ' + repr(self.ilv) if self.ilv else ''}]"


def atoms(e):
    return {k for k, v in e.t if isinstance(k, tuple)} if isinstance(e, Lin) else set()


def isconst(e):
    return not any(a[0] in ("data", "row", "col", "arange", "y") for a in atoms(e))


class ColArr:
    """vector over the variables: content per region, plus one extra variable at the end"""

    def __init__(self, regs, slack):
        self.regs, self.slack = regs, slack

    def __repr__(self):
        return f"ColArr({self.regs}, slack={self.slack})"


class ColSet:
    def __init__(self, regs, of=None):
        self.regs, self.of = frozenset(regs), of

    def __repr__(self):
        return f"ColSet{sorted(map(sorted, self.regs))}"


class Gather:
    def __init__(self, arr, cols, k=1):
        self.arr, self.cols, self.k = arr, cols, k


class Stack2:
    def __init__(self, rows, t=False):
        self.rows, self.t = rows, t


class Mat:
    def __init__(self, row, col, data, shape, fmt="coo", comp=None):
        self.row, self.col, self.data, self.shape, self.fmt, self.comp = row, col, data, tuple(map(lin, shape)), fmt, comp

    def copy(self):
        return Mat(self.row, self.col, self.data, self.shape, self.fmt, self.comp)

    def settle(self):
        """a common rearrangement of all three vectors changes nothing"""
        ps = {self.row.perm, self.col.perm, self.data.perm}
        if len(ps) == 1 and None not in ps:
            for n in ("row", "col", "data"):
                a = getattr(self, n)
                setattr(self, n, Arr(a.segs, "np", None, a.ilv))

    def batches(self):
        """[(count, row elem, col elem, data elem)]"""
        self.settle()
        ps = {self.row.perm, self.col.perm, self.data.perm}
        if len(ps) > 1 or ps != {None}:
            raise Wrong("row numbers, column numbers and data of a matrix are rearranged differently")
        out = []
        for a, b, c in ([(self.row, self.col, self.data)] if not self.row.ilv else list(zip(self.row.ilv, self.col.ilv or (), self.data.ilv or ()))):
            out += align(a.segs, b.segs, c.segs)
        return out

    def __repr__(self):
        return f"Mat({self.fmt} {self.shape} {self.row} {self.col} {self.data})"


def cut(e, k):
    """content of a segment after its first k entries"""
    if not isinstance(e, Lin):
        return e
    d = {}
    c = Lin(e.c)
    for a, v in e.t:
        if isinstance(a, tuple) and a[0] == "arange":
            c = c + sym(a).scale(v) + k.scale(v)
        elif isinstance(a, tuple) and a[0] == "y":
            c = c + sym(("y", a[1], a[2] + k)).scale(v)
        elif isinstance(a, tuple) and a[0] in ("data", "row", "col"):
            raise Giveup("a component's vector is cut")
        else:
            c = c + sym(a).scale(v)
    return c


def positive(l):
    return all(v > 0 for k, v in l.t) and l.c >= 0 and (l.t or l.c > 0)


def align(*vs):
    """split segment lists at common positions"""
    vs = [list(v) for v in vs]
    out = []
    while any(vs):
        if not all(vs):
            raise Wrong("vectors of different length are combined")
        ns = [v[0][0] for v in vs]
        m = next((n for n in ns if all(n == o or positive(o - n) for o in ns)), None)
        if m is None:
            if any({v > 0 for k, v in (n - o).t} == {True, False} for n in ns for o in ns):
                raise Wrong("vectors whose parts belong to different components are combined")
            raise Giveup(f"segments {ns} cannot be compared")
        row = [m]
        for v in vs:
            n, e = v[0]
            row.append(e)
            if n == m:
                v.pop(0)
            else:
                v[0] = (n - m, cut(e, m))
        out.append(tuple(row))
    return out


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Raised(Exception):
    pass


class BreakLoop(Exception):
    pass


class ContinueLoop(Exception):
    pass


class Blocks:
    VECS = ("objective", "known_vars", "lower_bounds", "upper_bounds")
    MATS = ("inequalities", "equalities")

    def __init__(self, prog, present, blank=False):
        self.prog, self.present, self.blank = prog, set(present), blank
        self.calls, self.depth, self.steps, self.seen, self.nperm = [], 0, 0, set(), 0
        self.regions = [frozenset(s) for r in range(5) for s in itertools.combinations([c for c in self.VECS if c in self.present], r)]
        self.nv = sym("variables")

    def component(self, c):
        one = Lin(1)
        if c not in self.present:
            z = Arr([])
            shape = (0, 0) if self.blank else (1 if c in self.VECS else 0, self.nv)
            return Mat(z, z, z, shape, comp=c)
        n = sym("entries(" + c + ")")
        row = Arr([(n, sym(("row", c)))]) if c in self.MATS else Arr([(n, Lin(0))])
        return Mat(row, Arr([(n, sym(("col", c)))]), Arr([(n, sym(("data", c)))]), (sym("rows(" + c + ")") if c in self.MATS else 1, self.nv), comp=c)

    # ---- calls of program functions
    def call(self, func, args, kwargs):
        self.depth += 1
        if self.depth > 12:
            raise Giveup("call depth")
        self.seen.add(func.qual)
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        dfl = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        dfl.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n, v in zip(names, args):
            env[n] = v
        rest = dict(kwargs)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in rest:
                env[n] = rest.pop(n)
            elif n not in env:
                if n in dfl:
                    env[n] = self.eval(dfl[n], {}, func.mod)
                else:
                    raise Giveup(f"argument {n} missing")
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(names):])
        if a.kwarg:
            env[a.kwarg.arg] = rest
        try:
            self.block(func.node.body, env, func.mod)
            r = None
        except Ret as e:
            r = e.v
        self.depth -= 1
        return r

    # ---- statements
    def block(self, body, env, mod):
        for s in body:
            self.stmt(s, env, mod)

    def stmt(self, s, env, mod):
        self.steps += 1
        if self.steps > 200000:
            raise Giveup("too many steps")
        E = lambda e: self.eval(e, env, mod)
        if isinstance(s, ast.Expr):
            E(s.value)
        elif isinstance(s, ast.Assign):
            v = E(s.value)
            for t in s.targets:
                self.store(t, v, env, mod)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.store(s.target, E(s.value), env, mod)
        elif isinstance(s, ast.AugAssign):
            cur = E(ast.copy_location(self.load(s.target), s))
            new = E(s.value)
            if isinstance(s.op, ast.Add) and isinstance(cur, list) and isinstance(new, (list, tuple)):
                cur.extend(new)
                return
            self.store(s.target, self.binop(type(s.op).__name__, cur, new), env, mod)
        elif isinstance(s, ast.If):
            c = self.truth(E(s.test))
            if c is UNK:
                self.fork(s.body, s.orelse, env, mod)
            else:
                self.block(s.body if c else s.orelse, env, mod)
        elif isinstance(s, ast.With):
            for it in s.items:
                v = E(it.context_expr)
                if it.optional_vars is not None:
                    self.store(it.optional_vars, v, env, mod)
            self.block(s.body, env, mod)
        elif isinstance(s, ast.For):
            it = E(s.iter)
            if isinstance(it, dict):
                it = list(it)
            if isinstance(it, (list, tuple)):
                for x in list(it):
                    self.store(s.target, x, env, mod)
                    try:
                        self.block(s.body, env, mod)
                    except BreakLoop:
                        break
                    except ContinueLoop:
                        continue
                else:
                    self.block(s.orelse, env, mod)
            else:
                self.havoc(s.body, env)
        elif isinstance(s, ast.While):
            self.havoc(s.body, env)
        elif isinstance(s, ast.Return):
            raise Ret(E(s.value) if s.value is not None else None)
        elif isinstance(s, ast.Raise):
            raise Raised()
        elif isinstance(s, ast.Break):
            raise BreakLoop()
        elif isinstance(s, ast.Continue):
            raise ContinueLoop()
        elif isinstance(s, ast.Try):
            self.block(s.body, env, mod)
            self.block(s.orelse, env, mod)
            self.block(s.finalbody, env, mod)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    o, k = E(t.value), E(t.slice)
                    if isinstance(o, dict) and isinstance(k, (str, int)):
                        o.pop(k, None)
        elif isinstance(s, (ast.FunctionDef,)):
            env[s.name] = ("local", s, env, mod)
        elif isinstance(s, (ast.Pass, ast.Assert, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            if isinstance(s, ast.Import):
                for a in s.names:
                    env[a.asname or a.name.split(".")[0]] = Ext(a.name if a.asname else a.name.split(".")[0])
        else:
            raise Giveup(f"statement {type(s).__name__}")

    def load(self, t):
        t = copy.copy(t)
        t.ctx = ast.Load()
        return t

    def havoc(self, body, env):
        for x in body:
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    env[n.id] = UNK
                elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Store):
                    env[n.value.id] = UNK
                elif isinstance(n, (ast.Subscript,)) and isinstance(n.ctx, (ast.Store,)) and isinstance(n.value, ast.Name):
                    env[n.value.id] = UNK
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "update", "resize", "sort") and isinstance(n.func.value, ast.Name):
                    env[n.func.value.id] = UNK

    def fork(self, a, b, env, mod):
        outs = []
        for body in (a, b):
            e2 = dict(copy.copy(env))
            n = len(self.calls)
            try:
                self.block(body, e2, mod)
                outs.append(e2)
            except Raised:
                pass
            except Ret as r:
                raise Giveup("return under an unknown condition")
            if len(self.calls) > n and any(p.endswith("inputdata") for p, *_ in self.calls[n:]):
                raise Giveup("solver input under an unknown condition")
        if not outs:
            raise Raised()
        for k in set().union(*outs):
            vs = [o.get(k, UNK) for o in outs]
            env[k] = vs[0] if all(v is vs[0] or repr(v) == repr(vs[0]) and type(v) is type(vs[0]) for v in vs) else UNK

    # ---- stores
    def store(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Arr) and False:
                pass
            if isinstance(v, (tuple, list)) and len(v) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, v):
                    self.store(x, y, env, mod)
            else:
                for x in t.elts:
                    self.store(x.value if isinstance(x, ast.Starred) else x, UNK, env, mod)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env, mod)
            if isinstance(o, Mat) and t.attr in ("row", "col", "data"):
                setattr(o, t.attr, self.np(v) if not isinstance(v, U) else UNK)
                if UNK in (o.row, o.col, o.data):
                    raise Giveup("unknown vector stored in a matrix")
                o.settle()
            elif isinstance(o, Mat):
                raise Giveup(f"attribute {t.attr} of a matrix is set")
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env, mod)
            k = self.index(t.slice, env, mod)
            if isinstance(o, dict):
                if isinstance(k, (str, int)):
                    o[k] = v
                    return
                o.clear()
                o["?"] = UNK
                return
            n = self.setitem(o, k, v)
            self.rebind(t.value, n, env, mod, o)
        else:
            raise Giveup("store target")

    def rebind(self, e, n, env, mod, old):
        if n is old or n is None:
            return
        if isinstance(e, ast.Name):
            for k in list(env):             # other names for the same vector
                if env[k] is old:
                    env[k] = n
            env[e.id] = n
            return
        if isinstance(e, ast.Attribute):
            self.store(ast.Attribute(e.value, e.attr, ast.Store()), n, env, mod)
            return
        raise Giveup("vector stored in a container is modified")

    def colarr(self, a):
        if isinstance(a, ColArr):
            return a
        if isinstance(a, Arr) and not a.perm and not a.ilv:
            if len(a.segs) == 1 and isconst(a.segs[0][1]):
                n, e = a.segs[0]
                if n == self.nv:
                    return ColArr({r: e for r in self.regions}, None)
                if n == self.nv + Lin(1):
                    return ColArr({r: e for r in self.regions}, e)
            if len(a.segs) == 2 and a.segs[0][0] == self.nv and a.segs[1][0] == Lin(1) and isconst(a.segs[0][1]):
                return ColArr({r: a.segs[0][1] for r in self.regions}, a.segs[1][1])
        return None

    def colset(self, x):
        if isinstance(x, ColSet):
            return x
        if isinstance(x, Arr) and not x.perm and not x.ilv:
            if not x.segs:
                return ColSet([])
            if len(x.segs) == 1 and isinstance(x.segs[0][1], Lin):
                e = x.segs[0][1]
                at = list(atoms(e))
                if len(at) == 1 and e == sym(at[0]) and at[0][0] == "col" and at[0][1] in self.VECS:
                    return ColSet([r for r in self.regions if at[0][1] in r], at[0][1])
        return None

    def setitem(self, o, k, v):
        if isinstance(o, list) and isinstance(k, int) and not isinstance(k, bool):
            o[k] = v
            return None
        if isinstance(o, U) or isinstance(k, U):
            return UNK
        if isinstance(o, (Arr, ColArr)):
            if isinstance(k, slice) and k == slice(None, None, None):
                if isinstance(v, Arr):
                    if isinstance(o, Arr) and v.n != o.n:
                        raise Wrong("vector of another length stored")
                    return Arr(v.segs, o.kind, v.perm, v.ilv)
                return o.map(lambda e: v) if isinstance(o, Arr) else UNK
            c = self.colarr(o)
            if c is None:
                return self.setspan(o, k, v)
            if isinstance(plain(k), int):
                if plain(k) == -1 and c.slack is not None:
                    return ColArr(dict(c.regs), plain_elem(v))
                return UNK
            if isinstance(k, slice):
                return self.setspan(o, k, v) if isinstance(o, Arr) else UNK
            s = self.colset(k)
            if s is None:
                return UNK
            regs = dict(c.regs)
            if isinstance(v, Arr):
                if not s.regs:
                    return c
                if v.perm or v.ilv or len(v.segs) != 1:
                    return UNK
                n, e = v.segs[0]
                if not isconst(e):
                    ok = s.of is not None and n == sym("entries(" + s.of + ")")
                    if not ok:
                        at = {a[1] for a in atoms(e) if a[0] in ("data", "col")}
                        if s.of is not None and at and s.of not in at:
                            raise Wrong(f"values of {'/'.join(sorted(map(str, at)))} are stored at the variables of {s.of}")
                        return UNK
                    foreign = {a[1] for a in atoms(e) if a[0] in ("data", "col") and a[1] != s.of}
                    if foreign:
                        raise Wrong(f"values of {'/'.join(sorted(foreign))} are stored at the variables of {s.of}")
                for r in s.regs:
                    regs[r] = e
            elif isinstance(v, Gather):
                if v.cols.regs != s.regs:
                    raise Wrong("entries gathered for some variables are stored at others")
                for r in s.regs:
                    x = v.arr.regs[r]
                    regs[r] = x.scale(v.k) if isinstance(x, Lin) else UNK
            elif isinstance(v, U):
                for r in s.regs:
                    regs[r] = UNK
            else:
                for r in s.regs:
                    regs[r] = plain_elem(v)
            return ColArr(regs, c.slack)
        return UNK

    def setspan(self, o, k, v):
        """o[a:b] = constant or vector, on a vector of segments"""
        if not isinstance(o, Arr) or not isinstance(k, slice) or k.step is not None:
            return UNK
        a = lin(k.start) if k.start is not None else Lin(0)
        b = lin(k.stop) if k.stop is not None else o.n
        if plain(a) != 0 and isinstance(plain(a), int) and plain(a) < 0:
            a = o.n + a
        if isinstance(plain(b), int) and plain(b) < 0:
            b = o.n + b
        head, rest = self.split(o.segs, a)
        mid, tail = self.split(rest, b - a)
        new = v.segs if isinstance(v, Arr) else [(b - a, plain_elem(v))] if not isinstance(v, U) else [(b - a, UNK)]
        if isinstance(v, Arr) and v.n != b - a:
            raise Wrong("a part of a vector is replaced by one of another length")
        return Arr(head + list(new) + tail, o.kind)

    def split(self, segs, pos):
        head, segs = [], list(segs)
        while segs and plain(pos) != 0:
            n, e = segs[0]
            if n == pos:
                head.append(segs.pop(0)); pos = Lin(0)
            elif positive(pos - n):
                head.append(segs.pop(0)); pos = pos - n
            elif positive(n - pos):
                head.append((pos, e)); segs[0] = (n - pos, cut(e, pos)); pos = Lin(0)
            else:
                raise (Misaligned if {v > 0 for k, v in (pos - n).t} == {True, False} else Giveup)("position not comparable")
        return head, segs

    # ---- expressions
    def eval(self, e, env, mod):
        self.steps += 1
        E = lambda x: self.eval(x, env, mod)
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            r = self.prog.resolve(mod, e.id)
            if r is None:
                return ("builtin", e.id)
            if r[0] == "ext":
                return Ext(r[1])
            if r[0] == "const":
                m = r[1]
                return self.eval(m.consts[r[2]], {}, m) if isinstance(m.consts[r[2]], ast.AST) else UNK
            return r
        if isinstance(e, ast.Attribute):
            return self.attr(E(e.value), e.attr)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = E(x.value)
                    if isinstance(v, (tuple, list)):
                        out += list(v)
                    elif len(e.elts) == 1:
                        return self.np(v, "list") if isinstance(v, (Arr, tuple)) else v
                    else:
                        return UNK
                else:
                    out.append(E(x))
            return tuple(out) if isinstance(e, ast.Tuple) else out
        if isinstance(e, ast.Dict):
            out = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    x = E(v)
                    out.update(x if isinstance(x, dict) else {"?": UNK})
                else:
                    kk = E(k)
                    out[kk if isinstance(kk, (str, int)) else "?"] = E(v)
            return out
        if isinstance(e, ast.BinOp):
            return self.binop(type(e.op).__name__, E(e.left), E(e.right))
        if isinstance(e, ast.UnaryOp):
            v = E(e.operand)
            if isinstance(e.op, ast.Not):
                t = self.truth(v)
                return t if t is UNK else not t
            if isinstance(e.op, ast.USub):
                return self.scale(v, -1)
            return v if isinstance(e.op, ast.UAdd) else UNK
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            unk = False
            v = None
            for x in e.values:
                v = E(x)
                t = self.truth(v)
                if t is UNK:
                    unk = True
                elif t is not isand:
                    return UNK if unk and False else v if not unk else (False if isand else True)
            return UNK if unk else v
        if isinstance(e, ast.Compare):
            l = E(e.left)
            res = True
            for op, c in zip(e.ops, e.comparators):
                r = E(c)
                t = self.compare(type(op).__name__, l, r)
                if t is UNK:
                    res = UNK
                elif not t:
                    return False
                l = r
            return res
        if isinstance(e, ast.IfExp):
            t = self.truth(E(e.test))
            if t is UNK:
                a, b = E(e.body), E(e.orelse)
                return a if repr(a) == repr(b) else UNK
            return E(e.body if t else e.orelse)
        if isinstance(e, ast.Subscript):
            return self.getitem(E(e.value), self.index(e.slice, env, mod))
        if isinstance(e, ast.Call):
            return self.callexpr(e, env, mod)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return self.comp(e, env, mod)
        if isinstance(e, ast.DictComp):
            return UNK
        if isinstance(e, ast.JoinedStr):
            return UNK
        if isinstance(e, ast.Lambda):
            return ("local", e, env, mod)
        if isinstance(e, ast.Starred):
            return E(e.value)
        if isinstance(e, ast.NamedExpr):
            v = E(e.value)
            self.store(e.target, v, env, mod)
            return v
        raise Giveup(f"expression {type(e).__name__}")

    def comp(self, e, env, mod):
        outs = []

        def rec(i, en):
            if i == len(e.generators):
                outs.append(self.eval(e.elt, en, mod))
                return
            g = e.generators[i]
            it = self.eval(g.iter, en, mod)
            if not isinstance(it, (list, tuple)):
                raise LookupError
            for x in it:
                e2 = dict(en)
                self.store(g.target, x, e2, mod)
                ts = [self.truth(self.eval(c, e2, mod)) for c in g.ifs]
                if UNK in ts:
                    raise LookupError
                if all(ts):
                    rec(i + 1, e2)
        try:
            rec(0, dict(env))
        except LookupError:
            return UNK
        return outs

    def index(self, s, env, mod):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else plain(self.eval(x, env, mod))
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, env, mod) for x in s.elts)
        return plain(self.eval(s, env, mod))

    def truth(self, v):
        v = plain(v)
        if isinstance(v, (bool, int, float, str, type(None))):
            return bool(v)
        if isinstance(v, (tuple, list, dict)):
            return bool(v) if not (isinstance(v, dict) and "?" in v) else UNK
        if isinstance(v, Lin):
            return True if positive(v) or positive(v.scale(-1)) else UNK
        if isinstance(v, Arr) and v.kind == "list":
            return bool(v.segs)
        return UNK

    def compare(self, op, l, r):
        l, r = plain(l), plain(r)
        if op in ("Is", "IsNot"):
            if l is None or r is None:
                t = (l is None and r is None) if not isinstance(l if r is None else r, U) else UNK
            elif isinstance(l, Ext) and isinstance(r, Ext):
                t = l == r if not (l.tag or r.tag) else UNK
            elif isinstance(l, bool) and isinstance(r, bool):
                t = l is r
            else:
                return UNK
            return t if t is UNK or op == "Is" else not t
        if isinstance(l, U) or isinstance(r, U):
            return UNK
        if op in ("In", "NotIn"):
            if isinstance(r, (tuple, list, set, dict)) and not (isinstance(r, dict) and "?" in r) and isinstance(l, (str, int)) and all(isinstance(x, (str, int)) for x in r):
                return (l in r) if op == "In" else l not in r
            return UNK
        num = lambda x: isinstance(x, (int, float, Lin))
        if num(l) and num(r):
            d = lin(l) - lin(r)
            if d.const:
                z = d.c
                return {"Eq": z == 0, "NotEq": z != 0, "Lt": z < 0, "LtE": z <= 0, "Gt": z > 0, "GtE": z >= 0}.get(op, UNK)
            if positive(d):
                return {"Eq": False, "NotEq": True, "Lt": False, "LtE": False, "Gt": True, "GtE": True}.get(op, UNK)
            if positive(d.scale(-1)):
                return {"Eq": False, "NotEq": True, "Lt": True, "LtE": True, "Gt": False, "GtE": False}.get(op, UNK)
            # a count is at least one: d + (-sum of coefficients) + c
            low = d.c + sum(v for k, v in d.t) if all(v > 0 for k, v in d.t) else None
            if low is not None:
                if low > 0:
                    return {"Eq": False, "NotEq": True, "Lt": False, "LtE": False, "Gt": True, "GtE": True}.get(op, UNK)
                if low == 0:
                    return {"Lt": False, "GtE": True}.get(op, UNK)
            return UNK
        if isinstance(l, (str, type(None))) and isinstance(r, (str, type(None))):
            return {"Eq": l == r, "NotEq": l != r}.get(op, UNK)
        if isinstance(l, tuple) and isinstance(r, tuple) and l and l[0] == "builtin" and r and r[0] == "builtin":
            return {"Eq": l == r, "NotEq": l != r}.get(op, UNK)
        if isinstance(l, (tuple, list)) and isinstance(r, (tuple, list)) and not l and not r:
            return {"Eq": True, "NotEq": False}.get(op, UNK)
        return UNK

    def scale(self, v, k):
        v = plain(v)
        if isinstance(v, (int, float)):
            return v * k
        if isinstance(v, Lin):
            return v.scale(k)
        if isinstance(v, Arr):
            return v.map(lambda e: e.scale(k) if isinstance(e, Lin) else UNK)
        if isinstance(v, Gather):
            return Gather(v.arr, v.cols, v.k * k)
        if isinstance(v, ColArr):
            f = lambda e: e.scale(k) if isinstance(e, Lin) else None if e is None else UNK
            return ColArr({r: f(e) for r, e in v.regs.items()}, f(v.slack))
        if isinstance(v, Mat):
            m = v.copy()
            m.data = self.scale(v.data, k)
            return m
        return UNK

    def binop(self, op, a, b):
        a, b = plain(a), plain(b)
        if isinstance(a, U) or isinstance(b, U):
            return UNK
        num = lambda x: isinstance(x, (int, float, Lin))
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (list, Arr)) and (isinstance(x, list) or x.kind == "list") and num(y):
                    if isinstance(x, list):
                        if isinstance(y, int):
                            return list(x) * y
                        if len(x) == 1:
                            return Arr([(lin(y), plain_elem(x[0]))], "list")
                        if not x:
                            return []
                        return UNK
                    return Arr([(n if False else lin_mul(n, y), e) for n, e in x.segs], "list") if len(x.segs) == 1 and isconst(x.segs[0][1]) else UNK
            if num(a) and num(b):
                if isinstance(a, Lin) and isinstance(b, Lin):
                    return UNK
                return plain(lin(a).scale(b) if isinstance(a, Lin) else lin(b).scale(a))
            for x, y in ((a, b), (b, a)):
                if isinstance(y, (int, float)):
                    return self.scale(x, y)
            return UNK
        if op in ("Add", "Sub"):
            if num(a) and num(b):
                return plain(lin(a) + lin(b) if op == "Add" else lin(a) - lin(b))
            islist = lambda x: isinstance(x, list) or isinstance(x, Arr) and x.kind == "list"
            if op == "Add" and islist(a) and islist(b):
                if isinstance(a, list) and isinstance(b, list):
                    return a + b
                return Arr(self.np(a).segs + self.np(b).segs, "list")
            if op == "Add" and isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if op == "Sub":
                return self.binop("Add", a, self.scale(b, -1))
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Arr) and num(y):
                    return x.map(lambda e: e + lin(y) if isinstance(e, Lin) else UNK)
            if isinstance(a, Arr) and isinstance(b, Arr) and not a.ilv and not b.ilv and a.perm == b.perm:
                return Arr([(n, x + y if isinstance(x, Lin) and isinstance(y, Lin) else UNK) for n, x, y in align(a.segs, b.segs)], "np", a.perm)
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Gather) and isinstance(y, Arr):
                    if not x.cols.regs:
                        return Arr([])
                    vals = {x.arr.regs[r] for r in x.cols.regs}
                    if len(vals) == 1 and x.cols.of and len(y.segs) == 1 and y.segs[0][0] == sym("entries(" + x.cols.of + ")"):
                        v = next(iter(vals))
                        if isinstance(v, Lin) and isinstance(y.segs[0][1], Lin):
                            return Arr([(y.segs[0][0], v.scale(x.k) + y.segs[0][1])])
                    return UNK
            if isinstance(a, ColArr) and isinstance(b, ColArr):
                f = lambda x, y: x + y if isinstance(x, Lin) and isinstance(y, Lin) else None if x is None and y is None else UNK
                return ColArr({r: f(a.regs[r], b.regs[r]) for r in a.regs}, f(a.slack, b.slack))
            return UNK
        if op == "FloorDiv" and isinstance(a, Lin) and isinstance(b, int) and all(v % b == 0 for k, v in a.t) and a.c % b == 0:
            return Lin(a.c // b, {k: v // b for k, v in a.t})
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return {"FloorDiv": lambda: a // b, "Div": lambda: a / b, "Mod": lambda: a % b, "Pow": lambda: a ** b}[op]()
            except Exception:
                return UNK
        return UNK

    # ---- attributes, items
    def attr(self, o, n):
        if isinstance(o, tuple) and len(o) == 2 and o[0] == "mod":
            r = self.prog.resolve(o[1], n)
            return UNK if r is None else Ext(r[1]) if r[0] == "ext" else r
        if isinstance(o, Ext):
            return Ext(o.path + "." + n, o.tag)
        if isinstance(o, Mat):
            if n == "shape":
                return tuple(plain(x) for x in o.shape)
            if n == "nnz" or n == "size":
                return plain(o.data.n)
            if n in ("row", "col"):
                if o.fmt != "coo":
                    raise Wrong(f"a matrix in {o.fmt} form has no attribute {n}")
                return getattr(o, n)
            if n == "data":
                return o.data if o.fmt == "coo" else ("spdata", o)
            if n in ("indptr", "indices"):
                if o.fmt == "coo":
                    raise Wrong(f"a matrix in coo form has no attribute {n}")
                return (n, o)
            if n == "T":
                return Mat(o.col, o.row, o.data, o.shape[::-1], {"csr": "csc", "csc": "csr"}.get(o.fmt, "coo"), o.comp)
        if isinstance(o, Stack2) and n == "T":
            return Stack2(o.rows, not o.t)
        if isinstance(o, (Arr, ColArr)) and n == "size":
            return plain(o.n) if isinstance(o, Arr) else UNK
        if isinstance(o, Arr) and n == "shape":
            return (plain(o.n),)
        if isinstance(o, (Arr, ColArr)) and n == "T":
            return o
        if isinstance(o, U):
            return UNK
        return ("method", o, n)

    def getitem(self, o, k):
        if isinstance(o, U) or isinstance(k, U):
            return UNK
        if isinstance(o, dict):
            return o.get(k, UNK) if isinstance(k, (str, int)) else UNK
        if isinstance(o, (tuple, list)) and not (o and o[0] in ("indptr", "indices", "spdata", "method", "builtin", "local")):
            try:
                return o[k]
            except Exception:
                return UNK
        if isinstance(o, tuple) and o and o[0] == "indptr" and isinstance(k, slice):
            if (k.start, k.stop, k.step) == (None, -1, None):
                return ("ptrb", o[1])
            if (k.start, k.stop, k.step) == (1, None, None):
                return ("ptre", o[1])
            return ("ptr?", o[1])
        if isinstance(o, Ext):
            return Ext(f"{o.path}[{k!r}]", o.tag)
        if isinstance(o, Arr) and not o.ilv:
            if isinstance(k, tuple) and k and k[0] == "perm":
                if o.perm is not None:
                    return UNK
                return Arr(o.segs, "np", k[1])
            if isinstance(k, slice) and k.step is None:
                if o.perm:
                    return UNK
                a = lin(k.start) if k.start is not None else Lin(0)
                b = lin(k.stop) if k.stop is not None else o.n
                if isinstance(plain(a), int) and plain(a) < 0:
                    a = o.n + a
                if isinstance(plain(b), int) and plain(b) < 0:
                    b = o.n + b
                head, rest = self.split(o.segs, a)
                mid, tail = self.split(rest, b - a)
                return Arr(mid, o.kind)
        c = self.colarr(o)
        if c is not None:
            s = self.colset(k)
            if s is not None:
                return Gather(c, s)
            if plain(k) == -1 and c.slack is not None:
                return c.slack
        return UNK

    # ---- calls
    def np(self, x, kind="np"):
        if isinstance(x, Arr):
            return Arr(x.segs, kind, x.perm, x.ilv)
        if isinstance(x, (list, tuple)):
            if any(isinstance(e, (list, tuple, Arr, Mat, U)) and not isinstance(e, U) for e in x):
                raise Giveup("nested sequence as vector")
            return Arr([(1, plain_elem(e)) for e in x], kind)
        if isinstance(x, U):
            raise Giveup("unknown vector")
        raise Giveup(f"vector {type(x).__name__}")

    def callexpr(self, e, env, mod):
        f = self.eval(e.func, env, mod)
        args, kwargs, star = [], {}, False
        for a in e.args:
            v = self.eval(a.value if isinstance(a, ast.Starred) else a, env, mod)
            if isinstance(a, ast.Starred):
                if isinstance(v, (tuple, list)):
                    args += list(v)
                else:
                    star = True
            else:
                args.append(v)
        for k in e.keywords:
            v = self.eval(k.value, env, mod)
            if k.arg is None:
                if isinstance(v, dict):
                    kwargs.update(v)
                else:
                    star = True
            else:
                kwargs[k.arg] = v
        if star:
            return UNK
        if isinstance(f, U):
            return UNK
        if isinstance(f, tuple) and f and f[0] == "fn":
            return self.call(f[1], args, kwargs)
        if isinstance(f, tuple) and f and f[0] == "local":
            node, env2, mod2 = f[1], dict(f[2]), f[3]
            a = node.args
            names = [x.arg for x in a.args]
            for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
                env2[n] = self.eval(d, f[2], mod2)
            env2.update(dict(zip(names, args)))
            env2.update(kwargs)
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env2, mod2)
            try:
                self.block(node.body, env2, mod2)
            except Ret as r:
                return r.v
            return None
        if isinstance(f, tuple) and f and f[0] == "builtin":
            return self.builtin(f[1], args, kwargs, env)
        if isinstance(f, tuple) and f and f[0] == "method":
            return self.method(f[1], f[2], args, kwargs, e.func, env, mod)
        if isinstance(f, Ext):
            return self.ext(f, args, kwargs)
        return UNK

    def length(self, x):
        if isinstance(x, Arr):
            return plain(x.n)
        if isinstance(x, (list, tuple, dict, str)):
            return len(x)
        if isinstance(x, ColSet):
            return UNK
        if isinstance(x, ColArr):
            return plain(self.nv + Lin(1 if x.slack is not None else 0))
        return UNK

    def builtin(self, n, a, k, env):
        if n == "len":
            return self.length(a[0])
        if n == "range":
            if len(a) == 1:
                x = plain(a[0])
                if isinstance(x, int):
                    return list(range(x))
                return Arr([(lin(x), sym(("arange",)))], "list") if isinstance(x, Lin) else UNK
            return UNK
        if n in ("list", "tuple"):
            if not a:
                return [] if n == "list" else ()
            if isinstance(a[0], Arr):
                return Arr(a[0].segs, "list", a[0].perm, a[0].ilv)
            if isinstance(a[0], tuple) and a[0] and a[0][0] in ("zipdict", "zipped"):
                return UNK
            if isinstance(a[0], (list, tuple, dict)):
                return list(a[0]) if n == "list" else tuple(a[0])
            return UNK
        if n == "dict":
            if a and isinstance(a[0], tuple) and a[0] and a[0][0] == "zipped":
                return ("zipdict",) + a[0][1:]
            return dict(k) if not a else dict(a[0]) if isinstance(a[0], dict) else UNK
        if n == "zip":
            if all(isinstance(x, (list, tuple)) and not (x and x[0] in ("indptr",)) for x in a):
                return [tuple(x) for x in zip(*a)]
            return ("zipped",) + tuple(a)
        if n == "enumerate" and isinstance(a[0], (list, tuple)):
            return list(enumerate(a[0]))
        if n in ("max", "min"):
            xs = a if len(a) > 1 else list(a[0]) if isinstance(a[0], (list, tuple)) else None
            if xs is None:
                return UNK
            if not xs:
                return k.get("default", UNK)
            best = plain(xs[0])
            for x in xs[1:]:
                x = plain(x)
                t = self.compare("GtE" if n == "max" else "LtE", best, x)
                if t is UNK:
                    return UNK
                best = best if t else x
            return best
        if n == "sum" and isinstance(a[0], (list, tuple)):
            r = a[1] if len(a) > 1 else 0
            for x in a[0]:
                r = self.binop("Add", r, x)
            return r
        if n in ("all", "any") and isinstance(a[0], (list, tuple)):
            ts = [self.truth(x) for x in a[0]]
            if n == "all":
                return False if False in ts else UNK if UNK in ts else True
            return True if True in ts else UNK if UNK in ts else False
        if n == "isinstance":
            return self.isinst(a[0], a[1])
        if n in ("int", "float", "abs", "round") and a and isinstance(plain(a[0]), (int, Lin)) and n in ("int", "float"):
            return a[0]
        if n == "bool":
            return self.truth(a[0])
        if n == "type":
            return UNK
        if n == "slice":
            return slice(*[plain(x) for x in a])
        if n == "print":
            return None
        if n == "hasattr":
            return UNK
        if n == "sorted" or n == "set":
            return UNK
        if n == "locals":
            return dict(env)
        return UNK

    def isinst(self, x, t):
        ts = t if isinstance(t, tuple) and not (t and t[0] in ("builtin", "cls", "fn")) else (t,)
        res = False
        for y in ts:
            if isinstance(y, Ext):
                last = y.path.rsplit(".", 1)[-1]
                if isinstance(x, Mat):
                    if last in ("coo_array", "coo_matrix", "csr_array", "csc_array", "csr_matrix", "csc_matrix"):
                        if last.startswith(x.fmt):
                            return True
                        continue
                    if last in ("sparray", "spmatrix"):
                        return True
                if isinstance(x, U):
                    res = UNK
                continue
            if isinstance(y, tuple) and y and y[0] == "builtin":
                if isinstance(x, Mat):
                    continue
                m = {"int": int, "float": float, "str": str, "dict": dict, "list": list, "tuple": tuple, "bool": bool}.get(y[1])
                if m and isinstance(x, (int, float, str, dict, list, tuple, bool, type(None))):
                    if isinstance(x, m):
                        return True
                    continue
                if isinstance(x, Arr) and y[1] == "list":
                    if x.kind == "list":
                        return True
                    continue
            res = UNK
        return res

    def method(self, o, n, a, k, fnode, env, mod):
        if isinstance(o, Mat):
            if n == "copy":
                return o.copy()
            if n in ("tocsr", "tocsc", "tocoo", "asformat"):
                fmt = n[2:] if n != "asformat" else a[0] if a else k.get("format", "coo")
                if fmt is None:
                    return o
                o.batches()
                m = o.copy()
                m.fmt = fmt
                return m
            if n == "transpose":
                return self.attr(o, "T")
            if n == "reshape":
                sh = a[0] if len(a) == 1 and isinstance(a[0], tuple) else tuple(a)
                # only the number of rows changes: the row numbers are kept
                if len(sh) != 2 or lin(sh[1]) != o.shape[1]:
                    if len(sh) == 2 and not o.data.segs:
                        m = o.copy(); m.shape = tuple(map(lin, sh))
                        return m
                    return UNK
                m = o.copy()
                m.shape = tuple(map(lin, sh))
                return m
            if n == "resize":
                sh = a[0] if len(a) == 1 and isinstance(a[0], tuple) else tuple(a)
                o.shape = tuple(map(lin, sh))
                return None
            if n in ("toarray", "todense"):
                return ("dense", o)
            if n == "astype":
                return o
            if n in ("getnnz", "count_nonzero"):
                return plain(o.data.n) if n == "getnnz" else UNK
            if n in ("sum_duplicates",):
                return None
            if n == "eliminate_zeros":
                o.data = UNK
                raise Giveup("explicit zeros dropped")
            return UNK
        if isinstance(o, tuple) and o and o[0] == "colmat":
            return o if n in ("toarray", "todense", "tocsr", "tocoo", "copy") else o[1] if n in ("ravel", "flatten", "squeeze") else UNK
        if isinstance(o, tuple) and o and o[0] == "dense" and n in ("ravel", "flatten", "squeeze") or isinstance(o, tuple) and o and o[0] == "dense" and n == "reshape":
            m = o[1]
            if m.comp in self.VECS or not m.data.segs:
                if m.shape[1] not in (self.nv, self.nv + Lin(1)):
                    return UNK
                regs = {r: Lin(0) for r in self.regions}
                for cnt, row, col, data in m.batches():
                    s = self.colset(Arr([(cnt, col)]))
                    if s is None or row != Lin(0):
                        return UNK
                    for r in s.regs:
                        regs[r] = regs[r] + data if isinstance(data, Lin) else UNK
                return ColArr(regs, Lin(0) if m.shape[1] != self.nv else None)
            return UNK
        if isinstance(o, Stack2) and n in ("ravel", "flatten") and o.t:
            return Arr([], ilv=[self.np(x) for x in o.rows])
        if isinstance(o, Stack2) and n == "ravel" and not o.t and (a and a[0] == "F" or k.get("order") == "F"):
            return Arr([], ilv=[self.np(x) for x in o.rows])
        if isinstance(o, dict):
            if n == "copy":
                return dict(o)
            if n == "get":
                return o.get(a[0], a[1] if len(a) > 1 else None) if "?" not in o and isinstance(a[0], (str, int)) else UNK
            if n == "items":
                return [(x, y) for x, y in o.items()] if "?" not in o else UNK
            if n == "keys":
                return list(o) if "?" not in o else UNK
            if n == "values":
                return list(o.values()) if "?" not in o else UNK
            if n == "pop":
                return o.pop(a[0], a[1] if len(a) > 1 else UNK) if isinstance(a[0], (str, int)) else UNK
            if n == "update":
                if a and isinstance(a[0], dict):
                    o.update(a[0])
                elif a:
                    o["?"] = UNK
                o.update(k)
                return None
            return UNK
        if isinstance(o, list) or isinstance(o, Arr) and o.kind == "list":
            if n in ("append", "extend"):
                add = [a[0]] if n == "append" else a[0]
                if isinstance(o, list) and isinstance(add, (list, tuple)):
                    o.extend(add)
                    return None
                new = UNK if isinstance(add, U) else Arr(self.np(o).segs + self.np(add).segs, "list")
                self.rebind(fnode.value, new, env, mod, o)
                return None
            if n == "copy":
                return list(o) if isinstance(o, list) else Arr(o.segs, "list", o.perm, o.ilv)
        if isinstance(o, Arr):
            if n in ("copy", "astype", "ravel", "flatten", "tolist"):
                return Arr(o.segs, "list" if n == "tolist" else "np", o.perm, o.ilv)
            if n == "fill":
                self.rebind(fnode.value, o.map(lambda e: plain_elem(a[0])), env, mod, o)
                return None
        if isinstance(o, ColArr) and n in ("copy", "astype", "ravel", "flatten", "tolist"):
            return o
        if isinstance(o, str):
            return UNK
        return UNK

    def ext(self, f, a, k):
        p = f.path
        last = p.rsplit(".", 1)[-1]
        root = p.split(".")[0]
        if root in ("numpy", "scipy"):
            for x in list(a) + list(k.values()):
                if isinstance(x, U) and last not in ("isclose",):
                    return UNK
            return self.numpy(last, a, k, p)
        self.calls.append((p, a, k))
        if last == "Env" or last == "Task":
            return Ext(last, "obj")
        if p.endswith(".getsolution"):
            return tuple(self.solution(n) for n in ("problemsta", "solutionsta", "skc", "skx", "skn", "xc", "xx", "y", "slc", "suc", "slx", "sux", "snx"))
        if p.endswith((".getprimalobj", ".getdualobj", ".getxx", ".gety")):
            return self.solution({"getprimalobj": "primalobj", "getdualobj": "dualobj", "getxx": "xx", "gety": "y"}[last])
        return Ext(p + "()", "res")

    def solution(self, n):
        if n in ("xx", "y"):
            size = next((a for p, a, k in reversed(self.calls) if p.endswith("inputdata") and len(a) > 2), None)
            if size is not None:
                return Arr([(lin(size[1 if n == "xx" else 0]), sym(("y", n, Lin(0))))])
        return Ext("solution." + n, "sol")

    def numpy(self, n, a, k, p):
        if n in ("hstack", "concatenate") or n == "append":
            xs = a[0] if n != "append" else a[:2]
            if isinstance(xs, Arr):
                return Arr(xs.segs, "np", xs.perm, xs.ilv)
            if not isinstance(xs, (tuple, list)):
                return UNK
            if n == "append" and not isinstance(a[1], (Arr, list, tuple)):
                xs = [a[0], [a[1]]]
            xs = [[x] if isinstance(plain(x), (int, float, Lin, Ext)) else x for x in xs]
            if any(isinstance(x, (ColArr, U)) for x in xs):
                cs = [self.colarr(x) for x in xs]
                if len(xs) == 2 and cs[0] is not None and cs[0].slack is None and isinstance(xs[1], (Arr, list)):
                    t = self.np(xs[1])
                    if len(t.segs) == 1 and t.segs[0][0] == Lin(1):
                        return ColArr(dict(cs[0].regs), t.segs[0][1])
                    if not t.segs:
                        return cs[0]
                return UNK
            arrs = [self.np(x) for x in xs]
            arrs = [x for x in arrs if x.segs or x.ilv]
            if any(x.perm or x.ilv for x in arrs):
                return arrs[0] if len(arrs) == 1 else UNK
            return Arr([s for x in arrs for s in x.segs])
        if n == "repeat":
            x, m = a[0], plain(a[1] if len(a) > 1 else k.get("repeats"))
            if isinstance(plain(x), (int, float, Lin, Ext)):
                return Arr([(lin(m), plain_elem(x))])
            x = self.np(x)
            if isinstance(m, int) and m >= 1 and not x.perm and not x.ilv and any(not isconst(e) for _, e in x.segs):
                return Arr([], ilv=[x] * m) if m > 1 else x
            if all(isconst(e) and plain(c) == 1 for c, e in x.segs):
                return Arr([(lin(m), e) for c, e in x.segs])
            if all(isconst(e) for c, e in x.segs) and isinstance(m, int):
                return Arr([(c.scale(m), e) for c, e in x.segs])
            return UNK
        if n == "tile":
            x, m = self.np(a[0]), plain(a[1] if len(a) > 1 else k.get("reps"))
            return Arr(x.segs * m) if isinstance(m, int) and not x.perm and not x.ilv else UNK
        if n in ("broadcast_to", "full"):
            x, m = (a[0], a[1] if len(a) > 1 else k.get("shape")) if n == "broadcast_to" else (a[1] if len(a) > 1 else k.get("fill_value"), a[0])
            if isinstance(m, tuple) and len(m) == 1:
                m = m[0]
            if isinstance(m, tuple):
                return UNK
            return Arr([(lin(m), plain_elem(x))])
        if n in ("zeros", "ones"):
            m = a[0] if a else k.get("shape")
            if isinstance(m, tuple) and len(m) == 1:
                m = m[0]
            if isinstance(m, tuple):
                return UNK
            return Arr([(lin(m), Lin(0 if n == "zeros" else 1))])
        if n in ("zeros_like", "ones_like", "full_like"):
            v = Lin(0) if n == "zeros_like" else Lin(1) if n == "ones_like" else plain_elem(a[1])
            if isinstance(a[0], ColArr):
                return ColArr({r: v for r in a[0].regs}, None if a[0].slack is None else v)
            return Arr([(self.np(a[0]).n, v)])
        if n == "arange":
            if len(a) == 1:
                return Arr([(lin(a[0]), sym(("arange",)))])
            if len(a) == 2:
                return Arr([(lin(a[1]) - lin(a[0]), sym(("arange",)) + lin(a[0]))])
            return UNK
        if n in ("asarray", "array", "ascontiguousarray"):
            x = a[0]
            if isinstance(x, (ColArr, Gather, ColSet)):
                return x
            return self.np(x)
        if n in ("negative",):
            return self.scale(a[0], -1)
        if n in ("setdiff1d", "intersect1d", "union1d"):
            x, y = self.colset(a[0]), self.colset(a[1])
            if x is None or y is None:
                return UNK
            s = x.regs - y.regs if n == "setdiff1d" else x.regs & y.regs if n == "intersect1d" else x.regs | y.regs
            return ColSet(s, x.of if s == x.regs else None)
        if n == "unique":
            x = self.np(a[0])
            if k.get("return_inverse") is True and set(k) == {"return_inverse"}:
                if not x.segs:
                    return (Arr([]), Arr([]))
                at = atoms(x.segs[0][1]) if len(x.segs) == 1 else set()
                if len(at) == 1 and x.segs[0][1] == sym(next(iter(at))) and next(iter(at))[0] == "row":
                    c = next(iter(at))[1]
                    return (Arr([(sym("filled rows(" + c + ")"), sym(("rows", c)))]), Arr(x.segs))
                if len(x.segs) == 1 and x.segs[0][1] == Lin(0):
                    return (Arr([(1, Lin(0))]), Arr(x.segs))
            c = self.colset(x)
            return ColSet(c.regs, None) if c is not None and not k else UNK
        if n == "lexsort" or n == "argsort":
            self.nperm += 1
            return ("perm", self.nperm)
        if n in ("vstack", "bmat") and "sparse" not in p:
            xs = a[0]
            if isinstance(xs, (tuple, list)) and all(isinstance(x, (Arr, list)) for x in xs):
                return Stack2([self.np(x) for x in xs])
            return UNK
        if n in ("column_stack",):
            xs = a[0]
            return Stack2([self.np(x) for x in xs], True) if isinstance(xs, (tuple, list)) else UNK
        if n == "ravel":
            return self.method(a[0], "ravel", [], {}, None, None, None) if not isinstance(a[0], (list,)) else self.np(a[0])
        if n == "vstack":
            xs = a[0]
            if not isinstance(xs, (tuple, list)) or not all(isinstance(x, Mat) for x in xs):
                return UNK
            fmt = a[1] if len(a) > 1 else k.get("format", None) or "coo"
            rows = Lin()
            R, Cc, D = [], [], []
            widths = {x.shape[1] for x in xs}
            if len(widths) > 1:
                raise Wrong("matrices of different width are stacked")
            for x in xs:
                for cnt, r, c, d in x.batches():
                    R.append((cnt, r + rows)); Cc.append((cnt, c)); D.append((cnt, d))
                rows = rows + x.shape[0]
            return Mat(Arr(R), Arr(Cc), Arr(D), (rows, next(iter(widths))), fmt)
        if n in ("coo_array", "coo_matrix", "csr_array", "csc_array", "csr_matrix", "csc_matrix"):
            x = a[0]
            fmt = n[:3]
            sh = k.get("shape", a[1] if len(a) > 1 else None)
            if isinstance(x, Mat):
                m = x.copy(); m.fmt = fmt
                return m
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple):
                d, (r, c) = x
                if isinstance(sh, tuple) and len(sh) == 2:
                    return Mat(self.np(r), self.np(c), self.np(d), sh, fmt) if not isinstance(d, ColArr) else ("colmat", d)
                return UNK
            if isinstance(x, tuple) and len(x) == 2 and all(isinstance(plain(y), (int, Lin)) for y in x):
                z = Arr([])
                return Mat(z, z, z, x, fmt)
            return UNK
        if n == "issparse":
            return isinstance(a[0], Mat)
        if n in ("isclose", "where", "flatnonzero", "nonzero", "any", "all", "sum", "isin"):
            return UNK
        return UNK


def lin_mul(n, y):
    if isinstance(y, Lin) and n.const:
        return y.scale(n.c)
    if isinstance(y, (int, float)):
        return n.scale(y)
    raise Giveup("product of sizes")


def plain_elem(v):
    """content of one entry"""
    v = plain(v)
    if isinstance(v, bool):
        return Lin(int(v))
    if isinstance(v, (int, float)):
        return Lin(v)
    if isinstance(v, (Lin, Ext, U)):
        return v
    if isinstance(v, Arr) and len(v.segs) == 1 and plain(v.segs[0][0]) == 1:
        return v.segs[0][1]
    return UNK
