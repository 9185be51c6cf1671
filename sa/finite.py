"""Abstract interpreter over the equality-pattern domain, for predicates over index arrays.

Integers are linear forms over symbols; two symbols of one sort are different, a symbol has a lower bound, and nothing
else is known.  An array is a map from abstract positions to values; a position marked `many` stands for one or more
array positions with the same pattern.  What the pattern does not determine is branched on (every branch is
realisable); results are compared with the rule on each branch."""
import ast

from .model import Func


class Und(Exception):
    """the construct is outside the domain"""


class Raised(Exception):
    pass


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class Sym:
    __slots__ = ("name", "sort", "lo")

    def __init__(self, name, sort, lo=0):
        self.name, self.sort, self.lo = name, sort, lo

    def key(self):
        return (self.name, self.sort)

    def __eq__(self, o):
        return isinstance(o, Sym) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return str(self.name)


class Lin:
    __slots__ = ("c", "k")

    def __init__(self, c=(), k=0):
        self.c = tuple(sorted(((s, n) for s, n in dict(c).items() if n), key=lambda t: repr(t)))
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.k == o.k

    def __hash__(self):
        return hash((self.c, self.k))

    def __repr__(self):
        return "+".join([f"{n if n != 1 else ''}{s!r}" for s, n in self.c] + ([str(self.k)] if self.k or not self.c else []))

    def lo(self):
        """lower bound or None"""
        if any(n < 0 for _, n in self.c):
            return None
        return self.k + sum(n * s.lo for s, n in self.c)


def sym(name, sort, lo=0):
    return Lin({Sym(name, sort, lo): 1})


def num(x):
    return isinstance(x, (bool, int, float)) and not isinstance(x, Lin)


def lin(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, bool):
        return Lin((), int(x))
    if isinstance(x, (int, float)):
        return Lin((), x)
    raise Und(f"not a number: {x!r}")


def norm(l):
    return l.k if isinstance(l, Lin) and not l.c else l


class Pos:
    """abstract position of an axis"""
    __slots__ = ("name", "many")

    def __init__(self, name, many=False):
        self.name, self.many = name, many

    def __eq__(self, o):
        return isinstance(o, Pos) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"<{self.name}>"


class Ix:
    """the index of a position of an axis, as a value"""

    def __init__(self, pos):
        self.pos = pos

    def __eq__(self, o):
        return isinstance(o, Ix) and o.pos == self.pos

    def __hash__(self):
        return hash(self.pos)

    def __repr__(self):
        return f"ix{self.pos!r}"


class Arr:
    def __init__(self, axes, data):
        self.axes = tuple(tuple(a) for a in axes)
        self.data = dict(data)

    @staticmethod
    def of(values, name="r"):
        ax = tuple(Pos((name, i)) for i in range(len(values)))
        return Arr((ax,), {(p,): v for p, v in zip(ax, values)})

    def rows(self):
        for p in self.axes[0]:
            yield p, self.sub(p)

    def sub(self, p):
        if len(self.axes) == 1:
            return self.data[(p,)]
        return Arr(self.axes[1:], {k[1:]: v for k, v in self.data.items() if k[0] == p})

    def map(self, f):
        return Arr(self.axes, {k: f(v) for k, v in self.data.items()})

    def __repr__(self):
        return f"Arr{[len(a) for a in self.axes]}{list(self.data.values())[:6]}"


class Native:
    """host object: override what the analysed code may do with it"""
    def attr(self, R, name):
        raise Und(f"attribute {name} of {type(self).__name__}")

    def item(self, R, i):
        raise Und(f"subscript of {type(self).__name__}")

    def setitem(self, R, i, v):
        raise Und(f"item assignment on {type(self).__name__}")

    def setattr(self, R, name, v):
        raise Und(f"attribute assignment on {type(self).__name__}")

    def call(self, R, a, k):
        raise Und(f"call of {type(self).__name__}")

    def elements(self, R):
        raise Und(f"iteration over {type(self).__name__}")

    def contains(self, R, x):
        raise Und(f"membership in {type(self).__name__}")


class Match(Native):
    """a match of a pattern in a known text"""
    def __init__(self, m):
        self.m = m

    def attr(self, R, name):
        if name in ("group", "groups", "start", "end", "span", "groupdict"):
            return Hook(lambda R, *a: getattr(self.m, name)(*a))
        raise Und(f"attribute {name} of a match")

    def item(self, R, i):
        return self.m[i]


class Pattern(Native):
    def __init__(self, text, flags=()):
        self.text = text

    def attr(self, R, name):
        return Hook(lambda R, *a, **k: matched(R, name, [self.text] + list(a), k))


def matched(R, n, a, k):
    """regular expressions on texts that are known"""
    import re
    if a and isinstance(a[0], Pattern):
        a = [a[0].text] + list(a[1:])
    if n == "sub" and len(a) == 3 and not k and isinstance(a[0], str) and isinstance(a[2], str) and isinstance(a[1], (Closure, Func, Hook)):
        return re.sub(a[0], lambda m: R.call(a[1], [Match(m)], {}), a[2])
    if k or not all(isinstance(x, (str, int)) for x in a) or not isinstance(a[0], str):
        raise Und(f"re.{n}")
    if n == "compile" and len(a) == 1:
        return Pattern(a[0])
    if n in ("fullmatch", "match", "search") and len(a) == 2:
        m = getattr(re, n)(*a)
        return None if m is None else Match(m)
    if n in ("findall", "split", "sub") and all(isinstance(x, str) for x in a):
        return getattr(re, n)(*a)
    if n == "escape" and len(a) == 1:
        return re.escape(a[0])
    raise Und(f"re.{n}")


class Hook(Native):
    def __init__(self, f):
        self.f = f

    def call(self, R, a, k):
        return self.f(R, *a, **k)


class T:
    """uninterpreted term"""
    __slots__ = ("op", "args", "_h")

    def __init__(self, op, *args):
        self.op, self.args = op, args
        self._h = hash((op, args))

    def __eq__(self, o):
        return isinstance(o, T) and self._h == o._h and self.op == o.op and self.args == o.args

    def __hash__(self):
        return self._h

    def __repr__(self):
        return f"{self.op}({', '.join(map(repr, self.args))})" if self.args else str(self.op)

    def mentions(self, pred):
        return any(a.mentions(pred) if isinstance(a, T) else _mention(a, pred) for a in self.args)


def _mention(a, pred):
    if isinstance(a, T):
        return a.mentions(pred)
    if isinstance(a, (tuple, list)):
        return any(_mention(x, pred) for x in a)
    if isinstance(a, FSet):
        return any(_mention(x, pred) for x in a.items)
    if isinstance(a, Arr):
        return any(_mention(x, pred) for x in a.data.values())
    return pred(a)


class ClsRef:
    def __init__(self, cls):
        self.cls = cls

    def __eq__(self, o):
        return isinstance(o, ClsRef) and o.cls is self.cls

    def __hash__(self):
        return id(self.cls)

    def __repr__(self):
        return self.cls.name


class Endless:
    """repeat, count"""
    def __init__(self, start, step):
        self.start, self.step = start, step

    def first(self, m):
        return [self.start + i * self.step if self.step else self.start for i in range(m)]


class Multi:
    """Counter"""
    def __init__(self, R, items):
        self.pairs = []
        for x in items:
            for p in self.pairs:
                if R.eq(p[0], x):
                    p[1] += 1
                    break
            else:
                self.pairs.append([x, 1])


class DDict(dict):
    """defaultdict"""
    def __init__(self, factory, items=()):
        super().__init__(items)
        self.factory = factory

    __hash__ = None


class FSet:
    frozen = False

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return f"set{self.items}"


class Ext:
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return self.path


class Bound:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Closure:
    def __init__(self, node, env, mod):
        self.node, self.env, self.mod = node, env, mod


# keywords that are understood; a call with another one is not interpreted
ANYARRAY = {"dtype", "copy", "order"}
REDUCE = {"axis", "dtype"}
OPERATORS = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "floordiv": "//", "mod": "%", "and_": "&", "or_": "|", "xor": "^"}
KEYWORDS = {"sorted": {"key", "reverse"}, "sort": {"key", "reverse"}, "enumerate": {"start"}, "zip": {"strict"}, "max": {"key", "default", "axis"}, "min": {"key", "default", "axis"},
            "any": REDUCE, "all": REDUCE, "sum": REDUCE, "amax": REDUCE, "amin": REDUCE, "count_nonzero": REDUCE, "prod": REDUCE, "alltrue": REDUCE, "sometrue": REDUCE,
            "take": {"axis"}, "unique": {"axis", "return_index", "return_inverse", "return_counts"}, "product": {"repeat"}, "asarray": {"dtype"},
            "isin": {"assume_unique"}, "in1d": {"assume_unique"}, "array_equal": {"equal_nan"}, "zeros": {"dtype", "order"}}


class Run:
    """one path: decisions are replayed from `script`, further ones are appended"""
    LIMIT = 20000

    def __init__(self, prog, script=(), hooks=None):
        self.prog, self.script, self.hooks = prog, list(script), hooks or {}
        self.memo, self.trace, self.steps = {}, [], 0
        self.funcs = set()

    # -- decisions -------------------------------------------------------------
    def choose(self, key, opts):
        opts = list(opts)
        if key in self.memo:
            return self.memo[key]
        if len(opts) == 1:
            self.memo[key] = opts[0]
            return opts[0]
        i = len(self.trace)
        n = self.script[i] if i < len(self.script) else 0
        self.trace.append((key, opts, n))
        self.memo[key] = opts[n]
        return opts[n]

    def boolean(self, *key):
        return self.choose(key, (False, True))

    # -- scalars ------------------------------------------------------------------
    def eq(self, a, b):
        if hasattr(a, "equals"):
            return a.equals(self, b)
        if hasattr(b, "equals"):
            return b.equals(self, a)
        if isinstance(a, Ix) or isinstance(b, Ix):
            if isinstance(a, Ix) and isinstance(b, Ix):
                if a.pos != b.pos:
                    return False
                if not a.pos.many:
                    return True
            raise Und("comparison of positions")
        if isinstance(a, (str, type(None), FSet)) or isinstance(b, (str, type(None), FSet)):
            if isinstance(a, FSet) and isinstance(b, FSet):
                return all(self.inset(x, b) for x in a.items) and all(self.inset(x, a) for x in b.items)
            if (isinstance(a, str) or a is None) and (isinstance(b, str) or b is None):
                return a == b
            if isinstance(a, FSet) or isinstance(b, FSet):
                if isinstance(a, (list, tuple, dict, str, int, float, type(None))) or isinstance(b, (list, tuple, dict, str, int, float, type(None))):
                    return False
                raise Und("comparison of a set")
            return False
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return type(a) is type(b) and len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, (Ext, ClsRef)) or isinstance(b, (Ext, ClsRef)):
            if isinstance(a, Ext) and isinstance(b, Ext):
                return a.path == b.path
            if type(a) is type(b):
                return a == b
            raise Und("comparison of classes")
        if isinstance(a, Multi) or isinstance(b, Multi):
            if not (isinstance(a, Multi) and isinstance(b, Multi)):
                return False
            return len(a.pairs) == len(b.pairs) and all(any(self.eq(x, y) and n == m for y, m in b.pairs) for x, n in a.pairs)
        if isinstance(a, T) or isinstance(b, T):
            if a == b:
                return True
            if isinstance(a, T) and isinstance(b, T) and a.op == b.op == "hash":
                return self.eq_frozen(a.args, b.args)
            if self.free_terms:
                return False
            return self.boolean("same", frozenset((repr(a), repr(b))))
        if isinstance(a, Host) or isinstance(b, Host):
            h, o = (a, b) if isinstance(a, Host) else (b, a)
            f = h.method(self, "__eq__")
            if f is not None:
                return self.truth(f.call(self, [o], {}))
        if isinstance(a, Native) or isinstance(b, Native):
            if a is b:
                return True
            raise Und("comparison of objects")
        d = self.arith("-", a, b)
        if num(d):
            return d == 0
        return self.zero(d)

    def eq_frozen(self, a, b):
        if isinstance(a, T) and isinstance(b, T):
            return a == b or (a.op == b.op and self.eq_frozen(a.args, b.args))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.eq_frozen(x, y) for x, y in zip(a, b))
        if (isinstance(a, Lin) or num(a)) and (isinstance(b, Lin) or num(b)):
            return self.eq(a, b)
        return a == b

    def freeze(self, x):
        if isinstance(x, (list, tuple)):
            return tuple(self.freeze(y) for y in x)
        if isinstance(x, Arr):
            return tuple(self.freeze(y) for y in x.data.values())
        if isinstance(x, Host):
            return self.hash(x)
        if isinstance(x, FSet):
            return ("set",) + tuple(sorted((self.freeze(y) for y in x.items), key=repr))
        if isinstance(x, (Bound, Closure, Func)):
            return ("f", getattr(x, "name", ""), self.freeze(x.obj) if isinstance(x, Bound) else 0)
        if isinstance(x, dict):
            return ("dict",) + tuple((self.freeze(k), self.freeze(v)) for k, v in x.items())
        if isinstance(x, slice):
            return ("slice", x.start, x.stop, x.step)
        if isinstance(x, Multi):
            return ("counter",) + tuple(sorted(((self.freeze(k), n) for k, n in x.pairs), key=repr))
        return x

    def hash(self, x):
        if isinstance(x, Host):
            f = x.method(self, "__hash__")
            if f is None:
                raise Und("hash of an object")
            return f.call(self, [], {})
        if isinstance(x, (list, dict, Multi)) or isinstance(x, FSet) and not x.frozen:
            raise Raised("TypeError: unhashable")
        return T("hash", self.freeze(x))

    def zero(self, d):
        """is the (non-constant) linear form zero"""
        c = dict(d.c)
        lo, nlo = d.lo(), Lin({s: -n for s, n in d.c}, -d.k).lo()
        if (lo is not None and lo > 0) or (nlo is not None and nlo > 0):
            return False
        if d.k == 0 and len(c) == 2:
            (s, n), (t, m) = d.c
            if n == -m and s.sort == t.sort:
                return False
        if d.k == 0 and all(s.lo > 0 for s in c) and (all(n > 0 for n in c.values()) or all(n < 0 for n in c.values())):
            return False
        neg = Lin({s: -n for s, n in d.c}, -d.k)
        key = min((d, neg), key=repr)
        return self.boolean("zero", key)

    def lt(self, a, b):
        """a < b"""
        if hasattr(a, "less"):
            return a.less(self, b, False)
        if hasattr(b, "less"):
            return b.less(self, a, True)
        if isinstance(a, Ix) or isinstance(b, Ix):
            raise Und("order of positions")
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            for x, y in zip(a, b):
                if not self.eq(x, y):
                    return self.lt(x, y)
            return len(a) < len(b)
        if isinstance(a, Host) and isinstance(b, Host):
            f = a.method(self, "__lt__")
            if f is not None:
                return self.truth(f.call(self, [b], {}))
            raise Und("order of objects")
        if isinstance(a, str) and isinstance(b, str):
            return a < b
        d = lin(self.arith("-", a, b))
        if not d.c:
            return d.k < 0
        lo = d.lo()
        if lo is not None and lo >= 0:
            return False
        neg = Lin({s: -n for s, n in d.c}, -d.k)
        nlo = neg.lo()
        if nlo is not None and nlo > 0:
            return True
        if len(d.c) == 1:
            (s, n), = d.c
            # a symbol against a constant
            return self.boolean("lt0", d)
        if any(n < 0 for _, n in lin(a).c) or any(n < 0 for _, n in lin(b).c):
            raise Und("order of a difference of unsigned numbers")
        if self.zero(d):
            return False
        key = min((d, neg), key=repr)
        r = self.boolean("order", key)
        return r if key == d else not r

    def arith(self, op, a, b):
        if hasattr(a, "arith"):
            return a.arith(self, op, b, False)
        if hasattr(b, "arith"):
            return b.arith(self, op, a, True)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op == "+":
            return a + b
        if isinstance(a, str) and isinstance(b, str) and op == "+":
            return a + b
        if isinstance(a, T) or isinstance(b, T):
            return T(op, self.freeze(a), self.freeze(b))
        if isinstance(a, (list, tuple)) and op == "*" and isinstance(b, int):
            return a * b
        if isinstance(a, (Ix, str, FSet, Native)) or isinstance(b, (Ix, str, FSet, Native)) or a is None or b is None:
            raise Und(f"arithmetic on {a!r}, {b!r}")
        if num(a) and num(b):
            a, b = (int(x) if isinstance(x, bool) else x for x in (a, b))
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: a // b, "%": lambda: a % b,
                        "/": lambda: a / b, "**": lambda: a ** b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}[op]()
            except ZeroDivisionError:
                raise Und("division by zero")
        x, y = lin(a), lin(b)
        if op in "+-":
            c = dict(x.c)
            for s, n in y.c:
                c[s] = c.get(s, 0) + (n if op == "+" else -n)
            return norm(Lin(c, x.k + (y.k if op == "+" else -y.k)))
        if op == "*":
            if not x.c or not y.c:
                k, z = (x.k, y) if not x.c else (y.k, x)
                return norm(Lin({s: n * k for s, n in z.c}, z.k * k))
            za, zb = not self.truth(a), not self.truth(b)
            if za or zb:
                return 0
            lo = 1 if (x.lo() or 0) > 0 and (y.lo() or 0) > 0 else 0
            s = Sym(("prod", repr(x), repr(y)), ("prod", repr(x), repr(y)), 1)
            return Lin({s: 1})
        raise Und(f"operator {op} on symbols")

    def truth(self, v):
        if isinstance(v, bool) or v is None or isinstance(v, (int, float, str)):
            return bool(v)
        if isinstance(v, Lin):
            return not self.zero(v)
        if isinstance(v, Native) and hasattr(v, "truth"):
            return v.truth(self)
        if isinstance(v, (list, tuple)):
            return len(v) > 0
        if isinstance(v, FSet):
            return len(v.items) > 0
        if isinstance(v, Multi):
            return len(v.pairs) > 0
        if isinstance(v, Arr):
            if len(v.data) == 1:
                (k, x), = v.data.items()
                if not any(p.many for p in k):
                    return self.truth(x)
            raise Und("truth value of an array")
        if isinstance(v, (Ext, Func, Closure, Bound, ClsRef)):
            return True
        if isinstance(v, T):
            return self.boolean("true", repr(v))
        if isinstance(v, dict):
            return len(v) > 0
        raise Und(f"truth value of {v!r}")

    def inset(self, x, coll):
        items = coll.items if isinstance(coll, FSet) else coll
        if isinstance(coll, Native):
            return coll.contains(self, x)
        if isinstance(coll, str) and isinstance(x, str):
            return x in coll
        if isinstance(coll, Arr):
            items = list(coll.data.values())
        if isinstance(coll, dict):
            items = list(coll)
        if isinstance(coll, Multi):
            items = [p[0] for p in coll.pairs]
        if not isinstance(items, (list, tuple)):
            raise Und("membership")
        return any(self.eq(x, y) for y in items)

    def cmp(self, op, a, b):
        if hasattr(a, "compare"):
            return a.compare(self, op, b)
        if hasattr(b, "compare"):
            return b.compare(self, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op), a)
        if op == "==":
            return self.eq(a, b)
        if op == "!=":
            return not self.eq(a, b)
        if op in ("<", ">", "<=", ">=") and isinstance(a, FSet) and isinstance(b, FSet):
            if op == "<=":
                return all(self.inset(x, b) for x in a.items)
            if op == ">=":
                return all(self.inset(x, a) for x in b.items)
            raise Und("proper subset")
        if op == "<":
            return self.lt(a, b)
        if op == ">":
            return self.lt(b, a)
        if op == "<=":
            return not self.lt(b, a)
        if op == ">=":
            return not self.lt(a, b)
        raise Und(op)

    # -- arrays -----------------------------------------------------------------------
    def asarr(self, v):
        if isinstance(v, Arr):
            return v
        if isinstance(v, (list, tuple)):
            if v and all(isinstance(x, Arr) for x in v):
                ax = tuple(Pos(("stack", i)) for i in range(len(v)))
                if any(x.axes != v[0].axes for x in v):
                    raise Und("stack of different shapes")
                return Arr((ax,) + v[0].axes, {(p,) + k: x for p, a in zip(ax, v) for k, x in a.data.items()})
            if v and all(isinstance(x, (list, tuple)) for x in v):
                return self.asarr([self.asarr(x) for x in v])
            return Arr.of(list(v), "lit")
        return v

    def align(self, a, b):
        """pairs of positions of two axes, or None when they have different lengths"""
        if a == b:
            return [(p, p) for p in a]
        if any(p.many for p in a) or any(p.many for p in b):
            if {p for p in a if p.many} == {p for p in b if p.many} and len(a) == len(b) and [p.many for p in a] == [p.many for p in b]:
                return list(zip(a, b))
            raise Und("arrays over different positions")
        if len(a) != len(b):
            return None
        return list(zip(a, b))

    def ew(self, f, a, b):
        """elementwise with broadcasting"""
        a, b = self.asarr(a), self.asarr(b)
        if not isinstance(a, Arr) and not isinstance(b, Arr):
            return f(a, b)
        if not isinstance(a, Arr):
            return b.map(lambda x: f(a, x))
        if not isinstance(b, Arr):
            return a.map(lambda x: f(x, b))
        n = max(len(a.axes), len(b.axes))
        A = [None] * (n - len(a.axes)) + list(a.axes)
        B = [None] * (n - len(b.axes)) + list(b.axes)
        axes, pairs = [], []
        for x, y in zip(A, B):
            if x is None:
                axes.append(y)
                pairs.append([(None, q, q) for q in y])
            elif y is None:
                axes.append(x)
                pairs.append([(p, None, p) for p in x])
            elif x != y and len(x) == 1 and not x[0].many:
                axes.append(y)
                pairs.append([(x[0], q, q) for q in y])
            elif x != y and len(y) == 1 and not y[0].many:
                axes.append(x)
                pairs.append([(p, y[0], p) for p in x])
            else:
                al = self.align(x, y)
                if al is None:
                    raise Raised("ValueError: operands could not be broadcast together")
                axes.append(x)
                pairs.append([(p, q, p) for p, q in al])
        data = {}

        def rec(i, ka, kb, kr):
            if i == n:
                data[tuple(kr)] = f(a.data[tuple(ka)], b.data[tuple(kb)])
                return
            for p, q, r in pairs[i]:
                rec(i + 1, ka + ([p] if p is not None else []), kb + ([q] if q is not None else []), kr + [r])
        rec(0, [], [], [])
        return Arr(axes, data)

    def length(self, ax):
        many = [p for p in ax if p.many]
        one = len(ax) - len(many)
        if not many:
            return one
        return Lin({Sym(("count", p.name), ("count", p.name), 1): 1 for p in many}, one)

    def weight(self, key):
        """number of array positions an abstract position stands for"""
        many = [p for p in key if p.many]
        if not many:
            return 1
        if len(many) > 1:
            raise Und("count over two unbounded axes")
        return Lin({Sym(("count", many[0].name), ("count", many[0].name), 1): 1})

    def reduce(self, a, axis, f):
        a = self.asarr(a)
        if not isinstance(a, Arr):
            return f([((), a)])
        if axis is None:
            return f(list(a.data.items()))
        if not isinstance(axis, int):
            raise Und("axis")
        axis %= len(a.axes)
        if len(a.axes) == 1:
            return f(list(a.data.items()))
        rest = a.axes[:axis] + a.axes[axis + 1:]
        groups = {}
        for k, v in a.data.items():
            groups.setdefault(k[:axis] + k[axis + 1:], []).append(((k[axis],), v))
        from itertools import product
        return Arr(rest, {k: f(groups.get(k, [])) for k in product(*rest)})

    def any(self, a, axis=None):
        return self.reduce(a, axis, lambda it: any([self.truth(v) for _, v in it]))

    def all(self, a, axis=None):
        return self.reduce(a, axis, lambda it: all([self.truth(v) for _, v in it]))

    def sum(self, a, axis=None):
        def f(it):
            t = 0
            for k, v in it:
                t = self.arith("+", t, self.arith("*", v, self.weight(k)))
            return t
        return self.reduce(a, axis, f)

    def extremum(self, a, axis, big):
        def f(it):
            if not it:
                raise Raised("ValueError: zero-size array")
            best = it[0][1]
            for _, v in it[1:]:
                best = self.pick(best, v, big)
            return best
        return self.reduce(a, axis, f)

    def pick(self, x, y, big):
        if isinstance(x, bool) and isinstance(y, bool):
            return (x or y) if big else (x and y)
        lt = self.lt(x, y)
        return (y if lt else x) if big else (x if lt else y)

    def distinct(self, vals):
        out = []
        for v in vals:
            if not any(self.eq(v, w) for w in out):
                out.append(v)
        return out

    def select(self, a, axis, keep):
        """restrict an axis to positions"""
        axes = a.axes[:axis] + (tuple(keep),) + a.axes[axis + 1:]
        ks = set(keep)
        return Arr(axes, {k: v for k, v in a.data.items() if k[axis] in ks})

    def drop(self, a, axis, p):
        axes = a.axes[:axis] + a.axes[axis + 1:]
        data = {k[:axis] + k[axis + 1:]: v for k, v in a.data.items() if k[axis] == p}
        return Arr(axes, data) if axes else data[()]

    def slice_axis(self, ax, lo, hi, step):
        ax = list(ax)
        if step == -1 and lo is None and hi is None:
            return ax[::-1]
        if step not in (None, 1):
            raise Und("slice step")
        if not any(p.many for p in ax):
            return ax[lo:hi]

        def cut(ax, left):
            """drop one array position from an end"""
            p = ax[0] if left else ax[-1]
            if not p.many:
                return ax[1:] if left else ax[:-1]
            block = []
            for q in (ax if left else reversed(ax)):
                if not q.many:
                    break
                block.append(q)
            # the position at the end belongs to one of the classes, and may be its only one
            q = self.choose(("end", left, tuple(b.name for b in sorted(block, key=repr))), block)
            return [x for x in ax if x != q]
        lo = 0 if lo is None else lo
        if not isinstance(lo, int) or not (hi is None or isinstance(hi, int)):
            raise Und("slice bound")
        out = list(ax)
        if lo >= 0 and (hi is None or hi < 0):
            for _ in range(lo):
                if out:
                    out = cut(out, True)
            for _ in range(-(hi or 0)):
                if out:
                    out = cut(out, False)
            return out
        if lo >= 0:
            head = out[:hi]
            if any(p.many for p in head):
                raise Und("slice inside a block of positions")
            return head[lo:]
        tail = out[lo:]
        if any(p.many for p in tail):
            raise Und("slice inside a block of positions")
        return tail[:len(tail) + hi if hi is not None and hi < 0 else None]

    def locate(self, ax, i):
        """position with a given index"""
        if isinstance(i, Ix):
            if i.pos in ax:
                return i.pos
            raise Und("index of another axis")
        if isinstance(i, bool):
            raise Und("boolean index")
        if isinstance(i, int):
            if not any(p.many for p in ax):
                if not -len(ax) <= i < len(ax):
                    raise Raised("IndexError")
                return ax[i]
            seq = ax if i >= 0 else tuple(reversed(ax))
            n = i if i >= 0 else -i - 1
            for j, p in enumerate(seq):
                if p.many:
                    block = [q for q in ax if q.many]
                    if j == n:
                        return self.choose(("end", i >= 0, tuple(b.name for b in sorted(block, key=repr))), block)
                    raise Und("index inside a block of positions")
                if j == n:
                    return p
            raise Raised("IndexError")
        raise Und(f"index {i!r}")

    def getitem(self, a, idx):
        if isinstance(a, Native):
            return a.item(self, idx)
        if isinstance(a, str) and isinstance(idx, (int, slice)) and not isinstance(idx, bool):
            try:
                return a[idx]
            except IndexError:
                raise Raised("IndexError")
        if isinstance(a, T):
            return T("item", a, self.freeze(idx))
        if isinstance(a, (list, tuple)):
            if isinstance(idx, slice):
                return a[idx]
            if isinstance(idx, Ix):
                raise Und("position index of a list")
            i = norm(idx)
            if isinstance(i, int):
                try:
                    return a[i]
                except IndexError:
                    raise Raised("IndexError")
            raise Und("list index")
        if isinstance(a, Multi):
            return next((p[1] for p in a.pairs if self.eq(p[0], idx)), 0)
        if isinstance(a, dict):
            for k, v in a.items():
                if self.eq(k, idx):
                    return v
            if isinstance(a, DDict):
                v = self.call(a.factory, [], {})
                self.setitem(a, idx, v)
                return v
            raise Raised("KeyError")
        if not isinstance(a, Arr):
            raise Und(f"subscript of {a!r}")
        if isinstance(idx, Arr) and len(idx.axes) == len(a.axes) > 1:
            out = [v for k, v in self.ew(lambda x, m: (x, self.truth(m)), a, idx).data.items() if v[1]]
            raise Und("mask over several axes")
        if isinstance(idx, Arr) and len(idx.axes) > 1 and len(a.axes) == 1 and all(isinstance(v, int) and not isinstance(v, bool) for v in idx.data.values()):
            return idx.map(lambda v: a.data[(self.locate(a.axes[0], v),)])
        items = list(idx) if isinstance(idx, tuple) else [idx]
        axis = 0
        for it in items:
            if it is Ellipsis:
                axis = len(a.axes) - (len(items) - 1 - items.index(it))
                continue
            if it is None:
                p = Pos(("new", axis))
                a = Arr(a.axes[:axis] + ((p,),) + a.axes[axis:], {k[:axis] + (p,) + k[axis:]: v for k, v in a.data.items()})
                axis += 1
                continue
            if not isinstance(a, Arr) or axis >= len(a.axes):
                raise Raised("IndexError: too many indices")
            if isinstance(it, slice):
                if it == slice(None, None, None):
                    axis += 1
                    continue
                a = self.select(a, axis, self.slice_axis(a.axes[axis], it.start, it.stop, it.step))
                axis += 1
            elif isinstance(it, (Arr, list, tuple)):
                it = self.asarr(it)
                if len(it.axes) != 1:
                    raise Und("index array")
                vals = list(it.data.items())
                if all(isinstance(v, bool) for _, v in vals) and vals or (not vals and it.axes[0] == () and a.axes[axis] == ()):
                    al = self.align(it.axes[0], a.axes[axis])
                    if al is None:
                        raise Raised("IndexError: boolean index of another length")
                    a = self.select(a, axis, [q for p, q in al if it.data[(p,)]])
                else:
                    a = self.take(a, axis, it)
                axis += 1
            else:
                a = self.drop(a, axis, self.locate(a.axes[axis], norm(it)))
        return a

    def take(self, a, axis, it):
        ps = [self.locate(a.axes[axis], norm(v)) for _, v in it.data.items()]
        if len(set(ps)) != len(ps):
            raise Und("repeated index")
        if not any(p.many for p in ps) or all(isinstance(v, Ix) for v in it.data.values()):
            return self.select(a, axis, ps)
        new = {p: Pos(("pick", p.name)) if p.many else p for p in ps}
        axes = a.axes[:axis] + (tuple(new[p] for p in ps),) + a.axes[axis + 1:]
        return Arr(axes, {k[:axis] + (new[k[axis]],) + k[axis + 1:]: v for k, v in a.data.items() if k[axis] in new})

    def setitem(self, a, idx, v):
        if isinstance(a, Native):
            return a.setitem(self, idx, v)
        if isinstance(a, list):
            i = norm(idx)
            if not isinstance(i, int):
                raise Und("list index")
            a[i] = v
            return
        if isinstance(a, Multi):
            for p in a.pairs:
                if self.eq(p[0], idx):
                    p[1] = v
                    return
            a.pairs.append([idx, v])
            return
        if isinstance(a, dict):
            for k in a:
                if self.eq(k, idx):
                    a[k] = v
                    return
            try:
                a[idx] = v
            except TypeError:
                raise Und("key")
            return
        if not isinstance(a, Arr):
            raise Und("item assignment")
        items = list(idx) if isinstance(idx, tuple) else [idx]
        sel, drop = [], []
        for n, it in enumerate(items):
            if isinstance(it, slice):
                sel.append(self.slice_axis(a.axes[n], it.start, it.stop, it.step))
            elif isinstance(it, (Arr, list)):
                it = self.asarr(it)
                if len(it.axes) != 1:
                    raise Und("index array")
                vals = [x for _, x in it.data.items()]
                if vals and all(isinstance(x, bool) for x in vals):
                    al = self.align(it.axes[0], a.axes[n])
                    if al is None:
                        raise Raised("IndexError")
                    sel.append([q for p, q in al if it.data[(p,)]])
                else:
                    sel.append([self.locate(a.axes[n], norm(x)) for x in vals])
            else:
                sel.append([self.locate(a.axes[n], norm(it))])
        if isinstance(v, (Arr, list, tuple)):
            target = Arr(tuple(tuple(s) for s, it in zip(sel, items) if isinstance(it, (slice, Arr, list))) + a.axes[len(sel):], {})
            raise Und("assignment of an array to part of an array")
        sets = [set(s) for s in sel]
        if any(p.many for s in sets for p in s) and not all(isinstance(it, (slice, Arr, Ix)) for it in items):
            raise Und("assignment inside a block of positions")
        for k in a.data:
            if all(k[n] in s for n, s in enumerate(sets)):
                a.data[k] = v

    def transpose(self, a):
        return Arr(a.axes[::-1], {k[::-1]: v for k, v in a.data.items()})

    def iterate(self, v):
        if isinstance(v, (list, tuple)) or isinstance(v, str) and self.texts:
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, FSet):
            return list(v.items)
        if isinstance(v, Native):
            return list(v.elements(self))
        if isinstance(v, Multi):
            return [p[0] for p in v.pairs]
        if isinstance(v, Arr):
            ps = self.visit(v.axes[0])
            return [v.sub(p) for p in ps]
        raise Und(f"iteration over {v!r}")

    def visit(self, ax):
        """the order in which a loop meets the abstract positions: unknown inside a block of unbounded ones"""
        many = [p for p in ax if p.many]
        if len(many) < 2:
            return list(ax)
        names = tuple(p.name for p in many)
        rev = self.boolean("reversed", names)
        out, done = [], False
        for p in ax:
            if not p.many:
                out.append(p)
            elif not done:
                out += many[::-1] if rev else many
                done = True
        return out

    # -- calls ------------------------------------------------------------------------
    def call(self, f, a, k):
        if isinstance(f, Native):
            return f.call(self, a, k)
        if isinstance(f, T):
            return T("call", f, self.freeze(a), self.freeze(k))
        if isinstance(f, ClsRef):
            h = self.hooks.get(f.cls.name)
            if h:
                return h(self, *a, **k)
            o = Host(self.prog, f.cls.name)
            o.closed = True
            g = o.method(self, "__init__")
            if g is not None:
                g.call(self, a, k)
            return o
        if isinstance(f, Func):
            h = self.hooks.get(f.name)
            if h:
                return h(self, *a, **k)
            return self.invoke(f.node, f.mod, {}, a, k, f)
        if isinstance(f, Closure):
            return self.invoke(f.node, f.mod, f.env, a, k)
        if isinstance(f, Bound):
            return self.method(f.obj, f.name, a, k)
        if isinstance(f, Ext):
            return self.ext(f.path, a, k)
        raise Und(f"call of {f!r}")

    def invoke(self, node, mod, outer, a, k, func=None):
        if func is not None:
            self.funcs.add(repr(func))
        args = node.args
        env = dict(outer)
        if func is not None and func.cls is not None:
            env["__owner__"] = func.cls
        names = [x.arg for x in args.posonlyargs + args.args]
        if len(a) > len(names) and not args.vararg:
            raise Raised("TypeError")
        vals = dict(zip(names, a))
        allowed = set(names) | {x.arg for x in args.kwonlyargs}
        if set(k) & set(vals) or set(k) - allowed and not args.kwarg:
            raise Raised("TypeError")
        vals.update({x: v for x, v in k.items() if x in allowed})
        for n, d in zip(names[len(names) - len(args.defaults):], args.defaults):
            if n not in vals:
                vals[n] = self.ev(d, {}, mod)
        for x, d in zip(args.kwonlyargs, args.kw_defaults):
            if x.arg not in vals and d is not None:
                vals[x.arg] = self.ev(d, {}, mod)
        if allowed - set(vals):
            raise Raised("TypeError")
        if args.vararg:
            vals[args.vararg.arg] = tuple(a[len(names):])
        if args.kwarg:
            vals[args.kwarg.arg] = {x: v for x, v in k.items() if x not in allowed}
        env.update(vals)
        env["__outer__"] = tuple(outer)
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, env, mod)
        try:
            self.block(node.body, env, mod)
        except _Ret as r:
            return r.v
        return None

    def ext(self, path, a, k):
        n = path.rsplit(".", 1)[-1]
        h = self.hooks.get(n)
        if h:
            return h(self, *a, **k)
        if self.nd:
            r = self.nd.ext(self, n, path, a, k)
            if r is not NotImplemented:
                return r
        if n == "tqdm" and a:
            return a[0]
        if path == "itertools.chain.from_iterable":
            return [y for x in self.iterate(a[0]) for y in self.iterate(x)]
        if path == "builtins.iter" and len(a) == 1:
            return a[0] if self.nd and hasattr(a[0], "elements") else self.iterate(a[0])
        if path == "builtins.type" and len(a) == 1 and self.nd and type(a[0]) in (str, list, tuple, dict, int, type(None)):
            return Ext("builtins." + type(a[0]).__name__)
        if path in ("builtins.chr", "builtins.ord") and len(a) == 1 and isinstance(a[0], (int, str)):
            return chr(a[0]) if n == "chr" else ord(a[0])
        if path == "gc.collect":
            return 0
        if path == "builtins.delattr" and len(a) == 2 and isinstance(a[0], Host) and isinstance(a[1], str):
            if a[1] not in a[0].attrs and a[1] not in a[0].cache:
                raise Raised("AttributeError")
            a[0].attrs.pop(a[1], None)
            a[0].cache.pop(a[1], None)
            return None
        if path in ("builtins.round", "numpy.round") and a and num(a[0]) and all(isinstance(x, int) for x in a[1:]) and not set(k) - {"ndigits", "decimals"}:
            return round(a[0], *a[1:], *k.values()) if path == "builtins.round" else round(a[0], (list(a[1:]) + list(k.values()) + [0])[0])
        if path == "collections.deque" and not k and len(a) < 2:
            return list(self.iterate(a[0])) if a else []
        if path == "builtins.map" and len(a) > 1:
            return [self.call(a[0], list(t), {}) for t in zip(*[self.iterate(x) for x in a[1:]])]
        if path == "builtins.filter" and len(a) == 2:
            return [x for x in self.iterate(a[1]) if self.truth(self.call(a[0], [x], {}) if a[0] is not None else x)]
        if path.startswith("operator.") and n in OPERATORS and len(a) == 2:
            return self.binop(OPERATORS[n], a[0], a[1])
        if path == "operator.neg":
            return self.arith("-", 0, a[0])
        if path == "operator.contains":
            return self.inset(a[1], a[0])
        if path == "functools.reduce" and len(a) > 1:
            l = ([a[2]] if len(a) > 2 else []) + list(self.iterate(a[1]))
            if not l:
                raise Raised("TypeError")
            t = l[0]
            for x in l[1:]:
                t = self.call(a[0], [t, x], {})
            return t
        if self.sparse:
            r = self.sparse.ext(self, n, path, a, k)
            if r is not NotImplemented:
                return r
        if self.texts:
            r = self.texts.ext(self, n, path, a, k)
            if r is not NotImplemented:
                return r
        if k and n != "dict" and set(k) - KEYWORDS.get(n, ANYARRAY):
            raise Und(f"keyword {sorted(set(k) - KEYWORDS.get(n, ANYARRAY))[0]} of {n}")
        if path.startswith("re.") and path.count(".") == 1:
            return matched(self, n, a, k)
        if n == "hash":
            return self.hash(a[0])
        if n == "Counter":
            return Multi(self, self.iterate(a[0]) if a else [])
        if n == "isinstance":
            cs = a[1] if isinstance(a[1], tuple) else (a[1],)
            if isinstance(a[0], Host) and a[0].cname:
                names = {c.name for c in self.prog.mro(self.prog.cls(a[0].cname))}
                if any(isinstance(c, ClsRef) and c.cls.name in names for c in cs):
                    return True
                if all(isinstance(c, ClsRef) or (isinstance(c, Ext)) for c in cs):
                    return False
            kinds = {str: "str", list: "list", tuple: "tuple", dict: "dict", FSet: "set", type(None): "NoneType"}
            mine = kinds.get(type(a[0])) if self.nd else None
            plain = {"str", "list", "tuple", "dict", "set", "frozenset", "NoneType", "int", "float", "bool", "bytes", "ndarray", "integer", "floating"}
            last = [c.path.rsplit(".", 1)[-1] if isinstance(c, Ext) else "NoneType" if isinstance(c, T) and "None" in str(c) else "" for c in cs]
            if mine and all(x in plain for x in last):
                return mine in last
            paths_ = [c.path if isinstance(c, Ext) else "" for c in cs]
            if mine and all(isinstance(c, ClsRef) or x in plain or p.startswith(("sympy.", "numbers.")) for c, x, p in zip(cs, last, paths_)):
                return mine in last
            if self.nd and isinstance(a[0], T) and a[0].op in ("symbol", "symbols") and all(isinstance(c, ClsRef) or x in plain or p.startswith(("sympy.", "numbers.")) for c, x, p in zip(cs, last, paths_)):
                return any(p.startswith("sympy.") and (x in ("Expr", "Basic") or x == ("Symbol" if a[0].op == "symbol" else "Mul")) for x, p in zip(last, paths_))
            if (isinstance(a[0], (int, float)) or type(a[0]).__name__ == "Real") and self.nd and all(isinstance(c, ClsRef) or p in ("numbers.Real", "numbers.Number", "numbers.Complex") or p.startswith("sympy.") for c, p in zip(cs, paths_)):
                return any(p.startswith("numbers.") for p in paths_)
            raise Und(f"isinstance of {type(a[0]).__name__} {a[0]!r} {cs}"[:90])
        if n == "sorted":
            l = self.iterate(a[0])
            if k.get("key") is not None:
                ks = [(self.call(k["key"], [x], {}), x) for x in l]
            else:
                ks = [(x, x) for x in l]
            out = []
            for x in ks:
                i = len(out)
                while i and self.lt(x[0], out[i - 1][0]):
                    i -= 1
                out.insert(i, x)
            out = [x[1] for x in out]
            return out[::-1] if k.get("reverse") and self.truth(k["reverse"]) else out
        if n in ("max", "min") and len(a) == 1 and isinstance(a[0], (list, tuple)):
            l = list(a[0])
            if not l and "default" in k:
                return k["default"]
            if not l:
                raise Raised("ValueError")
            key = (lambda x: self.call(k["key"], [x], {})) if k.get("key") is not None else lambda x: x
            best, bk = l[0], key(l[0])
            for x in l[1:]:
                xk = key(x)
                if (self.lt(xk, bk) if n == "min" else self.lt(bk, xk)):
                    best, bk = x, xk
            return best
        if n == "sum" and isinstance(a[0], (list, tuple)):
            t = a[1] if len(a) > 1 else 0
            for x in a[0]:
                t = self.arith("+", t, x)
            return t
        if n == "dict" and path in ("dict", "builtins.dict"):
            d = {}
            if a:
                for kk, v in (list(a[0].items()) if isinstance(a[0], dict) else [tuple(self.iterate(t)) for t in self.iterate(a[0])]):
                    self.setitem(d, kk, v)
            d.update(k)
            return d
        if n == "defaultdict" and a and a[0] is not None and len(a) < 3:
            d = DDict(a[0])
            for kk, v in self.method(self.ext("dict", list(a[1:]), k), "items", [], {}):
                self.setitem(d, kk, v)
            return d
        if n in ("defaultdict", "OrderedDict") and not a and not k:
            return {}
        if n in ("int", "float", "list", "dict", "set", "tuple", "str", "bool") and not a and not k:
            return {"int": 0, "float": 0, "list": [], "dict": {}, "set": FSet([]), "tuple": (), "str": "", "bool": False}[n]
        if n in ("vstack", "row_stack") and isinstance(a[0], (list, tuple)):
            ls = [x if isinstance(x, Arr) else self.asarr(self.iterate(x)) for x in a[0]]
            if ls and all(isinstance(x, Arr) and len(x.axes) == 1 and not any(p.many for p in x.axes[0]) for x in ls):
                return self.asarr([list(x.data.values()) for x in ls])
            raise Und("vstack")
        if n == "hstack" or n == "concatenate":
            l = [self.asarr(x) for x in self.iterate(a[0])]
            if all(isinstance(x, Arr) and len(x.axes) == 1 for x in l):
                return Arr.of([v for x in l for v in x.data.values()], "hstack")
            raise Und(n)
        if n == "setattr":
            a[0].setattr(self, a[1], a[2])
            return None
        if n == "getattr" or n == "hasattr":
            try:
                v = self.attr(a[0], a[1])
            except Raised:
                if n == "hasattr":
                    return False
                if len(a) > 2:
                    return a[2]
                raise
            return True if n == "hasattr" else v
        if self.opaque and any(isinstance(x, T) for x in list(a) + list(k.values())) or (self.opaque and self.opaque(n)):
            return T(n, self.freeze(a), self.freeze(k))
        if n in ("arange", "range", "prange"):
            return self.range(a)
        if n == "len":
            x = a[0]
            if isinstance(x, Arr):
                return norm(self.length(x.axes[0])) if x.axes else 0
            if isinstance(x, FSet):
                return len(x.items)
            if isinstance(x, Host) and x.method(self, "__len__") is not None:
                return x.method(self, "__len__").call(self, [], {})
            if isinstance(x, Native):
                return len(x.elements(self))
            if isinstance(x, Multi):
                return len(x.pairs)
            return len(x)
        if n in ("set", "frozenset"):
            r = FSet(self.distinct(self.iterate(a[0]) if a else []))
            r.frozen = n == "frozenset"
            return r
        if n in ("list", "tuple"):
            r = self.iterate(a[0]) if a else []
            return r if n == "list" else tuple(r)
        if n in ("bool", "bool_", "bool8"):
            return self.truth(a[0])
        if n in ("int", "int_", "float"):
            x = a[0]
            return (float(x) if n == "float" else int(x)) if num(x) else x
        if path in ("itertools.repeat", "itertools.count"):
            if n == "repeat" and (len(a) > 1 or "times" in k):
                m = a[1] if len(a) > 1 else k["times"]
                if not isinstance(m, int):
                    raise Und("repetition")
                return [a[0]] * m
            if n == "count" and (k or any(not isinstance(x, int) for x in a)):
                raise Und("count")
            return Endless(a[0] if a else 0, a[1] if len(a) > 1 else int(n == "count"))
        if n == "zip":
            al = [x for x in a]
            if any(isinstance(x, Endless) for x in al) and not all(isinstance(x, Endless) for x in al):
                m = min(len(list(self.iterate(x))) for x in al if not isinstance(x, Endless))
                al = a = [x.first(m) if isinstance(x, Endless) else x for x in al]
            if al and all(isinstance(x, Arr) for x in al) and any(p.many for x in al for p in x.axes[0]):
                base = al[0].axes[0]
                for x in al[1:]:
                    if self.align(base, x.axes[0]) is None:
                        raise Und("zip of different lengths")
                out = []
                for p in self.visit(base):
                    i = base.index(p)
                    out.append(tuple(x.sub(x.axes[0][i]) for x in al))
                return out
            ls = [self.iterate(x) for x in al]
            if any(isinstance(x, Arr) and any(p.many for p in x.axes[0]) for x in al):
                raise Und("zip of an array with a list")
            return list(zip(*ls))
        if n == "enumerate":
            x, s = a[0], k.get("start", a[1] if len(a) > 1 else 0)
            if isinstance(x, Arr) and any(p.many for p in x.axes[0]) and s == 0:
                return [(Ix(p), x.sub(p)) for p in self.visit(x.axes[0])]
            if not isinstance(s, int):
                raise Und("start of enumerate")
            return list(enumerate(self.iterate(x), s))
        if n in ("combinations", "permutations", "product", "combinations_with_replacement", "chain") and "itertools" in path:
            import itertools
            ls = [self.iterate(x) if not isinstance(x, int) else x for x in a]
            return list(getattr(itertools, n)(*ls, **k))
        if n == "pairwise":
            l = self.iterate(a[0])
            return list(zip(l, l[1:]))
        if n == "sorted" or n == "reversed":
            l = self.iterate(a[0])
            if n == "reversed":
                return l[::-1]
            raise Und("sorted")
        if n in ("max", "min") and len(a) == 2:
            return self.pick(a[0], a[1], n == "max")
        if n in ("maximum", "minimum"):
            return self.ew(lambda x, y: self.pick(x, y, n == "maximum"), a[0], a[1])
        if n == "abs" or n == "absolute":
            if num(a[0]):
                return abs(a[0])
            raise Und("abs")
        if n in ("any", "all") and not isinstance(a[0], Arr):
            l = [self.truth(x) for x in self.iterate(a[0])]
            return any(l) if n == "any" else all(l)
        if n in ("zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like", "full_like", "eye", "identity"):
            dt = k.get("dtype", a[2] if len(a) > 2 and n == "full" else (a[1] if len(a) > 1 and not n.startswith(("full", "eye")) else None))
            if n.startswith("full"):
                fill = a[1]
            else:
                isb = isinstance(dt, Ext) and "bool" in dt.path
                fill = {"z": 0, "o": 1, "e": 0, "i": 0}[n[0]]
                fill = bool(fill) if isb else fill
            if n.endswith("_like"):
                return a[0].map(lambda _: fill)
            shp = a[0]
            if n in ("eye", "identity"):
                shp = (shp, shp)
            axes = self.shape_axes(shp)
            from itertools import product
            r = Arr(axes, {key: fill for key in product(*axes)})
            if n in ("eye", "identity"):
                one = True if fill is False else 1
                for key in r.data:
                    if key[0] == key[1]:
                        r.data[key] = one
            return r
        ops = {"subtract": "-", "add": "+", "multiply": "*", "floor_divide": "//", "mod": "%"}
        if n in ops:
            return self.ew(lambda x, y: self.arith(ops[n], x, y), a[0], a[1])
        cmps = {"equal": "==", "not_equal": "!=", "greater": ">", "greater_equal": ">=", "less": "<", "less_equal": "<="}
        if n in cmps:
            return self.ew(lambda x, y: self.cmp(cmps[n], x, y), a[0], a[1])
        logic = {"logical_and": lambda x, y: x and y, "logical_or": lambda x, y: x or y, "logical_xor": lambda x, y: x != y}
        if n in logic:
            return self.ew(lambda x, y: logic[n](self.truth(x), self.truth(y)), a[0], a[1])
        if n in ("bitwise_and", "bitwise_or", "bitwise_xor"):
            return self.ew(lambda x, y: self.binop({"and": "&", "or": "|", "xor": "^"}[n[8:]], x, y), a[0], a[1])
        if n in ("logical_not", "invert"):
            return self.unary_not(a[0], n == "invert")
        if n in ("array_equal", "array_equiv"):
            x, y = self.asarr(a[0]), self.asarr(a[1])
            if not isinstance(x, Arr) or not isinstance(y, Arr):
                return self.eq(x, y)
            if len(x.axes) != len(y.axes):
                return False
            for p, q in zip(x.axes, y.axes):
                if p != q and any(s.many for s in p + q):
                    lp, lq = self.length(p), self.length(q)
                    if not self.eq(lp, lq):
                        return False
                    raise Und("array_equal over different positions")
                if len(p) != len(q):
                    return False
            return all(self.ew(lambda u, v: self.eq(u, v), x, y).data.values())
        if n in ("asarray", "array", "ascontiguousarray", "copy"):
            r = self.asarr(a[0])
            return Arr(r.axes, r.data) if isinstance(r, Arr) else r
        if n == "lexsort":
            rows = self.iterate(a[0])
            cols = [[r.data[(p,)] for r in rows] for p in rows[0].axes[0]]
            if not all(num(x) for c in cols for x in c):
                raise Und("lexsort of symbols")
            return Arr.of(sorted(range(len(cols)), key=lambda i: cols[i][::-1]), "lexsort")
        if n == "diff":
            l = self.iterate(a[0])
            if any(p.many for p in a[0].axes[0]):
                raise Und("diff")
            return Arr.of([self.ew(lambda x, y: self.arith("-", x, y), y, x) for x, y in zip(l, l[1:])], "diff")
        if n in ("any", "all", "sum", "max", "min", "amax", "amin", "count_nonzero", "nonzero", "flatnonzero", "unique", "transpose",
                 "ravel", "size", "shape", "take", "ndim", "prod", "argwhere", "isin", "in1d", "where", "expand_dims", "tolist", "ix_", "alltrue", "sometrue"):
            n = {"alltrue": "all", "sometrue": "any"}.get(n, n)
            if n == "where" and len(a) == 3:
                return self.ew(lambda c, t: t[0] if self.truth(c) else t[1], a[0], self.ew(lambda x, y: (x, y), a[1], a[2])) \
                    if isinstance(a[1], Arr) or isinstance(a[2], Arr) else a[0].map(lambda c: a[1] if self.truth(c) else a[2])
            if n in ("isin", "in1d"):
                return a[0].map(lambda x: self.inset(x, a[1]))
            if n == "ix_":
                raise Und("ix_")
            return self.method(self.asarr(a[0]), n, a[1:], k)
        raise Und(f"call of {path}")

    def shape_axes(self, shp):
        shp = shp if isinstance(shp, (tuple, list)) else (shp,)
        axes = []
        for s in shp:
            s = norm(s)
            if isinstance(s, int):
                axes.append(tuple(Pos(("r", i)) for i in range(s)))
                continue
            for ax in self.known_axes:
                if self.length(ax) == s:
                    axes.append(ax)
                    break
            else:
                raise Und("length of a new array")
        return axes

    known_axes = ()
    opaque = None
    globals = None          # values of module-level names that depend on what is installed
    nd = None               # the module sa.nd when arrays are followed entry by entry
    sparse = None           # the module sa.coo when sparse matrices are followed
    texts = None            # the module sa.text when strings and numbers are followed
    free_terms = False      # True: different terms are different values

    def range(self, a):
        b = [norm(x) for x in a]
        if all(isinstance(x, int) for x in b):
            return list(range(*b))
        if len(b) == 1 or (len(b) == 2 and b[0] == 0):
            for ax in self.known_axes:
                if self.length(ax) == b[-1]:
                    return [Ix(p) for p in self.visit(ax)]
        raise Und("range of unknown length")

    def unary_not(self, v, invert=False):
        def f(x):
            if invert and not isinstance(x, bool):
                raise Und("bitwise not of a number")
            return not self.truth(x)
        return v.map(f) if isinstance(v, Arr) or invert and hasattr(v, "compare") else f(v)

    def binop(self, op, x, y):
        if op in "&|^" and isinstance(x, bool) and isinstance(y, bool):
            return {"&": x and y, "|": x or y, "^": x != y}[op]
        if op == "+" and isinstance(x, bool) and isinstance(y, bool):
            return x or y       # numpy booleans
        if isinstance(x, FSet) and isinstance(y, FSet):
            if op == "&":
                return FSet([v for v in x.items if self.inset(v, y)])
            if op == "|":
                return FSet(self.distinct(x.items + y.items))
            if op == "-":
                return FSet([v for v in x.items if not self.inset(v, y)])
            if op == "^":
                return FSet([v for v in x.items if not self.inset(v, y)] + [v for v in y.items if not self.inset(v, x)])
        return self.arith(op, x, y)

    def method(self, o, n, a, k):
        if isinstance(o, str) and self.texts:
            return self.texts.method(self, o, n, a, k)
        if k and not (isinstance(o, dict) and n == "update") and set(k) - KEYWORDS.get(n, ANYARRAY):
            raise Und(f"keyword {sorted(set(k) - KEYWORDS.get(n, ANYARRAY))[0]} of {n}")
        if isinstance(o, str):
            l = [] if not a or n != "join" or isinstance(a[0], T) else self.iterate(a[0])
            if n == "join" and not isinstance(a[0], T) and all(isinstance(x, str) for x in l):
                return o.join(l)
            return T(n, o, self.freeze(a))
        if isinstance(o, Multi):
            if n == "items":
                return [tuple(p) for p in o.pairs]
            if n in ("keys", "values", "elements"):
                return [x for p in o.pairs for x in ([p[0]] if n == "keys" else [p[1]] if n == "values" else [p[0]] * p[1])]
            if n == "get":
                return next((p[1] for p in o.pairs if self.eq(p[0], a[0])), a[1] if len(a) > 1 else None)
            if n == "copy":
                m = Multi(self, [])
                m.pairs = [list(p) for p in o.pairs]
                return m
            if n == "total":
                return sum(p[1] for p in o.pairs)
            if n == "pop":
                for p in o.pairs:
                    if self.eq(p[0], a[0]):
                        o.pairs.remove(p)
                        return p[1]
                if len(a) > 1:
                    return a[1]
                raise Raised("KeyError")
            if n == "update":
                for x, c in (a[0].pairs if isinstance(a[0], Multi) else a[0].items() if isinstance(a[0], dict) else [(x, 1) for x in self.iterate(a[0])]):
                    self.setitem(o, x, self.arith("+", self.getitem(o, x), c))
                return None
            raise Und(f"Counter.{n}")
        if n == "__contains__" and isinstance(o, (FSet, list, tuple, dict)) and len(a) == 1:
            return self.inset(a[0], o)
        if isinstance(o, FSet):
            if n in ("intersection", "difference", "union", "symmetric_difference"):
                x = o
                for y in a:
                    y = y if isinstance(y, FSet) else FSet(self.distinct(self.iterate(y)))
                    x = self.binop({"i": "&", "d": "-", "u": "|", "s": "^"}[n[0]], x, y)
                return x if a else FSet(x.items)
            y = a[0] if a and isinstance(a[0], FSet) else FSet(self.iterate(a[0])) if a and n in ("issubset", "issuperset", "isdisjoint", "update") else None
            if n == "issubset":
                return all([self.inset(x, y) for x in o.items])
            if n == "issuperset":
                return all([self.inset(x, o) for x in y.items])
            if n == "isdisjoint":
                return not any([self.inset(x, o) for x in y.items])
            if n == "copy":
                return FSet(o.items)
            if n == "add":
                if not self.inset(a[0], o):
                    o.items.append(a[0])
                return None
            if n == "update":
                for z in a:
                    o.items = self.distinct(o.items + self.iterate(z))
                return None
            if n in ("discard", "remove") and len(a) == 1 and not o.frozen:
                rest = [x for x in o.items if not self.eq(x, a[0])]
                if n == "remove" and len(rest) == len(o.items):
                    raise Raised("KeyError")
                o.items = rest
                return None
            if n == "clear" and not o.frozen:
                o.items = []
                return None
            if n in ("difference_update", "intersection_update") and not o.frozen:
                for y in a:
                    y = y if isinstance(y, FSet) else FSet(self.distinct(self.iterate(y)))
                    o.items = self.binop("-" if n[0] == "d" else "&", FSet(o.items), y).items
                return None
            if n == "pop" and not a:
                if not o.items:
                    raise Raised("KeyError")
                return o.items.pop(self.choose(("pop", self.steps), range(len(o.items))))      # any element
            raise Und(f"set.{n}")
        if isinstance(o, list):
            if n == "append":
                o.append(a[0])
                return None
            if n == "extend":
                o.extend(self.iterate(a[0]))
                return None
            if n == "copy":
                return list(o)
            if n == "index":
                for i, x in enumerate(o):
                    if self.eq(x, a[0]):
                        return i
                raise Raised("ValueError")
            if n == "insert" and isinstance(a[0], int):
                o.insert(a[0], a[1])
                return None
            if n == "pop" and (not a or isinstance(a[0], int)):
                try:
                    return o.pop(*a)
                except IndexError:
                    raise Raised("IndexError")
            if n == "popleft" and not a:
                if not o:
                    raise Raised("IndexError")
                return o.pop(0)
            if n == "appendleft":
                o.insert(0, a[0])
                return None
            if n == "remove" and len(a) == 1:
                for i, x in enumerate(o):
                    if self.eq(x, a[0]):
                        del o[i]
                        return None
                raise Raised("ValueError")
            if n == "reverse":
                o.reverse()
                return None
            if n == "clear":
                o.clear()
                return None
            if n == "count":
                return sum(1 for x in o if self.eq(x, a[0]))
            if n == "sort":
                o[:] = self.ext("sorted", [o], k)
                return None
            raise Und(f"list.{n}")
        if isinstance(o, dict):
            if n in ("items", "keys", "values"):
                return [tuple(t) for t in o.items()] if n == "items" else list(getattr(o, n)())
            if n == "get":
                for kk, v in o.items():
                    if self.eq(kk, a[0]):
                        return v
                return a[1] if len(a) > 1 else None
            if n == "setdefault":
                for kk, v in o.items():
                    if self.eq(kk, a[0]):
                        return v
                v = a[1] if len(a) > 1 else None
                self.setitem(o, a[0], v)
                return v
            if n == "update":
                src = a[0] if a else {}
                for kk, v in (list(src.items()) if isinstance(src, dict) else [tuple(self.iterate(t)) for t in self.iterate(src)]) + list(k.items()):
                    self.setitem(o, kk, v)
                return None
            if n == "pop":
                for kk in o:
                    if self.eq(kk, a[0]):
                        return o.pop(kk)
                if len(a) > 1:
                    return a[1]
                raise Raised("KeyError")
            if n == "copy":
                return DDict(o.factory, o) if isinstance(o, DDict) else dict(o)
            if n == "clear":
                o.clear()
                return None
            raise Und(f"dict.{n}")
        if not isinstance(o, Arr):
            if (num(o) or isinstance(o, Lin)) and n in ("any", "all", "item", "astype", "sum", "max", "min", "copy"):
                if n in ("any", "all"):
                    return self.truth(o)
                if n == "astype" and a and isinstance(a[0], Ext) and "bool" in a[0].path:
                    return self.truth(o)
                return o
            raise Und(f"method {n} of {o!r}")
        axis = k.get("axis", a[0] if a and n in ("any", "all", "sum", "max", "min", "amax", "amin", "count_nonzero", "prod") else None)
        if n == "any":
            return self.any(o, axis)
        if n == "all":
            return self.all(o, axis)
        if n == "sum":
            return self.sum(o, axis)
        if n in ("max", "min", "amax", "amin"):
            return self.extremum(o, axis, n.endswith("max"))
        if n == "count_nonzero":
            return self.sum(o.map(lambda x: self.truth(x)), axis)
        if n == "prod":
            if self.all(o, axis):
                raise Und("prod")
            return 0
        if n in ("nonzero", "flatnonzero", "where", "argwhere"):
            if len(o.axes) != 1:
                raise Und("nonzero of a matrix")
            ps = [p for p in o.axes[0] if self.truth(o.data[(p,)])]
            if not any(p.many for p in o.axes[0]):
                r = Arr.of([o.axes[0].index(p) for p in ps], "nz")
                return (r,) if n in ("nonzero", "where") else r
            r = Arr((tuple(ps),), {(p,): Ix(p) for p in ps})
            return (r,) if n in ("nonzero", "where") else r
        if n == "unique":
            if k or len(o.axes) != 1 and a:
                raise Und("unique along an axis")
            vs = self.distinct(o.data.values())
            return Arr((tuple(Pos(("u", i)) for i in range(len(vs))),), {(Pos(("u", i)),): v for i, v in enumerate(vs)})
        if n in ("transpose",) and not a:
            return self.transpose(o)
        if n in ("ravel", "flatten", "reshape"):
            if len(o.axes) == 1 and n != "reshape":
                return o
            if n != "reshape" and not a:
                return self._flat(o)
            if n == "reshape" and (list(a) == [-1] or a == [(-1,)]):
                return self._flat(o)
            raise Und(n)
        if n == "take":
            ax = k.get("axis", a[1] if len(a) > 1 else None)
            if not isinstance(ax, int):
                if len(o.axes) == 1:
                    ax = 0
                else:
                    raise Und("take")
            idx = self.asarr(a[0])
            if not isinstance(idx, Arr):
                return self.drop(o, ax % len(o.axes), self.locate(o.axes[ax], norm(idx)))
            return self.take(o, ax % len(o.axes), idx)
        if n == "astype":
            if a and isinstance(a[0], Ext) and "bool" in a[0].path:
                return o.map(lambda x: self.truth(x))
            return Arr(o.axes, o.data)
        if n in ("copy", "view"):
            return Arr(o.axes, o.data)
        if n == "tobytes":
            return T("bytes", self.freeze(o))
        if n == "tolist":
            nest = lambda v: [nest(x) for x in self.iterate(v)] if isinstance(v, Arr) else v
            return nest(o)
        if n == "fill":
            for key in o.data:
                o.data[key] = a[0]
            return None
        if n == "item":
            (v,) = o.data.values()
            return v
        raise Und(f"method {n} of an array")

    def attr(self, o, n):
        if isinstance(o, Native):
            return o.attr(self, n)
        if isinstance(o, T):
            return T("attr", o, n)
        if type(o) in (int, float) and n in ("evalf", "atoms", "free_symbols", "subs"):
            raise Raised("AttributeError")
        if isinstance(o, ClsRef):
            if n == "__new__":
                def new(R, c, *a, **k):
                    h = Host(R.prog, c.cls.name)
                    h.closed = True
                    return h
                return Hook(new)
            if n in ("__name__",):
                return o.cls.name
            f = self.prog.lookup(o.cls, n)
            if f is not None:
                return Hook(lambda R, *a, **k: R.invoke(f.node, f.mod, {}, list(a), k, f))
            r = self.prog.class_attr(o.cls, n)
            if r is not None:
                return self.ev(r[1], {}, r[0].mod)
            raise Raised("AttributeError")
        if isinstance(o, Ext):
            if o.path.endswith(".S") and n in ("Zero", "One") and o.path.startswith("sympy"):
                return 0 if n == "Zero" else 1
            if self.nd and o.path == "numpy" and n in ("inf", "Inf", "infty"):
                return float("inf")
            if self.nd and o.path == "numpy" and n == "newaxis":
                return None
            return Ext(o.path + "." + n)
        if isinstance(o, tuple) and len(o) == 2 and o[0] == "module":
            r = self.prog.resolve(o[1], n)
            return self.resolved(r, n)
        if isinstance(o, Arr):
            if n == "T":
                return self.transpose(o)
            if n == "shape":
                return tuple(norm(self.length(x)) for x in o.axes)
            if n == "ndim":
                return len(o.axes)
            if n == "size":
                t = 1
                for x in o.axes:
                    t = self.arith("*", t, norm(self.length(x)))
                return t
            if n == "flat":
                return o if len(o.axes) == 1 else self._flat(o)
            if n == "dtype":
                return Ext("numpy.int64")
        return Bound(o, n)

    def _flat(self, o):
        if any(p.many for ax in o.axes for p in ax):
            raise Und("flat")
        from itertools import product
        return Arr.of([o.data[key] for key in product(*o.axes)], "flat")

    # -- expressions -------------------------------------------------------------------
    CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.Gt: ">", ast.LtE: "<=", ast.GtE: ">="}
    BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.FloorDiv: "//", ast.Mod: "%", ast.Div: "/", ast.Pow: "**",
           ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^"}

    def resolved(self, r, name):
        if r is None:
            raise Und(f"name {name}")
        if r[0] == "fn":
            return r[1]
        if r[0] == "ext":
            return Ext(r[1])
        if r[0] == "cls":
            return ClsRef(r[1])
        if r[0] == "mod":
            return ("module", r[1])
        if r[0] == "const" and name in (self.globals or {}):
            return self.globals[name]
        if r[0] == "const":
            try:
                return self.ev(r[1].consts[name], {}, r[1])
            except (Und, KeyError, AttributeError):
                return Ext("const." + name)
        return Ext(f"{r[0]}.{name}")

    def ev(self, e, env, mod):
        self.steps += 1
        if self.steps > self.LIMIT:
            raise Und("too many steps")
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            r = self.prog.resolve(mod, e.id)
            if r is not None:
                return self.resolved(r, e.id)
            import builtins
            if hasattr(builtins, e.id):
                return Ext("builtins." + e.id)
            raise Und(f"name {e.id}")
        if isinstance(e, ast.Attribute):
            return self.attr(self.ev(e.value, env, mod), e.attr)
        if isinstance(e, ast.Subscript):
            return self.getitem(self.ev(e.value, env, mod), self.index(e.slice, env, mod))
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args and "__owner__" in env:
                return Super(self.prog, env["self"], env["__owner__"])
            if isinstance(e.func, ast.Name) and e.func.id == "locals" and not e.args:
                if env.get("__outer__"):
                    raise Und("locals of a nested function")
                return {x: v for x, v in env.items() if not x.startswith("__")}
            f = self.ev(e.func, env, mod)
            a = []
            for x in e.args:
                if isinstance(x, ast.Starred):
                    a += self.iterate(self.ev(x.value, env, mod))
                else:
                    a.append(self.ev(x, env, mod))
            k = {}
            for x in e.keywords:
                if x.arg is None:
                    d = self.ev(x.value, env, mod)
                    if not isinstance(d, dict) or not all(isinstance(y, str) for y in d):
                        raise Und("** argument")
                    k.update(d)
                    continue
                k[x.arg] = self.ev(x.value, env, mod)
            return self.call(f, a, k)
        if isinstance(e, ast.BoolOp):
            v = None
            for x in e.values:
                v = self.ev(x, env, mod)
                t = self.truth(v)
                if isinstance(e.op, ast.And) and not t:
                    return v
                if isinstance(e.op, ast.Or) and t:
                    return v
            return v
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env, mod)
            if isinstance(e.op, ast.Not):
                return not self.truth(v)
            if isinstance(e.op, ast.Invert):
                return self.unary_not(v, True)
            if isinstance(e.op, ast.USub):
                return v.map(lambda x: self.arith("*", -1, x)) if isinstance(v, Arr) else self.arith("*", -1, v)
            return v
        if isinstance(e, ast.BinOp):
            op = self.BIN.get(type(e.op))
            if op is None:
                raise Und("operator")
            a, b = self.ev(e.left, env, mod), self.ev(e.right, env, mod)
            if isinstance(a, Arr) or isinstance(b, Arr):
                return self.ew(lambda x, y: self.binop(op, x, y), a, b)
            return self.binop(op, a, b)
        if isinstance(e, ast.Compare):
            left = self.ev(e.left, env, mod)
            res = True
            for op, r in zip(e.ops, e.comparators):
                right = self.ev(r, env, mod)
                if isinstance(op, (ast.Is, ast.IsNot)):
                    if left is None or right is None:
                        v = left is None and right is None
                    elif isinstance(left, bool) and isinstance(right, bool):
                        v = left == right
                    else:
                        raise Und("is")
                    v = v if isinstance(op, ast.Is) else not v
                elif isinstance(op, (ast.In, ast.NotIn)):
                    v = self.inset(left, right)
                    v = v if isinstance(op, ast.In) else not v
                elif isinstance(left, Arr) or isinstance(right, Arr):
                    v = self.ew(lambda x, y: self.cmp(self.CMP[type(op)], x, y), left, right)
                    if len(e.ops) == 1:
                        return v
                else:
                    v = self.cmp(self.CMP[type(op)], left, right)
                    if hasattr(v, "compare") and len(e.ops) == 1:
                        return v
                if not self.truth(v):
                    return False
                left = right
            return res
        if isinstance(e, ast.IfExp):
            return self.ev(e.body if self.truth(self.ev(e.test, env, mod)) else e.orelse, env, mod)
        if isinstance(e, ast.Tuple):
            return tuple(self.items(e.elts, env, mod))
        if isinstance(e, ast.List):
            return self.items(e.elts, env, mod)
        if isinstance(e, ast.Set):
            return FSet(self.distinct(self.items(e.elts, env, mod)))
        if isinstance(e, ast.Dict):
            return {self.ev(k, env, mod): self.ev(v, env, mod) for k, v in zip(e.keys, e.values)}
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            out = []
            self.comp(e.generators, 0, e.elt, dict(env), mod, out)
            return FSet(self.distinct(out)) if isinstance(e, ast.SetComp) else out
        if isinstance(e, ast.DictComp):
            out = []
            self.comp(e.generators, 0, ast.Tuple([e.key, e.value], ast.Load()), dict(env), mod, out)
            d = {}
            for k, v in out:
                self.setitem(d, k, v)
            return d
        if isinstance(e, ast.JoinedStr):
            if not self.texts:
                return "text"
            return self.texts.joined(self, e, env, mod)
        if isinstance(e, ast.Lambda):
            return Closure(e, env, mod)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env, mod)
            env[e.target.id] = v
            return v
        raise Und(type(e).__name__)

    def items(self, elts, env, mod):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.iterate(self.ev(x.value, env, mod))
            else:
                out.append(self.ev(x, env, mod))
        return out

    def comp(self, gens, i, elt, env, mod, out):
        if i == len(gens):
            out.append(self.ev(elt, env, mod))
            return
        g = gens[i]
        for v in self.iterate(self.ev(g.iter, env, mod)):
            self.assign(g.target, v, env, mod)
            if all(self.truth(self.ev(c, env, mod)) for c in g.ifs):
                self.comp(gens, i + 1, elt, env, mod, out)

    def index(self, s, env, mod):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.const(self.ev(x, env, mod))
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, env, mod) for x in s.elts)
        return self.ev(s, env, mod)

    def const(self, v):
        v = norm(v)
        if v is None or isinstance(v, int):
            return v
        raise Und("symbolic bound")

    # -- statements ----------------------------------------------------------------------
    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            l = self.iterate(v)
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if len(st) == 1 and len(l) >= len(t.elts) - 1:
                i, j = st[0], len(l) - (len(t.elts) - 1 - st[0])
                self.assign(t.elts[i].value, l[i:j], env, mod)
                for x, y in zip(t.elts[:i] + t.elts[i + 1:], l[:i] + l[j:]):
                    self.assign(x, y, env, mod)
                return
            if st or len(l) != len(t.elts):
                raise Und("unpacking")
            for x, y in zip(t.elts, l):
                self.assign(x, y, env, mod)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env, mod), self.index(t.slice, env, mod), v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            if not isinstance(o, Native):
                raise Und("attribute assignment")
            o.setattr(self, t.attr, v)
        else:
            raise Und("assignment target")

    def block(self, body, env, mod):
        for s in body:
            self.stmt(s, env, mod)

    def stmt(self, s, env, mod):
        self.steps += 1
        if self.steps > self.LIMIT:
            raise Und("too many steps")
        if isinstance(s, ast.Return):
            raise _Ret(self.ev(s.value, env, mod) if s.value is not None else None)
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env, mod)
            for t in s.targets:
                self.assign(t, v, env, mod)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env, mod), env, mod)
        elif isinstance(s, ast.AugAssign):
            t = s.target
            load = ast.copy_location(type(t)(**{**{f: getattr(t, f) for f in t._fields}, "ctx": ast.Load()}), t)
            e = ast.copy_location(ast.BinOp(load, s.op, s.value), s)
            old = self.ev(load, env, mod)
            v = self.ev(e, env, mod)
            if isinstance(old, Arr) and isinstance(v, Arr) and old.axes == v.axes:
                old.data.update(v.data)
            elif isinstance(old, list) and isinstance(v, list):
                old[:] = v
            elif hasattr(old, "compare") and hasattr(v, "compare") and hasattr(old, "put"):
                old.setitem(self, (), v)
            elif isinstance(old, FSet) and isinstance(v, FSet) and not old.frozen:
                old.items = list(v.items)
            else:
                self.assign(t, v, env, mod)
        elif isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, env, mod)
        elif isinstance(s, ast.If):
            self.block(s.body if self.truth(self.ev(s.test, env, mod)) else s.orelse, env, mod)
        elif isinstance(s, ast.For):
            broke = False
            for v in self.iterate(self.ev(s.iter, env, mod)):
                self.assign(s.target, v, env, mod)
                try:
                    self.block(s.body, env, mod)
                except _Brk:
                    broke = True
                    break
                except _Cont:
                    pass
            if not broke:
                self.block(s.orelse, env, mod)
        elif isinstance(s, ast.While):
            n = 0
            while self.truth(self.ev(s.test, env, mod)):
                n += 1
                if n > 200:
                    raise Und("loop bound")
                try:
                    self.block(s.body, env, mod)
                except _Brk:
                    break
                except _Cont:
                    pass
        elif isinstance(s, ast.Break):
            raise _Brk()
        elif isinstance(s, ast.Continue):
            raise _Cont()
        elif isinstance(s, ast.Assert):
            if not self.truth(self.ev(s.test, env, mod)):
                raise Raised("AssertionError")
        elif isinstance(s, ast.Raise):
            raise Raised("raise")
        elif isinstance(s, ast.Try):
            try:
                self.block(s.body, env, mod)
            except Raised as x:
                name = str(x).split(":")[0]
                for h in s.handlers:
                    ns = [] if h.type is None else [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
                    if h.type is None or any(getattr(t, "id", getattr(t, "attr", "")) in (name, "Exception", "BaseException", "LookupError" if name in ("KeyError", "IndexError") else name) for t in ns):
                        if h.name:
                            env[h.name] = T("exception")
                        self.block(h.body, env, mod)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env, mod)
            self.block(s.finalbody, env, mod)
        elif isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom)):
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                for al in s.names:
                    env[al.asname or al.name.split(".")[0]] = Ext((getattr(s, "module", None) or "") + "." + al.name)
        elif isinstance(s, ast.With):
            for it in s.items:
                c = self.ev(it.context_expr, env, mod)
                if not hasattr(c, "enter"):
                    raise Und("with")
                v = c.enter(self)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env, mod)
            self.block(s.body, env, mod)
        elif isinstance(s, ast.FunctionDef):
            env[s.name] = Closure(s, env, mod)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
                    continue
                o = self.ev(t.value, env, mod) if isinstance(t, ast.Subscript) else None
                if isinstance(o, dict):
                    self.method(o, "pop", [self.index(t.slice, env, mod)], {})
                elif isinstance(o, list) and isinstance(self.index(t.slice, env, mod), int):
                    del o[self.index(t.slice, env, mod)]
                else:
                    raise Und("del")
        else:
            raise Und(type(s).__name__)


def paths(prog, go, hooks=None, limit=4000, known_axes=()):
    """every path of go(R): yields (R, result) with result a value, Raised or Und"""
    script, n = [], 0
    while True:
        n += 1
        R = Run(prog, script, hooks)
        R.known_axes = tuple(known_axes)
        try:
            res = go(R)
        except Raised as e:
            res = e
        except Und as e:
            res = e
        except (TypeError, KeyError, IndexError, ValueError, AttributeError, RecursionError) as e:
            res = Und(f"{type(e).__name__}: {e}")
        yield R, res
        # next script: advance the last decision with an option left
        t = R.trace
        while t and t[-1][2] + 1 >= len(t[-1][1]):
            t = t[:-1]
        if not t:
            return
        script = [x[2] for x in t[:-1]] + [t[-1][2] + 1]
        if n >= limit:
            yield R, Und("too many paths")
            return


class Super(Native):
    def __init__(self, prog, obj, owner):
        self.prog, self.obj, self.owner = prog, obj, owner

    def attr(self, R, name):
        mro = self.prog.mro(self.prog.cls(self.obj.cname))
        for c in mro[mro.index(self.owner) + 1:]:
            if name in c.methods:
                f = c.methods[name]
                return Hook(lambda R, *a, **k: R.invoke(f.node, f.mod, {}, [self.obj] + list(a), k, f))
        if name == "__init__":
            return Hook(lambda R, *a, **k: None)
        raise Und(f"super().{name}")


class Host(Native):
    """an instance of an analysed class with given attributes; methods are followed"""
    closed = False      # True: attributes not set do not exist

    def __init__(self, prog, cname, **attrs):
        self.prog, self.cname, self.attrs, self.cache = prog, cname, attrs, {}

    def method(self, R, name):
        if self.cname and self.cname in self.prog.classes:
            f = self.prog.lookup(self.prog.cls(self.cname), name)
            if f is not None:
                return Hook(lambda R, *a, **k: R.invoke(f.node, f.mod, {}, [self] + list(a), k, f))
        return None

    def attr(self, R, name):
        if name in self.attrs:
            return self.attrs[name]
        if name in self.cache:
            return self.cache[name]
        if name in ("__getattribute__", "__getattr__"):
            return Hook(lambda R, n: self.attr(R, n))
        if name == "__setattr__":
            return Hook(lambda R, n, v: self.setattr(R, n, v))
        if name == "__dict__":
            return Fields(self)
        if self.cname and self.cname in self.prog.classes:
            c = self.prog.cls(self.cname)
            if name == "__class__":
                return ClsRef(c)
            f = self.prog.lookup(c, name)
            if f is not None:
                h = R.hooks.get(name)
                if f.kind in ("property", "cached"):
                    v = h(R, self) if h else R.invoke(f.node, f.mod, {}, [self], {}, f)
                    if f.kind == "cached":
                        self.cache[name] = v
                    return v
                if h:
                    return Hook(h)
                if f.kind == "static":
                    return Hook(lambda R, *a, **k: R.invoke(f.node, f.mod, {}, list(a), k, f))
                return Hook(lambda R, *a, **k: R.invoke(f.node, f.mod, {}, [self] + list(a), k, f))
            r = self.prog.class_attr(c, name)
            if r is not None:
                return R.ev(r[1], {}, r[0].mod)
            if name == "__slots__":
                for k in self.prog.mro(c):
                    if k.slots is not None:
                        return list(k.slots)
        if self.closed:
            raise Raised("AttributeError: " + name)
        raise Und(f"attribute {name}")

    def setattr(self, R, name, v):
        self.attrs[name] = v

    def __repr__(self):
        return f"<{self.cname} {self.attrs.get('label', '')}>"


class Fields(Native):
    """the dictionary of attributes of an instance"""
    def __init__(self, host):
        self.host = host

    def attr(self, R, name):
        if name in ("pop", "get", "__contains__"):
            def f(R, key, *default):
                for d in (self.host.attrs, self.host.cache):
                    if key in d:
                        if name == "__contains__":
                            return True
                        v = d[key]
                        if name == "pop":
                            self.host.attrs.pop(key, None)
                            self.host.cache.pop(key, None)
                        return v
                if name == "__contains__":
                    return False
                if name == "pop" and not default:
                    raise Raised("KeyError")
                return default[0] if default else None
            return Hook(f)
        if name == "update":
            return Hook(lambda R, d=None, **k: [self.setitem(R, x, v) for x, v in list((d or {}).items()) + list(k.items())] and None)
        raise Und("dictionary of attributes")

    def item(self, R, key):
        return self.attr(R, "get").call(R, [key], {}) if self.attr(R, "__contains__").call(R, [key], {}) else self.missing()

    def missing(self):
        raise Raised("KeyError")

    def setitem(self, R, key, v):
        self.host.setattr(R, key, v)


def stores(node, attr):
    """does the statement assign self.<attr> or one of its items, or call a method"""
    for n in ast.walk(node):
        if isinstance(n, ast.Attribute) and n.attr == attr:
            return True
    return False


def span(func, attr):
    """the statements of a function from the first to the last one that mentions an attribute in a store"""
    body = func.node.body
    hit = []
    for i, s in enumerate(body):
        for n in ast.walk(s):
            t = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
            if any(stores(x, attr) for x in t):
                hit.append(i)
                break
    return body[hit[0]:hit[-1] + 1] if hit else None


def owner(prog, cname, attr):
    """the method of a class (or base) that assigns self.<attr>"""
    out = []
    for c in prog.mro(prog.cls(cname)):
        for f in c.methods.values():
            if any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)):
                out.append(f)
    return out
