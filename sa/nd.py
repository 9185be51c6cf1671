"""Dense arrays of abstract entries: numpy's layout rules (indexing, broadcasting, reductions) over entries that are numbers or symbols."""
from itertools import product
from sa.finite import Native, Hook, Ext, Und, Raised, FSet, T, num


def prod(s):
    t = 1
    for x in s:
        t *= x
    return t


class Nd(Native):
    def __init__(self, shape, flat, dtype=None):
        self.shape, self.flat, self.dtype = tuple(shape), list(flat), dtype
        if len(self.flat) != prod(self.shape):
            raise Und("shape of an array")
        self.frozen = False

    def __repr__(self):
        return f"Nd{self.shape}{self.flat[:8]}"

    # -- layout --
    def keys(self):
        return product(*[range(n) for n in self.shape])

    def pos(self, key):
        p = 0
        for k, n in zip(key, self.shape):
            p = p * n + k
        return p

    def get(self, key):
        return self.flat[self.pos(key)]

    def nested(self):
        def rec(pre):
            if len(pre) == len(self.shape):
                return self.get(pre)
            return [rec(pre + (i,)) for i in range(self.shape[len(pre)])]
        return rec(())

    def truth(self, R):
        if len(self.flat) == 1:
            return R.truth(self.flat[0])
        raise Raised("ValueError") if self.flat else Und("truth value of an empty array")

    def __len__(self):
        return len(self.flat)

    def elements(self, R):
        if not self.shape:
            raise Raised("TypeError")
        return [self.sub((i,)) for i in range(self.shape[0])]

    def sub(self, key):
        rest = self.shape[len(key):]
        if not rest:
            return self.get(key)
        n = prod(rest)
        p = 0
        for k, m in zip(key, self.shape):
            p = p * m + k
        return View(self, rest, range(p * n, (p + 1) * n))

    def contains(self, R, x):
        return any([R.eq(y, x) for y in self.flat])

    # -- indexing --
    def plan(self, R, idx):
        """result shape and, for each result position, the flat position it comes from"""
        idx = list(idx) if isinstance(idx, tuple) else [idx]
        flat = []
        for i in idx:
            if isinstance(i, (list, tuple, range)):
                i = asarray(R, i)
            if isinstance(i, Nd) and isb(i):
                if len(i.shape) == 0:
                    raise Und("boolean index")
                hits = [k for k in i.keys() if R.truth(i.get(k))]
                flat += [Nd((len(hits),), [k[d] for k in hits]) for d in range(len(i.shape))]
            else:
                flat.append(i)
        used = sum(1 for i in flat if i is not None and not isell(i))
        if used > len(self.shape):
            raise Raised("IndexError")
        if not any(isell(i) for i in flat):
            flat.append(Ellipsis)
        items, d = [], 0
        for i in flat:
            if isell(i):
                for _ in range(len(self.shape) - used):
                    items.append((d, slice(None)))
                    d += 1
            elif i is None:
                items.append((None, None))
            else:
                items.append((d, i))
                d += 1
        adv = [i for _, i in items if isinstance(i, Nd)]
        bshape = broadcast([a.shape for a in adv]) if adv else ()
        dims, where, seen, gap, spread = [], None, False, False, False
        for d, i in items:
            if isinstance(i, (Nd, int)) and not isinstance(i, bool) and adv:
                if seen and gap:
                    spread = True
                if not seen and isinstance(i, (Nd, int)):
                    where = len(dims)
                seen, gap = True, False
            elif seen:
                gap = True
            if d is None:
                dims.append((None, [None]))
            elif isinstance(i, slice):
                dims.append((d, list(range(self.shape[d]))[i]))
            elif isinstance(i, Nd) or isinstance(i, int) and not isinstance(i, bool):
                pass
            else:
                raise Und(f"index {i!r}")
        if adv and spread:
            where = 0
        fixed = {}
        for d, i in items:
            if isinstance(i, int) and not isinstance(i, slice):
                if not -self.shape[d] <= i < self.shape[d]:
                    raise Raised("IndexError")
                fixed[d] = i % self.shape[d] if self.shape[d] else i
        lens = [len(v) for _, v in dims]
        shape = lens[:where] + list(bshape) + lens[where:] if adv else lens
        out = []
        nb = len(bshape)
        for key in product(*[range(n) for n in shape]):
            sl, bk = (key[:where] + key[where + nb:], key[where:where + nb]) if adv else (key, ())
            full = dict(fixed)
            for (d, vs), k in zip(dims, sl):
                if d is not None:
                    full[d] = vs[k]
            for d, i in items:
                if isinstance(i, Nd):
                    v = i.get(tuple(0 if n == 1 else b for n, b in zip(i.shape, bk[len(bk) - len(i.shape):])))
                    if not isinstance(v, int) or isinstance(v, bool):
                        raise Und(f"index {v!r}")
                    if not -self.shape[d] <= v < self.shape[d]:
                        raise Raised("IndexError")
                    full[d] = v % self.shape[d]
            out.append(self.pos([full[d] for d in range(len(self.shape))]))
        return tuple(shape), out, bool(adv)

    def item(self, R, idx):
        shape, out, adv = self.plan(R, idx)
        if not shape and not adv:
            return self.flat[out[0]]
        return Nd(shape, [self.flat[p] for p in out], self.dtype) if adv else View(self, shape, out)

    def put(self, p, v):
        self.flat[p] = v

    def setitem(self, R, idx, v):
        shape, out, _ = self.plan(R, idx)
        v = asarray(R, v) if isinstance(v, (list, tuple, Nd)) else v
        if isinstance(v, Nd):
            while len(v.shape) > len(shape) and v.shape[0] == 1:
                v = Nd(v.shape[1:], v.flat)
            v = expand(v, shape)
            vals = list(v.flat)
            for p, x in zip(out, vals):
                self.put(p, x)
        else:
            for p in out:
                self.put(p, v)

    # -- elementwise --
    def map(self, f, dtype=None):
        return Nd(self.shape, [f(x) for x in self.flat], dtype or self.dtype)

    def arith(self, R, op, o, swapped):
        return zipped(lambda x, y: R.binop(op, *((y, x) if swapped else (x, y))), self, asarray(R, o))

    def compare(self, R, op, o):
        o = asarray(R, o)
        try:
            return zipped(lambda x, y: R.cmp(op, x, y), self, o, "bool")
        except Raised:
            if op in ("==", "!="):
                return op == "!="
            raise

    # -- attributes --
    def attr(self, R, n):
        if n == "shape":
            return self.shape
        if n == "ndim":
            return len(self.shape)
        if n == "size":
            return prod(self.shape)
        if n == "T":
            return transpose(self, None)
        if n == "dtype":
            return Ext("builtins.bool" if isb(self) else "numpy.int64")
        if n == "flat":
            return Nd((len(self.flat),), self.flat)
        return Hook(lambda R, *a, **k: method(R, self, n, list(a), k))


class View(Nd):
    """basic indexing shares its entries with the array it is taken from"""
    def __init__(self, base, shape, where):
        self.base, self.where, self.shape, self.dtype, self.frozen = base, list(where), tuple(shape), base.dtype, False
        if len(self.where) != prod(self.shape):
            raise Und("shape of a view")

    @property
    def flat(self):
        return [self.base.flat[p] for p in self.where]

    def put(self, p, v):
        self.base.put(self.where[p], v)


def isell(i):
    return i is Ellipsis or isinstance(i, Ext) and i.path.endswith("Ellipsis")


def isb(a):
    return a.dtype == "bool" or bool(a.flat) and all(isinstance(x, bool) for x in a.flat)


def broadcast(shapes):
    n = max(map(len, shapes), default=0)
    out = []
    for i in range(n):
        ds = {s[i - n] for s in shapes if len(s) >= n - i} - {1}
        if len(ds) > 1:
            raise Raised("ValueError")
        out.append(ds.pop() if ds else 1)
    return tuple(out)


def expand(a, shape):
    if a.shape == tuple(shape):
        return a
    if len(a.shape) > len(shape) or broadcast([a.shape, tuple(shape)]) != tuple(shape):
        raise Raised("ValueError")
    f = a.flat
    out = []
    for key in product(*[range(n) for n in shape]):
        k = key[len(shape) - len(a.shape):]
        p = 0
        for x, n in zip(k, a.shape):
            p = p * n + (0 if n == 1 else x)
        out.append(f[p])
    return Nd(shape, out, a.dtype)


def zipped(f, a, b, dtype=None):
    sh = broadcast([a.shape, b.shape])
    a, b = expand(a, sh), expand(b, sh)
    r = Nd(sh, [f(x, y) for x, y in zip(a.flat, b.flat)], dtype)
    return r if sh else r.flat[0]


def asarray(R, v):
    if isinstance(v, Nd):
        return v
    if isinstance(v, FSet):
        raise Und("array of a set")
    if isinstance(v, (list, tuple, range)):
        parts = [asarray(R, x) for x in v]
        if not parts:
            return Nd((0,), [])
        shapes = {p.shape for p in parts}
        if len(shapes) > 1:
            raise Raised("ValueError")
        return Nd((len(parts),) + parts[0].shape, [x for p in parts for x in p.flat])
    return Nd((), [v])


def transpose(a, axes):
    n = len(a.shape)
    axes = tuple(range(n))[::-1] if axes is None else tuple(x % n for x in axes)
    if sorted(axes) != list(range(n)):
        raise Raised("ValueError")
    sh = [a.shape[x] for x in axes]
    f, out = a.flat, []
    for key in product(*[range(m) for m in sh]):
        full = [0] * n
        for x, k in zip(axes, key):
            full[x] = k
        out.append(a.pos(full))
    return Nd(sh, [f[p] for p in out], a.dtype)


def reshape(a, shape):
    shape = [shape] if isinstance(shape, int) else list(shape)
    if shape.count(-1) == 1:
        rest = prod(x for x in shape if x != -1)
        if not rest or len(a.flat) % rest:
            raise Raised("ValueError")
        shape[shape.index(-1)] = len(a.flat) // rest
    if any(not isinstance(x, int) for x in shape):
        raise Und("shape")
    if prod(shape) != len(a.flat):
        raise Raised("ValueError")
    return View(a, shape, range(len(a.flat)))


def along(R, a, axis, f, keepdims=False):
    """reduce the axes with f(list)"""
    n = len(a.shape)
    if axis is None:
        r = f(list(a.flat))
        return Nd((1,) * n, [r]) if keepdims else r
    ax = [axis] if isinstance(axis, int) else list(R.iterate(axis))
    if any(not isinstance(x, int) for x in ax):
        raise Und("axis")
    if any(not -n <= x < n for x in ax):
        raise Raised("AxisError")
    ax = {x % n for x in ax}
    keep = [i for i in range(n) if i not in ax]
    fl = a.flat
    groups = {k: [] for k in product(*[range(a.shape[i]) for i in keep])}
    for key in a.keys():
        groups[tuple(key[i] for i in keep)].append(fl[a.pos(key)])
    vals = [f(g) for g in groups.values()]
    sh = [1 if i in ax else a.shape[i] for i in range(n)] if keepdims else [a.shape[i] for i in keep]
    return Nd(sh, vals) if sh else vals[0]


def total(R, l):
    r = None
    for x in l:
        x = int(x) if isinstance(x, bool) else x
        r = x if r is None else R.arith("+", r, x)
    return 0 if r is None else r


def times(R, l):
    r = 1
    for x in l:
        r = R.arith("*", r, x)
    return r


def extreme(R, l, big):
    if not l:
        raise Raised("ValueError")
    r = l[0]
    for x in l[1:]:
        if R.lt(r, x) if big else R.lt(x, r):
            r = x
    return r


def order(R, rows):
    """stable ascending order of tuples"""
    import functools

    def c(i, j):
        for x, y in zip(rows[i], rows[j]):
            if R.lt(x, y):
                return -1
            if R.lt(y, x):
                return 1
        return 0
    return sorted(range(len(rows)), key=functools.cmp_to_key(c))


def take(R, a, idx, axis):
    if axis is None:
        a, axis = Nd((len(a.flat),), a.flat, a.dtype), 0
    n = len(a.shape)
    return a.item(R, (slice(None),) * (axis % n) + (asarray(R, idx) if isinstance(idx, (list, tuple)) else idx,))


REDUCE = {"sum": total, "prod": times, "any": lambda R, l: any([R.truth(x) for x in l]), "all": lambda R, l: all([R.truth(x) for x in l]),
          "max": lambda R, l: extreme(R, l, True), "min": lambda R, l: extreme(R, l, False), "amax": lambda R, l: extreme(R, l, True), "amin": lambda R, l: extreme(R, l, False),
          "count_nonzero": lambda R, l: sum(1 for x in l if R.truth(x))}


def opt(a, k, i, name, default=None):
    return a[i] if len(a) > i else k.get(name, default)


def method(R, o, n, a, k):
    if n in REDUCE:
        if set(k) - {"axis", "dtype", "keepdims", "initial"}:
            raise Und(f"keyword of {n}")
        if "initial" in k:
            return along(R, o, opt(a, k, 0, "axis"), lambda l: REDUCE[n](R, l + [k["initial"]]), k.get("keepdims", False))
        return along(R, o, opt(a, k, 0, "axis"), lambda l: REDUCE[n](R, l), k.get("keepdims", False))
    if n in ("copy", "astype", "flatten", "ravel"):
        if n == "astype":
            t = getattr(a[0], "path", str(a[0])).rsplit(".", 1)[-1] if a else ""
            if t.startswith("bool"):
                return o.map(lambda x: R.truth(x), "bool")
            if t.startswith(("int", "uint", "long")) and isb(o):
                return o.map(int, "int")
            return Nd(o.shape, o.flat, o.dtype)
        return Nd(o.shape, o.flat, o.dtype) if n == "copy" else Nd((len(o.flat),), o.flat, o.dtype) if n == "flatten" else View(o, (len(o.flat),), range(len(o.flat)))
    if n == "tolist":
        return o.nested()
    if n == "tobytes" and not a:
        return tuple(o.flat)
    if n == "item" and not a:
        (v,) = o.flat
        return v
    if n == "reshape":
        return reshape(o, a[0] if len(a) == 1 else a)
    if n == "transpose":
        return transpose(o, None if not a else a[0] if isinstance(a[0], (tuple, list)) else a)
    if n == "nonzero":
        return ext(R, "nonzero", "numpy.nonzero", [o], {})
    if n in ("squeeze", "swapaxes", "take", "argsort", "dot", "repeat", "cumsum", "argmax", "argmin"):
        return ext(R, n, "numpy." + n, [o] + a, k)
    if n == "fill":
        for p in range(len(o.flat)):
            o.put(p, a[0])
        return None
    if n == "sort" and not a and not k and len(o.shape) == 1:
        f = list(o.flat)
        for p, q in enumerate(order(R, [(x,) for x in f])):
            o.put(p, f[q])
        return None
    if n == "flags" or n == "setflags":
        return None
    if n == "view" and len(a) == 1 and isinstance(a[0], T) and a[0].op == "dtype of records" and o.shape:
        m = a[0].args[0]
        if not m or o.shape[-1] % m:
            raise Raised("ValueError")
        return Nd(o.shape[:-1] + (o.shape[-1] // m,), [tuple(o.flat[i:i + m]) for i in range(0, len(o.flat), m)])
    raise Und(f"method {n} of an array")


def shapeof(v):
    v = [v] if isinstance(v, int) else list(v)
    if any(not isinstance(x, int) or isinstance(x, bool) for x in v):
        raise Und(f"shape {v}")
    return tuple(v)


def kindof(k, a, i):
    t = opt(a, k, i, "dtype")
    return "bool" if t is not None and getattr(t, "path", str(t)).rsplit(".", 1)[-1].startswith("bool") else None


def ext(R, n, path, a, k):
    if path == "builtins.type" and len(a) == 1 and isinstance(a[0], Nd):
        return Ext("numpy.ndarray")
    if path == "operator.itemgetter" and not k:
        return Hook(lambda R, x: R.getitem(x, a[0]) if len(a) == 1 else tuple(R.getitem(x, i) for i in a))
    if not path.startswith("numpy") and not (n in ("len", "list", "tuple", "isinstance", "abs", "sum", "any", "all", "max", "min", "sorted") and a and isinstance(a[0], Nd)):
        return NotImplemented
    if n == "len":
        if not a[0].shape:
            raise Raised("TypeError")
        return a[0].shape[0]
    if n in ("list", "tuple"):
        return (list if n == "list" else tuple)(a[0].elements(R))
    if n == "isinstance":
        cs = a[1] if isinstance(a[1], tuple) else (a[1],)
        return any(getattr(c, "path", "") in ("numpy.ndarray",) for c in cs)
    if path.startswith("builtins") and n in ("sum", "any", "all", "max", "min") and len(a) == 1 and len(a[0].shape) == 1 and not k:
        return REDUCE[n](R, a[0].flat)
    if path.startswith("builtins"):
        return NotImplemented
    arr = lambda i: asarray(R, a[i] if not isinstance(a[i], (range, FSet)) else list(R.iterate(a[i])))
    if n in ("zeros", "ones", "empty", "full"):
        fill = {"zeros": 0, "ones": 1, "empty": 0}.get(n, a[1] if n == "full" else None)
        b = kindof(k, a, 1 if n != "full" else 2)
        return Nd(shapeof(a[0]), [bool(fill) if b else fill] * prod(shapeof(a[0])), b)
    if n in ("zeros_like", "ones_like", "empty_like", "full_like"):
        x = arr(0)
        fill = {"zeros_like": 0, "ones_like": 1, "empty_like": 0}.get(n, a[1] if n == "full_like" else None)
        b = kindof(k, a, 1 if n != "full_like" else 2)
        return Nd(x.shape, [bool(fill) if b or isb(x) and "dtype" not in k else fill] * len(x.flat), b)
    if n in ("array", "asarray", "ascontiguousarray", "asanyarray", "copy", "fromiter", "asfarray"):
        x = a[0] if isinstance(a[0], (Nd, list, tuple)) else list(R.iterate(a[0])) if n == "fromiter" or isinstance(a[0], (range,)) else a[0]
        if isinstance(x, Native) and not isinstance(x, Nd):
            return NotImplemented
        r = asarray(R, x)
        if kindof(k, a, 1):
            return r.map(lambda v: R.truth(v), "bool")
        return Nd(r.shape, r.flat, r.dtype) if n in ("array", "copy") or r is not x else r
    if n == "arange":
        if any(not isinstance(x, int) for x in a):
            raise Und("range")
        l = list(range(*a))
        return Nd((len(l),), l)
    if n == "eye" or n == "identity":
        b = kindof(k, a, 3 if n == "eye" else 1)
        return Nd((a[0], a[0]), [bool(i == j) if b else int(i == j) for i in range(a[0]) for j in range(a[0])], b)
    if n in ("logical_not", "invert", "bitwise_not"):
        return arr(0).map(lambda x: not R.truth(x), "bool")
    if n == "reduce" and len(a) >= 1 and not set(k) - {"axis", "keepdims"}:
        op = path.split(".")[-2]
        x, ax = arr(0), k.get("axis", a[1] if len(a) > 1 else 0)
        b = isb(x)
        if op.startswith("bitwise") and isinstance(a[0], (list, tuple)) and not a[0]:
            raise Raised("TypeError")       # an empty list is an array of floats
        if op in ("logical_and", "logical_or") or b and op in ("bitwise_and", "bitwise_or"):
            f = (lambda l: all([R.truth(v) for v in l])) if op.endswith("and") else (lambda l: any([R.truth(v) for v in l]))
            r = along(R, x, ax, f, k.get("keepdims", False))
            return Nd(r.shape, r.flat, "bool") if isinstance(r, Nd) else r
        if op in ("logical_xor", "bitwise_xor") and (b or op == "logical_xor"):
            return along(R, x, ax, lambda l: sum(bool(R.truth(v)) for v in l) % 2 == 1, k.get("keepdims", False))
        if op in ("add", "multiply"):
            return along(R, x, ax, lambda l: total(R, l) if op == "add" else times(R, l), k.get("keepdims", False))
        if op in ("maximum", "minimum"):
            return along(R, x, ax, lambda l: extreme(R, l, op == "maximum"), k.get("keepdims", False))
        return NotImplemented
    if n in ("bitwise_and", "bitwise_or", "bitwise_xor") and len(a) == 2:
        x, y = arr(0), arr(1)
        if isb(x) and isb(y):
            f = {"bitwise_and": lambda x, y: x and y, "bitwise_or": lambda x, y: x or y, "bitwise_xor": lambda x, y: x != y}[n]
            return zipped(lambda x, y: f(R.truth(x), R.truth(y)), x, y, "bool")
        op = {"bitwise_and": "&", "bitwise_or": "|", "bitwise_xor": "^"}[n]
        return zipped(lambda x, y: R.binop(op, x, y), x, y)
    if n in ("logical_and", "logical_or", "logical_xor"):
        f = {"logical_and": lambda x, y: x and y, "logical_or": lambda x, y: x or y, "logical_xor": lambda x, y: x != y}[n]
        return zipped(lambda x, y: f(R.truth(x), R.truth(y)), arr(0), arr(1), "bool")
    if n in ("add", "subtract", "multiply", "true_divide", "divide", "power", "floor_divide", "mod"):
        op = {"add": "+", "subtract": "-", "multiply": "*", "true_divide": "/", "divide": "/", "power": "**", "floor_divide": "//", "mod": "%"}[n]
        return zipped(lambda x, y: R.binop(op, x, y), arr(0), arr(1))
    if n in ("equal", "not_equal", "less", "greater", "less_equal", "greater_equal"):
        op = {"equal": "==", "not_equal": "!=", "less": "<", "greater": ">", "less_equal": "<=", "greater_equal": ">="}[n]
        return zipped(lambda x, y: R.cmp(op, x, y), arr(0), arr(1), "bool")
    if n == "ndindex" and all(isinstance(x, int) for x in a):
        return list(product(*[range(m) for m in a]))
    if n == "dtype" and len(a) == 1 and isinstance(a[0], list) and not k:
        return T("dtype of records", len(a[0]))
    if n in ("result_type", "min_scalar_type", "dtype"):
        return T("dtype")
    if not a or not isinstance(a[0], (Nd, list, tuple)):
        return NotImplemented
    if n in REDUCE:
        return method(R, arr(0), n, a[1:], k)
    if n in ("alltrue", "sometrue"):
        return method(R, arr(0), "all" if n == "alltrue" else "any", a[1:], k)
    if n in ("concatenate", "vstack", "hstack", "stack", "column_stack", "append"):
        parts = [asarray(R, x) for x in (R.iterate(a[0]) if n != "append" else a[:2])]
        ax = opt(a, k, 2 if n == "append" else 1, "axis", 0)
        if n == "append" and opt(a, k, 2, "axis") is None:
            parts = [Nd((len(x.flat),), x.flat) for x in parts]
        if n == "vstack":
            parts = [x if len(x.shape) > 1 else Nd((1,) * (2 - len(x.shape)) + x.shape, x.flat) for x in parts]
        if n == "hstack":
            parts = [x if x.shape else Nd((1,), x.flat) for x in parts]
            ax = 0 if len(parts[0].shape) == 1 else 1
        if n == "column_stack":
            parts = [x if len(x.shape) > 1 else Nd(x.shape + (1,), x.flat) for x in parts]
            ax = 1
        if n == "stack":
            m = len(parts[0].shape) + 1
            parts = [Nd(x.shape[:ax % m] + (1,) + x.shape[ax % m:], x.flat) for x in parts]
            ax %= m
        return concatenate(parts, ax)
    if n in ("take", "compress"):
        return take(R, arr(0), a[1], opt(a, k, 2, "axis"))
    if n == "delete":
        x, ax = arr(0), opt(a, k, 2, "axis")
        if ax is None:
            x, ax = Nd((len(x.flat),), x.flat, x.dtype), 0
        m = x.shape[ax]
        d = asarray(R, a[1] if not isinstance(a[1], slice) else list(range(m))[a[1]])
        gone = [i for i in range(m) if i < len(d.flat) and d.flat[i]] if isb(d) else [i % m for i in d.flat]
        return take(R, x, Nd((m - len(set(gone)),), [i for i in range(m) if i not in gone]), ax)
    if n in ("flatnonzero", "nonzero", "argwhere") or n == "where" and len(a) == 1:
        x = arr(0)
        hits = [key for key in x.keys() if R.truth(x.get(key))]
        if n == "flatnonzero":
            return Nd((len(hits),), [x.pos(h) for h in hits])
        if n == "argwhere":
            return Nd((len(hits), len(x.shape)), [i for h in hits for i in h])
        return tuple(Nd((len(hits),), [h[d] for h in hits]) for d in range(len(x.shape)))
    if n == "where" and len(a) == 3:
        x, y, z = arr(0), arr(1), arr(2)
        sh = broadcast([x.shape, y.shape, z.shape])
        return Nd(sh, [q if R.truth(p) else r for p, q, r in zip(expand(x, sh).flat, expand(y, sh).flat, expand(z, sh).flat)])
    if n == "transpose":
        return transpose(arr(0), opt(a, k, 1, "axes"))
    if n in ("ravel", "reshape"):
        return method(R, arr(0), n, a[1:], k)
    if n == "swapaxes":
        x = arr(0)
        ax = list(range(len(x.shape)))
        ax[a[1]], ax[a[2]] = ax[a[2]], ax[a[1]]
        return transpose(x, ax)
    if n == "moveaxis" and isinstance(a[1], int):
        x = arr(0)
        m = len(x.shape)
        ax = [i for i in range(m) if i != a[1] % m]
        ax.insert(a[2] % m, a[1] % m)
        return transpose(x, ax)
    if n == "expand_dims":
        x = arr(0)
        d = opt(a, k, 1, "axis") % (len(x.shape) + 1)
        return Nd(x.shape[:d] + (1,) + x.shape[d:], x.flat, x.dtype)
    if n == "squeeze":
        x, ax = arr(0), opt(a, k, 1, "axis")
        return Nd([m for i, m in enumerate(x.shape) if m != 1 or ax is not None and i != ax % len(x.shape)], x.flat, x.dtype)
    if n in ("unique",) and not set(k) - {"axis", "return_index", "return_inverse", "return_counts"}:
        return unique(R, arr(0), k)
    if n == "argsort" and not set(k) - {"kind", "axis"} and len(arr(0).shape) == 1:
        return Nd(arr(0).shape, order(R, [(x,) for x in arr(0).flat]))
    if n == "sort" and len(arr(0).shape) == 1 and not set(k) - {"kind", "axis"}:
        x = arr(0)
        return Nd(x.shape, [x.flat[i] for i in order(R, [(y,) for y in x.flat])])
    if n == "lexsort":
        cols = [asarray(R, x).flat for x in R.iterate(a[0])]
        return Nd((len(cols[0]),), order(R, list(zip(*cols[::-1]))))
    if n == "array_equiv":
        x, y = arr(0), asarray(R, a[1])
        try:
            sh = broadcast([x.shape, y.shape])
        except Raised:
            return False
        return all([R.eq(p, q) for p, q in zip(expand(x, sh).flat, expand(y, sh).flat)])
    if n in ("isclose", "allclose") and len(a) >= 2 and any(isinstance(x, (Nd, list, tuple)) for x in a[:2]):
        def near(x, y):
            if isinstance(x, (int, bool)) and isinstance(y, (int, bool)):
                return x == y
            if isinstance(x, Sym) or isinstance(y, Sym):
                return R.truth(R.cmp("==", x, y))
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                return abs(x - y) <= 1e-8
            raise Und("comparison of numbers")
        r = zipped(near, arr(0), arr(1), "bool")
        return r if n == "isclose" else all(asarray(R, r).flat)
    if n in ("array_equal",):
        x, y = arr(0), arr(1)
        return x.shape == y.shape and all([R.eq(p, q) for p, q in zip(x.flat, y.flat)])
    if n in ("isin", "in1d"):
        y = asarray(R, list(R.iterate(a[1])) if isinstance(a[1], (FSet, dict)) else a[1])
        inv = k.get("invert", False)
        return arr(0).map(lambda x: any([R.eq(x, z) for z in y.flat]) != inv, "bool")
    if n in ("setdiff1d", "intersect1d", "union1d"):
        x, y = arr(0), asarray(R, a[1] if isinstance(a[1], (Nd, list, tuple)) else list(R.iterate(a[1])))
        inn = lambda v, l: any([R.eq(v, z) for z in l])
        vs = [v for v in x.flat if inn(v, y.flat) == (n[0] == "i")] if n[0] != "u" else x.flat + y.flat
        return unique(R, Nd((len(vs),), vs), {})
    if n == "cumsum":
        out, s = [], 0
        for x in arr(0).flat:
            s = R.arith("+", s, int(x) if isinstance(x, bool) else x)
            out.append(s)
        return Nd((len(out),), out)
    if n in ("argmax", "argmin") and len(a) == 1 and not k:
        f = arr(0).flat
        best = 0
        for i in range(1, len(f)):
            if R.lt(f[best], f[i]) if n == "argmax" else R.lt(f[i], f[best]):
                best = i
        return best
    if n in ("minimum", "maximum", "fmin", "fmax"):
        r = zipped(lambda x, y: extreme(R, [x, y], n in ("maximum", "fmax")), arr(0), arr(1))
        out = k.get("out", a[2] if len(a) > 2 else None)
        if out is None:
            return r
        if not isinstance(out, Nd) or out.shape != r.shape:
            raise Raised("ValueError")
        for p, v in enumerate(r.flat):
            out.put(p, v)
        return out
    if n == "ndindex":
        sh = shapeof(a[0] if len(a) == 1 else tuple(a))
        if any(not isinstance(m, int) for m in sh):
            raise Und("shape")
        return list(product(*[range(m) for m in sh]))
    if n == "pad" and opt(a, k, 2, "mode", "constant") == "constant":
        x, w, c = arr(0), asarray(R, a[1]), k.get("constant_values", 0)
        if any(not isinstance(v, int) for v in w.flat) or not num(c):
            raise Und("pad")
        w = expand(w, (len(x.shape), 2))
        sh = tuple(m + w.get((i, 0)) + w.get((i, 1)) for i, m in enumerate(x.shape))
        inside = lambda key: all(w.get((i, 0)) <= q < w.get((i, 0)) + x.shape[i] for i, q in enumerate(key))
        return Nd(sh, [x.get(tuple(q - w.get((i, 0)) for i, q in enumerate(key))) if inside(key) else c for key in product(*[range(m) for m in sh])], x.dtype)
    if n == "unravel_index":
        x, sh = arr(0), shapeof(a[1])
        if any(not isinstance(v, int) or not 0 <= v < prod(sh) for v in x.flat):
            raise Raised("ValueError")
        out = []
        for d in range(len(sh)):
            step = prod(sh[d + 1:])
            out.append(Nd(x.shape, [v // step % sh[d] for v in x.flat]))
        return tuple(out)
    if n == "ravel_multi_index":
        xs, sh = [asarray(R, x) for x in R.iterate(a[0])], shapeof(a[1])
        t = Nd(xs[0].shape, [0] * len(xs[0].flat))
        for x, m in zip(xs, sh):
            t = zipped(lambda p, q: p * m + q, t, x)
        return t
    if n in ("ix_",):
        ars = [asarray(R, x) for x in a]
        return tuple(Nd((1,) * i + x.shape + (1,) * (len(ars) - i - 1), x.flat) for i, x in enumerate(ars))
    if n in ("triu", "tril") and len(arr(0).shape) == 2:
        x, d = arr(0), opt(a, k, 1, "k", 0)
        zero = False if isb(x) else 0
        return Nd(x.shape, [x.get(c) if (c[1] - c[0] >= d if n == "triu" else c[1] - c[0] <= d) else zero for c in x.keys()], x.dtype)
    if n in ("flip", "flipud") and len(arr(0).shape) >= 1 and "axis" not in k and len(a) == 1:
        return arr(0).item(R, (slice(None, None, -1),) * (len(arr(0).shape) if n == "flip" else 1))
    if n == "repeat" and isinstance(a[1], int) and opt(a, k, 2, "axis") is None:
        f = [x for x in arr(0).flat for _ in range(a[1])]
        return Nd((len(f),), f)
    if n == "dot" or n == "matmul":
        return dot(R, arr(0), arr(1))
    if n == "shape":
        return arr(0).shape
    if n == "ndim":
        return len(arr(0).shape)
    if n == "size":
        return prod(arr(0).shape)
    return NotImplemented


def dot(R, x, y):
    if len(x.shape) > 2 or len(y.shape) > 2 or not x.shape or not y.shape or x.shape[-1] != y.shape[0]:
        raise Und("product of arrays")
    bools = isb(x) and isb(y)
    rows = [x.flat] if len(x.shape) == 1 else [x.flat[i * x.shape[1]:(i + 1) * x.shape[1]] for i in range(x.shape[0])]
    cols = [y.flat] if len(y.shape) == 1 else [y.flat[j::y.shape[1]] for j in range(y.shape[1])]
    f = (lambda r, c: any([R.truth(p) and R.truth(q) for p, q in zip(r, c)])) if bools else lambda r, c: total(R, [R.arith("*", p, q) for p, q in zip(r, c)])
    v = [f(r, c) for r in rows for c in cols]
    sh = x.shape[:-1] + y.shape[1:]
    return Nd(sh, v, "bool" if bools else None) if sh else v[0]


def concatenate(parts, ax):
    n = len(parts[0].shape)
    if not n or any(len(p.shape) != n for p in parts):
        raise Raised("ValueError")
    ax %= n
    if len({p.shape[:ax] + p.shape[ax + 1:] for p in parts}) > 1:
        raise Raised("ValueError")
    sh = parts[0].shape[:ax] + (sum(p.shape[ax] for p in parts),) + parts[0].shape[ax + 1:]
    out = []
    fl = [p.flat for p in parts]
    inner = prod(sh[ax + 1:])
    for o in range(prod(sh[:ax])):
        for p, f in zip(parts, fl):
            w = p.shape[ax] * inner
            out += f[o * w:(o + 1) * w]
    return Nd(sh, out, "bool" if all(isb(p) for p in parts) else None)


class Sorted(Nd):
    """distinct values in ascending order; the order is only decided when it is looked at"""
    def __init__(self, R, vals, dtype):
        self.R, self.vals, self.done = R, vals, None
        self.shape, self.dtype, self.frozen = (len(vals),), dtype, False

    @property
    def flat(self):
        if self.done is None:
            self.done = [self.vals[i] for i in order(self.R, [(v,) for v in self.vals])]
        return self.done


def unique(R, x, k):
    axis = k.get("axis")
    if axis is None and not any(k.values()) and any(isinstance(v, Sym) for v in x.flat):
        return Sorted(R, R.distinct(x.flat), x.dtype)
    rows = [(v,) for v in x.flat] if axis is None else None
    if axis is not None:
        if axis % len(x.shape):
            x2 = transpose(x, [axis] + [i for i in range(len(x.shape)) if i != axis])
        else:
            x2 = x
        w = prod(x2.shape[1:])
        rows = [tuple(x2.flat[i * w:(i + 1) * w]) for i in range(x2.shape[0])]
    idx = order(R, rows)
    reps, inv, cnt = [], [0] * len(rows), []
    for i in idx:
        if reps and all([R.eq(p, q) for p, q in zip(rows[reps[-1]], rows[i])]):
            cnt[-1] += 1
        else:
            reps.append(i)
            cnt.append(1)
        inv[i] = len(reps) - 1
    if axis is None:
        u = Nd((len(reps),), [rows[i][0] for i in reps], x.dtype)
    else:
        u = Nd((len(reps),) + x2.shape[1:], [v for i in reps for v in rows[i]], x.dtype)
        if axis % len(x.shape):
            raise Und("unique along a later axis")
    out = [u]
    for key, v in (("return_index", reps), ("return_inverse", inv), ("return_counts", cnt)):
        if k.get(key):
            out.append(Nd((len(v),), v))
    return tuple(out) if len(out) > 1 else u


class Sym(Native):
    """an unknown integer, at least `lo`; a path decides which unknowns are equal and, if asked, their order"""
    def __init__(self, name, lo=1):
        self.name, self.lo = name, lo

    def __repr__(self):
        return self.name

    def classes(self, R):
        if not hasattr(R, "symbols"):
            R.symbols = dict(parent={}, diff=set(), order=[])
        return R.symbols

    def find(self, R):
        p = self.classes(R)["parent"]
        x = self
        while p.get(x, x) is not x:
            x = p[x]
        return x

    def equals(self, R, o):
        if isinstance(o, bool) or not isinstance(o, (Sym, int)):
            raise Und("comparison of an index")
        if isinstance(o, int):
            if o < self.lo:
                return False
            o = const(R, o)
        s = self.classes(R)
        a, b = self.find(R), o.find(R)
        if a is b:
            return True
        if isinstance(a, Const) and isinstance(b, Const):
            return False
        if any({x.find(R), y.find(R)} == {a, b} for x, y in s["diff"]):
            return False
        if R.boolean("same index", tuple(sorted((a.name, b.name)))):
            lo, hi = (a, b) if not isinstance(a, Const) else (b, a)
            if a in s["order"] and b in s["order"]:
                raise Und("equality of ordered indices")
            if lo in s["order"]:
                lo, hi = hi, lo
            if isinstance(lo, Const):
                raise Und("equality of ordered indices")
            s["parent"][lo] = hi
            return True
        s["diff"].add((a, b))
        return False

    def less(self, R, o, swapped):
        if isinstance(o, int) and not isinstance(o, bool):
            if o < self.lo:
                return swapped
            o = const(R, o)
        if not isinstance(o, Sym):
            raise Und("order of an index")
        if self.equals(R, o):
            return False
        order = self.classes(R)["order"]
        for x in (self.find(R), o.find(R)):
            if x in order:
                continue
            if any([x.equals(R, y) for y in list(order)]):
                continue
            k = 0
            while k < len(order) and not before(R, x, order[k]):
                k += 1
            order.insert(k, x)
        i, j = order.index(self.find(R)), order.index(o.find(R))
        return j < i if swapped else i < j

    def compare(self, R, op, o):
        if isinstance(o, Nd):
            return o.compare(R, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op), self)
        if op in ("==", "!="):
            return (isinstance(o, (Sym, int)) and self.equals(R, o)) == (op == "==")
        l = self.less(R, o, op in (">", "<="))
        return l if op in ("<", ">") else not l

    def truth(self, R):
        if self.lo > 0:
            return True
        return not self.equals(R, 0)

    def arith(self, R, op, o, swapped):
        if isinstance(o, Nd):
            return o.arith(R, op, self, not swapped)
        if op == "-" and isinstance(o, (Sym, int)) and not isinstance(o, bool):
            if isinstance(o, int) and o < self.lo:
                return self if o == 0 and not swapped else Offset(self, o) if not swapped else Offset(self, o)
            return Gap(self, o)
        if num(o) and (o == 0 and op in "+-" and not swapped or o == 1 and op == "*" or o == 0 and op == "+"):
            return self
        if op == "*" and num(o) and o == 0:
            return 0
        raise Und("arithmetic on an index")


class Const(Sym):
    def __init__(self, v):
        super().__init__(str(v), v)
        self.value = v


def const(R, v):
    s = Sym("", 0).classes(R)
    return s.setdefault("consts", {}).setdefault(v, Const(v))


def before(R, x, y):
    if isinstance(x, Const) and isinstance(y, Const):
        return x.value < y.value
    if isinstance(y, Const) and x.lo > y.value or isinstance(x, Const) and y.lo > x.value:
        return isinstance(x, Const)
    return R.boolean("order of indices", (x.name, y.name))


class Gap(Native):
    """difference of two unknown integers: only whether it vanishes is known"""
    def __init__(self, a, b):
        self.a, self.b = a, b

    def truth(self, R):
        return not R.cmp("==", self.a, self.b)

    def compare(self, R, op, o):
        if op in ("==", "!=") and o == 0:
            return R.cmp("==", self.a, self.b) == (op == "==")
        raise Und("comparison of a difference")


class Offset(Gap):
    """an unknown index minus a constant below its least value"""
    def compare(self, R, op, o):
        if isinstance(o, Offset) and o.b == self.b:
            return R.cmp(op, self.a, o.a)
        return super().compare(R, op, o)
