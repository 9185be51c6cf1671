"""Sparse matrices for the finite-path interpreter: the stored entries of a coordinate matrix, in order, with concrete positions and abstract values."""
from sa.finite import Native, Hook, Und, Raised, Arr, Ext, num

MAKERS = {"coo_array": "coo", "coo_matrix": "coo", "csr_array": "csr", "csr_matrix": "csr", "csc_array": "csc", "csc_matrix": "csc", "lil_array": "lil", "lil_matrix": "lil",
          "dok_array": "dok", "dok_matrix": "dok"}
FORMATS = {"tocoo": "coo", "tocsr": "csr", "tocsc": "csc", "tolil": "lil", "todok": "dok"}


class Coo(Native):
    def __init__(self, entries, shape, fmt="coo"):
        """entries: [row, column, value]"""
        self.entries, self.shape, self.fmt = [list(e) for e in entries], tuple(shape), fmt

    @property
    def entries(self):
        return [list(t) for t in zip(*[[v.data[(p,)] for p in v.axes[0]] for v in self.vecs])]

    @entries.setter
    def entries(self, es):
        self.vecs = [Arr.of([e[i] for e in es], "coo") for i in range(3)]

    def __repr__(self):
        return f"{self.fmt}{self.shape}{self.entries[:4]}"

    def cells(self, R):
        """value of every position that has an entry; entries of one position are added"""
        d = {}
        for r, c, v in self.entries:
            d[(r, c)] = R.arith("+", d[(r, c)], v) if (r, c) in d else v
        return d

    def merged(self, R, fmt):
        d = self.cells(R)
        key = (lambda k: k) if fmt != "csc" else (lambda k: k[::-1])
        return Coo([[r, c, d[(r, c)]] for r, c in sorted(d, key=key)], self.shape, fmt)

    def to(self, R, fmt):
        if fmt == self.fmt:
            return self
        return Coo(self.entries, self.shape, "coo") if fmt == "coo" else self.merged(R, fmt)

    def attr(self, R, n):
        if n in ("row", "col", "data") and self.fmt == "coo" or n == "data" and self.fmt in ("csr", "csc"):
            return self.vecs[("row", "col", "data").index(n)]
        if n == "coords" and self.fmt == "coo":
            return (self.attr(R, "row"), self.attr(R, "col"))
        if n == "rows" and self.fmt == "lil":
            return [[c for r, c, _ in self.entries if r == i] for i in range(self.shape[0])]
        if n == "data" and self.fmt == "lil":
            return [[v for r, _, v in self.entries if r == i] for i in range(self.shape[0])]
        if n == "indices" and self.fmt in ("csr", "csc"):
            return Arr.of([e[1 if self.fmt == "csr" else 0] for e in self.entries], n)
        if n == "indptr" and self.fmt in ("csr", "csc"):
            j = 0 if self.fmt == "csr" else 1
            return Arr.of([sum(1 for e in self.entries if e[j] < i) for i in range(self.shape[j] + 1)], n)
        if n == "shape":
            return self.shape
        if n == "ndim":
            return 2
        if n in ("nnz", "size"):
            return len(self.entries)
        if n == "format":
            return self.fmt
        if n == "T":
            return Coo([[c, r, v] for r, c, v in self.entries], self.shape[::-1], {"csr": "csc", "csc": "csr"}.get(self.fmt, "coo"))
        if n == "dtype":
            return Ext("float")
        return Hook(lambda R, *a, **k: self.method(R, n, list(a), k))

    def setattr(self, R, n, v):
        if n in ("data", "row", "col") and self.fmt == "coo":
            vs = R.iterate(v)
            if len(vs) != len(self.entries):
                raise Und("entries of another length")
            self.vecs[("row", "col", "data").index(n)] = Arr.of(vs, "coo")
            return
        raise Und(f"attribute {n} of a sparse matrix")

    def method(self, R, n, a, k):
        if n in FORMATS:
            return self.to(R, FORMATS[n])
        if n == "asformat":
            f = a[0] if a else k.get("format")
            if f is None:
                return self
            if not isinstance(f, str):
                raise Und("format of a sparse matrix")
            return self.to(R, f)
        if n == "copy":
            return Coo(self.entries, self.shape, self.fmt)
        if n == "transpose" and not a:
            return self.attr(R, "T")
        if n == "resize":
            s = tuple(R.iterate(a[0])) if len(a) == 1 else tuple(a)
            if any(r >= s[0] or c >= s[1] for r, c, _ in self.entries):
                raise Und("smaller sparse matrix")
            self.shape = s
            return None
        if n == "sum_duplicates":
            m = self.merged(R, self.fmt)
            self.entries = m.entries
            return None
        if n in ("toarray", "todense"):
            d = self.cells(R)
            return R.asarr([R.asarr([d.get((i, j), 0) for j in range(self.shape[1])]) for i in range(self.shape[0])])
        if n == "nonzero":
            es = [e for e in self.entries if R.truth(e[2])]
            return (Arr.of([e[0] for e in es], "row"), Arr.of([e[1] for e in es], "col"))
        if n == "eliminate_zeros":
            self.entries = [e for e in self.entries if R.truth(e[2])]
            return None
        if n == "count_nonzero":
            return sum(1 for e in self.entries if R.truth(e[2]))
        if n == "items" and self.fmt == "dok":
            return [((r, c), v) for r, c, v in self.entries]
        if n == "astype":
            return Coo(self.entries, self.shape, self.fmt)
        raise Und(f"method {n} of a sparse matrix")

    def item(self, R, i):
        if self.fmt == "coo":
            raise Raised("TypeError")
        if isinstance(i, tuple) and len(i) == 2 and all(isinstance(x, int) for x in i):
            return self.cells(R).get(i, 0)
        if isinstance(i, int) and self.fmt in ("csr", "lil"):
            return Coo([[0, c, v] for r, c, v in self.entries if r == i], (1, self.shape[1]), self.fmt)
        raise Und("subscript of a sparse matrix")

    def setitem(self, R, i, v):
        if isinstance(i, tuple) and len(i) == 2 and all(isinstance(x, int) for x in i) and self.fmt != "coo":
            self.entries = [e for e in self.entries if (e[0], e[1]) != i] + [[i[0], i[1], v]]
            return
        raise Und("item assignment on a sparse matrix")

    def arith(self, R, op, o, swapped):
        if op == "*" and (num(o) or hasattr(o, "terms")):
            return Coo([[r, c, R.arith("*", v, o)] for r, c, v in self.entries], self.shape, self.fmt)
        raise Und(f"operator {op} on a sparse matrix")

    def truth(self, R):
        raise Raised("ValueError")


def ints(R, v):
    l = R.iterate(v)
    l = [int(x) if isinstance(x, float) and x == int(x) else x for x in l]
    if not all(isinstance(x, int) for x in l):
        raise Und("positions of a sparse matrix")
    return l


def make(R, fmt, a, k):
    x = a[0]
    shape = k.get("shape", a[1] if len(a) > 1 else None)
    if isinstance(x, Coo):
        return Coo(x.entries, x.shape).to(R, fmt) if x.fmt != fmt else Coo(x.entries, x.shape, fmt)
    if isinstance(x, tuple) and len(x) == 2 and all(isinstance(y, int) for y in x):
        return Coo([], x, fmt)
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], (tuple, list)) and len(x[1]) == 2:
        data, rows, cols = R.iterate(x[0]), ints(R, x[1][0]), ints(R, x[1][1])
        if not len(data) == len(rows) == len(cols):
            raise Raised("ValueError")
        if shape is None:
            if not rows:
                raise Raised("ValueError")
            shape = (max(rows) + 1, max(cols) + 1)
        shape = tuple(R.iterate(shape))
        if any(not isinstance(s, int) for s in shape):
            raise Und("shape of a sparse matrix")
        if any(r >= shape[0] or c >= shape[1] or r < 0 or c < 0 for r, c in zip(rows, cols)):
            raise Raised("ValueError")
        m = Coo(zip(rows, cols, data), shape)
        return m if fmt == "coo" else m.to(R, fmt)
    raise Und("construction of a sparse matrix")


def stack(R, blocks, fmt, down):
    bs = R.iterate(blocks)
    if not all(isinstance(b, Coo) for b in bs) or not bs:
        return NotImplemented
    j = 1 if down else 0
    if len({b.shape[j] for b in bs}) > 1:
        raise Raised("ValueError")
    es, at = [], 0
    for b in bs:
        es += [[r + at, c, v] if down else [r, c + at, v] for r, c, v in b.entries]
        at += b.shape[1 - j]
    m = Coo(es, (at, bs[0].shape[1]) if down else (bs[0].shape[0], at))
    return m.to(R, fmt) if isinstance(fmt, str) else m


def ext(R, n, path, a, k):
    if n in MAKERS:
        return make(R, MAKERS[n], a, k)
    if n in ("vstack", "hstack") and a and isinstance(a[0], (tuple, list)) and any(isinstance(b, Coo) for b in a[0]):
        return stack(R, a[0], a[1] if len(a) > 1 else k.get("format"), n == "vstack")
    if n in ("issparse", "isspmatrix"):
        return isinstance(a[0], Coo)
    if n == "isinstance":
        cs = a[1] if isinstance(a[1], tuple) else (a[1],)
        if all(isinstance(c, Ext) for c in cs):
            return any(kind(a[0], c.path.rsplit(".", 1)[-1]) for c in cs)
        return NotImplemented
    if n == "type" and len(a) == 1 and isinstance(a[0], (Coo, dict, list, tuple, str)):
        return Ext("builtins." + type(a[0]).__name__ if not isinstance(a[0], Coo) else f"scipy.sparse.{a[0].fmt}_array")
    if n == "hasattr" and a[1] == "__iter__":
        return isinstance(a[0], (list, tuple, dict, str, Arr, Coo)) or (NotImplemented if isinstance(a[0], Native) else False)
    if n == "itemgetter":
        return Hook(lambda R, x: R.getitem(x, a[0]) if len(a) == 1 else tuple(R.getitem(x, i) for i in a))
    if n == "repeat" and len(a) == 2 and isinstance(a[1], int) and not k:
        return Arr.of([x for x in (R.iterate(a[0]) if not num(a[0]) else [a[0]]) for _ in range(a[1])], "repeat")
    if n == "tile" and len(a) == 2 and isinstance(a[1], int) and isinstance(a[0], (Arr, list, tuple)):
        return Arr.of(list(R.iterate(a[0])) * a[1], "tile")
    if n in ("fromiter",):
        return Arr.of(R.iterate(a[0]), "fromiter")
    if n == "starmap":
        return [R.call(a[0], list(R.iterate(x)), {}) for x in R.iterate(a[1])]
    if n == "from_iterable" and "chain" in path:
        return [y for x in R.iterate(a[0]) for y in R.iterate(x)]
    return NotImplemented


def kind(v, name):
    if isinstance(v, Coo):
        base = {"spmatrix": True, "sparray": True}.get(name, MAKERS.get(name) == v.fmt)
        return base
    if name in ("dict", "OrderedDict", "defaultdict", "Mapping"):
        return isinstance(v, dict)
    if name in ("list", "tuple", "str"):
        return isinstance(v, {"list": list, "tuple": tuple, "str": str}[name])
    if name == "ndarray":
        return isinstance(v, Arr)
    if isinstance(v, (dict, list, tuple, str, Arr, Coo)) or v is None:
        return False
    if name in ("int", "float", "Number", "Real", "number", "integer", "floating", "bool"):
        if isinstance(v, bool):
            return name in ("bool", "int", "Number", "Real")
        if isinstance(v, int):
            return name in ("int", "Number", "Real")
        if isinstance(v, float):
            return name in ("float", "Number", "Real")
    if symbolic_number(v):
        if name in ("Number", "Real", "Complex", "float"):
            return True
        if name in ("Symbol", "Expr", "Basic", "Integral"):
            return False
    raise Und("isinstance")


def symbolic_number(v):
    return type(v).__name__ == "Real"
