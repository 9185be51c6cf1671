"""Models of builtins, container methods, numpy, scipy.sparse and string formatting.

Anything not modelled is a pure function of its arguments that may raise.
"""
import ast, operator as _op, string as _string
from .values import *

LIST_NAMES = {"moment_equalities", "moment_inequalities", "extra_equalities", "extra_inequalities",
              "minimal_equalities", "minimal_inequalities", "moment_equalities_by_name",
              "moment_inequalities_by_name", "equalities", "inequalities", "moments", "monomials",
              "raw_monomials", "factors", "atomic_monomials", "generating_monomials", "columns"}
ARRAY_NAMES = {"data", "row", "col", "as_2dndarray", "as_lexmon", "momentmatrix", "signature", "objective_vector"}
ALIAS_ATTRS = {"T", "flat", "real", "A", "A1"}
META_ATTRS = {"shape", "nnz", "size", "ndim", "dtype", "itemsize", "nbytes", "maxlen"}
ALIAS_CONST = set()
NAN = float("nan")
EXT_CONST = {}
for _m in ("numpy", "math"):
    EXT_CONST[_m + ".inf"] = C(float("inf")); EXT_CONST[_m + ".nan"] = C(NAN)
    EXT_CONST[_m + ".pi"] = C(3.141592653589793)
EXT_CONST["numpy.newaxis"] = NONE
EXT_CONST["numpy.Inf"] = EXT_CONST["numpy.infty"] = C(float("inf"))

STR_METHODS = {"join", "format", "replace", "split", "rsplit", "strip", "lstrip", "rstrip", "lower", "upper", "startswith",
               "endswith", "encode", "title", "capitalize", "splitlines", "zfill", "ljust", "rjust", "center", "isdigit",
               "isnumeric", "isalpha", "find", "partition", "rpartition", "removeprefix", "removesuffix", "count", "index"}
MUT_METHODS = {"append", "extend", "insert", "pop", "popitem", "popleft", "appendleft", "remove", "clear", "sort", "reverse",
               "add", "discard", "update", "difference_update", "intersection_update", "symmetric_difference_update",
               "setdefault", "fill", "put", "resize", "itemset", "setflags", "partition", "sum_duplicates",
               "eliminate_zeros", "setdiag", "rotate", "extendleft", "sort_indices", "prune"}
PURE_METHODS = {"get", "items", "keys", "values", "copy", "union", "intersection", "difference", "symmetric_difference",
                "issubset", "issuperset", "isdisjoint", "index", "count", "elements", "most_common", "astype", "ravel",
                "reshape", "flatten", "tolist", "tobytes", "view", "sum", "prod", "min", "max", "mean", "any", "all", "dot",
                "toarray", "todense", "tocoo", "tocsr", "tocsc", "tolil", "todok", "asformat", "nonzero", "argmax", "argmin",
                "argsort", "transpose", "squeeze", "take", "repeat", "round", "conj", "conjugate", "item", "cumsum", "trace",
                "diagonal", "multiply", "getrow", "getcol", "swapaxes", "clip", "searchsorted", "power", "maximum", "minimum",
                "tostring", "byteswap", "compress", "choose", "std", "var", "getnnz", "count_nonzero", "hex", "is_integer"}
BUILTINS = {"len", "range", "abs", "sorted", "set", "frozenset", "list", "tuple", "dict", "zip", "enumerate", "map", "filter",
            "sum", "min", "max", "any", "all", "isinstance", "issubclass", "type", "hasattr", "getattr", "setattr", "delattr",
            "iter", "next", "print", "str", "float", "int", "bool", "complex", "reversed", "locals", "globals", "open",
            "repr", "round", "divmod", "pow", "id", "hash", "vars", "dir", "callable", "chr", "ord", "format", "object",
            "super", "property", "staticmethod", "classmethod", "bytes", "bytearray", "slice", "memoryview", "input", "hex",
            "bin", "oct", "eval", "exec", "NotImplemented", "Exception", "KeyError", "ValueError", "TypeError",
            "AttributeError", "IndexError", "NotImplementedError", "RuntimeError", "StopIteration", "AssertionError",
            "ImportError", "ModuleNotFoundError", "UserWarning", "Warning", "DeprecationWarning", "ArithmeticError",
            "ZeroDivisionError", "OverflowError", "LookupError", "OSError", "FileNotFoundError", "Ellipsis", "__import__"}
PYOPS = {ast.Add: _op.add, ast.Sub: _op.sub, ast.Mult: _op.mul, ast.Div: _op.truediv, ast.FloorDiv: _op.floordiv,
         ast.Mod: _op.mod, ast.BitAnd: _op.and_, ast.BitOr: _op.or_, ast.BitXor: _op.xor, ast.LShift: _op.lshift,
         ast.RShift: _op.rshift}
PYCMP = {ast.Lt: _op.lt, ast.LtE: _op.le, ast.Gt: _op.gt, ast.GtE: _op.ge}


def _pow(a, b):
    if abs(a) < 1e6 and abs(b) < 16:
        return a ** b
    raise ValueError


PYOPS[ast.Pow] = _pow


def is_method_name(n):
    return n in STR_METHODS or n in MUT_METHODS or n in PURE_METHODS


def is_plain_attr(n):
    return n in ("data", "row", "col", "value", "x", "fun", "success", "message", "status")


def wrapk(l):
    return l[0] if l and isinstance(l[0], str) and l[0].startswith("@") else None


def wrap(ls, k):
    return frozenset(l if l[0] == k else (k, l) for l in ls)


def unwrap(ls, k):
    return frozenset(l[1] if l[0] == k and len(l) > 1 and isinstance(l[1], tuple) else l for l in ls)


def is_len(v):
    return bool(v.d) and not v.c and all(l[0] == "@len" or l[0] == "@shape" or l[0] == "@size" or l[0] == "@nnz" for l in v.d)


def is_abs(v):
    return bool(v.d) and not v.c and all(l[0] == "@abs" for l in v.d)


def wrap_terms(ts, k, coef=lambda x: None):
    return frozenset(Term(coef(t.k), slabels(l if wrapk(l) == k else (k, l) for l in t.l), t.g) for t in ts)


def tyname(I, st, v):
    for f in v.fn:
        if f[0] == "type?":
            return f
        if f[0] == "ext" and f[1].startswith("builtins."):
            return ("type", f[1])
        if f[0] == "cls":
            return ("type", f[1].name if f[1] else "?")
        if f[0] == "ext":
            return ("type", f[1])
    return None


# ------------------------------------------------------------------ helpers
def boolv(d, form):
    return V(u=True, d=d, cond=form)


def copy_elems(I, st, v, kind, node, tags=E, extra=None):
    """new container of `kind` with the elements of v"""
    it = I.exact_items(st, v)
    if it is not None and (kind != "set" or all(x.const for x in it)):
        return I.new_list(st, node, it, kind=kind, extra=extra, tags=tags)
    ents = {}
    for x, gs in I.elements(st, v):
        K = ("e", x)
        ents[K] = (None, x, gs if K not in ents else norm_gs(gs | ents[K][2]))
    r = I.new_list(st, node, ents=ents, kind=kind, extra=extra, tags=tags)
    # remember what it was made of, even if no element is known
    return r.with_(d=v.d, u=v.u and not v.r and not v.f)


def merge_ents(I, st, vs):
    ents = {}
    for v in vs:
        for x, gs in I.elements(st, v):
            K = ("e", x)
            ents[K] = (None, x, gs if K not in ents else norm_gs(gs | ents[K][2]))
    return ents


def set_op(I, st, opn, a, others, node):
    d = I.deps(st, a)
    ents = {}
    if opn in ("union", "symmetric_difference"):
        ents = merge_ents(I, st, [a] + list(others))
        for o in others: d |= I.deps(st, o)
        if all(I.exact_items(st, x) is not None for x in [a] + list(others)) and opn == "union":
            items = []
            for x in [a] + list(others):
                for y in I.exact_items(st, x):
                    if y not in items: items.append(y)
            if all(y.const for y in items):
                return I.new_list(st, node, items, kind="set", extra=("so", opn))
    else:
        pol = opn == "intersection"
        for x, gs in I.elements(st, a):
            guards = set()
            skip = False
            for o in others:
                r = I.compare(st, ast.In(), x, o, node)
                t = I.truth(st, r)
                if t is not None and t != pol:
                    skip = True
                elif t is None:
                    f = I.formula(st, r, node)
                    guards |= (I.split(f)[0] if pol else I.split(f)[1])
            if skip:
                continue
            g2 = frozenset(g | frozenset(guards) for g in gs)
            K = ("e", x)
            ents[K] = (None, x, g2 if K not in ents else norm_gs(g2 | ents[K][2]))
        for o in others: d |= I.deps(st, o)
    ks = {I.get(st, o).kind for o in a.r}
    return I.new_list(st, node, ents=ents, kind="set", extra=("so", opn, node_id(node))).with_(d=d)


def node_id(n):
    return (getattr(n, "lineno", 0), getattr(n, "col_offset", 0))


def deep_arr(I, st, v, node):
    """a copied array: same contents, nothing shared"""
    if v.r:
        r = frozenset()
        seen = {}
        for o in v.r:
            r |= I.copy_obj(st, o, node, True, seen).r
        return v.with_(r=r, cond=None)
    return v.with_(cond=None)


def to_array(I, st, v, node, copy=True):
    """np.array / np.asarray"""
    out = BOT
    for o in v.r:
        ob = I.get(st, o)
        if ob.kind in ("sym", "array", "coo"):
            x = I.ref(o, v.d).with_(f=v.f)
            if copy and ob.kind != "coo":
                x = deep_arr(I, st, x, node)
            out = vjoin(out, x)
        elif ob.kind == "inst":
            out = vjoin(out, I.ref(o))
        else:
            ents = {}
            for x, gs in I.elements(st, I.ref(o)):
                inner = I.exact_items(st, x)
                ents[("e", x)] = (None, x, gs)
            out = vjoin(out, I.new_list(st, node, ents=ents, kind="array", extra=("arr", o)))
    if v.f or v.u or v.c or v.tok:
        if not v.r:
            out = vjoin(out, V(c=v.c, f=v.f, d=v.d, u=v.u, tok=v.tok))
    if out is BOT:
        out = unk(v.d)
    return out if v.d <= out.d else out.with_(d=out.d | v.d)


def numeric(I, st, vs, coef=None, u=False, extra_d=E):
    f, d = set(), set(extra_d)
    for v in vs:
        f |= I.num(st, v); d |= I.deps(st, v); u = u or I.unkn(st, v)
    if coef is not None:
        f = {Term(coef(t.k), t.l, t.g) for t in f}
    return I.nv(norm_terms(frozenset(f)), frozenset(d), u)


def flat_elems(I, st, v, depth=0):
    """numeric values inside v, keeping references to objects"""
    return numeric(I, st, [v])


def alldeps(I, st, args, kwargs, *more):
    d = set()
    for a in list(args) + list(kwargs.values()) + [m for m in more if m is not None]:
        d |= I.deps(st, a)
    return frozenset(d)


def mkcoo(I, st, node, data, row, col, shape=None, extra="coo"):
    i = I.new_id(node, extra)
    at = {"data": data, "row": row, "col": col}
    if shape is not None:
        at["shape"] = shape
    st.heap[i] = Obj("coo", attrs=at)
    return I.ref(i, I.deps(st, data) | I.deps(st, row) | I.deps(st, col))


def as_coo_parts(I, st, v, node):
    """(data, row, col) of anything matrix-like"""
    data = row = col = BOT
    for o in v.r:
        ob = I.get(st, o)
        if ob.kind == "coo":
            data = vjoin(data, ob.attrs["data"]); row = vjoin(row, ob.attrs["row"]); col = vjoin(col, ob.attrs["col"])
        elif ob.kind == "sym":
            data = vjoin(data, I.getattr(st, I.ref(o), "data", node)); row = vjoin(row, I.getattr(st, I.ref(o), "row", node))
            col = vjoin(col, I.getattr(st, I.ref(o), "col", node))
        else:
            x = numeric(I, st, [I.ref(o)])
            ix = unk(x.d)
            data = vjoin(data, x); row = vjoin(row, ix); col = vjoin(col, ix)
    if not v.r:
        data, row, col = V(f=v.f, d=v.d, u=v.u, c=frozenset(c for c in v.c if c[0] in ("int", "float"))), unk(v.d), unk(v.d)
    return data, row, col


# ------------------------------------------------------------------ external calls
TRANSPARENT = {"hstack", "vstack", "concatenate", "stack", "column_stack", "dstack", "ravel", "sum", "nansum", "take", "repeat",
               "tile", "broadcast_to", "pad", "delete", "sort", "flipud", "fliplr", "flip", "triu", "tril", "atleast_1d",
               "atleast_2d", "expand_dims", "squeeze", "transpose", "reshape", "unique", "insert", "append", "roll",
               "diag", "block", "float64", "float32", "full_like", "ascontiguousarray", "real", "array_split", "split",
               "maximum", "minimum", "max", "min", "amax", "amin", "mean", "cumsum", "setdiff1d", "intersect1d", "union1d",
               "nan_to_num", "fromiter", "swapaxes", "moveaxis", "rot90", "resize", "compress", "extract", "choose"}
ZEROS = {"zeros", "zeros_like", "empty", "empty_like"}
ALIASFN = {"asarray", "asanyarray", "ravel", "reshape", "transpose", "squeeze", "atleast_1d", "expand_dims", "broadcast_to"}


def call_ext(I, st, name, args, kwargs, node, star=None, dstar=None, deps=E):
    for suf, h in I.ext_hooks.items():
        if name == suf or name.endswith("." + suf) or name.endswith(suf) and suf.startswith("()"):
            r = h(I, st, name, args, kwargs, node, deps)
            if r is not None:
                return r
    if star is not None:
        args = list(args) + [star]
    if name.startswith("builtins."):
        r = call_builtin(I, st, name[9:], args, kwargs, node, star)
        if r is not None:
            return r
    parts = name.split(".")
    root, last = parts[0], parts[-1]
    if "()" not in name:
        if root == "numpy":
            r = call_numpy(I, st, parts, last, args, kwargs, node)
            if r is not None:
                return r
        elif root == "scipy" and "sparse" in parts:
            r = call_sparse(I, st, parts, last, args, kwargs, node)
            if r is not None:
                return r
        r = call_std(I, st, name, parts, last, args, kwargs, node, star)
        if r is not None:
            return r
    d = alldeps(I, st, args, kwargs, star, dstar) | deps
    I.may_raise(st, "ext")
    I.emit(st, "ext", node, name=name, args=list(args), kwargs=dict(kwargs), deps=deps)
    for a in list(args) + list(kwargs.values()):
        # callables handed to the outside may be called
        for f in a.fn:
            if f[0] == "clo":
                try:
                    s2 = st.copy()
                    I.call1(s2, f, [UNK] * len(f[1].node.args.args), {}, node, None, None, a)
                    I.assign_state(st, I.join(st, s2))
                except Exception:
                    pass
    if len(name) > 160:
        name = name[:157] + "..."
    return V(u=True, d=d, fn=frozenset([("exti", name + "()", d)]))


def lens(I, st, v):
    it = I.exact_items(st, v)
    if it is not None:
        ks = {I.get(st, o).kind for o in v.r}
        if ks <= {"list", "tuple", "iter"} or all(x.const for x in it):
            return C(len(it))
    if v.only_c and all(t in ("str", "tuple", "list", "set", "frozenset") for t, x in v.c):
        return V(c=frozenset(("int", len(x)) for t, x in v.c), d=v.d)
    for o in v.r:
        ob = I.get(st, o)
        if ob.cls is not None:
            m = I.p.lookup(ob.cls, "__len__")
            if m:
                return I.call_func(st, m, [I.ref(o)], {}, node_of(I))
    d = v.d if v.r and all(I.issym(o) for o in v.r) and v.d else I.deps(st, v)
    if not d:
        d = frozenset([("@obj",) + tuple(sorted(map(str, v.r)))])
    return V(u=True, d=wrap(d, "@len"))


def node_of(I):
    return I.stack[-1][1] if I.stack else None


def type_test(I, st, v, tnames, classes, node, d):
    poss = set()
    for t, x in v.c:
        poss.add(any(t == n or (t == "bool" and n == "int") or n == "object" for n in tnames))
    for o in v.r:
        ob = I.get(st, o)
        if ob.cls is not None:
            poss.add(any(k in I.p.mro(ob.cls) for k in classes) or "object" in tnames)
        elif ob.kind in ("list", "tuple", "set", "dict"):
            poss.add(ob.kind in tnames or (ob.kind == "dict" and bool({"Mapping", "MutableMapping", "Counter", "defaultdict", "OrderedDict"} & tnames))
                     or "Iterable" in tnames or (ob.kind in ("list", "tuple") and "Sequence" in tnames))
        elif ob.kind == "coo":
            poss.add(bool({"coo_array", "spmatrix", "coo_matrix", "sparray"} & tnames))
        elif ob.kind == "array":
            poss.add("ndarray" in tnames)
        else:
            poss |= {True, False}
    if v.f and not v.r or v.u:
        poss |= {True, False}
    if v.fn:
        poss |= {True, False}
    if v.tok is not None:
        poss.add("str" in tnames)
    if len(poss) == 1:
        return C(poss.pop()).with_(d=d)
    return boolv(d, ("atom", "type", d, ",".join(sorted(tnames | {k.name for k in classes}))))


def any_all(I, st, v, isany, node):
    it = I.exact_items(st, v)
    d = I.deps(st, v)
    if it is not None:
        ts = [I.truth(st, x) for x in it]
        if isany:
            if any(t is True for t in ts): return TRUE.with_(d=d)
            if all(t is False for t in ts): return FALSE.with_(d=d)
        else:
            if any(t is False for t in ts): return FALSE.with_(d=d)
            if all(t is True for t in ts): return TRUE.with_(d=d)
        forms = [I.formula(st, x, node) for x, t in zip(it, ts) if t is None]
        return boolv(d, forms[0] if len(forms) == 1 else (("or" if isany else "and"),) + tuple(forms))
    forms = set()
    for x, gs in I.elements(st, v):
        t = I.truth(st, x)
        if t is None:
            forms.add(fstr(x.cond) if x.cond is not None else "?")
    if v.cond is not None:
        forms.add(fstr(v.cond))
    return boolv(d, ("atom", "any" if isany else "all", d, tuple(sorted(forms))))


def indexv(I, st, v, start=0):
    d = I.deps(st, v)
    L = ("@index",) + ((slabels(v.d)[0],) if v.d else (("anon",),))
    ts = {Term(1, (L,), E)}
    if start:
        ts.add(Term(start, (), E))
    return V(f=frozenset(ts), d=frozenset([L]))


def call_builtin(I, st, n, args, kwargs, node, star=None):
    A = args
    def ad():
        return alldeps(I, st, A, kwargs)
    if n == "len" and A:
        return lens(I, st, A[0])
    if n in ("list", "tuple", "set", "frozenset"):
        k = "set" if n == "frozenset" else n
        if not A:
            return I.new_list(st, node, (), kind=k)
        tags = E
        for o in A[0].r:
            ob = st.heap.get(o)
            if ob is not None:
                tags |= ob.tags & {"sorted", "fromset"} | ({"fromset"} if ob.kind == "set" else E)
        return copy_elems(I, st, A[0], k, node, tags=tags)
    if n == "dict":
        i = I.new_id(node, "dict")
        st.heap[i] = Obj("dict")
        d = E
        if A:
            if len(A[0].r) == 1 and not kwargs:
                o = next(iter(A[0].r))
                ob = I.get(st, o)
                if ob.kind == "sym":
                    return I.copy_obj(st, o, node)
                if ob.kind == "dict":
                    st.heap[i] = ob.mut()
                    return I.ref(i, A[0].d)
            for k, x, gs in I.pairs(st, A[0], node):
                ob = st.heap[i]
                ents = dict(ob.ents)
                if k in ents and not k.const:
                    x = vjoin(ents[k][1], x); gs = norm_gs(gs | ents[k][2])
                ents[k] = (k, x, gs)
                st.heap[i] = ob.mut(ents=ents)
            d = A[0].d
        for k, x in kwargs.items():
            ob = st.heap[i]
            st.heap[i] = ob.mut(ents={**ob.ents, C(k): (C(k), x, EE)})
        return I.ref(i, d)
    if n == "sorted":
        return copy_elems_unordered(I, st, A[0], node, frozenset(["sorted"]))
    if n in ("reversed", "iter"):
        if n == "reversed":
            it = I.exact_items(st, A[0])
            if it is not None and "set" not in {I.get(st, o).kind for o in A[0].r}:
                return I.new_list(st, node, tuple(reversed(it)), kind="iter")
            return copy_elems(I, st, A[0], "iter", node)
        if len(A) == 2:
            return unk(ad())
        return A[0] if not A[0].only_c else copy_elems(I, st, A[0], "iter", node)
    if n == "next":
        I.may_raise(st, "StopIteration")
        x = I.elem(st, A[0])
        if x is BOT: x = unk(A[0].d)
        if len(A) > 1: x = vjoin(x, A[1])
        return x.with_(d=x.d | A[0].d)
    if n == "zip":
        its = [I.exact_items(st, a) for a in A]
        if A and all(x is not None for x in its):
            m = min(len(x) for x in its)
            return I.new_list(st, node, [I.new_list(st, node, [x[j] for x in its], kind="tuple", extra=("z", j)) for j in range(m)], kind="iter")
        els = [I.elements(st, a) for a in A]
        ents = {}
        cnt = {len(e) for e in els if len(e) != 1}
        m = max([len(e) for e in els] or [0])
        if len(cnt) <= 1:
            for j in range(m):
                row = [e[j] if len(e) > 1 else (e[0] if e else (UNK, EE)) for e in els]
                t = I.new_list(st, node, [x for x, g in row], kind="tuple", extra=("z", j))
                gs = EE
                for x, g in row:
                    gs = frozenset(p | q for p in gs for q in g)
                ents[("e", t)] = (None, t, norm_gs(gs))
        else:
            t = I.new_list(st, node, [I.elem(st, a) for a in A], kind="tuple", extra=("z", 0))
            ents[("e", t)] = (None, t, EE)
        return I.new_list(st, node, ents=ents, kind="iter").with_(d=ad() if any(a.d for a in A) else E)
    if n == "enumerate":
        start = 0
        sv = A[1] if len(A) > 1 else kwargs.get("start")
        if sv is not None:
            start = sv.const[1] if sv.const and isinstance(sv.const[1], int) else None
        it = I.exact_items(st, A[0])
        if it is not None and start is not None and "set" not in {I.get(st, o).kind for o in A[0].r}:
            return I.new_list(st, node, [I.new_list(st, node, [C(j + start), x], kind="tuple", extra=("en", j)) for j, x in enumerate(it)], kind="iter")
        ents = {}
        for j, (x, gs) in enumerate(I.elements(st, A[0])):
            ix = indexv(I, st, A[0], start or 0)
            if start is None:
                ix = numeric(I, st, [ix, sv])
            t = I.new_list(st, node, [ix, x], kind="tuple", extra=("en", j))
            ents[("e", t)] = (None, t, gs)
        return I.new_list(st, node, ents=ents, kind="iter").with_(d=A[0].d)
    if n in ("map", "filter"):
        ents, items, exact = {}, [], True
        its = [I.exact_items(st, a) for a in A[1:]]
        rows = None
        if all(x is not None for x in its) and its:
            rows = [(list(r), EE) for r in zip(*its)]
        else:
            exact = False
            els = [I.elements(st, a) for a in A[1:]]
            m = max([len(e) for e in els] or [0])
            rows = []
            for j in range(m):
                row = [e[min(j, len(e) - 1)] if e else (UNK, EE) for e in els]
                gs = EE
                for x, g in row: gs = frozenset(p | q for p in gs for q in g)
                rows.append(([x for x, g in row], gs))
        saved = I.iters
        for j, (r, gs) in enumerate(rows[:40]):
            I.iters = saved + ((("x", j)) if exact else (node_id(node), j),)
            fv = A[0]
            if n == "filter":
                if fv.const and fv.const[0] == "NoneType":
                    res = r[0]
                else:
                    res = I.call(st, fv, r, {}, node)
                t = I.truth(st, res)
                if t is False: continue
                if t is None:
                    exact = False
                    g2 = I.split(I.formula(st, res, node))[0]
                    gs = frozenset(g | g2 for g in gs)
                res = r[0]
            else:
                if gs != EE:
                    pc0 = st.pc
                    st.pc = pc0 | I.gs_guard(gs)
                    res = I.call(st, fv, r, {}, node); st.pc = pc0
                else:
                    res = I.call(st, fv, r, {}, node)
            items.append(res)
            ents[("e", res)] = (None, res, gs if ("e", res) not in ents else norm_gs(gs | ents[("e", res)][2]))
        I.iters = saved
        if exact:
            return I.new_list(st, node, items, kind="iter")
        return I.new_list(st, node, ents=ents, kind="iter")
    if n == "sum":
        return numeric(I, st, A)
    if n in ("min", "max"):
        vs = A if len(A) > 1 else [A[0]]
        if all(v.only_c for v in vs) and len(vs) > 1 and all(v.const for v in vs):
            try:
                return C((min if n == "min" else max)(v.const[1] for v in vs))
            except Exception:
                pass
        if len(vs) == 1:
            x = I.elem(st, vs[0])
            if x.r:
                return vjoin(x, kwargs.get("default", BOT)).with_(cond=None)
            r = numeric(I, st, [x if x is not BOT else vs[0]])
            return r if r.f else unk(ad())
        out = BOT
        for v in vs: out = vjoin(out, v)
        return out.with_(cond=None, d=ad())
    if n in ("any", "all"):
        return any_all(I, st, A[0], n == "any", node)
    if n == "abs":
        v = A[0]
        if v.only_c and all(t in ("int", "float") for t, x in v.c):
            return V(c=frozenset((t, abs(x)) for t, x in v.c), d=v.d)
        return V(f=wrap_terms(I.num(st, v), "@abs", lambda k: abs(k) if k is not None else None), d=wrap(I.deps(st, v), "@abs"), u=I.unkn(st, v))
    if n == "isinstance" and len(A) == 2:
        tn, cl, ok = type_names(I, st, A[1])
        d = I.deps(st, A[0])
        if not ok:
            return boolv(d, ("atom", "type", d, "?"))
        return type_test(I, st, A[0], tn, cl, node, d)
    if n == "issubclass":
        return boolv(ad(), ("atom", "type", ad(), "sub"))
    if n == "type" and len(A) == 1:
        v = A[0]
        if v.only_c and len({t for t, x in v.c}) == 1:
            t = next(iter(v.c))[0]
            return V(fn=frozenset([("ext", "builtins." + t)]))
        if len(v.r) == 1 and not v.f and not v.u:
            ob = I.get(st, next(iter(v.r)))
            if ob.cls is not None: return V(fn=frozenset([("cls", ob.cls)]))
            if ob.kind in ("list", "tuple", "set", "dict"): return V(fn=frozenset([("ext", "builtins." + ob.kind)]))
        return V(fn=frozenset([("type?", slabels(I.deps(st, v)))]), d=I.deps(st, v))
    if n == "callable":
        return boolv(ad(), ("atom", "type", ad(), "callable"))
    if n == "hasattr":
        k = A[1].const
        poss = set()
        for o in A[0].r:
            ob = I.get(st, o)
            if ob.cls is not None and k:
                if k[1] in ob.attrs:
                    poss.add(not is_absent_only(ob.attrs[k[1]]) if ("absent", None) not in ob.attrs[k[1]].c or is_absent_only(ob.attrs[k[1]]) else None)
                elif I.p.lookup(ob.cls, k[1]): poss.add(True)
                elif I.issym(o): poss.add(None)
                else: poss.add(False)
            else:
                poss.add(None)
        if len(poss) == 1 and None not in poss:
            return C(poss.pop())
        one = (next(iter(A[0].r)),) if k and len(A[0].r) == 1 and not A[0].u and not A[0].c else ()
        return boolv(ad(), ("not", ("atom", "absentattr", I.deps(st, A[0]) if not k else E, k[1] if k else "?") + one))
    if n in ("getattr", "setattr", "delattr"):
        names = [x for t, x in A[1].c if t == "str"]
        if not names or A[1].u or A[1].f:
            I.unknowns.append((n + " with unknown name", I.where(node)))
            return unk(ad())
        if n == "getattr":
            outs = BOT
            for nm in sorted(names):
                if len(A) > 2:
                    form = ("atom", "absentattr", E, nm)
                    known = None
                    for o in A[0].r:
                        ob = I.get(st, o)
                        if nm in ob.attrs and is_absent_only(ob.attrs[nm]): known = False
                        elif nm in ob.attrs and ("absent", None) not in ob.attrs[nm].c: known = True
                        elif ob.cls is not None and nm not in ob.attrs and I.p.lookup(ob.cls, nm) is None and not I.issym(o): known = False
                        elif ob.cls is not None and I.p.lookup(ob.cls, nm): known = True
                    if known is False:
                        x = A[2]
                    else:
                        tr, I.tries = I.tries, []
                        try:
                            x = I.getattr(st, A[0], nm, node)
                        finally:
                            I.tries = tr
                        if known is None:
                            x = vjoin(x, A[2], (form, False), (form, True))
                else:
                    x = I.getattr(st, A[0], nm, node)
                outs = vjoin(outs, x)
            return outs
        if n == "setattr":
            if len(names) == 1:
                I.setattr(st, A[0], names[0], A[2], node)
            else:
                acc = None
                for nm in sorted(names):
                    s = st.copy(); I.setattr(s, A[0], nm, A[2], node); acc = I.join(acc, s)
                I.assign_state(st, acc)
            return NONE
        for nm in names:
            I.delattr(st, A[0], nm, node)
        return NONE
    if n in ("str", "repr"):
        if not A: return C("")
        v = A[0]
        if v.tok is not None: return v
        if v.only_c and len(v.c) <= 8 and all(t in ("str", "int", "bool", "NoneType") for t, x in v.c):
            return V(c=frozenset(("str", str(x) if n == "str" else repr(x)) for t, x in v.c), d=v.d)
        if len(v.r) == 1:
            ob = I.get(st, next(iter(v.r)))
            m = ob.cls and (I.p.lookup(ob.cls, "__str__") if n == "str" else None) or ob.cls and I.p.lookup(ob.cls, "__repr__")
            if m:
                return I.call_func(st, m, [I.ref(next(iter(v.r)))], {}, node)
        return I.mkstr(I.fmt_part(st, v, ""), I.deps(st, v))
    if n == "format":
        spec = A[1].const[1] if len(A) > 1 and A[1].const else ""
        return I.mkstr(I.fmt_part(st, A[0], spec), I.deps(st, A[0]))
    if n in ("float", "complex"):
        if not A: return C(0.0)
        v = A[0]
        if v.const and v.const[0] in ("int", "float"): return C(float(v.const[1])).with_(d=v.d)
        I.may_raise(st, "ValueError"); I.may_raise(st, "TypeError")
        return numeric(I, st, [v]) if (v.f or v.r) else (v if v.only_c else unk(v.d))
    if n == "int":
        if not A: return C(0)
        v = A[0]
        if v.const and v.const[0] in ("int", "bool"): return C(int(v.const[1]))
        I.may_raise(st, "ValueError"); I.may_raise(st, "TypeError")
        return V(f=wrap_terms(I.num(st, v), "@int", lambda k: k), d=I.deps(st, v), u=v.u or not v.f)
    if n == "bool":
        t = I.truth(st, A[0]) if A else False
        if t is not None: return C(t)
        return boolv(I.deps(st, A[0]), I.formula(st, A[0], node) if not A[0].r or A[0].cond else ("not", ("atom", "empty", I.deps(st, A[0]))))
    if n == "range":
        ks = [a.const for a in A]
        if all(k and k[0] == "int" for k in ks):
            r = range(*[k[1] for k in ks])
            if len(r) <= 40:
                return I.new_list(st, node, [C(j) for j in r], kind="iter")
        x = V(f=frozenset([Term(1, (("@index",) + (slabels(ad())[:1] or (("anon",),)),), E)]), d=ad(), u=True)
        return I.new_list(st, node, ents={("e", x): (None, x, EE)}, kind="iter")
    if n in ("print", "id", "dir", "input"):
        return NONE if n == "print" else unk(ad())
    if n == "vars" and A and len(A[0].r) == 1:
        return V(fn=frozenset([("dictof", next(iter(A[0].r)))]))
    if n == "hash":
        v = A[0]
        for o in v.r:
            ob = I.get(st, o)
            m = ob.cls and I.p.lookup(ob.cls, "__hash__")
            if m: return I.call_func(st, m, [I.ref(o)], {}, node)
        return unk(I.deps(st, v))
    if n == "locals":
        fid = I.cur().fid
        env = st.frames.get(fid, {})
        i = I.new_id(node, "locals")
        st.heap[i] = Obj("dict", ents={C(k): (C(k), v, EE) for k, v in env.items() if not k.startswith("$")})
        return I.ref(i)
    if n == "round":
        v = A[0]
        return V(f=wrap_terms(I.num(st, v), "@round", lambda k: k), d=I.deps(st, v), u=I.unkn(st, v))
    if n == "open":
        I.emit(st, "ext", node, name="builtins.open", args=list(A), kwargs=dict(kwargs), deps=E)
        I.may_raise(st, "ext")
        return V(fn=frozenset([("exti", "builtins.open()", alldeps(I, st, A, {}))]))
    if n == "object" or n in ("bytes", "bytearray"):
        return unk(ad())
    if n in ("chr", "ord") and A and A[0].const:
        try:
            return C((chr if n == "chr" else ord)(A[0].const[1]))
        except Exception:
            return unk()
    if n in ("chr", "ord", "divmod", "pow", "slice", "hex", "bin"):
        return unk(ad())
    if n in ("property", "staticmethod", "classmethod"):
        return A[0] if A else UNK
    if n.endswith("Error") or n in ("Exception", "Warning", "UserWarning"):
        return unk(ad())
    return None


def copy_elems_unordered(I, st, v, node, tags):
    it = I.exact_items(st, v)
    if it is not None and all(x.const for x in it):
        try:
            return I.new_list(st, node, [C(x) for x in sorted(y.const[1] for y in it)], tags=tags)
        except Exception:
            pass
    if it is not None and len(it) <= 1:
        return I.new_list(st, node, it, tags=tags)
    ents = merge_ents(I, st, [v])
    return I.new_list(st, node, ents=ents, tags=tags).with_(d=v.d)


def type_names(I, st, v):
    tn, cl, ok = set(), [], True
    vals = [v]
    it = I.exact_items(st, v)
    if it is not None:
        vals = list(it)
    for x in vals:
        hit = False
        for f in x.fn:
            if f[0] == "ext":
                tn.add(f[1].split(".")[-1]); hit = True
            elif f[0] == "cls" and f[1] is not None:
                cl.append(f[1]); hit = True
        ok = ok and hit
    return tn, cl, ok


# ------------------------------------------------------------------ standard library
def call_std(I, st, name, parts, last, args, kwargs, node, star):
    A = args
    root = parts[0]
    if last == "reduce" and root in ("functools",):
        f, seq = A[0], A[1]
        it = I.exact_items(st, seq)
        acc = A[2] if len(A) > 2 else None
        if it is not None and len(it) <= 40:
            for x in it:
                acc = x if acc is None else I.call(st, f, [acc, x], {}, node)
            return acc if acc is not None else UNK
        for x, gs in I.elements(st, seq):
            if acc is None:
                acc = x
                r = I.call(st, f, [acc, x], {}, node)
                acc = vjoin(acc, r)
            else:
                pc0 = st.pc; st.pc = pc0 | I.gs_guard(gs)
                r = I.call(st, f, [acc, x], {}, node)
                st.pc = pc0
                acc = vjoin(acc, r)
        return acc if acc is not None else unk(seq.d)
    if last == "partial" and root == "functools":
        return V(fn=frozenset([("partial", A[0], tuple(A[1:]), tuple(kwargs.items()))]), d=E)
    if last in ("lru_cache", "cache", "wraps", "cached_property", "total_ordering", "jit", "njit", "vectorize_") or root == "numba":
        if A and any(f[0] in ("fn", "m", "clo", "ext") for f in A[0].fn) and last in ("lru_cache", "cache", "jit", "njit", "cached_property"):
            return A[0]
        return V(fn=frozenset([("deco", last)]))
    if name in ("operator.itemgetter",):
        keys = tuple(A)
        inexact = star is not None
        return V(fn=frozenset([("itemgetter", keys, inexact)]))
    if name == "operator.attrgetter":
        return V(fn=frozenset([("bm", V(c=frozenset([("tuple", tuple(a.const[1] for a in A if a.const))])), "$attrgetter")]))
    if root == "operator" and len(parts) == 2:
        m = {"add": ast.Add(), "sub": ast.Sub(), "mul": ast.Mult(), "truediv": ast.Div(), "or_": ast.BitOr(), "and_": ast.BitAnd(),
             "iadd": ast.Add(), "matmul": ast.MatMult(), "concat": ast.Add()}
        if last in m and len(A) == 2:
            return I.binop(st, m[last], A[0], A[1], node)
        c = {"eq": ast.Eq(), "ne": ast.NotEq(), "lt": ast.Lt(), "le": ast.LtE(), "gt": ast.Gt(), "ge": ast.GtE(), "is_": ast.Is(), "is_not": ast.IsNot()}
        if last in c and len(A) == 2:
            return I.compare(st, c[last], A[0], A[1], node)
        if last == "contains":
            return I.compare(st, ast.In(), A[1], A[0], node)
        if last == "neg":
            return V(f=I.scale(I.num(st, A[0]), -1), d=I.deps(st, A[0]), u=I.unkn(st, A[0]))
        if last == "getitem":
            return I.getitem(st, A[0], A[1], node)
        return None
    if root == "itertools":
        if last == "chain" or name.endswith("chain.from_iterable"):
            if last == "from_iterable":
                it = I.exact_items(st, A[0])
                vs = list(it) if it is not None else [x for x, gs in I.elements(st, A[0])]
                if it is None:
                    ents = {}
                    for x, gs in I.elements(st, A[0]):
                        for y, g2 in I.elements(st, x):
                            gg = norm_gs(frozenset(p | q for p in gs for q in g2))
                            K = ("e", y)
                            ents[K] = (None, y, gg if K not in ents else norm_gs(gg | ents[K][2]))
                    return I.new_list(st, node, ents=ents, kind="iter").with_(d=A[0].d)
            else:
                vs = A
            its = [I.exact_items(st, v) for v in vs]
            if all(x is not None for x in its):
                return I.new_list(st, node, [y for x in its for y in x], kind="iter")
            return I.new_list(st, node, ents=merge_ents(I, st, vs), kind="iter")
        if last == "product" or last.startswith("combinations") or last.startswith("permutations"):
            if last == "product":
                rep = kwargs.get("repeat")
                if rep is not None:
                    if rep.const and rep.const[0] == "int" and len(A) == 1 and rep.const[1] <= 4:
                        row = [I.elem(st, A[0])] * rep.const[1]
                        t = I.new_list(st, node, row, kind="tuple", extra="p")
                    else:
                        x = I.elem(st, A[0]) if A else UNK
                        t = I.new_list(st, node, ents={("e", x): (None, x, EE)}, kind="tuple", extra="p")
                else:
                    t = I.new_list(st, node, [I.elem(st, a) for a in A], kind="tuple", extra="p")
            else:
                k = A[1].const if len(A) > 1 else None
                x = I.elem(st, A[0])
                if k and k[0] == "int" and k[1] <= 4:
                    t = I.new_list(st, node, [x] * k[1], kind="tuple", extra="p")
                else:
                    t = I.new_list(st, node, ents={("e", x): (None, x, EE)}, kind="tuple", extra="p")
            return I.new_list(st, node, ents={("e", t): (None, t, EE)}, kind="iter").with_(d=alldeps(I, st, A, kwargs))
        if last == "repeat":
            return I.new_list(st, node, ents={("e", A[0]): (None, A[0], EE)}, kind="iter")
        if last == "count":
            x = V(f=frozenset([Term(1, (("@index", ("anon",)),), E)]), u=True)
            return I.new_list(st, node, ents={("e", x): (None, x, EE)}, kind="iter")
        if last in ("islice", "takewhile", "dropwhile"):
            v = A[0] if last == "islice" else A[1]
            d = alldeps(I, st, A, kwargs)
            g = (("atom", "partial", d, (I.cur().mod.rel, node.lineno, node.col_offset)), True)
            ents = {("e", x): (None, x, frozenset(p | {g} for p in gs)) for x, gs in I.elements(st, v)}
            return I.new_list(st, node, ents=ents, kind="iter")
        if last == "accumulate":
            return unk(alldeps(I, st, A, kwargs))
        return None
    if root == "collections":
        if last == "Counter":
            i = I.new_id(node, "counter")
            ents = {}
            if A:
                for x, gs in I.elements(st, A[0]):
                    ents[x] = (x, unk(I.deps(st, x)), gs)
            st.heap[i] = Obj("dict", ents=ents, attrs={"$default": C(0)})
            return I.ref(i, A[0].d if A else E)
        if last in ("defaultdict", "OrderedDict"):
            i = I.new_id(node, "ddict")
            at = {}
            src = A[1:] if last == "defaultdict" else A
            if last == "defaultdict" and A:
                at["$factory"] = A[0]
            st.heap[i] = Obj("dict", attrs=at)
            for v in src:
                I.extend(st, i, v, node)
            return I.ref(i)
        if last == "deque":
            return copy_elems(I, st, A[0], "list", node) if A else I.new_list(st, node, (), kind="list")
        if last == "namedtuple":
            return unk(alldeps(I, st, A, kwargs))
        return None
    if name in ("copy.copy", "copy.deepcopy"):
        v = A[0]
        if not v.r:
            return v
        out = v.with_(r=E)
        r = frozenset()
        seen = {}
        for o in v.r:
            ob = I.get(st, o)
            m = ob.cls and I.p.lookup(ob.cls, "__copy__" if last == "copy" else "__deepcopy__")
            if m:
                x = I.call_func(st, m, [I.ref(o)], {}, node)
                r |= x.r
            else:
                r |= I.copy_obj(st, o, node, last == "deepcopy", seen).r
        return out.with_(r=r)
    if root in ("warnings", "gc", "logging", "time") or name.startswith("sys.std"):
        return unk()
    if root == "math":
        if last == "isclose" and len(A) >= 2:
            return np_isclose(I, st, A, node)
        if last in ("fabs",):
            return call_builtin(I, st, "abs", A, kwargs, node)
        if last in ("prod",):
            return numeric(I, st, A, coef=lambda k: None)
        if last in ("fsum",):
            return numeric(I, st, A)
        if last == "isnan":
            d = I.deps(st, A[0]); return boolv(d, ("atom", "nan", d))
        return unk(alldeps(I, st, A, kwargs))
    if last == "tqdm" or last == "trange" or name.endswith("tqdm.tqdm"):
        v = A[0] if A else kwargs.get("iterable", UNK)
        return v
    return None


# ------------------------------------------------------------------ numpy
def np_isclose(I, st, A, node):
    d = I.deps(st, A[0]) | I.deps(st, A[1])
    for x, y in ((A[0], A[1]), (A[1], A[0])):
        k = y.const
        if k and k[0] in ("int", "float", "bool") and k[1] == 0:
            return boolv(d, ("atom", "zero", lbl(I, st, x)))
    if (A[0].const or A[1].const):
        k = A[0].const or A[1].const
        return boolv(d, ("atom", "eq", d, repr(k[1])))
    return boolv(d, ("atom", "eq", d, tuple(sorted((I.vsig(st, A[0]), I.vsig(st, A[1]))))))


def lbl(I, st, v):
    return I.deps(st, v)


def np_mut(I, st, v, node, how, val=UNK):
    for o in v.r:
        I.emit(st, "mut", node, oid=o, how=how, val=val)


def call_numpy(I, st, parts, last, args, kwargs, node):
    A = args
    d = alldeps(I, st, A, kwargs)
    if "out" in kwargs:
        np_mut(I, st, kwargs["out"], node, "out=")
    if len(parts) >= 3 and last in ("reduce", "accumulate", "outer", "at") and parts[1] not in ("linalg", "random"):
        if last == "at":
            np_mut(I, st, A[0], node, "ufunc.at", A[-1]); return NONE
        if parts[1] in ("add",):
            return numeric(I, st, A[:1])
        if parts[1] == "subtract" and last == "outer":
            return I.binop(st, ast.Sub(), A[0], A[1], node)
        if parts[1] == "multiply" and last == "outer":
            return I.binop(st, ast.Mult(), A[0], A[1], node)
        return unk(d)
    if last in ("array", "asarray", "asanyarray", "ascontiguousarray"):
        if not A: return UNK
        v = to_array(I, st, A[0], node, copy=(last == "array" and not (kwargs.get("copy") and kwargs["copy"].const and kwargs["copy"].const[1] is False)))
        dt = A[1] if len(A) > 1 else kwargs.get("dtype")
        return v
    if last in ZEROS:
        return I.new_list(st, node, ents={}, kind="array")
    if last in ("ones", "ones_like"):
        return I.new_list(st, node, ents={("e", C(1)): (None, C(1), EE)}, kind="array")
    if last in ("full", "full_like"):
        x = A[1] if len(A) > 1 else kwargs.get("fill_value", UNK)
        return I.new_list(st, node, ents={("e", x): (None, x, EE)}, kind="array")
    if last in ("eye", "identity"):
        return I.new_list(st, node, ents={("e", C(1)): (None, C(1), EE)}, kind="array")
    if last in ("abs", "absolute", "fabs"):
        return call_builtin(I, st, "abs", A, kwargs, node)
    if last in ("round", "around", "rint", "floor", "ceil"):
        return V(f=wrap_terms(I.num(st, A[0]), "@round", lambda k: k), d=d, u=I.unkn(st, A[0]))
    if last in ("isclose", "allclose") and len(A) >= 2:
        return np_isclose(I, st, A, node)
    if last in ("array_equal", "array_equiv"):
        return I.compare(st, ast.Eq(), numarr(I, st, A[0]), numarr(I, st, A[1]), node) if len(A) > 1 else unk(d)
    if last == "isnan":
        return boolv(d, ("atom", "nan", d))
    if last in ("any", "all"):
        v = A[0]
        if v.cond is not None:
            return boolv(d, ("atom", last, d, (fstr(v.cond),)))
        return any_all(I, st, v, last == "any", node)
    if last in ("logical_and", "logical_or", "logical_not", "invert", "bitwise_and", "bitwise_or"):
        fs = [a.cond if a.cond is not None else I.formula(st, a, node) for a in A[:2]]
        if last in ("logical_not", "invert"):
            return boolv(d, ("not", fs[0]))
        return boolv(d, ("and" if "and" in last else "or",) + tuple(fs))
    if last in ("dot", "matmul", "multiply", "outer", "kron", "inner", "vdot", "tensordot"):
        return I.binop(st, ast.Mult(), A[0], A[1], node)
    if last == "add": return I.binop(st, ast.Add(), A[0], A[1], node)
    if last == "subtract": return I.binop(st, ast.Sub(), A[0], A[1], node)
    if last == "divide" or last == "true_divide": return I.binop(st, ast.Div(), A[0], A[1], node)
    if last == "negative": return V(f=I.scale(I.num(st, A[0]), -1), d=d, u=I.unkn(st, A[0]))
    if last in ("prod", "power", "square", "sqrt", "exp", "log", "einsum"):
        return numeric(I, st, A, coef=lambda k: None)
    if last == "sign":
        return V(f=wrap_terms(I.num(st, A[0]), "@sign"), d=wrap(d, "@sign"))
    if last == "where":
        if len(A) == 3:
            f = A[0].cond if A[0].cond is not None else I.formula(st, A[0], node)
            return vjoin(I.numv(st, A[1]), I.numv(st, A[2]), (f, True), (f, False)).with_(d=d)
        return unk(d)
    if last in ("nonzero", "flatnonzero", "argsort", "lexsort", "argmax", "argmin", "searchsorted", "count_nonzero", "triu_indices",
                "ix_", "ndindex", "unravel_index", "ravel_multi_index", "indices", "argwhere", "isin", "in1d", "min_scalar_type",
                "result_type", "dtype", "iinfo", "finfo", "shape", "size", "ndim"):
        return unk(d)
    if last == "arange":
        return V(f=frozenset([Term(1, (("@index",) + (slabels(d)[:1] or (("anon",),)),), E)]), d=d, u=True)
    if last == "vectorize":
        return V(fn=frozenset([("bm", A[0], "$vectorized")]))
    if last in ("fill_diagonal", "copyto", "put", "place", "putmask", "shuffle", "put_along_axis"):
        np_mut(I, st, A[0], node, "np." + last, A[-1])
        if len(A) > 1:
            for o in A[0].r:
                ob = I.get(st, o)
                if ob.kind == "array":
                    st.heap[o] = ob.mut(ents={**ob.ents, ("e", A[-1]): (None, A[-1], EE)})
        return NONE
    if last in ("bool_", "int_", "int64", "int32", "uint8", "uint16", "intp", "uint", "integer"):
        return A[0] if A else UNK
    if last in ALIASFN or last in TRANSPARENT:
        src = A[:1]
        if last in ("maximum", "minimum", "append", "insert", "setdiff1d", "intersect1d", "union1d"):
            src = A[:2]
        ret = [k for k in ("return_index", "return_inverse", "return_counts") if k in kwargs]
        if last in ALIASFN and A[0].r and any(I.get(st, o).kind in ("sym", "array") for o in A[0].r):
            v = A[0].with_(cond=None)
        else:
            v = stackv(I, st, src, node, last)
        v = v.with_(d=v.d | d)
        if last in ("pad",):
            pass
        if ret:
            return I.new_list(st, node, [v] + [unk(d) for _ in ret], kind="tuple", extra="np")
        return v
    if last == "random" or (len(parts) > 2 and parts[1] == "random"):
        return unk(d | {("@random",)})
    if len(parts) > 2 and parts[1] == "linalg":
        I.may_raise(st, "ext")
        return unk(d)
    return unk(d)


def numarr(I, st, v):
    return v


def stackv(I, st, vs, node, last):
    """array with all elements (keeps references to objects in arrays)"""
    ents, ok = {}, False
    todo = list(vs)
    d = E
    k = 0
    f = set(); u = False
    while todo and k < 400:
        v = todo.pop(); k += 1
        d |= v.d
        if v.r and not any(I.issym(o) or I.get(st, o).kind == "coo" for o in v.r):
            for x, gs in I.elements(st, v):
                if gs == EE and x.r and all(not I.issym(o) and I.get(st, o).kind in ("list", "tuple", "array", "iter") for o in x.r):
                    todo.append(x)
                else:
                    ents[("e", x)] = (None, x, gs if ("e", x) not in ents else norm_gs(gs | ents[("e", x)][2]))
        elif v.r:
            x = V(f=v.f, d=v.d, u=v.u) if all(I.issym(o) for o in v.r) and not any(st.heap.get(o) is not None and (st.heap[o].ents) for o in v.r) else I.numv(st, v)
            ents[("e", x)] = (None, x, EE)
        else:
            ents[("e", v)] = (None, v, EE)
    return I.new_list(st, node, ents=ents, kind="array", extra=("stack", last)).with_(d=d)


# ------------------------------------------------------------------ scipy.sparse
def call_sparse(I, st, parts, last, args, kwargs, node):
    A = args
    if last in ("coo_array", "coo_matrix", "csr_array", "csc_array", "csr_matrix", "csc_matrix", "lil_array", "dok_array"):
        a = A[0] if A else kwargs.get("arg1", UNK)
        shape = kwargs.get("shape") or (A[1] if len(A) > 1 else None)
        it = I.exact_items(st, a)
        if it is not None and len(it) == 2:
            rc = I.exact_items(st, it[1])
            if rc is not None and len(rc) == 2:
                return mkcoo(I, st, node, it[0], rc[0], rc[1], shape)
            if all(x.d and not x.r or x.const or is_len(x) for x in it) and not it[1].r:
                return mkcoo(I, st, node, C(0), unk(), unk(), a)
            if it[1].r:
                e = I.elem(st, it[1])
                return mkcoo(I, st, node, it[0], e, e, shape)
            return mkcoo(I, st, node, C(0), unk(), unk(), a)
        if it is not None and len(it) == 3:
            return mkcoo(I, st, node, it[0], it[2], it[1], shape)
        data, row, col = as_coo_parts(I, st, a, node)
        return mkcoo(I, st, node, data, row, col, shape)
    if last in ("vstack", "hstack", "block_diag", "block_array", "bmat"):
        data = row = col = BOT
        for x, gs in I.elements(st, A[0]):
            a, b, c = as_coo_parts(I, st, x, node)
            if gs != EE:
                n = I.num(st, a)
                a = V(f=frozenset(Term(t.k, t.l, t.g | g) for t in n for g in gs), d=I.deps(st, a), u=I.unkn(st, a))
            data, row, col = vjoin(I.numv(st, data), I.numv(st, a)) if data is not BOT else a, vjoin(row, b), vjoin(col, c)
        if data is BOT:
            return mkcoo(I, st, node, unk(A[0].d), unk(A[0].d), unk(A[0].d))
        return mkcoo(I, st, node, data, row, col)
    if last in ("eye", "eye_array", "identity", "diags"):
        return mkcoo(I, st, node, C(1), unk(), unk())
    if last in ("issparse", "isspmatrix"):
        d = I.deps(st, A[0])
        ks = {I.get(st, o).kind for o in A[0].r}
        if ks == {"coo"} and not A[0].u: return TRUE
        if ks and ks <= {"list", "tuple", "dict", "set", "array"} and not A[0].u: return FALSE
        return boolv(d, ("atom", "type", d, "sparse"))
    return None


# ------------------------------------------------------------------ methods
def with_guard(I, st, v, form, pol):
    return v


def quiet_lookup(I, st, recv, key, node):
    tr, I.tries = I.tries, []
    try:
        return I.getitem(st, recv, key, node)
    finally:
        I.tries = tr


def call_method(I, st, recv, name, args, kwargs, node, star=None, dstar=None):
    A = list(args)
    if star is not None:
        A.append(star)
    if name == "$vectorized":
        els = []
        for a in A:
            e = I.elem(st, a) if (a.r or a.f) else a
            els.append(a if e is BOT else e)
        v = I.call(st, recv, els, kwargs, node)
        return I.new_list(st, node, ents={("e", v): (None, v, EE)}, kind="array", extra="vec").with_(d=alldeps(I, st, A, kwargs))
    if name == "$attrgetter":
        names = recv.const[1]
        vs = [I.getattr(st, A[0], n, node) for n in names]
        return vs[0] if len(vs) == 1 else I.new_list(st, node, vs, kind="tuple")
    if name in ("__setattr__", "__getattribute__", "__delattr__", "__getattr__") and recv.r:
        return call_builtin(I, st, {"__setattr__": "setattr", "__delattr__": "delattr"}.get(name, "getattr"), [recv] + A, kwargs, node)
    if name == "__contains__":
        return I.compare(st, ast.In(), A[0], recv, node)
    if name == "__getitem__":
        return I.getitem(st, recv, A[0], node)
    if name == "__setitem__":
        I.setitem(st, recv, A[0], A[1], node); return NONE
    if name == "__len__":
        return lens(I, st, recv)
    if not recv.r:
        if recv.tok is not None or (recv.only_c and any(t == "str" for t, x in recv.c)):
            return str_method(I, st, recv, name, A, kwargs, node)
        return num_method(I, st, recv, name, A, kwargs, node)
    if len(recv.r) == 1:
        return obj_method(I, st, next(iter(recv.r)), recv, name, A, kwargs, node)
    out, acc = BOT, None
    alive = False
    for o in sorted(recv.r, key=repr):
        s = st.copy()
        try:
            v = obj_method(I, s, o, recv.with_(r=frozenset([o])), name, A, kwargs, node)
        except Exception as e:
            if type(e).__name__ != "Dead": raise
            continue
        alive = True
        out, acc = vjoin(out, v), I.join(acc, s)
    if not alive:
        from .interp import Dead
        raise Dead()
    acc.pc = st.pc
    I.assign_state(st, acc)
    return out


def num_method(I, st, v, name, A, kwargs, node):
    d = alldeps(I, st, [v] + A, kwargs)
    if name in ("astype", "copy", "ravel", "reshape", "flatten", "tolist", "toarray", "todense", "tocoo", "tocsr", "tocsc", "tolil",
                "view", "squeeze", "transpose", "take", "repeat", "sum", "conj", "item", "asformat", "swapaxes", "evalf", "values",
                "min", "max", "mean", "tobytes", "real", "cumsum", "diagonal", "trace"):
        return v.with_(d=d, cond=v.cond if name in ("astype", "copy", "ravel", "reshape", "flatten") else None)
    if name in ("any", "all"):
        if v.cond is not None:
            return boolv(d, ("atom", name, d, (fstr(v.cond),)))
        return boolv(d, ("atom", name, d, ("?",)))
    if name in ("dot", "multiply", "matmul"):
        return I.binop(st, ast.Mult(), v, A[0], node)
    if name == "prod":
        return numeric(I, st, [v], coef=lambda k: None)
    if name in ("round",):
        return V(f=wrap_terms(v.f, "@round", lambda k: k), d=d, u=v.u)
    if name in STR_METHODS and v.u:
        return unk(d)
    if name == "items" or name == "keys":
        t = I.new_list(st, node, [unk(d), V(f=v.f, d=d, u=True)], kind="tuple", extra="nm")
        x = t if name == "items" else unk(d)
        return I.new_list(st, node, ents={("e", x): (None, x, EE)}, kind="iter", extra="nm2")
    if name == "get":
        return vjoin(V(f=v.f, d=d, u=True), A[1] if len(A) > 1 else NONE)
    I.may_raise(st, "ext")
    if name not in PURE_METHODS and name not in MUT_METHODS:
        I.emit(st, "ucall", node, args=A, kwargs=kwargs, name=name)
    return unk(d)


def str_method(I, st, v, name, A, kwargs, node):
    d = alldeps(I, st, [v] + A, kwargs)
    if name == "join" and A:
        return str_join(I, st, v, A[0], node, d)
    if name == "format":
        outs = BOT
        for t in sorted(I.toks(v), key=repr):
            if not all(isinstance(p, str) for p in t):
                return V(tok=frozenset([("?",)]), d=d, u=True)
            outs = vjoin(outs, str_format(I, st, "".join(t), A, kwargs, d))
        return outs
    if v.tok is None and v.only_c and all(a.const for a in A) and not kwargs:
        res = BOT
        for t, x in v.c:
            if t != "str":
                continue
            try:
                r = getattr(x, name)(*[a.const[1] for a in A])
            except Exception:
                return unk(d)
            if isinstance(r, (list, tuple)):
                res = vjoin(res, I.new_list(st, node, [C(y) for y in r], kind="tuple" if isinstance(r, tuple) else "list", extra=("sm", x)))
            else:
                res = vjoin(res, C(r))
        return res.with_(d=res.d | d)
    if name in ("strip", "rstrip", "lstrip", "replace", "lower", "upper", "ljust", "rjust", "zfill", "center", "removesuffix", "removeprefix"):
        out = set()
        for t in I.toks(v):
            t = list(t)
            if name in ("lower", "upper"):
                t = [getattr(p, name)() if isinstance(p, str) and p != "?" else p for p in t]
            elif name == "replace" and len(A) == 2 and A[0].const and A[1].const:
                t = [p.replace(A[0].const[1], A[1].const[1]) if isinstance(p, str) and p != "?" else p for p in t]
            elif name in ("strip", "rstrip", "lstrip", "removesuffix", "removeprefix") and all(a.const for a in A):
                ks = [a.const[1] for a in A]
                while t and name in ("strip", "rstrip", "removesuffix") and isinstance(t[-1], str) and t[-1] != "?":
                    nm = {"strip": "rstrip"}.get(name, name)
                    r = getattr(t[-1], nm)(*ks)
                    if r == t[-1]: break
                    t = t[:-1] + ([r] if r else [])
                    if r or name == "removesuffix": break
                while t and name in ("strip", "lstrip", "removeprefix") and isinstance(t[0], str) and t[0] != "?":
                    nm = {"strip": "lstrip"}.get(name, name)
                    r = getattr(t[0], nm)(*ks)
                    if r == t[0]: break
                    t = ([r] if r else []) + t[1:]
                    if r or name == "removeprefix": break
            out.add(tuple(p for p in t if p != ""))
        return V(tok=frozenset(out), d=d, f=v.f)
    if name in ("startswith", "endswith") and A and A[0].const and A[0].const[0] == "str":
        poss = set()
        for t in I.toks(v):
            e = t[0] if name == "startswith" and t else (t[-1] if t else "")
            if isinstance(e, str) and e != "?" and (len(e) >= len(A[0].const[1]) or len(t) <= 1):
                poss.add(getattr(e, name)(A[0].const[1]))
            else:
                poss |= {True, False}
        if len(poss) == 1:
            return C(poss.pop())
        return boolv(d, ("atom", "opaque", d, (name, A[0].const[1])))
    I.may_raise(st, "ValueError")
    return unk(d)


def str_join(I, st, sep, seq, node, d):
    its = I.exact_items(st, seq)
    if its is not None:
        acc = C("")
        for i, x in enumerate(its):
            if i:
                acc = I.concat(acc, sep)
            acc = I.concat(acc, x if I.strlike(x) else V(tok=frozenset([(("v", x),)]), d=x.d))
        return acc
    alts = set()
    for x, gs in I.elements(st, seq):
        for t in I.toks(x):
            alts.add((t, gs))
    s = sep.const[1] if sep.const else "?"
    return V(tok=frozenset([(("join", s, frozenset(alts)),)]), d=d)


def str_format(I, st, tmpl, A, kwargs, d):
    parts, auto = [], 0
    try:
        parsed = list(_string.Formatter().parse(tmpl))
    except ValueError:
        return V(tok=frozenset([("?",)]), d=d, u=True)
    for lit, field, spec, conv in parsed:
        if lit:
            parts.append(lit)
        if field is None:
            continue
        key = field
        if key == "":
            key = str(auto); auto += 1
        if key.isdigit() and int(key) < len(A):
            x = A[int(key)]
        elif key in kwargs:
            x = kwargs[key]
        else:
            x = unk(d)
        if "{" in (spec or ""):
            spec = "?"
        parts.extend(I.fmt_part(st, x, spec or ""))
    return I.mkstr(parts, d)


def obj_method(I, st, oid, recv, name, A, kwargs, node):
    o = I.get(st, oid)
    d = recv.d
    me = I.ref(oid, d).with_(f=recv.f)
    if o.kind == "inst" or (o.cls is not None):
        I.may_raise(st, "ext")
        return unk(alldeps(I, st, [recv] + A, kwargs))
    if name in MUT_METHODS and not (name == "partition" and False):
        return mut_method(I, st, oid, o, me, name, A, kwargs, node)
    if name == "copy":
        if o.kind in ("array", "coo"):
            return deep_arr(I, st, I.ref(oid, d), node)
        if I.issym(oid) and I.is_arrayish(st, me):
            return deep_arr(I, st, me, node)
        return I.copy_obj(st, oid, node).with_(d=d) if d else I.copy_obj(st, oid, node)
    if name == "get":
        key = A[0]
        dflt = A[1] if len(A) > 1 else kwargs.get("default", NONE)
        kd = I.deps(st, key)
        if o.kind == "dict":
            ex = o.ents.get(key)
            if ex is not None and ex[2] == EE and key.const:
                return ex[1]
            if ex is None and (not o.ents and not o.attrs or key.const and all(k is not None and k.const for k, x, g in o.ents.values())
                               or I.enumlike(key) and all(k is not None and I.distinct(key, k) for k, x, g in o.ents.values())):
                return dflt.with_(d=dflt.d | d)
            if ex is not None and ex[2] == EE and I.enumlike(key):
                return ex[1]
            form = ("atom", "member", I.deps(st, me) or frozenset([("obj", oid)]), kd)
        else:
            I.note_look(st, oid, key, node)
            form = ("atom", "member", frozenset([oid[1]]) if I.issym(oid) else I.deps(st, me), kd)
        if I.contradict(st.pc, form, True):
            return dflt
        x = quiet_lookup(I, st, me, key, node)
        if (form, True) in st.pc:
            return x
        return vjoin(x, dflt, (form, True), (form, False)).with_(d=x.d | dflt.d | kd | d)
    if name == "keys":
        return me
    if name in ("items", "values"):
        if o.kind in ("dict", "sym"):
            if o.kind == "dict" and o.ents and all(gs == EE and k.const for k, x, gs in o.ents.values()):
                if name == "items":
                    return I.new_list(st, node, [I.new_list(st, node, [k, x], kind="tuple", extra=("it", j)) for j, (k, x, gs) in enumerate(o.ents.values())], kind="iter", extra=("it", oid))
                return I.new_list(st, node, [x for k, x, gs in o.ents.values()], kind="iter", extra=("it", oid))
            ents = {}
            for x, gs in I.elements(st, me, name):
                K = ("e", x)
                ents[K] = (None, x, gs if K not in ents else norm_gs(gs | ents[K][2]))
            return I.new_list(st, node, ents=ents, kind="iter", extra=(name, oid)).with_(d=d)
        return unk(I.deps(st, me))
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        return set_op(I, st, name, me, A, node)
    if name in ("issubset", "issuperset", "isdisjoint"):
        dd = I.deps(st, me)
        for a in A: dd |= I.deps(st, a)
        its = [I.exact_items(st, x) for x in [me] + A[:1]]
        if all(x is not None and all(y.const for y in x) for x in its):
            s0, s1 = [set(y.const[1] for y in x) for x in its]
            return C(getattr(s0, name)(s1))
        return boolv(dd, ("atom", "subset", dd, name + "/" + I.vsig(st, me)))
    if name == "elements":
        return copy_elems(I, st, me, "iter", node)
    if name in ("index", "count", "most_common"):
        I.may_raise(st, "ValueError")
        return unk(alldeps(I, st, [me] + A, kwargs))
    # arrays and matrices
    if name in ("ravel", "reshape", "view", "squeeze", "transpose", "swapaxes"):
        return me.with_(cond=recv.cond)
    if name in ("toarray", "todense"):
        if o.kind == "coo":
            return I.numv(st, me)
        return deep_arr(I, st, me, node)
    if name in ("tocoo", "tocsr", "tocsc", "tolil", "todok", "asformat"):
        if o.kind == "coo":
            cp = kwargs.get("copy")
            return deep_arr(I, st, I.ref(oid, d), node)
        data, row, col = as_coo_parts(I, st, me, node)
        if name == "tocoo":     # shares data with the original
            return me
        return mkcoo(I, st, node, I.numv(st, data).with_(r=E), row.with_(r=E, u=True), col.with_(r=E, u=True))
    if name in ("astype", "flatten", "tolist", "repeat", "take", "conj", "conjugate", "__copy__"):
        if name == "astype" and kwargs.get("copy") is not None and kwargs["copy"].const and kwargs["copy"].const[1] is False:
            return me
        if name == "tolist" and o.kind in ("array", "list"):
            return copy_elems(I, st, me, "list", node)
        return deep_arr(I, st, me, node)
    if name in ("sum", "min", "max", "mean", "cumsum", "diagonal", "trace", "item"):
        return numeric(I, st, [me])
    if name == "prod":
        return numeric(I, st, [me], coef=lambda k: None)
    if name == "round":
        return V(f=wrap_terms(I.num(st, me), "@round", lambda k: k), d=I.deps(st, me), u=I.unkn(st, me))
    if name in ("any", "all"):
        if recv.cond is not None:
            return boolv(I.deps(st, me), ("atom", name, I.deps(st, me), (fstr(recv.cond),)))
        return any_all(I, st, me, name == "any", node)
    if name in ("dot", "multiply"):
        return I.binop(st, ast.Mult(), me, A[0], node)
    if name == "tobytes":
        return V(u=True, d=I.deps(st, me))
    if name in STR_METHODS and o.kind == "sym":
        I.may_raise(st, "ext")
        return unk(alldeps(I, st, [me] + A, kwargs))
    I.may_raise(st, "ext")
    return unk(alldeps(I, st, [me] + A, kwargs))


def add_ent(I, st, oid, x, g=None):
    o = I.get(st, oid)
    if o.kind in ("list", "iter") and o.items is not None and not o.ents and g is None and len(o.items) < 60 and I.exact_loop():
        st.heap[oid] = o.mut(items=o.items + (x,))
        return
    ents = dict(o.ents)
    for y in (o.items or ()):
        ents[("e", y)] = (None, y, EE)
    gs = frozenset([g if g is not None else st.pc])
    if o.kind == "sym":
        K = x
        old = ents.get(K)
        ents[K] = (x, x, gs if old is None else norm_gs(gs | old[2]))
    else:
        K = ("e", x)
        old = ents.get(K)
        ents[K] = (None, x, gs if old is None else norm_gs(gs | old[2]))
    st.heap[oid] = o.mut(items=None if o.kind != "set" or o.items is None else None, ents=ents)


def mut_method(I, st, oid, o, me, name, A, kwargs, node):
    val = A[0] if A else UNK
    if name == "setdefault":
        key = A[0]
        dflt = A[1] if len(A) > 1 else NONE
        I.emit(st, "mut", node, oid=oid, how=name, val=dflt, key=key)
        ex = I.get(st, oid).ents.get(key)
        kd = I.deps(st, key)
        if ex is not None and ex[2] == EE:
            return ex[1]
        form = ("atom", "member", frozenset([oid[1]]) if I.issym(oid) else frozenset([("obj", oid)]), kd)
        pre = quiet_lookup(I, st, me, key, node)
        empty = I.get(st, oid).kind == "dict" and not I.get(st, oid).ents
        v = dflt if empty else vjoin(pre, dflt, (form, True), (form, False))
        ob = I.get(st, oid)
        gs = frozenset([st.pc])
        if ex is not None: gs = norm_gs(gs | ex[2])
        st.heap[oid] = ob.mut(ents={**ob.ents, key: (key, v, gs)})
        return v
    if name == "pop" or name == "popitem" or name == "popleft":
        I.emit(st, "mut", node, oid=oid, how=name, val=val, key=A[0] if A else None)
        if o.kind in ("list", "iter") and o.items is not None and not o.ents and o.items and (not A or (A[0].const and A[0].const[0] == "int")):
            i = 0 if name == "popleft" else (A[0].const[1] if A else -1)
            try:
                it = list(o.items); x = it.pop(i)
                st.heap[oid] = o.mut(items=tuple(it))
                return x
            except IndexError:
                pass
        if o.kind == "dict" and len(A) > 1 and not o.ents and not o.attrs:
            return A[1].with_(d=A[1].d | I.deps(st, A[0]))
        if o.kind in ("dict", "sym") and A:
            x = quiet_lookup(I, st, me, A[0], node)
            kd = I.deps(st, A[0])
            form = ("atom", "member", frozenset([oid[1]]) if I.issym(oid) else frozenset([("obj", oid)]), kd)
            if len(A) > 1:
                x = vjoin(x, A[1], (form, True), (form, False))
            else:
                I.may_raise(st, "KeyError", (form, False))
            ob = I.get(st, oid)
            ents = dict(ob.ents)
            if A[0] in ents and A[0].const:
                del ents[A[0]]
                st.heap[oid] = ob.mut(ents=ents)
            else:
                st.heap[oid] = ob.mut(dels=ob.dels | {(A[0], st.pc)})
            return x.with_(d=x.d | kd)
        I.may_raise(st, "IndexError")
        x = I.elem(st, me)
        return x if x is not BOT else unk(me.d)
    I.emit(st, "mut", node, oid=oid, how=name, val=val)
    o = I.get(st, oid)
    if name in ("append", "add", "appendleft"):
        add_ent(I, st, oid, val)
        return NONE
    if name == "insert":
        add_ent(I, st, oid, A[1] if len(A) > 1 else UNK, st.pc)
        return NONE
    if name in ("extend", "update", "extendleft"):
        for a in A:
            I.extend(st, oid, a, node)
        for k, x in kwargs.items():
            ob = I.get(st, oid)
            st.heap[oid] = ob.mut(ents={**ob.ents, C(k): (C(k), x, frozenset([st.pc]))})
        return NONE
    if name == "clear":
        st.heap[oid] = Obj(o.kind, o.cls, o.attrs, () if o.items is not None or o.kind in ("list", "set") else None, {}, o.tags | {"nobase"})
        return NONE
    if name in ("sort", "reverse"):
        it = o.items
        if o.kind in ("list",):
            if it is not None and not o.ents and len(it) > 1:
                st.heap[oid] = o.mut(items=None, ents={("e", x): (None, x, EE) for x in it}, tags=o.tags | ({"sorted"} if name == "sort" else E))
            else:
                st.heap[oid] = o.mut(tags=o.tags | ({"sorted"} if name == "sort" else E))
        return NONE
    if name in ("discard", "remove", "difference_update"):
        if name == "remove":
            I.may_raise(st, "KeyError"); I.may_raise(st, "ValueError")
        ents = dict(o.ents)
        if o.items is not None:
            for x in o.items: ents[("e", x)] = (None, x, EE)
        drop = I.elements(st, val) if name == "difference_update" else [(val, EE)]
        for x, gs in drop:
            if x.const and ("e", x) in ents:
                del ents[("e", x)]
        if name == "difference_update":
            g0 = {}
            for K, (k, x, gs) in ents.items():
                if x.const: g0[K] = (k, x, gs); continue
                f = ("atom", "member", I.deps(st, val), I.deps(st, x))
                g0[K] = (k, x, frozenset(g | {(f, False)} for g in gs))
            ents = g0
        st.heap[oid] = o.mut(items=None, ents=ents, dels=o.dels | {(val, st.pc)})
        return NONE
    if name in ("intersection_update", "symmetric_difference_update"):
        return NONE
    if name == "fill":
        if o.kind == "array":
            st.heap[oid] = o.mut(items=None, ents={("e", val): (None, val, EE)})
        return NONE
    return NONE


def dictof_method(I, st, oid, name, args, kwargs, node):
    me = I.ref(oid)
    o = I.get(st, oid)
    if name in ("pop", "get", "__getitem__", "setdefault"):
        k = args[0].const
        if not k:
            I.unknowns.append(("__dict__ access with unknown name", I.where(node)))
            return UNK
        present = k[1] in o.attrs and not is_absent_only(o.attrs[k[1]])
        maybe = I.issym(oid) and k[1] not in o.attrs
        x = drop_absent(o.attrs[k[1]]) if present else (I.child(oid, k[1]) if maybe else BOT)
        if len(args) > 1 and (maybe or not present or ("absent", None) in o.attrs[k[1]].c):
            f = ("atom", "absentattr", E, k[1])
            x = vjoin(x, args[1], (f, False), (f, True))
        elif not present and name == "pop" and len(args) == 1:
            I.may_raise(st, "KeyError")
        if name == "pop":
            st.heap[oid] = o.mut(attrs={**o.attrs, k[1]: ABSENT})
            I.emit(st, "delattr", node, oid=oid, name=k[1])
        elif name == "setdefault":
            I.setattr(st, me, k[1], x, node)
        return x
    if name == "update":
        for a in args:
            for k, x, gs in I.pairs(st, a, node):
                if k.const: I.setattr(st, me, k.const[1], x, node)
                else: I.unknowns.append(("__dict__ update with unknown name", I.where(node)))
        for k, x in kwargs.items():
            I.setattr(st, me, k, x, node)
        return NONE
    if name == "clear":
        for k in list(o.attrs):
            I.delattr(st, me, k, node)
        return NONE
    if name == "__contains__":
        return I.compare(st, ast.In(), args[0], V(fn=frozenset([("dictof", oid)])), node)
    return unk()
