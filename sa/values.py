"""Abstract values, heap objects and states.

A value is a union of: known constants (c), references to abstract objects (r), a numeric part
given as a set of possible addends (f: signed monomials over provenance labels), function values
(fn) and string token sequences (tok).  d is the set of everything the value was computed from.
Labels are access paths (tuples) rooted at an argument or at `self`; '#' is "a key/element of",
'[]' "a value looked up in", anything else an attribute.  Wrapped labels (('@abs', L) ...) mark a
lossy function applied on the way.
"""
from collections import namedtuple

Term = namedtuple("Term", "k l g")
E = frozenset()
EE = frozenset([E])
CAP_TERMS = 160
CAP_TOK = 24

_lk = {}


def lkey(l):
    try:
        return _lk[l]
    except KeyError:
        _lk[l] = r = repr(l)
        return r


def slabels(ls):
    return tuple(sorted(ls, key=lkey))


class V:
    __slots__ = ("c", "r", "f", "d", "fn", "tok", "cond", "u", "_h")

    def __init__(self, c=E, r=E, f=E, d=E, fn=E, tok=None, cond=None, u=False):
        self.c, self.r, self.f, self.d, self.fn, self.tok, self.cond, self.u = c, r, f, d, fn, tok, cond, u
        self._h = None

    def key(self):
        return (self.c, self.r, self.f, self.d, self.fn, self.tok, self.u)

    def __eq__(self, o):
        return self is o or (isinstance(o, V) and hash(self) == hash(o) and self.key() == o.key())

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def with_(self, **k):
        n = V(self.c, self.r, self.f, self.d, self.fn, self.tok, self.cond, self.u)
        for a, b in k.items():
            setattr(n, a, b)
        return n

    def __repr__(self):
        p = []
        if self.c: p.append("c=" + ",".join(repr(x[1]) for x in self.c))
        if self.r: p.append("r=" + ",".join(map(str, self.r)))
        if self.f: p.append("f=" + " + ".join(f"{t.k}*{t.l}" + (f" if {len(t.g)}g" if t.g else "") for t in self.f))
        if self.fn: p.append("fn=" + ",".join(str(x) for x in self.fn))
        if self.tok: p.append("tok=" + str(set(self.tok))[:200])
        if self.d: p.append("d=" + ",".join(".".join(map(str, x)) for x in sorted(self.d, key=lkey))[:300])
        if self.u: p.append("?")
        return "V(" + "; ".join(p) + ")"

    # -- helpers
    @property
    def const(self):
        """the single constant, as (type, value), if the value is exactly that constant"""
        if len(self.c) == 1 and not self.r and not self.f and not self.fn and not self.u and not self.tok:
            return next(iter(self.c))
        return None

    @property
    def only_c(self):
        return bool(self.c) and not self.r and not self.f and not self.fn and not self.u and not self.tok


def C(x):
    tok = None
    return V(c=frozenset([(type(x).__name__, x)]), tok=tok)


NONE, TRUE, FALSE = C(None), C(True), C(False)
BOT = V()
UNK = V(u=True)
ABSENT = V(c=frozenset([("absent", None)]))


def unk(d=E):
    return V(u=True, d=frozenset(d))


def is_absent_only(v):
    return v.c == ABSENT.c and not v.r and not v.f and not v.u and not v.fn


def drop_absent(v):
    if ("absent", None) in v.c:
        return v.with_(c=v.c - ABSENT.c)
    return v


def gadd(terms, g):
    if g is None:
        return terms
    return frozenset(Term(t.k, t.l, t.g | {g}) for t in terms)


def compl(g):
    return (g[0], not g[1])


def norm_terms(terms):
    """drop terms subsumed by the same term with fewer guards, resolve x|g and x|not g"""
    if len(terms) < 2:
        return terms
    by = {}
    for t in terms:
        by.setdefault((t.k, t.l), set()).add(t.g)
    if all(len(s) == 1 for s in by.values()):
        return terms
    out = []
    for (k, l), gs in by.items():
        for g in norm_gs(gs):
            out.append(Term(k, l, g))
    return frozenset(out)


_ngs = {}


def norm_gs(gs):
    if E in gs:
        return EE
    gs = frozenset(gs)
    if len(gs) < 2:
        return gs
    r = _ngs.get(gs)
    if r is None:
        if len(_ngs) > 200000:
            _ngs.clear()
        r = _ngs[gs] = _norm_gs(gs)
    return r


def _norm_gs(gs):
    gs = set(gs)
    changed = True
    while changed and len(gs) > 1:
        changed = False
        # subsumption
        order = sorted(gs, key=len)
        keep = []
        for x in order:
            if not any(y <= x for y in keep):
                keep.append(x)
        gs = set(keep)
        # x|g and x|not g
        for x in keep:
            if x not in gs:
                continue
            for g in x:
                y = (x - {g}) | {compl(g)}
                if y in gs:
                    gs.discard(x); gs.discard(y); gs.add(x - {g}); changed = True
                    break
        if E in gs:
            return EE
    if len(gs) > 12:
        gs = set(sorted(gs, key=lambda q: (len(q), hash(q)))[:12])
    return frozenset(gs)


def vjoin(a, b, ga=None, gb=None):
    if a is b:
        return a
    if a is BOT:
        return b if gb is None else b.with_(f=gadd(b.f, gb))
    if b is BOT:
        return a if ga is None else a.with_(f=gadd(a.f, ga))
    if a == b:
        return a if a.cond == b.cond else a.with_(cond=None)
    f = a.f
    if a.f is not b.f and a.f != b.f:
        f = (a.f & b.f) | gadd(a.f - b.f, ga) | gadd(b.f - a.f, gb)
        f = norm_terms(f)
    u = a.u or b.u
    if len(f) > CAP_TERMS:
        f = frozenset(list(f)[:CAP_TERMS]); u = True
    if a.tok is None or b.tok is None:
        ta = a.tok; tb = b.tok
        if ta is None and tb is None:
            tok = None
        else:
            o = a if ta is None else b
            t = tb if ta is None else ta
            ex = set()
            for c in o.c:
                if c[0] == "str":
                    ex.add((c[1],) if c[1] else ())
            tok = t | ex
            if o.u or o.f:
                tok = tok | {("?",)}
    else:
        tok = a.tok | b.tok
    if tok is not None and len(tok) > CAP_TOK:
        tok = frozenset(sorted(tok, key=lambda t: (len(t), repr(t)))[:CAP_TOK]); u = True
    return V(a.c | b.c, a.r | b.r, f, a.d | b.d, a.fn | b.fn, tok, a.cond if a.cond == b.cond else None, u)


def vjoins(vs):
    out = BOT
    for v in vs:
        out = vjoin(out, v)
    return out


class Obj:
    __slots__ = ("kind", "cls", "attrs", "items", "ents", "tags", "dels")

    def __init__(self, kind, cls=None, attrs=None, items=None, ents=None, tags=E, dels=E):
        self.kind, self.cls, self.attrs, self.items = kind, cls, attrs or {}, items
        self.ents = ents or {}
        self.tags, self.dels = tags, dels

    def mut(self, **k):
        n = Obj(self.kind, self.cls, self.attrs, self.items, self.ents, self.tags, self.dels)
        for a, b in k.items():
            setattr(n, a, b)
        return n

    def __repr__(self):
        s = f"<{self.kind}{' ' + self.cls.name if self.cls else ''}"
        if self.items is not None: s += f" items={list(self.items)}"
        if self.ents: s += " ents={" + "; ".join(f"{k}: {v}" + ("" if gs == EE else f" if {[sorted(map(gstr, g)) for g in gs]}") for k, v, gs in self.ents.values()) + "}"
        if self.attrs: s += " attrs=" + ",".join(f"{k}={v}" for k, v in self.attrs.items())
        return s + ">"


def fstr(f):
    if f[0] == "atom":
        return "(" + " ".join(str(x) if not isinstance(x, frozenset) else "{" + ",".join(".".join(map(str, l)) for l in sorted(x, key=lkey)) + "}" for x in f[1:]) + ")"
    if f[0] == "not":
        return "not " + fstr(f[1])
    return "(" + f" {f[0]} ".join(fstr(x) for x in f[1:]) + ")"


def gstr(g):
    return ("" if g[1] else "not ") + fstr(g[0])


def ekey(kind, k, v):
    if kind == "dict":
        return k
    if kind == "array" and k is not None:
        return ("i", k, v)
    return ("e", v)


def ojoin(a, b, ga=None, gb=None, lazy_child=None):
    if a is b:
        return a
    kind = a.kind if a.kind == b.kind else ("dict" if "dict" in (a.kind, b.kind) else a.kind)
    items = None
    aents, bents = a.ents, b.ents
    if a.items is not None and b.items is not None and len(a.items) == len(b.items):
        items = tuple(vjoin(x, y, ga, gb) for x, y in zip(a.items, b.items))
    else:
        if a.items is not None:
            aents = dict(aents)
            for v in a.items:
                aents[("e", v)] = (None, v, EE)
        if b.items is not None:
            bents = dict(bents)
            for v in b.items:
                bents[("e", v)] = (None, v, EE)
    if aents is bents or aents == bents:
        ents = aents
    else:
        ents = {}
        for K, (k, v, gs) in aents.items():
            if K in bents:
                k2, v2, gs2 = bents[K]
                ents[K] = (k, vjoin(v, v2, ga, gb), gs if gs == gs2 else norm_gs(gs | gs2))
            else:
                ents[K] = (k, v, gs if ga is None else norm_gs({g | {ga} for g in gs}))
        for K, (k, v, gs) in bents.items():
            if K not in aents:
                ents[K] = (k, v, gs if gb is None else norm_gs({g | {gb} for g in gs}))
    if a.attrs is b.attrs or a.attrs == b.attrs:
        attrs = a.attrs
    else:
        attrs = {}
        for n in set(a.attrs) | set(b.attrs):
            x, y = a.attrs.get(n), b.attrs.get(n)
            if x is None:
                x = lazy_child(n) if lazy_child else ABSENT
            if y is None:
                y = lazy_child(n) if lazy_child else ABSENT
            attrs[n] = vjoin(x, y, ga, gb)
    return Obj(kind, a.cls or b.cls, attrs, items, ents, a.tags & b.tags, a.dels | b.dels)


class State:
    __slots__ = ("frames", "heap", "pc", "mon")

    def __init__(self):
        self.frames, self.heap, self.pc, self.mon = {}, {}, E, {}

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.mon = dict(self.mon)
        return s
