"""Equality, order and hash of monomials: abstract evaluation of the constructors and comparison methods, and where identity fields are written."""
import ast
from itertools import permutations, combinations_with_replacement
from sa.finite import *

A1, A2, A3, A4 = "atomic-identity", "product-identity", "conjugate-fields", "identity-is-permanent"
MUT = {"update", "subtract", "pop", "popitem", "clear", "append", "extend", "insert", "remove", "sort", "reverse", "add", "discard", "fill", "setdefault", "put", "itemset", "resize"}


def term(name):
    return lambda R, *a, **k: T(name, R.freeze(a), R.freeze(k))


def prop_term(name):
    def f(R, me):
        v = lambda n: R.freeze(me.attr(R, n))
        return T(name, v("as_lexmon"), v("is_all_commuting"), v("is_do_conditional"), v("is_zero"), v("is_one"))
    return f


class World:
    """an abstract program in which atoms are built"""

    def __init__(self, prog, kind, commuting=True, docond=None, knowable=None, pairs=()):
        self.prog, self.kind = prog, kind
        self.atom = "InternalAtomicMonomialSDP" if kind == "sdp" else "InternalAtomicMonomial"
        self.comp = "CompoundMomentSDP" if kind == "sdp" else "CompoundMoment"
        conj = {}
        for a, b in pairs:
            conj[a], conj[b] = b, a

        def conjugate(R, x, *r, **k):
            key = tuple(x.data.values())
            return Arr.of(list(conj.get(key, key)), "lex")
        com = commuting if callable(commuting) else (lambda key: commuting)
        flag = lambda v, n: Hook(lambda R, x, *r: R.boolean(n) if v is None else v)
        self.ctx = Host(None, None, problem_type=kind, _lexorder=T("lexorder"), _nr_properties=T("nr_properties"),
                        all_commuting_q_1d=Hook(lambda R, x: com(tuple(x.data.values()))), _atomic_knowable_q=flag(knowable, "knowable"),
                        rectify_fake_setting=Hook(term("rectify")), InflationProblem=T("problem"), names=T("names"), _lexrepr_to_names=T("lexrepr_to_names"),
                        _lexrepr_to_symbols=T("lexrepr_to_symbols"), _conjugate_lexmon=Hook(conjugate))
        self.hooks = {"nb_is_do_conditional": lambda R, x: R.boolean("docond") if docond is None else docond,
                      "_name": prop_term("name"), "_raw_name": prop_term("legacy_name")}
        for n in ("name_from_atom_names", "symbol_prod", "symbol_from_atom_name"):
            self.hooks[n] = term(n)

    def build(self, R, lex):
        return R.call(ClsRef(self.prog.cls(self.atom)), [self.ctx, Arr.of(list(lex), "lex")], {})

    def product(self, R, atoms):
        return R.call(ClsRef(self.prog.cls(self.comp)), [tuple(atoms)], {})

    def paths(self, go, limit=3000):
        def run(R):
            R.opaque = lambda n: n in ("take", "empty")
            R.LIMIT = 200000
            return go(R)
        return paths(self.prog, run, hooks=self.hooks, limit=limit)


X, Y, Z = (sym(n, "operator", 1) for n in "xyz")


def judge(rep, rule, construct, gen):
    n = 0
    for R, res in gen:
        n += 1
        if isinstance(res, Und):
            rep.undecided(rule, construct, str(res))
            return False
        if isinstance(res, Raised):
            rep.violation(rule, construct, f"raises {res}")
            return False
        if res is not None:
            rep.violation(rule, construct, res)
            return False
        rep.functions |= R.funcs
    rep.count("paths", n)
    rep.held(rule, construct, f"{n} paths")
    return True


def atomic(rep, prog, kind):
    W = World(prog, kind)

    def go(R):
        a, a2, b, ab = W.build(R, (X,)), W.build(R, (X,)), W.build(R, (Y,)), W.build(R, (X, Y))
        for p, q, same in ((a, a2, True), (a, a, True), (a, b, False), (a, ab, False), (b, ab, False)):
            t = "the same operators" if same else "different operators"
            if R.eq(p, q) != same:
                return f"monomials of {t} compare {'different' if same else 'equal'}"
            if R.eq(p, q) and not R.eq(R.hash(p), R.hash(q)):
                return "equal monomials have different hashes"
            if int(R.lt(p, q)) + int(R.lt(q, p)) != (0 if same else 1):
                return f"order of monomials of {t} is not a strict total order"
            if R.eq(p, q) != R.eq(q, p):
                return "equality is not symmetric"
        return None
    judge(rep, A1, W.atom, W.paths(go))


def products(rep, prog, kind):
    W = World(prog, kind)
    pool = [(X,), (Y,), (X, Y)]

    def go(R):
        combos = [c for n in (0, 1, 2, 3) for c in combinations_with_replacement(range(3), n)]
        built = {}
        for c in combos:
            perms = sorted(set(permutations(c)))
            built[c] = [W.product(R, [W.build(R, pool[i]) for i in p]) for p in (perms[0], perms[-1])]
        for c in combos:
            m, m2 = built[c]
            if not R.eq(m, m2) or not R.eq(m2, m):
                return f"products of the same {len(c)} factors in different order compare different"
            if not R.eq(R.hash(m), R.hash(m2)):
                return f"equal products of {len(c)} factors in different order have different hashes"
            if len(c) == 1:
                a = W.build(R, pool[c[0]])
                for p, q in ((m, a), (a, m)):
                    if R.eq(p, q) and not R.eq(R.hash(m), R.hash(a)):
                        return "a product of one factor equals that factor but has another hash"
            for d in combos:
                if c < d and R.eq(m, built[d][0]):
                    return f"products of different factors compare equal ({len(c)} and {len(d)} factors)"
            if len(c) == 2:
                a = W.build(R, pool[c[0]])
                if R.eq(m, a):
                    return "a product of two factors equals one of them"
        return None
    judge(rep, A2, W.comp, W.paths(go))
    if kind != "sdp":
        return
    n1, n1d, n2, n2d = (X, Y), (Y, X), (X, Z), (Z, X)
    W2 = World(prog, kind, commuting=lambda k: len(k) < 2, docond=False, knowable=False, pairs=[(n1, n1d), (n2, n2d)])

    def go2(R):
        for c, d in (([n1], [n1d]), ([n1, n2], [n1d, n2d]), ([n1, n2d], [n2, n1d]), ([n1, (X,)], [(X,), n1d])):
            m, w = (W2.product(R, [W2.build(R, f) for f in l]) for l in (c, d))
            if not R.eq(m, w):
                return "a product and its conjugate are different moments"
            if not R.eq(R.hash(m), R.hash(w)):
                return "a product and its conjugate compare equal but have different hashes"
        m, w = W2.product(R, [W2.build(R, n1), W2.build(R, n2)]), W2.product(R, [W2.build(R, n1d), W2.build(R, n2)])
        if R.eq(m, w):
            return "conjugating one of two factors gives an equal product"
        return None
    judge(rep, A2, W2.comp + " and conjugates", W2.paths(go2))


FIELDS = ("as_lexmon", "signature", "as_2d_array", "name", "legacy_name", "symbol", "n_operators", "is_one", "is_zero", "is_all_commuting", "is_do_conditional", "is_knowable", "context")
TEXT = ("name", "legacy_name", "symbol")


def dagger(rep, prog):
    a, b = (X, Y, Z), (Z, Y, X)
    for doc in (False, True):
        W = World(prog, "sdp", commuting=False, docond=doc, knowable=False, pairs=[(a, b)])
        W.ctx.attrs["_conjugate_lexmon"] = Hook(lambda R, x, *r, **k: Arr.of([sym(("conj", repr(v)), "operator", 1) for v in x.data.values()], "lex")
                                                if tuple(x.data.values()) == a else Arr.of(list(a), "lex"))
        cj = tuple(sym(("conj", repr(v)), "operator", 1) for v in a)
        orig = {v for v in a}

        def go(R):
            m = W.build(R, a)
            d = m.attr(R, "dagger")
            ref = W.build(R, cj)
            if d is m:
                return [("*", "a monomial different from its conjugate is its own dagger")]
            if not isinstance(d, Host):
                raise Und("dagger")
            out = []
            for f in FIELDS:
                if f not in ref.attrs:
                    continue
                got, want = (R.freeze(x.attrs.get(f)) if not isinstance(x.attrs.get(f), Host) or f != "context" else id(x.attrs[f]) for x in (d, ref))
                if f not in d.attrs:
                    out.append((f, f"field {f} is missing on the conjugate"))
                elif got == want:
                    out.append((f, None))
                elif _m(got, orig):
                    out.append((f, f"field {f} of the conjugate carries the operators of the original"))
                elif f in TEXT and doc and _m(got, {T("lexrepr_to_names")}):
                    out.append((f, f"field {f} of the conjugate is written differently from that of a monomial built from the same operators"))
                elif f in TEXT:
                    out.append((f, Und(f"field {f} not recognised: {got!r}"[:150])))
                else:
                    out.append((f, f"field {f} of the conjugate differs from that of a monomial built from the conjugate operators"))
            again = d.attr(R, "conjugate_lexmon")
            out.append(("conjugate_lexmon", None if R.freeze(again) == R.freeze(Arr.of(list(a))) else "the conjugate of the conjugate is not the original"))
            for f in ("as_lexmon", "signature", "name"):
                if f in m.attrs and _m(R.freeze(m.attrs[f]), set(cj)):
                    out.append((f, f"taking the conjugate changes field {f} of the original"))
            return out
        for R, res in W.paths(go):
            c = "InternalAtomicMonomialSDP.dagger" + (" (do-conditional)" if doc else "")
            if isinstance(res, (Und, Raised)):
                if isinstance(res, Raised):
                    rep.violation(A3, c, f"raises {res}")
                else:
                    rep.undecided(A3, c, str(res))
                continue
            rep.functions |= R.funcs
            for f, r in res:
                if r is None:
                    rep.held(A3, f"{c}: {f}")
                elif isinstance(r, Und):
                    rep.undecided(A3, f"{c}: {f}", str(r))
                else:
                    rep.violation(A3, f"{c}: {f}", r, "dagger")


def _m(x, targets):
    if isinstance(x, T):
        return x in targets or any(_m(a, targets) for a in x.args)
    if isinstance(x, (tuple, list)):
        return any(_m(y, targets) for y in x)
    try:
        return x in targets
    except TypeError:
        return False


COMPARE = ("__eq__", "__hash__", "__lt__", "__le__", "__gt__", "__ge__", "__ne__")


def reads(prog, cname):
    """attributes of self that comparison reads, through properties and helper methods"""
    out, todo, seen = set(), [], set()
    c = prog.cls(cname)
    for n in COMPARE:
        f = prog.lookup(c, n)
        if f:
            todo.append(f)
    while todo:
        f = todo.pop()
        if f.qual in seen:
            continue
        seen.add(f.qual)
        names = {a.arg for a in f.node.args.args[:2]}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in names:
                g = prog.lookup(c, n.attr)
                if g is not None:
                    todo.append(g)
                else:
                    out.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr" and len(n.args) > 1 \
                    and isinstance(n.args[0], ast.Name) and n.args[0].id in names and isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
    return out, seen


def fresh_local(func, name):
    """is a local name only ever bound to a new object"""
    ok = False
    for n in ast.walk(func):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            v = n.value
            if isinstance(v, ast.Call):
                fn = v.func
                last = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
                if last in ("__copy__", "copy", "deepcopy", "__new__") or last[:1].isupper():
                    ok = True
                    continue
            return False
        if isinstance(n, (ast.For, ast.comprehension)):
            t = n.target
            if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(t)):
                return False
    if name in {a.arg for a in func.args.args}:
        return False
    return ok


def permanence(rep, prog):
    names = ["InternalAtomicMonomial", "CompoundMoment"] + [c for c in ("InternalAtomicMonomialSDP", "CompoundMomentSDP") if c in prog.classes]
    fields = set()
    for c in names:
        r, seen = reads(prog, c)
        fields |= r
        rep.functions |= {f"<{q}>" for q in seen}
    fields -= {"__class__"}
    family = {k.name for c in names for k in prog.mro(prog.cls(c))}
    sites = 0
    bad = False
    for m in prog.modules.values():
        funcs = [f for f in m.funcs.values()] + [f for c in m.classes.values() for f in list(c.methods.values())]
        for f in funcs:
            own = f.cls is not None and f.cls.name in family
            foreign = f.cls is not None and f.cls.name not in family
            aliases = {}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and n.value.attr in fields:
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            aliases[t.id] = n.value.attr

            def base(e):
                """identity field an expression denotes: (field, object expression)"""
                if isinstance(e, ast.Attribute) and e.attr in fields:
                    if isinstance(e.value, ast.Name) and e.value.id == "self" and foreign:
                        return None
                    return e.attr, e.value
                if isinstance(e, ast.Name) and e.id in aliases:
                    return aliases[e.id], None
                return None
            for n in ast.walk(f.node):
                hits = []
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
                    ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                    for t in ts:
                        for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                            if isinstance(x, ast.Attribute):
                                h = base(x)
                                if h:
                                    hits.append((h, "assigned"))
                            elif isinstance(x, ast.Subscript):
                                h = base(x.value)
                                if h:
                                    hits.append((h, "changed in place"))
                            elif isinstance(x, ast.Name) and isinstance(n, ast.AugAssign) and x.id in aliases:
                                pass
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                    h = base(n.func.value)
                    if h:
                        hits.append((h, f"changed by {n.func.attr}()"))
                for (field, obj), how in hits:
                    sites += 1
                    if own and f.name in ("__init__", "__new__") and (obj is None or (isinstance(obj, ast.Name) and obj.id == "self")):
                        continue
                    if isinstance(obj, ast.Name) and obj.id != "self" and fresh_local(f.node, obj.id):
                        continue
                    if isinstance(obj, ast.Name) and obj.id == "self" and own and f.name.startswith("_") and not f.name.startswith("__") and only_from_init(prog, f, family):
                        continue
                    bad = True
                    rep.violation(A4, f"{f.qual}: .{field}", f"field {field}, which equality, order or hash read, is {how} after construction", f"{m.rel}:{n.lineno}")
    rep.count("identity_store_sites", sites)
    if not bad:
        rep.held(A4, "fields " + ", ".join(sorted(fields)), f"{sites} store sites, all in constructors or on new copies")


def only_from_init(prog, f, family):
    """is a private helper called from constructors only"""
    calls = 0
    for m in prog.modules.values():
        for g in list(m.funcs.values()) + [x for c in m.classes.values() for x in c.methods.values()]:
            for n in ast.walk(g.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == f.name:
                    calls += 1
                    if not (g.cls is not None and g.cls.name in family and g.name in ("__init__", f.name)):
                        return False
    return calls > 0


def check(prog, rep, tier):
    rep.rule(A1, "atomic monomials built from the same operators are equal, with equal hashes and in no strict order; others are different and strictly ordered one way")
    rep.rule(A2, "products are equal exactly when they have the same factors with the same powers (for SDPs: up to conjugating all of them), equal ones have equal hashes; a product of one factor that equals the factor has its hash")
    rep.rule(A3, "every field of the dagger equals that of a monomial built from the conjugate operators; the original keeps its own")
    rep.rule(A4, "the fields that comparison methods read are stored in constructors or on new copies only, and never changed in place")
    for c in ("InternalAtomicMonomial", "CompoundMoment"):
        prog.cls(c)
    rep.jobs([(A1, "InternalAtomicMonomial", atomic, (prog, "lp")), (A1, "InternalAtomicMonomialSDP", atomic, (prog, "sdp")),
              (A2, "CompoundMoment", products, (prog, "lp")), (A2, "CompoundMomentSDP", products, (prog, "sdp")),
              (A3, "InternalAtomicMonomialSDP.dagger", dagger, (prog,)), (A4, "identity fields", permanence, (prog,))], 300)
