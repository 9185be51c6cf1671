"""Shared copies, knowability and vanishing products: decided over equality patterns of the index arrays."""
from itertools import combinations, product
from sa.finite import *

S1, S2, S3, S4, S5, S6, S7 = ("shared-source", "overlap-matrix", "do-conditional", "knowable", "knowable-moment", "vanishing", "orthogonal-operators")
S8 = "ancestrally-consistent"
P, X, O = Pos("party"), Pos("setting"), Pos("outcome")


def partitions(n):
    """set partitions of range(n) as label lists"""
    if n == 0:
        yield []
        return
    for p in partitions(n - 1):
        for k in range(max(p, default=-1) + 2):
            yield p + [k]


def column_patterns(n):
    """which rows use a source, and which of those use the same copy: 0 or label"""
    out = []
    for used in product((False, True), repeat=n):
        m = sum(used)
        for part in partitions(m):
            it = iter(part)
            out.append(tuple(next(it) + 1 if u else 0 for u in used))
    return out


def verdict(rep, rule, f, gen, n=0):
    """gen yields (description, wanted, R, result)"""
    for what, want, R, res in gen:
        n += 1
        if isinstance(res, Und):
            rep.undecided(rule, f.name, f"{res} [{what}]")
            return False
        if isinstance(res, Raised):
            rep.violation(rule, f.qual if hasattr(f, "qual") else f.name, f"raises {res} for {what}", repr(f))
            return False
        if res != want:
            rep.violation(rule, f.qual if hasattr(f, "qual") else f.name, f"gives {res} for {what}", repr(f))
            return False
    rep.functions |= {repr(f)}
    rep.count("patterns_decided", n)
    rep.held(rule, repr(f), f"{n} patterns")
    return True


def need(rep, prog, rule, name):
    f = prog.find_func(name)
    if f is None:
        rep.undecided(rule, name, "function not found")
    return f


def shared(rep, prog):
    f = need(rep, prog, S1, "nb_exists_shared_source")
    if not f:
        return
    kinds = [(0, 0), ("a", 0), (0, "b"), ("a", "a"), ("a", "b")]
    words = {(0, 0): "a source neither uses", ("a", 0): "a source only the first uses", (0, "b"): "a source only the second uses",
             ("a", "a"): "a source used in the same copy", ("a", "b"): "a source used in different copies"}

    def gen():
        for k in range(1, 6):
            for cls in combinations(kinds, k):
                ax = tuple(Pos(("source",) + c, True) for c in cls)
                v = lambda c, i, p: 0 if c[i] == 0 else sym((c[i], p.name), ("copy", p.name), 1)
                a, b = (Arr((ax,), {(p,): v(c, i, p) for p, c in zip(ax, cls)}) for i in (0, 1))
                for R, res in paths(prog, lambda R: R.truth(R.call(f, [a, b], {})), known_axes=[ax]):
                    yield "operators with " + ", ".join(words[c] for c in cls), ("a", "a") in cls, R, res
    verdict(rep, S1, f, gen())


def overlap(rep, prog):
    f = need(rep, prog, S2, "nb_overlap_matrix")
    if not f:
        return
    src = (Pos("src", True),)

    def gen():
        for n in (1, 2, 3, 4):
            rows = tuple(Pos(("op", i)) for i in range(n))
            m = Arr((rows, src), {(r, src[0]): sym((r.name,), ("cell", r.name), 1) for r in rows})
            of = {m.data[(r, src[0])]: r.name for r in rows}

            def hook(R, a, b):
                i, j = (of[next(iter(x.data.values()))] for x in (a, b))
                return True if i == j else R.boolean("shared", frozenset((i, j)))

            def go(R):
                t = R.asarr(R.call(f, [m], {}))
                if not isinstance(t, Arr) or [len(a) for a in t.axes] != [n, n]:
                    raise Und("result")
                return all(R.truth(t.data[(p, q)]) == (i == j or R.boolean("shared", frozenset((rows[i].name, rows[j].name))))
                           for i, p in enumerate(t.axes[0]) for j, q in enumerate(t.axes[1]))
            for R, res in paths(prog, go, hooks={"nb_exists_shared_source": hook}, known_axes=[rows]):
                yield f"a matrix of {n} operators (an entry is not the predicate of its two operators)" if res is False else f"{n} operators", True, R, res
    verdict(rep, S2, f, gen())
    g = need(rep, prog, S2, "nb_monomial_to_components")
    if not g:
        return

    def gen2():
        for n in (0, 1, 2, 3):
            mon, cols = monomial([0] * n, [tuple([1] * n)] if n else [()], [0] * n, list(range(n)))
            mark = sym("components", "components", 1)

            def ov(R, a):
                want = {(r, c) for r in mon.axes[0] for c in cols}
                if set(a.data) != want:
                    raise Raised("the copies compared are not exactly the source columns")
                return Arr.of([sym("overlap", "overlap", 1)], "overlap")

            def cl(R, a):
                if list(a.data.values()) != [sym("overlap", "overlap", 1)]:
                    raise Und("argument")
                return mark

            def go(R):
                r = R.call(g, [mon], {})
                if r is mark:
                    return True
                if isinstance(r, Arr) and n <= 1 and all(x == 0 for x in r.data.values()) and len(r.data) == n:
                    return True
                raise Und("result")
            for R, res in paths(prog, go, hooks={"nb_overlap_matrix": ov, "nb_classify_disconnected_components": cl}):
                yield f"a monomial of {n} operators", True, R, res
    verdict(rep, S2, g, gen2())


def monomial(parties, columns, settings, outcomes):
    n = len(parties)
    rows = tuple(Pos(("op", i)) for i in range(n))
    srcs = tuple(Pos(("source",) + c, True) for c in columns)
    d = {}
    for i, r in enumerate(rows):
        d[(r, P)] = sym(("p", parties[i]), "party", 1)
        for s, c in zip(srcs, columns):
            d[(r, s)] = 0 if c[i] == 0 else sym(("c", c[i], s.name), ("copy", s.name), 1)
        d[(r, X)] = sym(("x", settings[i]), "setting", 0)
        d[(r, O)] = sym(("o", outcomes[i]), "outcome", 0)
    return Arr((rows, (P,) + srcs + (X, O)), d), srcs


def knowable(rep, prog, which, tier):
    rule, name = (S3, "nb_is_do_conditional") if which == "do" else (S4, "nb_is_knowable")
    f = need(rep, prog, rule, name)
    if not f:
        return

    def gen():
        for n in (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4):
            cp = column_patterns(n)
            for k in (1, 2) if n < 4 else (1,):
                for cols in combinations(cp, k):
                    for parties in partitions(n):
                        for other in ((list(range(n)), list(range(n))), ([0] * n, [0] * n), (list(range(n)), [0] * n)):
                            if n < 2 and other[0] != list(range(n)):
                                continue
                            mon, srcs = monomial(parties, cols, *other)
                            one = all(len({x for x in c if x}) <= 1 for c in cols)
                            want = one if which == "do" else one and len(set(parties)) == n
                            if n <= 1:
                                want = True
                            t = f"{n} operators of parties {parties}, copies per source {[list(c) for c in cols]} (0: not used)"
                            for R, res in paths(prog, lambda R: R.truth(R.call(f, [mon], {})), known_axes=[mon.axes[0], mon.axes[1], srcs]):
                                yield t, want, R, res
    verdict(rep, rule, f, gen())


def moment(rep, prog, cname):
    f = prog.method(cname, "_atomic_knowable_q") if prog.lookup(prog.cls(cname), "_atomic_knowable_q") else None
    if f is None:
        rep.undecided(S5, cname + "._atomic_knowable_q", "method not found")
        return

    def gen():
        for n in (1, 2):
            mon, srcs = monomial(list(range(n)), [tuple([1] * n)], [0] * n, list(range(n)))
            for net in (True, False):
                def non(R, a):
                    if [list(ax) for ax in a.axes] != [list(mon.axes[0]), [P, X, O]]:
                        raise Raised("the ancestral test is not given party, setting and outcome of every operator")
                    return R.boolean("consistent")

                def kn(R, a):
                    if a.data != mon.data:
                        raise Und("argument")
                    return R.boolean("knowable")

                def go(R):
                    me = Host(prog, cname, network_scenario=net, _is_knowable_q_non_networks=Hook(non))
                    r = R.truth(me.attr(R, "_atomic_knowable_q").call(R, [mon], {}))
                    return r == (R.boolean("knowable") and (net or R.boolean("consistent")))
                for R, res in paths(prog, go, hooks={"nb_is_knowable": kn, "is_knowable": kn}):
                    yield f"a {'network' if net else 'non-network'} scenario, " + ", ".join(f"{k[0]}={v}" for k, v in R.memo.items() if len(k) == 1), True, R, res
    verdict(rep, S5, f, gen())


class Ortho(Native):
    def __init__(self):
        self.idx = {}

    def item(self, R, i):
        if not (isinstance(i, tuple) and len(i) == 2):
            raise Und("index of the orthogonality matrix")
        a, b = (norm(x) for x in i)
        if a == 0 or b == 0:
            return True
        if R.eq(a, b):
            return False
        return R.boolean("ortho", frozenset((repr(a), repr(b))))


def vanishing(rep, prog):
    f = need(rep, prog, S6, "lexmon_is_zero")
    if not f:
        return
    tab = Ortho()

    def gen():
        for n in (0, 1, 2, 3, 4):
            for pat in column_patterns(n):
                vals = [0 if c == 0 else sym(("op", c), "operator", 1) for c in pat]
                a = Arr.of(vals, "mon")

                def go(R):
                    r = R.truth(R.call(f, [a, tab], {}))
                    want = vals == [0] or any(tab.item(R, (x, y)) for x, y in zip(vals, vals[1:]))
                    return r == want
                for R, res in paths(prog, go):
                    yield f"the product {['0' if v == 0 else repr(v) for v in vals]} with orthogonal pairs {[sorted(k[1]) for k, v in R.memo.items() if k[0] == 'ortho' and v]}", True, R, res
    verdict(rep, S6, f, gen())


def ortho(rep, prog):
    own = [f for f in owner(prog, "InflationSDP", "_orthomat") if span(f, "_orthomat")]
    if not own:
        rep.undecided(S7, "_orthomat", "no method assigns it")
        return
    f = own[0]
    body = span(f, "_orthomat")
    srcs = (Pos(("s", 0), True), Pos(("s", 1), True))
    cols = (P,) + srcs + (X, O)
    rows = tuple(Pos(("r", i)) for i in range(4))
    fields = list(product((0, 1), repeat=5))

    def gen():
        base = (0,) * 5
        for r2 in fields:
            for r3 in fields:
                if len({base, r2, r3}) < 3 or r3 < r2:
                    continue
                ops = [None, base, r2, r3]
                d = {}
                for r, o in zip(rows, ops):
                    for i, c in enumerate(cols):
                        d[(r, c)] = 0 if o is None else sym((c.name, o[i]), ("v", c.name), 1 if i < 3 else 0)
                lex = Arr((rows, cols), d)

                def go(R):
                    me = Host(prog, "InflationSDP", _lexorder=lex, _lexorder_len=4, zero_operator=Arr((cols,), {(c,): 0 for c in cols}))
                    R.block(body, {"self": me}, f.mod)
                    t = me.attrs["_orthomat"]
                    if not isinstance(t, Arr) or [len(a) for a in t.axes] != [4, 4]:
                        raise Und("result")
                    for i, p in enumerate(t.axes[0]):
                        for j, q in enumerate(t.axes[1]):
                            want = True if 0 in (i, j) else ops[i][:4] == ops[j][:4] and ops[i][4] != ops[j][4]
                            if R.truth(t.data[(p, q)]) != want:
                                names = ("party", "first source", "second source", "setting", "outcome")
                                if 0 in (i, j):
                                    return f"entry ({i},{j}) involving the zero operator"
                                return f"entry ({i},{j}) for operators that differ in {[n for n, x, y in zip(names, ops[i], ops[j]) if x != y]}"
                    return True
                for R, res in paths(prog, go, known_axes=[rows]):
                    yield "", True, R, res
    n = 0
    for _, _, R, res in gen():
        n += 1
        if isinstance(res, Und):
            rep.undecided(S7, "_orthomat", str(res))
            return
        if res is not True:
            rep.violation(S7, "_orthomat", f"wrong orthogonality: {res}", repr(f))
            return
    rep.functions |= {repr(f)}
    rep.count("patterns_decided", n)
    rep.held(S7, repr(f) + " _orthomat", f"{n} patterns of three operators and the zero operator")


def ancestral(rep, prog):
    f = prog.lookup(prog.cls("InflationProblem"), "_is_knowable_q_non_networks")
    if f is None:
        rep.undecided(S8, "_is_knowable_q_non_networks", "method not found")
        return

    class Eff(Native):
        def __init__(self, p):
            self.p = p

        def item(self, R, i):
            return EffOf(self.p, i)

    class EffOf(list, Native):
        pass

    def parts(R, d, idx):
        return tuple(R.getitem(d, x) for x in R.iterate(idx))
    cols = (P, X, O)

    def gen():
        for present in ((0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)):
            rows = tuple(Pos(("op", i)) for i in range(len(present)))
            d = {}
            for r, p in zip(rows, present):
                d[(r, P)] = p + 1
                d[(r, X)] = sym(("x", p), ("x", p), 0)
                d[(r, O)] = sym(("o", p), ("o", p), 0)
            mon = Arr((rows, cols), d)

            def go(R):
                par = [[q for q in range(3) if q < p and R.boolean("parent", q, p)] for p in range(3)]
                asked = {}
                for p in range(3):
                    for q in par[p]:
                        asked[(p, q)] = sym(("o", q), ("o", q), 0) if R.boolean("agrees", p, q) else sym(("o'", q), ("o", q), 0)

                class Table(Native):
                    def item(self, R, i):
                        class Row(Native):
                            def item(self, R, s):
                                if s != sym(("x", i), ("x", i), 0):
                                    raise Und("setting of another party")
                                return tuple([sym(("private", i), ("private", i), 0)] + [asked[(i, q)] for q in par[i]])
                        if not isinstance(i, int):
                            raise Und("party index")
                        return Row()
                me = Host(prog, "InflationProblem", nr_parties=3, parents_per_party=[Arr.of(x, "par") for x in par], effective_to_parent_settings=Table(), is_network=False)
                r = R.truth(me.attr(R, f.name).call(R, [mon], {}))
                want = all(q in present for p in present for q in par[p]) and \
                    all(asked[(p, q)] == sym(("o", q), ("o", q), 0) for p in present for q in par[p])
                return r == want
            for R, res in paths(prog, go, hooks={"partsextractor": parts}):
                yield f"operators of parties {list(present)}, " + ", ".join(f"{k[0]} {k[1:]}: {v}" for k, v in R.memo.items() if k[0] in ("parent", "agrees")), True, R, res
    verdict(rep, S8, f, gen())


def check(prog, rep, tier):
    rep.rule(S1, "true iff some source is used by both in the same copy")
    rep.rule(S2, "every entry of the overlap matrix is the predicate of its two operators, an operator overlaps itself; factorisation compares exactly the source columns")
    rep.rule(S3, "true iff no source is used in two different copies; true for at most one operator")
    rep.rule(S4, "true iff no source is used in two different copies and no party occurs twice; true for at most one operator")
    rep.rule(S5, "an atomic moment is knowable iff the predicate holds and, outside networks, the ancestral test of its party, setting and outcome columns holds")
    rep.rule(S6, "true iff two adjacent operators are orthogonal or the product is the zero operator itself")
    rep.rule(S7, "two operators are orthogonal iff they agree in everything but the outcome; the zero operator is orthogonal to all")
    rep.rule(S8, "true iff all parents of every party are present and their outcomes are those its effective setting encodes")
    rep.jobs([(S4, "nb_is_knowable", knowable, (prog, "know", tier)), (S3, "nb_is_do_conditional", knowable, (prog, "do", tier)),
              (S1, "nb_exists_shared_source", shared, (prog,)), (S2, "nb_overlap_matrix", overlap, (prog,)),
              (S5, "InflationSDP._atomic_knowable_q", moment, (prog, "InflationSDP")), (S5, "InflationLP._atomic_knowable_q", moment, (prog, "InflationLP")),
              (S6, "lexmon_is_zero", vanishing, (prog,)), (S7, "_orthomat", ortho, (prog,)), (S8, "_is_knowable_q_non_networks", ancestral, (prog,))], 300)
