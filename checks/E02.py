"""One product of factors, one registered monomial: abstract evaluation of the factories over their lookup tables."""
from itertools import permutations, combinations_with_replacement
from sa.finite import *
from checks.E01 import World, judge, X, Y, Z

B1, B2, B3, B4 = "same-product-same-object", "registered-everywhere", "same-atom-same-object", "every-way-of-asking"


def und(why):
    raise Und(why)


class Factory:
    def __init__(self, prog, kind, free_idx=True):
        self.prog, self.kind = prog, kind
        self.cname = "InflationSDP" if kind == "sdp" else "InflationLP"
        self.N, self.D = (X, Y), (Y, X)
        self.W = World(prog, kind, commuting=(lambda k: k not in ((X, Y), (Y, X))) if kind == "sdp" else True, docond=False, knowable=False, pairs=[(self.N, self.D)])
        self.free_idx = free_idx

    def program(self, R):
        h = Host(self.prog, self.cname, **self.W.ctx.attrs)
        h.closed = True
        for t in ("monomial_from_atoms", "monomial_from_name", "monomial_from_symbol", "atomic_monomial_from_hash", "_atomic_monomial_from_hash"):
            h.attrs[t] = {}
        if self.free_idx:
            h.attrs["first_free_idx"] = 7
        return h

    def paths(self, go):
        def run(R):
            R.opaque = lambda n: n in ("take", "empty")
            R.free_terms = True
            R.LIMIT = 400000
            return go(R)
        return paths(self.prog, run, hooks={**self.W.hooks, **self.extra()}, limit=400)

    def extra(self):
        return {}


def table_has(R, h, m):
    want = [("monomial_from_name", m.attr(R, "name"), "name"), ("monomial_from_name", m.attr(R, "legacy_name"), "alternative name"),
            ("monomial_from_symbol", m.attr(R, "symbol"), "symbol")]
    for t, key, w in want:
        try:
            if R.getitem(h.attrs[t], key) is not m:
                return f"the entry of {t} for its {w} is another monomial"
        except Raised:
            return f"it is not registered in {t} under its {w}"
    return None


def atoms_of(F, R, with_one, with_zero):
    pool = {"x": (X,), "y": (Y,)}
    if F.kind == "sdp":
        pool.update({"n": F.N, "d": F.D})
        if with_zero:
            pool["0"] = (0,)
    if with_one:
        pool["1"] = ()
    return {k: F.W.build(R, v) for k, v in pool.items()}


def canonical(word):
    """what the product of a word of atoms is"""
    if "0" in word:
        return ("0",)
    w = [c for c in word if c != "1"]
    con = {"n": "d", "d": "n"}
    return min(tuple(sorted(w)), tuple(sorted(con.get(c, c) for c in w)))


def factories(rep, prog, kind):
    F = Factory(prog, kind)
    name = f"{F.cname}._monomial_from_atoms"
    if prog.lookup(prog.cls(F.cname), "_monomial_from_atoms") is None:
        rep.undecided(B1, name, "method not found")
        return
    letters = "xynd01" if kind == "sdp" else "xy"
    words = [c for n in (0, 1, 2, 3) for c in combinations_with_replacement(letters, n)]
    for free in (True, False):
        F.free_idx = free

        def go(R):
            h = F.program(R)
            at = atoms_of(F, R, kind == "sdp", kind == "sdp")
            ask = lambda w: h.attr(R, "_monomial_from_atoms").call(R, [[at[c] for c in w]], {})
            got = {}
            for w in words:
                perms = sorted(set(permutations(w)))
                for p in {perms[0], perms[-1]}:
                    m = ask(p)
                    if not isinstance(m, Host):
                        raise Und("result")
                    key = canonical(w)
                    idx = m.attrs.get("idx")
                    if key in got:
                        if got[key][0] is not m:
                            return (B1, f"the product of {list(p)} is a new object although the product {list(got[key][2])} of the same factors exists")
                        if got[key][1] != idx:
                            return (B1, f"asking again for the product of {list(p)} changes its index")
                    else:
                        for k, (o, i, q) in got.items():
                            if o is m:
                                return (B1, f"the products of {list(p)} and {list(q)} are the same object")
                            if free and (idx is None or i == idx):
                                return (B1, f"the products of {list(p)} and {list(q)} have the same index" if idx is not None else f"the product of {list(p)} has no index")
                        got[key] = (m, idx, p)
                    bad = table_has(R, h, m)
                    if bad:
                        return (B2, f"product of {list(p)}: {bad}")
                    if key == ("0",) and not R.truth(m.attr(R, "is_zero")) or key == () and not R.truth(m.attr(R, "is_one")):
                        return (B1, f"the product of {list(p)} is not the {'zero' if key else 'unit'} monomial")
            return None
        run(rep, (B1, B2), name + ("" if free else " before indices are assigned"), F.paths(go))


def run(rep, rules, construct, gen):
    n = 0
    for R, res in gen:
        n += 1
        if isinstance(res, Und):
            rep.undecided(rules[0], construct, str(res))
            return
        if isinstance(res, Raised):
            rep.violation(rules[0], construct, f"raises {res}")
            return
        if res is not None:
            rep.violation(res[0], construct, res[1])
            return
        rep.functions |= R.funcs
    rep.count("paths", n)
    for r in rules:
        rep.held(r, construct, f"{n} paths")


def atoms_sdp(rep, prog):
    F = Factory(prog, "sdp")
    orbit = {(X,): (X,), (Y,): (X,), (Z,): (Z,), (X, Z): (X, Z), (Y, Z): (X, Z), (Z, X): (X, Z)}
    name = "InflationSDP._AtomicMonomial"
    if prog.lookup(prog.cls("InflationSDP"), "_AtomicMonomial") is None:
        rep.undecided(B3, name, "method not found")
        return
    for order in permutations(range(6), 3):
        keys = [list(orbit)[i] for i in order]
        F.extra = lambda: {"_to_inflation_repr_1d": lambda R, x, *r, **k: Arr.of(list(orbit[tuple(x.data.values())]), "lex")}

        def go(R):
            h = F.program(R)
            got = {}
            for k in keys + keys:
                m = h.attr(R, "_AtomicMonomial").call(R, [Arr.of(list(k), "lex")], {})
                if not isinstance(m, Host):
                    raise Und("result")
                if tuple(m.attrs["as_lexmon"].data.values()) != orbit[k]:
                    return (B3, "the atom returned does not hold the representative of its orbit")
                for o, n in got.items():
                    if (n is m) != (o == orbit[k]):
                        return (B3, "two requests in one orbit give different atoms" if o == orbit[k] else "requests in different orbits give the same atom")
                got[orbit[k]] = m
            return None
        n = len(rep.bad) + len(rep.und)
        run(rep, (B3,), name, F.paths(go))
        if len(rep.bad) + len(rep.und) != n:
            return


def atoms_lp(rep, prog):
    F = Factory(prog, "lp")
    name = "InflationLP._AtomicMonomial"
    if prog.lookup(prog.cls("InflationLP"), "_AtomicMonomial") is None:
        rep.undecided(B3, name, "method not found")
        return
    for perms in (([0, 1, 2],), ([0, 1, 2], [1, 0, 2]), ([0, 1, 2], [1, 2, 0], [2, 0, 1])):
        words = [(0,), (1,), (2,), (0, 2), (1, 2), (2, 1)]
        orb = lambda w: frozenset(frozenset(p.index(x) for x in w) for p in perms)
        for order in permutations(range(6), 2):
            keys = [words[i] for i in order]

            def go(R):
                h = F.program(R)
                h.attrs["blank_bool_vec"] = Arr.of([False] * 3, "vec")
                h.attrs["lexorder_symmetries"] = R.asarr([list(p) for p in perms])
                got = []
                for k in keys + keys:
                    m = h.attr(R, "_AtomicMonomial").call(R, [Arr.of(list(k), "lex")], {})
                    if not isinstance(m, Host):
                        raise Und("result")
                    for o, n in got:
                        if (n is m) != (orb(o) == orb(k)):
                            return (B3, f"two requests in one orbit ({list(o)}, {list(k)}) give different atoms" if orb(o) == orb(k) else f"requests in different orbits ({list(o)}, {list(k)}) give the same atom")
                    got.append((k, m))
                return None
            n = len(rep.bad) + len(rep.und)
            run(rep, (B3,), f"{name} with {len(perms)} symmetries", F.paths(go))
            if len(rep.bad) + len(rep.und) != n:
                return


def asking(rep, prog, kind):
    F = Factory(prog, kind)
    meth, san = ("Moment_1d", "_sanitise_moment") if kind == "sdp" else ("Monomial", "_sanitise_monomial")
    c = prog.cls(F.cname)
    if prog.lookup(c, meth) is None or prog.lookup(c, san) is None:
        rep.undecided(B4, F.cname, "method not found")
        return
    F.extra = lambda: {"_to_inflation_repr_1d": lambda R, x, *r, **k: Arr.of(list(x.data.values()), "lex"),
                       "_AtomicMonomial": lambda R, x: R.atom(x)}
    words = [w for n in (0, 1, 2, 3) for w in combinations_with_replacement("xy", n)]

    def go(R):
        h = F.program(R)
        R.blank = False

        def split(R, x, *a, **k):
            return [Arr.of([e], "lex") for e in x.data.values()] + ([Arr.of([], "lex")] if R.blank else [])
        for n in ("factorize_monomial_1d", "factorize_moment_1d"):
            h.attrs[n] = Hook(split)
        at = atoms_of(F, R, False, False)
        lex = {"x": (X,), "y": (Y,)}
        rev = {(X,): at["x"], (Y,): at["y"], (): F.W.build(R, ())}
        R.atom = lambda x: rev.get(tuple(x.data.values())) or und("atom of unexpected operators")
        for w in words:
            res = []
            for p in sorted({w, w[::-1]}):
                for blank in (False, True):
                    R.blank = blank
                    whole = Arr.of([v for ch in p for v in lex[ch]], "lex")
                    m = h.attr(R, meth).call(R, [whole], {})
                    res.append(m)
            m = res[0]
            if any(x is not m for x in res):
                return (B4, f"{meth} gives different objects for the same factors {list(w)}")
            if h.attr(R, san).call(R, [m], {}) is not m:
                return (B4, f"{san} of a monomial is not that monomial")
            if len(w) == 1 and h.attr(R, san).call(R, [at[w[0]]], {}) is not m:
                return (B4, f"{san} of an atom is not the registered monomial of that atom")
            i = m.attrs.get("idx")
            h.attr(R, meth).call(R, [whole], {})
            if m.attrs.get("idx") != i:
                return (B4, f"asking again with {meth} changes the index")
            bad = table_has(R, h, m)
            if bad:
                return (B4, f"{meth} of {list(w)}: {bad}")
        return None
    run(rep, (B4,), f"{F.cname}.{meth}", F.paths(go))


def check(prog, rep, tier):
    rep.rule(B1, "for all words of up to three atoms (plain, non-Hermitian and conjugate, trivial, zero) two orders of one word give one object with one index, different products give different objects with different indices")
    rep.rule(B2, "the object returned is found in the tables under its name, alternative name and symbol")
    rep.rule(B3, "requests in one symmetry orbit give one atom, whatever was asked before; requests in different orbits give different atoms")
    rep.rule(B4, "the moment factory, the sanitiser and the atom factory return the same registered object for the same factors")
    for n in ("InflationSDP", "InflationLP"):
        prog.cls(n)
    rep.jobs([(B1, "InflationSDP", factories, (prog, "sdp")), (B1, "InflationLP", factories, (prog, "lp")), (B3, "InflationSDP", atoms_sdp, (prog,)),
              (B3, "InflationLP", atoms_lp, (prog,)), (B4, "InflationSDP", asking, (prog, "sdp")), (B4, "InflationLP", asking, (prog, "lp"))], 300)
