"""Values of moments: setting values is evaluated over symbolic values, and what becomes known is compared with the products of the factors' values."""
import itertools
import sa.text as textmod, sa.coo as coomod
from sa.text import *
from sa.finite import paths, Host, Arr, Und, Raised, Hook, Multi
from checks.T03 import c, verdict

A, B, C = "products-of-known-factors", "distribution-sets-every-knowable-moment", "value-of-a-product"
BAD = "bad"
NAN = float("nan")


class Atom(Named):
    def equals(self, R, o):
        return self is o or isinstance(o, Prod) and len(o.word) == 1 and o.word[0] is self


class Prod(Host):
    """a product of atomic moments, equal to every product of the same factors"""
    def __init__(self, prog, cname, R, word, com=True):
        word = tuple(word)
        one, zero = [a for a in word if a.name == "1"], [a for a in word if a.name == "0"]
        kn = tuple(a for a in word if a.kw["is_knowable"])
        un = tuple(a for a in word if not a.kw["is_knowable"])
        name = "*".join(a.name for a in word) or "1"
        super().__init__(prog, cname, factors=word, n_factors=len(word), is_atomic=len(word) <= 1, is_do_conditional=not un, is_knowable=not un, knowable_factors=kn, unknowable_factors=un,
                         n_knowable_factors=len(kn), n_unknowable_factors=len(un), as_counter=Multi(R, word), knowability_status="Knowable" if not un else "Unknowable" if not kn else "Semi",
                         is_one=not word or len(one) == len(word), is_zero=bool(zero), name=name, legacy_name=name, n_operators=len(word), signature=word, is_all_commuting=com, symbol=rsym("s" + name))
        self.word = word

    def method(self, R, name):
        if name == "__eq__":
            return Hook(lambda R, o: self.equals(R, o))
        return super().method(R, name)

    def equals(self, R, o):
        if isinstance(o, Prod):
            return sorted(a.name for a in o.word) == sorted(a.name for a in self.word)
        return isinstance(o, Atom) and len(self.word) == 1 and self.word[0] is o

    def text(self, R):
        return self.attrs["name"]

    def truth(self, R):
        return len(self.word) > 0

    def __repr__(self):
        return self.attrs["name"]


def start(R):
    R.texts, R.sparse, R.files, R.saved = textmod, coomod, {}, None
    R.LIMIT = 400000


MOMENTS = ["1", "X", "Y", "XX", "XY", "U", "XU", "XXU", "XYU", "XUV", "V", "UV", "UU", "WX", "XXY"]


def world(R, prog, kind):
    """an LP or SDP over the moments MOMENTS; X, Y, W knowable; U, V not; V is U's conjugate twin in no way; W itself is no moment"""
    cname, comp = ("InflationSDP", "CompoundMomentSDP") if kind == "sdp" else ("InflationLP", "CompoundMoment")
    at = {}
    for n in "XYWUV10":
        a = Atom(n, is_knowable=n in "XYW10", is_one=n == "1", is_zero=n == "0", is_do_conditional=n in "XYW10", n_operators=1, is_all_commuting=True, is_hermitian=n != "U",
                 compute_marginal=Hook(lambda R, p, n=n: rsym("m" + n) if n not in "10" else int(n)), symbol=rsym("s" + n), legacy_name=n)
        at[n] = a
    at["D"] = Atom("D", is_knowable=False, is_one=False, is_zero=False, is_do_conditional=False, n_operators=1, is_all_commuting=True, is_hermitian=False, symbol=rsym("sD"), legacy_name="D", compute_marginal=None)
    for n, a in at.items():
        a.kw["dagger"] = at[{"U": "D", "D": "U"}.get(n, n)] if kind == "sdp" else a
    names = MOMENTS + (["0", "XYD"] if kind == "sdp" else [])
    m = {n: Prod(prog, comp, R, [at[x] for x in n] if n != "1" or kind == "sdp" else []) for n in names}

    def from_atoms(R, l):
        w = sorted(a.name for a in R.iterate(l) if a.name != "1")
        alts = [w] if kind == "lp" else [w, sorted({"U": "D", "D": "U"}.get(x, x) for x in w)]
        for p in m.values():
            if sorted(a.name for a in p.word if a.name != "1") in alts:
                return p
        p = m["".join(w)] = Prod(prog, comp, R, [at[x] for x in w])
        return p
    san = "_sanitise_moment" if kind == "sdp" else "_sanitise_monomial"

    def sanitise(R, x):
        if isinstance(x, Prod):
            return x
        if isinstance(x, Atom):
            return from_atoms(R, [x])
        if isinstance(x, str):
            return from_atoms(R, [at[y] for y in x])
        raise Und("moment")
    moms = [m[n] for n in names]
    known = {m["1"]: 1.}
    if kind == "sdp":
        known[m["0"]] = 0.
    h = Host(prog, cname, verbose=0, One=m["1"], Zero=m.get("0"), known_moments=known, semiknown_moments={}, objective={m["1"]: 0}, _processed_objective={m["1"]: 0}, moment_lowerbounds={}, moment_upperbounds={},
             extra_equalities=[], extra_inequalities=[], _replaced_lowerbounds={}, supports_problem=False, use_lpi_constraints=False, momentmatrix_has_a_zero=kind == "sdp", momentmatrix_has_a_one=True,
             moments=moms, monomials=moms, n_columns=len(moms), status="Not yet solved", maximize=True, default_non_negative=True, all_operators_commute=kind == "lp", expected_distro_shape=(2, 2))
    R.hooks.update({san: sanitise, "_monomial_from_atoms": from_atoms, "_reset_solution": lambda R: None, "collect": lambda R: None, "tqdm": lambda R, x, **k: x,
                    "atomic_monomials": lambda R, s: [m[n] for n in names if len(n) == 1 and n not in "1"] + ([m["1"]] if kind == "sdp" else []), "knowable_atoms": lambda R, s: [m[n] for n in names if len(n) == 1 and n in "XY"] + [m["1"]]})
    for n in ("atomic_monomials", "knowable_atoms"):
        if prog.lookup(prog.cls(cname), n) is None:
            h.attrs[n] = R.hooks.pop(n)(R, h)
    h.attr(R, "_reset_values").call(R, [], {})
    return h, m, at


def expected(kind, values, lpi, only, names):
    """moment -> ("known", value) | ("semi", factor, rest) | None (neither known nor proportional)"""
    con = {"U": "D", "D": "U"} if kind == "sdp" else {}
    val = {n: v for n, v in values.items() if v is not NAN and v == v}
    atom = {n: v for n, v in val.items() if len(n) == 1}
    atom.update({con.get(n, n): v for n, v in atom.items()})
    out = {}
    for n in names:
        if n in ("1", "0"):
            continue
        if n in val:
            out[n] = ("known", val[n])
        elif only or len(n) == 1:
            out[n] = None
        else:
            p, rest = Real.of(1), ""
            for x in n:
                if x in atom:
                    p = p * Real.of(atom[x])
                else:
                    rest += x
            out[n] = ("known", p) if not rest else ("semi", p, rest) if lpi and len(rest) < len(n) else None
    return out


def judge(R, kind, h, m, want, what):
    known, semi = h.attrs["known_moments"], h.attrs["semiknown_moments"]
    if not isinstance(known, dict) or not isinstance(semi, dict):
        raise Und("values not recognised")
    K = {str(k): v for k, v in known.items()}
    S = {str(k).replace("*", ""): v for k, v in semi.items()}
    K = {k.replace("*", ""): v for k, v in K.items()}
    out = []
    con = {"U": "D", "D": "U"} if kind == "sdp" else {}
    for n, w in want.items():
        k, s = K.get(n), S.get(n)
        if w is None:
            if k is not None and not Real.of(k).decided_zero(R):
                out.append((BAD, f"{what}: {n} has the value {k!r} although not all of its factors have a value"))
            if s is not None:
                out.append((BAD, f"{what}: {n} is proportional to {s[1]!r} although no relation follows from the values"))
        elif w[0] == "known":
            if k is None:
                out.append((BAD, f"{what}: {n} has no value although " + ("one was given" if n in want and len(n) == 1 else "all its factors have values")))
            elif not thin(Real.of(k) + -Real.of(w[1])).zero(R):
                out.append((BAD, f"{what}: {n} has the value {k!r} instead of {Real.of(w[1])!r}"))
            if s is not None:
                out.append((BAD, f"{what}: {n} is known and proportional to another moment as well"))
        else:
            zero = Real.of(w[1]).zero(R)
            if zero and k is not None and Real.of(k).zero(R):
                continue
            if k is not None:
                out.append((BAD, f"{what}: {n} has the value {k!r} although {w[2]} has none"))
            elif s is None:
                out.append((BAD, f"{what}: there is no relation between {n} and {w[2]}"))
            else:
                f, rest = s
                r = sorted(a.name for a in rest.word) if isinstance(rest, Prod) else None
                ok = r in (sorted(w[2]), sorted(con.get(x, x) for x in w[2]))
                if not ok or not thin(Real.of(f) + -Real.of(w[1])).zero(R):
                    out.append((BAD, f"{what}: {n} is {f!r} times {rest!r} instead of {w[1]!r} times {w[2]}"))
    for n in K:
        if n not in want and n not in ("1", "0", "", "W"):
            out.append((BAD, f"{what}: {n}, which is not a moment of the program, has a value"))
    return out


x, y, u, w = rsym("x"), rsym("y"), rsym("u"), rsym("w")
VALUES = {"all knowable": dict(X=x, Y=y), "one knowable": dict(X=x), "an unknowable": dict(U=u), "knowable and unknowable": dict(X=x, U=u), "undefined value": dict(X=NAN, Y=y),
          "not a moment": dict(X=x, W=w), "other order": dict(Y=y, X=x), "explicit product": dict(X=rsym("x!"), XU=w), "zero": dict(X=0, Y=y), "negative": dict(X=-.5, Y=2.0), "integers": dict(X=3, Y=y)}


def run_values(rep, prog, kind, label, lpi, only):
    cname = "InflationSDP" if kind == "sdp" else "InflationLP"

    def go(R):
        start(R)
        h, m, at = world(R, prog, kind)
        names = list(m)
        kw = dict(use_lpi_constraints=lpi, only_specified_values=only)
        vals = VALUES[label]
        h.attr(R, "update_values").call(R, [{(m[n] if n in m and i % 2 else n): v for i, (n, v) in enumerate(vals.items())}], kw)
        return judge(R, kind, h, m, expected(kind, vals, lpi, only, names), label)
    verdict(rep, f"{cname}.update_values", f"{label}, lpi {lpi}, only specified {only}", paths(prog, go, hooks={}, limit=1200), {BAD: A})


def run_update(rep, prog, kind, first, second):
    """values are updated: moments named again have the new value, all others keep theirs"""
    cname = "InflationSDP" if kind == "sdp" else "InflationLP"

    def go(R):
        start(R)
        h, m, at = world(R, prog, kind)
        names = list(m)
        f = h.attr(R, "update_values")
        f.call(R, [dict(first[0])], dict(use_lpi_constraints=first[1]))
        f.call(R, [dict(second[0])], dict(use_lpi_constraints=second[1]))
        both = dict(first[0], **second[0])
        return judge(R, kind, h, m, expected(kind, both, second[1], False, names), "after an update")
    verdict(rep, f"{cname}.update_values twice", f"{sorted(first[0])} lpi {first[1]}, then {sorted(second[0])} lpi {second[1]}", paths(prog, go, hooks={}, limit=1200), {BAD: A})


def run_set(rep, prog, kind, first, second):
    """setting values forgets all earlier ones"""
    cname = "InflationSDP" if kind == "sdp" else "InflationLP"

    def go(R):
        start(R)
        h, m, at = world(R, prog, kind)
        names = list(m)
        f = h.attr(R, "set_values")
        f.call(R, [dict(first[0])], dict(use_lpi_constraints=first[1]))
        f.call(R, [dict(second[0]) if second[0] is not None else None], dict(use_lpi_constraints=second[1]))
        return judge(R, kind, h, m, expected(kind, second[0] or {}, second[1], False, names), "after values are set again")
    verdict(rep, f"{cname}.set_values twice", f"{sorted(first[0])} lpi {first[1]}, then {sorted(second[0] or {})} lpi {second[1]}", paths(prog, go, hooks={}, limit=1200), {BAD: A})


def run_distribution(rep, prog, kind, lpi, shared):
    cname = "InflationSDP" if kind == "sdp" else "InflationLP"

    def go(R):
        start(R)
        h, m, at = world(R, prog, kind)
        names = list(m)
        p = Named("prob", shape=(2, 2), ndim=2)
        h.attr(R, "set_distribution").call(R, [p], dict(use_lpi_constraints=lpi, shared_randomness=shared))
        vals = {"X": rsym("mX"), "Y": rsym("mY")}
        return judge(R, kind, h, m, expected(kind, vals, lpi, shared, names), "distribution")
    verdict(rep, f"{cname}.set_distribution", f"lpi {lpi}, shared randomness {shared}", paths(prog, go, hooks={}, limit=1200), {BAD: B})


def run_product(rep, prog, kind, word):
    comp = "CompoundMomentSDP" if kind == "sdp" else "CompoundMoment"

    def go(R):
        start(R)
        h, m, at = world(R, prog, kind)
        p = Prod(prog, comp, R, [at[c] for c in word])
        v = Real.of(p.attr(R, "compute_marginal").call(R, [Named("prob")], {}))
        if v is None:
            raise Und("value not recognised")
        want = Real.of(1)
        for c in word:
            want = want * (Real.of(int(c)) if c in "10" else rsym("m" + c))
        return [] if thin(v + -want).zero(R) else [(BAD, f"the value of {word or '1'} is {v!r} instead of {want!r}")]
    verdict(rep, f"{comp}.compute_marginal", word or "1", paths(prog, go, hooks={}, limit=600), {BAD: C})


def check(prog, rep, tier):
    rep.rule(A, "after update_values a moment is known with the product of its factors' values if all have values, proportional to the product of the others if some have and linearised constraints are requested, and neither otherwise; symbolic values, every zero pattern")
    rep.rule(B, "set_distribution gives every knowable moment its marginal and passes the options on")
    rep.rule(C, "the value of a product is the product of the values of its factors, with multiplicity")
    for kind in ("lp", "sdp"):
        for label in VALUES:
            for lpi in (False, True):
                run_values(rep, prog, kind, label, lpi, False)
            run_values(rep, prog, kind, label, True, True)
        for first, second in (((dict(X=x), False), (dict(Y=y), False)), ((dict(X=x), True), (dict(Y=y), True)), ((dict(X=x), True), (dict(X=w), True)), ((dict(X=x), False), (dict(X=w), False)),
                              ((dict(X=x), True), (dict(X=w), False)), ((dict(X=x, Y=y), False), (dict(X=0), True)), ((dict(X=0), True), (dict(X=x), True))):
            run_update(rep, prog, kind, first, second)
        for first, second in (((dict(X=x), True), (dict(Y=y), False)), ((dict(X=x, Y=y), False), (dict(X=w), True)), ((dict(X=x, U=u), True), (None, False)), ((dict(X=x), False), ({}, True))):
            run_set(rep, prog, kind, first, second)
        for lpi in (False, True):
            for shared in (False, True):
                run_distribution(rep, prog, kind, lpi, shared)
        for word in ("", "X", "XY", "XX", "XXY", "XYW", "1X", "0X") if kind == "sdp" else ("", "X", "XY", "XX", "XXY", "XYW"):
            run_product(rep, prog, kind, word)
