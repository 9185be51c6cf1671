"""Polynomials and certificates: each presentation is evaluated over symbolic coefficients and compared, term by term, with the others."""
import re
import sa.text as textmod, sa.coo as coomod
from sa.text import *
from sa.finite import paths, Host, Arr, Und, Raised, Hook
from checks.T03 import c, verdict

A, B, C, D, E = "certificate-has-every-term", "text-is-the-polynomial", "expression-is-the-polynomial", "value-is-the-polynomial", "cleaning-only-scales"
BAD = "bad"


class Mono(Named):
    """a moment; the constant term is another object for the same moment as the unit"""
    def __init__(self, name, ident=None, **kw):
        super().__init__(name, **kw)
        self.ident = ident or name

    def __eq__(self, o):
        return isinstance(o, Mono) and o.ident == self.ident

    def __hash__(self):
        return hash(self.ident)

    def equals(self, R, o):
        return self == o


def monos(R):
    marg = lambda n: Hook(lambda R, *a, **k: rsym("v" + n))
    m = {n: Mono(n, symbol=rsym("s" + n), is_zero=False, is_one=False, compute_marginal=marg(n)) for n in "ABC"}
    one = Hook(lambda R, *a, **k: 1)
    m["1"] = Mono("1", symbol=1, is_zero=False, is_one=True, compute_marginal=one)
    m["constant_term"] = Mono("constant_term", "1", symbol=1, is_zero=False, is_one=True, compute_marginal=one)
    m["0"] = Mono("0", symbol=0, is_zero=True, is_one=False, compute_marginal=Hook(lambda R, *a, **k: 0))
    return m


def host(R, prog, cname, m, **kw):
    san = "_sanitise_monomial" if cname == "InflationLP" else "_sanitise_moment"
    h = Host(prog, cname, verbose=0, One=m["1"], Zero=m["0"], Constant_Term=m["constant_term"], constant_term_name="constant_term", semiknown_moments={}, use_lpi_constraints=False,
             monomial_from_name=dict(m), momentmatrix_has_a_zero=True, supports_problem=False, **kw)

    def sanitise(R, x):
        if isinstance(x, Mono):
            return x
        if isinstance(x, str) and x in m:
            return m[x]
        raise Und("moment")
    if prog.lookup(prog.cls(cname), san) is None:
        raise Und(f"{san} not found")
    R.hooks.update({san: sanitise})
    return h


def start(R):
    R.texts, R.sparse, R.files, R.saved = textmod, coomod, {}, None
    R.LIMIT = 400000


POLY = {"no terms": {}, "only a constant": {"1": rsym("k")}, "constant and moments": {"1": rsym("k"), "A": rsym("a"), "B": rsym("b")}, "no constant": {"B": rsym("b"), "A": rsym("a")},
        "one moment": {"A": rsym("a")}, "integers": {"A": -1, "B": 1, "1": -2, "C": 3}, "constant last": {"A": rsym("a"), "1": rsym("k")}, "the zero moment": {"0": rsym("z"), "A": rsym("a")},
        "under the other name of the constant": {"constant_term": rsym("k"), "A": rsym("a")}, "a moment under two names": {"A": rsym("a"), "A'": rsym("b"), "1": rsym("k"), "constant_term'": rsym("t")}, "all zero": {"A": 0, "B": 0}, "values near one": {"A": 1.5, "B": -.25, "C": rsym("c")}}


def merged(d):
    out = {}
    for n, v in d.items():
        if n != "0":
            n = n.strip("'")
            n = "1" if n == "constant_term" else n
            out[n] = out.get(n, Real({})) + Real.of(v)
    return out


def keyed(m, d):
    """a primed name: the name and not the moment is the key"""
    return {n[:-1] if n.endswith("'") else m[n]: v for n, v in d.items()}


def differ(R, got, want, what):
    out = []
    for n in list(want) + [n for n in got if n not in want]:
        g, w = got.get(n, Real({})), want.get(n, Real({}))
        if not thin(Real.of(g) + -Real.of(w)).zero(R):
            out.append((BAD, f"{what}: the coefficient of {'the constant' if n == '1' else n} is {g!r} instead of {w!r}"))
    return out


def by_name(R, d):
    out = {}
    for m, v in d.items():
        n = m.ident if isinstance(m, Mono) else m
        v = Real.of(v)
        if v is None or not isinstance(n, str):
            raise Und("entry of a certificate not recognised")
        out[n] = out.get(n, Real({})) + v
    return out


def parse(R, s):
    """the polynomial a text stands for: signed terms number, name or number*name"""
    got, items, i = {}, list(s.items) if isinstance(s, Str) else list(s), 0
    items = [x for x in items if x != " "]
    if not items:
        return None, "the text is empty"
    while i < len(items):
        sgn = 1
        if items[i] in ("+", "-"):
            sgn = 1 if items[i] == "+" else -1
            i += 1
        elif i:
            return None, "two terms without a sign between them"
        if i >= len(items):
            return None, "a sign without a term"
        coeff = None
        if isinstance(items[i], Num):
            spec = items[i].spec
            if spec not in ("", "r", "s") and not re.fullmatch(r"\.(1[6-9]|[2-9]\d)[ge]", spec):
                if re.fullmatch(r"[+-]?(\.\d+)?[gef]", spec):
                    return None, f"coefficients are written with the digits of the format {spec} only"
                raise Und(f"format {spec}")
            v = items[i].value
            if i and items[i - 1] in ("+", "-") and Real.of(v).sign(R) < 0:
                return None, "two signs in a row"
            coeff, i = v, i + 1
        else:
            t = ""
            while i < len(items) and isinstance(items[i], str) and (items[i] in "0123456789." or items[i] in "e+-" and t[-1:] == "e" or items[i] == "e" and t):
                t += items[i]
                i += 1
            if t:
                coeff = float(t)
        name = ""
        if coeff is None or i < len(items) and items[i] == "*":
            if coeff is not None:
                i += 1
            while i < len(items) and isinstance(items[i], str) and (items[i].isalnum() or items[i] == "_"):
                name += items[i]
                i += 1
            if not name:
                return None, "a term without a name"
        name = "1" if name in ("", "constant_term") else name
        got[name] = got.get(name, Real({})) + Real.of(1 if coeff is None else coeff) * Real.of(sgn)
    return got, None


def text_of(rep, prog, cname, label):
    def go(R):
        start(R)
        m = monos(R)
        h = host(R, prog, cname, m)
        d = keyed(m, POLY[label])
        s = h.attr(R, "string_from_dict").call(R, [d], {})
        got, why = parse(R, s)
        if why:
            return [(BAD, f"{label}: {why} in {s!r}")]
        got.pop("0", None)
        return differ(R, got, merged(POLY[label]), label)
    verdict(rep, f"{cname}.string_from_dict", label, paths(prog, go, hooks={}, limit=1500), {BAD: B})


def plain(rep, prog, cname, label, meth, rule, sym):
    def go(R):
        start(R)
        m = monos(R)
        h = host(R, prog, cname, m)
        d = keyed(m, POLY[label])
        r = h.attr(R, meth).call(R, [d] + ([Named("prob")] if meth == "evaluate_polynomial" else []), {})
        r = Real.of(r)
        if r is None:
            raise Und("result not recognised")
        want = Real({})
        for n, v in merged(POLY[label]).items():
            want = want + Real.of(v) * (Real.of(1) if n == "1" else rsym(sym + n))
        if thin(r + -want).zero(R):
            return []
        return [(BAD, f"{label}: the result is {r!r} instead of {want!r}")]
    verdict(rep, f"{cname}.{meth}", label, paths(prog, go, hooks={}, limit=1500), {BAD: rule})


CERT = {"constant and moments": {"1": rsym("k"), "A": rsym("a"), "B": rsym("b")}, "both names of the constant": {"1": rsym("k"), "A": rsym("a"), "constant_term": rsym("t")},
        "other name of the constant": {"constant_term": rsym("t"), "A": rsym("a")}, "the zero moment": {"0": rsym("z"), "1": rsym("k"), "A": rsym("a")}, "no constant": {"B": rsym("b"), "A": rsym("a")},
        "both names, the unit last": {"A": rsym("a"), "constant_term": rsym("t"), "1": rsym("k")}}


def certificate(rep, prog, cname, label, lpi):
    def go(R):
        start(R)
        m = monos(R)
        h = host(R, prog, cname, m, solution_object={"dual_certificate": dict(CERT[label]), "status": "feasible"}, status="feasible", success=True, objective_value=1.5)
        if lpi:
            h.attrs["semiknown_moments"] = {m["C"]: (.5, m["A"])}
        r = h.attr(R, "certificate_as_dict").call(R, [], {"clean": False})
        if not isinstance(r, dict):
            raise Und("result not recognised")
        return differ(R, {k: v for k, v in by_name(R, r).items() if k != "0"}, merged(CERT[label]), label)
    verdict(rep, f"{cname}.certificate_as_dict(clean=False)", label, paths(prog, go, hooks={}, limit=1500), {BAD: A})


def cleaned(rep, prog, cname, label):
    """with cleaning: the merged coefficients, cleaned with the tolerances given"""
    def go(R):
        start(R)
        m = monos(R)
        h = host(R, prog, cname, m, solution_object={"dual_certificate": dict(CERT[label]), "status": "feasible"}, status="feasible", success=True, objective_value=1.5)
        seen = []

        def clean(R, d, *a, **k):
            seen.append((a, k))
            return {x: Real.of(v) * rsym("clean!") for x, v in d.items()}
        R.fhooks = dict(getattr(R, "fhooks", None) or {}, clean_coefficients=clean)
        R.hooks["clean_coefficients"] = clean
        tol, dec = rsym("tol!"), 7
        r = h.attr(R, "certificate_as_dict").call(R, [True, tol, dec], {})
        if not isinstance(r, dict):
            raise Und("result not recognised")
        want = {n: v * rsym("clean!") for n, v in merged(CERT[label]).items()}
        if all(v.zero(R) for v in merged(CERT[label]).values()):
            want = {}
        elif not seen:
            return [(BAD, f"{label}: the certificate is not cleaned")]
        out = differ(R, {k: v for k, v in by_name(R, r).items() if k != "0"}, want, label + ", cleaned")
        for a, k in seen:
            args = list(a) + [k[x] for x in ("chop_tol", "round_decimals")[len(a):] if x in k]
            if len(args) != 2 or args[0] is not tol or args[1] != dec:
                out.append((BAD, f"{label}: the tolerances given are not those used for cleaning"))
        return out
    verdict(rep, f"{cname}.certificate_as_dict(clean=True)", label, paths(prog, go, hooks={}, limit=1500), {BAD: A})


def presented(rep, prog, cname, meth, label, how):
    """certificate_as_string, certificate_as_probs, evaluate_certificate: the certificate's dictionary, with the options given"""
    def go(R):
        start(R)
        m = monos(R)
        h = host(R, prog, cname, m)
        seen = []

        def asdict(R, clean=True, chop_tol=1e-10, round_decimals=3):
            seen.append((clean, chop_tol, round_decimals))
            return {m[n]: v for n, v in POLY[label].items() if n != "0"}
        R.hooks["certificate_as_dict"] = asdict
        opts = {"defaults": ([], {}, (True, 1e-10, 3)), "positional": ([False, .5, 7], {}, (False, .5, 7)), "keywords": ([], dict(round_decimals=1, clean=False, chop_tol=.25), (False, .25, 1))}[how]
        if meth == "evaluate_certificate":
            opts = ([Named("prob")], {}, None)
        r = h.attr(R, meth).call(R, opts[0], opts[1])
        if not seen:
            raise Und("the certificate's dictionary was not asked for")
        if opts[2] and tuple(seen[0]) != opts[2]:
            return [(BAD, f"{how}: the options given {opts[2]} become {tuple(seen[0])}")]
        want = merged(POLY[label])
        if meth == "certificate_as_string":
            items = list(r.items) if isinstance(r, Str) else list(r)
            tail = list(" < 0")
            if items[-4:] != tail:
                return [(BAD, f"{label}: the text {r!r} does not end in ' < 0'")]
            got, why = parse(R, Str.make(items[:-4]))
            return [(BAD, f"{label}: {why} in {r!r}")] if why else differ(R, {k: v for k, v in got.items() if k != "0"}, want, label)
        sym, total = {"certificate_as_probs": "s", "evaluate_certificate": "v"}[meth], Real({})
        for n, v in want.items():
            total = total + Real.of(v) * (Real.of(1) if n == "1" else rsym(sym + n))
        r = Real.of(r)
        if r is None:
            raise Und("result not recognised")
        return [] if thin(r + -total).zero(R) else [(BAD, f"{label}: the result is {r!r} instead of {total!r}")]
    verdict(rep, f"{cname}.{meth}", f"{label}, {how}", paths(prog, go, hooks={}, limit=1500), {BAD: A})


CLEAN = {"two moments": ["a", "b"], "three moments": ["a", "b", "k"], "one moment": ["a"]}


def cleaning(rep, prog, label, tol, dec, kw):
    def go(R):
        start(R)
        R.rounded = []
        keys = CLEAN[label]
        m = ["m" + x for x in reversed(keys)] if kw else [Mono("m" + x) for x in keys]
        vals = [rsym(x) for x in keys]
        if all([v.zero(R) for v in vals]):
            return []
        args = ([], dict(chop_tol=tol, round_decimals=dec)) if kw else ([tol, dec], {})
        d = dict(zip(m, vals))
        r = R.call(prog.func("clean_coefficients"), [d] + args[0], args[1])
        if not isinstance(r, dict):
            raise Und("result not recognised")
        out = []
        if list(r) != m:
            out.append((BAD, f"{label}: the moments are {list(r)} instead of {m}"))
            return out
        got = [Real.of(r[x]) for x in m]
        if any(g is None for g in got):
            raise Und("coefficient not recognised")
        for x, v, g in zip(m, vals, got):
            if v.sign(R) != g.sign(R):
                out.append((BAD, f"{label}: the coefficient {v!r} becomes {g!r}, which has another sign"))
        for i in range(len(m)):
            for j in range(i):
                if not out and not thin(got[i] * vals[j] + -(got[j] * vals[i])).zero(R):
                    out.append((BAD, f"{label}: the coefficients {vals[i]!r}, {vals[j]!r} become {got[i]!r}, {got[j]!r}, which have another ratio"))
        if R.rounded != [dec]:
            out.append((BAD, f"{label}: rounded to {R.rounded} decimals instead of {dec}"))
        if any(d.get(x) is not v for x, v in zip(m, vals)):
            out.append((BAD, f"{label}: the dictionary passed is changed"))
        return out
    verdict(rep, "clean_coefficients", label + (f", chop_tol {tol}"), paths(prog, go, hooks={}, limit=1500), {BAD: E})


def check(prog, rep, tier):
    rep.rule(A, "certificate_as_dict gives each moment the sum of the coefficients the solver reported for it, under all names of the moment, for symbolic coefficients and every pattern of zeros")
    rep.rule(B, "reading the text of a polynomial back (signed terms number*name, name, number) gives the coefficients of the dictionary, for every pattern of zeros and signs and for no terms at all")
    rep.rule(C, "the symbolic expression is the sum over the dictionary of coefficient times symbol")
    rep.rule(D, "the value on a distribution is the sum over the dictionary of coefficient times value of the moment")
    rep.rule(E, "cleaning multiplies all coefficients by one positive factor, keeps the order, the zeros and the signs, and rounds to the number of decimals given, for every pattern of zeros, signs and order of magnitude")
    if prog.find_func("clean_coefficients") is not None:
        for label in CLEAN:
            cleaning(rep, prog, label, 1e-10, 3, False)
            cleaning(rep, prog, label, -1e-9, 5, True)
            cleaning(rep, prog, label, 0, 4, True)
    for cname in ("InflationLP", "InflationSDP"):
        for label in POLY:
            text_of(rep, prog, cname, label)
            plain(rep, prog, cname, label, "probs_from_dict", C, "s")
            plain(rep, prog, cname, label, "evaluate_polynomial", D, "v")
        for label in CERT:
            certificate(rep, prog, cname, label, False)
            cleaned(rep, prog, cname, label)
        certificate(rep, prog, cname, "constant and moments", True)
        for meth in ("certificate_as_string", "certificate_as_probs", "evaluate_certificate"):
            for label in ("constant and moments", "no terms", "integers"):
                for how in ("defaults", "positional", "keywords") if meth != "evaluate_certificate" else ("defaults",):
                    presented(rep, prog, cname, meth, label, how)
