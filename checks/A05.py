"""Moment matrices: the construction is evaluated on generating sets of abstract operators with unknown commutation relations; entries are compared with the products of their row and column."""
from itertools import product, combinations
import sa.nd as ndmod
from sa.nd import Nd, asarray
from sa.finite import paths, Host, Hook, Und, Raised
from checks.T03 import verdict
from checks.A01 import reach, matrix, relations, text

A, B, C = "equal-entries-are-equal-products", "zero-entries-are-zero-products", "index-stands-for-the-product"
BAD, ZERO, INDEX = "bad", "zero", "index"
MOD = "inflation.sdp.quantum_tools"


def entries(R, m, n):
    m = asarray(R, m)
    if m.shape != (n, n) or any(not isinstance(x, int) for x in m.flat):
        raise Und("moment matrix not recognised")
    return {(i, j): m.get((i, j)) for i in range(n) for j in range(n)}


class Products:
    """the class of a product under swaps, repetitions and conjugation"""
    def __init__(self, nc, ortho):
        self.nc, self.ortho, self.memo = nc, ortho, {}

    def cls(self, w):
        if w not in self.memo:
            out = set()
            zero = False
            for v in (w, w[::-1]):
                r = reach(v, self.nc, True)
                zero = zero or any((x[i], x[i + 1]) in self.ortho for x in r for i in range(len(x) - 1))
                out |= r
            short = min(map(len, out))
            self.memo[w] = 0 if zero else frozenset(x for x in out if len(x) == short)
        return self.memo[w]


def judge(R, cols, prods, m, table, desc):
    """table: index -> word, as far as it is given"""
    n = len(cols)
    got = entries(R, m, n)
    byval, bycls = {}, {}
    def name(i, j):
        return f"({text(cols[i], ()).split(' with')[0] or '1'})^† {text(cols[j], ()).split(' with')[0] or '1'}"
    for (i, j), v in got.items():
        c = prods.cls(cols[i][::-1] + cols[j])
        if (v == 0) != (c == 0):
            return [(ZERO, f"{desc}: the entry of {name(i, j)} is {v} although the product is {'' if c == 0 else 'not '}zero")]
        if c == 0:
            continue
        p = byval.setdefault(v, (c, i, j))
        q = bycls.setdefault(c, (v, i, j))
        if p[0] != c:
            return [(BAD, f"{desc}: {name(i, j)} and {name(*p[1:])} have the same entry but are different products")]
        if q[0] != v:
            return [(BAD, f"{desc}: {name(i, j)} and {name(*q[1:])} are equal products but have different entries {v} and {q[0]}")]
        if table is not None:
            if v not in table:
                return [(INDEX, f"{desc}: no product is recorded for the entry {v} of {name(i, j)}")]
            if prods.cls(table[v]) != c:
                return [(INDEX, f"{desc}: the product recorded for the entry of {name(i, j)} is {text(table[v], ()).split(' with')[0]}")]
    if table is not None and set(table) - set(byval):
        return [(INDEX, f"{desc}: products are recorded for indices {sorted(set(table) - set(byval))}, which do not occur")]
    if byval and cols and not cols[0] and got[0, 0] != 1:
        return [(INDEX, f"{desc}: the entry of the identity is {got[0, 0]}, index 1 is reserved for it")]
    return []


def word(R, v):
    v = asarray(R, v)
    if len(v.shape) != 1 or any(not isinstance(x, int) for x in v.flat):
        raise Und("recorded product not recognised")
    return tuple(v.flat)


def columns(k, top, some):
    ws = [w for n in range(top + 1) for w in product(range(1, k + 1), repeat=n) if all(x != y for x, y in zip(w, w[1:]))]
    return ws if some is None else [w for w in ws if some(w)]


def run(rep, prog, groups, top, some, wrapper):
    k = len(groups)
    gs = {i + 1: g for i, g in enumerate(groups)}
    ortho = {(a, b) for a in gs for b in gs if a != b and gs[a] == gs[b]}
    cols = columns(k, top, some)

    def go(R):
        R.nd = ndmod
        R.LIMIT = 10 ** 9
        for nc in relations(k, gs):
            for com in ((False, True) if not nc else (False,)):
                lex = [Nd((len(w),), w) for w in cols]
                nm, om = matrix(k, nc), matrix(k, ortho)
                desc = f"{text((), nc).strip()}" + (f", {', '.join('xABCDEF'[a] + 'xABCDEF'[b] for a, b in sorted(ortho) if a < b)} orthogonal" if ortho else "")
                if wrapper:
                    h = Host(prog, "InflationSDP", generating_monomials_1d=lex, _notcomm=nm, _orthomat=om, all_operators_commute=com, verbose=0, n_columns=len(lex))
                    res = h.attr(R, "_build_momentmatrix_1d_internal").call(R, [], {})
                else:
                    res = R.call(prog.func("calculate_momentmatrix_1d_internal", MOD), [lex, nm, om], dict(commuting=com))
                res = R.iterate(res)
                if len(res) != 2:
                    raise Und("result not recognised")
                m, t = res
                items = [R.iterate(x) for x in R.iterate(R.method(t, "items", [], {}))]
                if wrapper:
                    table = {i: word(R, w) for i, w in items}
                else:
                    table = {i: word(R, w) for w, i in items}
                    if len(table) != len(items):
                        return [(INDEX, f"{desc}: an index stands for two products")]
                bad = judge(R, cols, Products(nc, ortho), m, table, desc)
                if bad:
                    return bad
        return []
    verdict(rep, "InflationSDP._build_momentmatrix_1d_internal" if wrapper else "calculate_momentmatrix_1d_internal", f"{len(cols)} columns of up to {top} of {k} operators, groups {sorted(groups)}", paths(prog, go, hooks={}, limit=5), {BAD: A, ZERO: B, INDEX: C})


def check(prog, rep, tier):
    rep.rule(A, "entries (i, j) and (k, l) are equal exactly if the product of column i's adjoint and column j equals the product of column k's adjoint and column l, or its adjoint, up to swapping commuting neighbours and repetition; all commutation relations of up to three operators")
    rep.rule(B, "an entry is zero exactly if orthogonal operators can be made neighbours in the product")
    rep.rule(C, "the product recorded for an index is the product of the entries that carry it; the identity has index 1")
    for wrapper in (False, True):
        for gs in ((1,), (1, 2), (1, 1)):
            run(rep, prog, gs, 2, None, wrapper)
        for gs in ((1, 2, 3), (1, 1, 2), (1, 2, 2)):
            run(rep, prog, gs, 2 if tier != "quick" else 1 if wrapper else 2, None if not wrapper else None, wrapper)
