"""Canonical forms: the canonicalisation is evaluated on every arrangement of a few operators whose commutation relations are unknown; the results are compared with the rearrangements the relations allow."""
from itertools import product, combinations
import sa.nd as ndmod
from sa.nd import Nd, asarray
from sa.finite import paths, Und, Raised
from checks.T03 import verdict

A, B, C = "canonical-form-of-equal-products", "canonical-form-is-an-equal-product", "zero-and-repeated-operators"
BAD, SWAP, ZERO = "differs", "other product", "zero"
MOD = "inflation.sdp.fast_npa"


def words(letters, n):
    """arrangements of exactly these letters, up to length n"""
    for m in range(len(letters), n + 1):
        for w in product(letters, repeat=m):
            if set(w) == set(letters):
                yield w


def swaps(w, nc):
    for i in range(len(w) - 1):
        if w[i] != w[i + 1] and (w[i], w[i + 1]) not in nc:
            yield w[:i] + (w[i + 1], w[i]) + w[i + 2:]


def reach(w, nc, squares=False):
    seen, todo = {w}, [w]
    while todo:
        x = todo.pop()
        nxt = list(swaps(x, nc))
        if squares:
            nxt += [x[:i] + x[i + 1:] for i in range(len(x) - 1) if x[i] == x[i + 1]]
        for y in nxt:
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def matrix(k, pairs):
    m = [[False] * (k + 1) for _ in range(k + 1)]
    for a, b in pairs:
        m[a][b] = True
    return Nd((k + 1, k + 1), [x for r in m for x in r], "bool")


def plain(R, v):
    v = asarray(R, v)
    if len(v.shape) != 1 or any(not isinstance(x, int) for x in v.flat):
        raise Und("canonical form not recognised")
    return tuple(int(x) for x in v.flat)


def relations(k, groups):
    """all commutation relations between groups of letters; letters of a group commute and behave alike"""
    gs = sorted(set(groups.values()))
    prs = list(combinations(gs, 2))
    for bits in product((False, True), repeat=len(prs)):
        non = {p for p, b in zip(prs, bits) if b}
        yield {(a, b) for a in groups for b in groups if (groups[a], groups[b]) in non or (groups[b], groups[a]) in non}


def text(w, nc):
    s = "".join("xABCDEF"[i] for i in w)
    p = sorted({tuple(sorted(q)) for q in nc})
    return s + (" with " + ", ".join("xABCDEF"[a] + "xABCDEF"[b] for a, b in p) + " not commuting" if p else " with all commuting")


def run(rep, prog, k, n, groups, name):
    """groups: letter -> group; ortho: letters of one group are orthogonal"""
    letters = list(range(1, k + 1))
    ortho = {(a, b) for a in letters for b in letters if a != b and groups[a] == groups[b]}

    def go(R):
        R.nd = ndmod
        R.LIMIT = 10 ** 9
        canon, full, out = prog.func("nb_lexmon_to_canonical", MOD), prog.func("to_canonical_1d_internal", MOD), []
        memo = {}
        for nc in relations(k, groups):
            notcomm, orth = matrix(k, nc), matrix(k, ortho)
            forms, reduced = {}, {}
            for w in words(letters, n):
                lex = Nd((len(w),), w)
                if name == "commute":
                    ops = [("nb_lexmon_to_canonical", lambda: R.call(canon, [lex, notcomm], {}))]
                    ops.append(("to_canonical_1d_internal with commutations only", lambda: R.call(full, [lex, notcomm, orth], dict(commuting=not nc, apply_only_commutations=True))))
                else:
                    ops = [("to_canonical_1d_internal", lambda: R.call(full, [lex, notcomm, orth], dict(commuting=False)))]
                    if not nc:
                        ops.append(("to_canonical_1d_internal for commuting operators", lambda: R.call(full, [lex, notcomm, orth], dict(commuting=True))))
                for what, f in ops:
                    v = plain(R, f())
                    if lex.flat != list(w):
                        return [(SWAP, f"{what} modifies its argument {text(w, nc)}")]
                    if name == "commute":
                        cls = frozenset(reach(w, nc))
                        if v not in cls:
                            return [(SWAP, f"{what}: the form of {text(w, nc)} is {text(v, nc)}, which is another product" if all(0 < x <= k for x in v) else f"{what}: the form of {text(w, nc)} is {v}")]
                    else:
                        cls = frozenset(reach(w, nc, True))
                        zero = any((x[i], x[i + 1]) in ortho for x in cls for i in range(len(x) - 1))
                        if zero != (v == (0,)):
                            return [(ZERO, f"{what}: {text(w, nc)} {'is' if zero else 'is not'} zero but its form is {'' if v == (0,) else 'not '}zero" + ("; " + ", ".join("xABCDEF"[a] + "xABCDEF"[b] for a, b in sorted(ortho) if a < b) + " orthogonal" if ortho else ""))]
                        if zero:
                            continue
                        short = min(map(len, cls))
                        cls = frozenset(x for x in cls if len(x) == short)
                        if v not in cls:
                            return [(ZERO, f"{what}: the form of {text(w, nc)} is {v if any(not 0 < x <= k for x in v) else text(v, nc)}" + (", which has repeated operators" if v in reach(w, nc, True) else ", which is another product"))]
                    first = forms.setdefault((what, cls), (w, v))
                    if first[1] != v:
                        return [(BAD, f"{what}: {text(w, nc)} and {text(first[0], nc)} are equal but have different forms")]
                if name == "commute":
                    continue
        return out
    rules = {BAD: A, SWAP: B} if name == "commute" else {BAD: A, ZERO: C, SWAP: B}
    verdict(rep, "nb_lexmon_to_canonical" if name == "commute" else "to_canonical_1d_internal", f"{name}, {k} operators, length up to {n}, groups {sorted(groups.values())}", paths(prog, go, hooks={}, limit=5), rules)


def run_trivial(rep, prog):
    def go(R):
        R.nd = ndmod
        full = prog.func("to_canonical_1d_internal", MOD)
        out = []
        nc, o = matrix(2, {(1, 2), (2, 1)}), matrix(2, ())
        for w, want in (((), ()), ((1,), (1,)), ((2,), (2,)), ((0,), (0,))):
            for only in (False, True):
                for com in (False, True):
                    v = plain(R, R.call(full, [Nd((len(w),), w), nc, o], dict(commuting=com, apply_only_commutations=only)))
                    if v != want:
                        out.append((BAD, f"the form of {w} is {v}"))
        return out
    verdict(rep, "to_canonical_1d_internal", "no or one operator", paths(prog, go, hooks={}, limit=5), {BAD: C})


def check(prog, rep, tier):
    rep.rule(A, "all arrangements that are equal up to swapping commuting neighbours (and, where projections are used, up to repeating neighbours) have the same canonical form; all commutation relations of up to four operators")
    rep.rule(B, "the canonical form is reached from the product by swapping commuting neighbours only, and the product is not modified")
    rep.rule(C, "with projections the canonical form is zero exactly if orthogonal operators can be made neighbours, and otherwise has no repetition left")
    top = 4 if tier == "quick" else 5
    for k in range(1, 5):
        run(rep, prog, k, top if k < 4 or tier == "quick" else 5, {i: i for i in range(1, k + 1)}, "commute")
    for gs in ((1,), (1, 2), (1, 1), (1, 2, 3), (1, 1, 2), (1, 2, 2), (1, 1, 1), (1, 1, 2, 2), (1, 1, 2, 3), (1, 2, 2, 3), (1, 2, 3, 3), (1, 2, 3, 4)):
        run(rep, prog, len(gs), top, {i + 1: g for i, g in enumerate(gs)}, "project")
    run_trivial(rep, prog)
