"""Relations between operators: overlap and commutation are evaluated on operators whose copy indices and settings are unknown; every pattern of equality is compared with the rule."""
from itertools import product, combinations
import sa.nd as ndmod
from sa.nd import Nd, Sym, asarray
from sa.finite import paths, Und, Raised
from checks.T03 import verdict

A, B, C, D = "shared-source", "overlap-of-all-pairs", "commutation-of-two-operators", "commutation-of-all-pairs"
BAD = "bad"
MOD = "inflation.sdp.fast_npa"


def begin(R):
    R.nd = ndmod
    R.LIMIT = 10 ** 8


def same(R, a, b):
    return R.truth(R.cmp("==", a, b))


def truth(R, v):
    if isinstance(v, Nd) and len(v.flat) != 1:
        raise Und("truth value")
    return R.truth(v)


def indices(op, pattern):
    return [Sym(f"c{op}{s}") if on else 0 for s, on in enumerate(pattern)]


def shared(R, x, y):
    return any([not isinstance(p, int) and not isinstance(q, int) and same(R, p, q) for p, q in zip(x, y)])


def run_shared(rep, prog, p1, p2):
    def go(R):
        begin(R)
        x, y = indices(1, p1), indices(2, p2)
        got = truth(R, R.call(prog.func("nb_exists_shared_source", MOD), [Nd((len(x),), x), Nd((len(y),), y)], {}))
        want = shared(R, x, y)
        return [] if got == want else [(BAD, f"copies {shown(R, x)} and {shown(R, y)} are {'' if got else 'not '}found to overlap")]
    verdict(rep, "nb_exists_shared_source", f"{p1} {p2}", paths(prog, go, hooks={}, limit=3000), {BAD: A})


def shown(R, x):
    return "(" + ", ".join("0" if isinstance(v, int) else v.find(R).name for v in x) + ")"


def run_overlap(rep, prog, pats):
    def go(R):
        begin(R)
        xs = [indices(i, p) for i, p in enumerate(pats)]
        v = asarray(R, R.call(prog.func("nb_overlap_matrix", MOD), [Nd((len(xs), len(pats[0]) if pats else 2), [a for x in xs for a in x])], {}))
        n = len(xs)
        if v.shape != (n, n):
            return [(BAD, f"the table of {n} operators has shape {v.shape}")]
        out = []
        for i in range(n):
            for j in range(n):
                got = R.truth(v.get((i, j)))
                want = i == j or shared(R, xs[i], xs[j])
                if got != want:
                    out.append((BAD, f"entry ({i}, {j}) of the overlaps of {', '.join(shown(R, x) for x in xs)} is {got}"))
        return out
    verdict(rep, "nb_overlap_matrix", f"{pats}", paths(prog, go, hooks={}, limit=4000), {BAD: B})


def run_commute(rep, prog, same_party, table):
    """table: kind of each source for the pair: 0 not common, 1 classical, 2 quantum"""
    def go(R):
        begin(R)
        p1, p2 = 1, 1 if same_party else 2
        k = len(table)
        t = [[[0] * k for _ in range(2)] for _ in range(2)]
        t[p1 - 1][p2 - 1] = list(table)
        t[p2 - 1][p1 - 1] = list(table)
        ops = []
        for i, p in ((1, p1), (2, p2)):
            # sources that are not common: party 1 takes part, party 2 does not
            cop = [Sym(f"c{i}{s}") if kind or p == 1 and not same_party else 0 for s, kind in enumerate(table)]
            ops.append([p] + cop + [Sym(f"x{i}", 0), Sym(f"a{i}", 0)])
        x, y = ops
        got = truth(R, R.call(prog.func("nb_operators_commute", MOD), [Nd((k + 3,), x), Nd((k + 3,), y), asarray(R, t)], {}))
        touch = any([kind == 2 and same(R, x[1 + s], y[1 + s]) for s, kind in enumerate(table)])
        alike = all([same(R, x[1 + s], y[1 + s]) for s, kind in enumerate(table) if kind])
        want = not touch or alike and (not same_party or same(R, x[-2], y[-2]))
        if got == want:
            return []
        d = "no quantum source copy is shared" if not touch else "some but not all common copies are shared" if not alike else f"all common copies are shared, {'settings ' + ('equal' if same(R, x[-2], y[-2]) else 'different') if same_party else 'parties different'}"
        return [(BAD, f"operators of {'one party' if same_party else 'two parties'} with common sources {describe(table)} are {'' if got else 'not '}taken to commute although {d}")]
    verdict(rep, "nb_operators_commute", f"{'same party' if same_party else 'two parties'} {table}", paths(prog, go, hooks={}, limit=4000), {BAD: C})


def describe(t):
    return "(" + ", ".join(("none", "classical", "quantum")[k] for k in t) + ")"


def run_matrix(rep, prog, n, commuting):
    def go(R):
        begin(R)
        rows = [[1 + i % 2, 1, i, 0] for i in range(n)]
        lex = Nd((n, 4), [v for r in rows for v in r])
        rel = {}

        def commute(R, x, y, *a):
            i, j = sorted((x.flat[2], y.flat[2]))
            if i == j:
                return True
            rel[(i, j)] = R.boolean("commute", i, j)
            return rel[(i, j)]
        R.hooks["nb_operators_commute"] = commute
        v = asarray(R, R.call(prog.func("commutation_matrix", MOD), [lex, asarray(R, [[[2, 2]] * 2] * 2)], dict(commuting=commuting)))
        if v.shape != (n, n):
            return [(BAD, f"the table of {n} operators has shape {v.shape}")]
        out = []
        for i in range(n):
            for j in range(n):
                got = R.truth(v.get((i, j)))
                want = not commuting and i != j and not commute(R, Nd((4,), rows[i]), Nd((4,), rows[j]))
                if got != want:
                    out.append((BAD, f"entry ({i}, {j}) of the table of {n} operators is {got} although they {'do not ' if want else ''}commute"))
        return out
    verdict(rep, "commutation_matrix", f"{n} operators, commuting {commuting}", paths(prog, go, hooks={}, limit=300), {BAD: D})


def run_all(rep, prog, n, word):
    def go(R):
        begin(R)
        rows = [[1, 1, i, 0] for i in range(n)]
        m = [[False] * n for _ in range(n)]
        for i, j in combinations(range(n), 2):
            m[i][j] = m[j][i] = R.boolean("not commuting", i, j)
        mon = Nd((len(word), 4), [v for i in word for v in rows[i]])
        got = truth(R, R.call(prog.func("nb_all_commuting_q", MOD), [mon, Nd((n, 4), [v for r in rows for v in r]), Nd((n, n), [v for r in m for v in r], "bool")], {}))
        want = not any(m[i][j] for i in word for j in word)
        return [] if got == want else [(BAD, f"the operators {word} are {'' if got else 'not '}found to commute")]
    verdict(rep, "nb_all_commuting_q", f"{word} of {n}", paths(prog, go, hooks={}, limit=300), {BAD: D})


def check(prog, rep, tier):
    rep.rule(A, "two operators overlap exactly if they act on the same copy of some source; copy indices unknown, all patterns of taking part and of equality")
    rep.rule(B, "the table of overlaps is symmetric, true on the diagonal and agrees with the overlap of each pair")
    rep.rule(C, "two operators commute exactly if they share no copy of a common quantum source, or share all copies of their common sources and belong to different parties or have equal settings")
    rep.rule(D, "tables and tests over many operators agree with the relation of each pair")
    K = 2 if tier == "quick" else 3
    for k in range(1, K + 1):
        pats = list(product((0, 1), repeat=k))
        for p, q in product(pats, repeat=2):
            run_shared(rep, prog, p, q)
        for n in range(0, 4):
            for ps in product([p for p in pats if any(p)], repeat=n):
                if n < 3 or k < 3:
                    run_overlap(rep, prog, ps)
    for k in range(1, K + 2):
        for t in product((0, 1, 2), repeat=k):
            for sp in (True, False):
                run_commute(rep, prog, sp, t)
    for n in range(0, 4):
        for com in (False, True):
            run_matrix(rep, prog, n, com)
    for word in ((), (0,), (1,), (0, 1), (1, 0), (0, 0), (0, 2), (0, 1, 2), (2, 1, 2), (0, 0, 1)):
        run_all(rep, prog, 3, word)
