"""Knowability and positivity of moments: the classifications are evaluated on operators with unknown copy indices, parties and outcomes; every pattern of equality is compared with the definition."""
from itertools import product, combinations
import sa.nd as ndmod
from sa.nd import Nd, Sym, asarray
from sa.finite import paths, Host, Hook, Und, Raised, T
from checks.T03 import verdict
from checks.A02 import begin, same, truth, shown
from checks.A03 import scipy_components, components

A, B, C, D, E = "one-operator-per-party-one-copy-per-source", "one-copy-per-source", "parents-agree-with-settings", "knowable-in-networks-and-otherwise", "non-negative-moments"
BAD = "bad"
NPA, NUM = "inflation.sdp.fast_npa", "inflation.lp.numbafied"


def rows(pats):
    return [[Sym(f"p{i}")] + [Sym(f"c{i}{s}") if on else 0 for s, on in enumerate(p)] + [Sym(f"x{i}", 0), Sym(f"a{i}", 0)] for i, p in enumerate(pats)]


def array(rs, w):
    return Nd((len(rs), w), [v for r in rs for v in r])


def one_copy(R, rs, k):
    return all([not (x[1 + s] != 0 and y[1 + s] != 0) or same(R, x[1 + s], y[1 + s]) for x, y in combinations(rs, 2) for s in range(k) if not isinstance(x[1 + s], int) and not isinstance(y[1 + s], int)])


def text(R, rs, k):
    return "; ".join(f"party {r[0].find(R).name} copies {shown(R, r[1:1 + k])}" for r in rs) or "no operators"


def run_knowable(rep, prog, fname, mod, pats, k, parties):
    def go(R):
        begin(R)
        rs = rows(pats)
        got = truth(R, R.call(prog.func(fname, mod), [array(rs, k + 3)], {}))
        want = len(rs) <= 1 or one_copy(R, rs, k) and (not parties or not any([same(R, x[0], y[0]) for x, y in combinations(rs, 2)]))
        return [] if got == want else [(BAD, f"{text(R, rs, k)}: classified as {'' if got else 'not '}{'knowable' if parties else 'do-conditional'}")]
    verdict(rep, fname, f"{pats}", paths(prog, go, hooks={}, limit=6000), {BAD: A if parties else B})


def run_parents(rep, prog, parents, ps):
    """scenario in which parents[p] are the parents of party p; the operators are those of the parties ps"""
    def go(R):
        begin(R)
        n = len(parents)
        eff = [{e: tuple([Sym(f"x{p}", 0)] + [Sym(f"v{p}{q}", 0) for q in parents[p]]) if e == 1 else tuple([Sym(f"y{p}", 0)] + [Sym(f"u{p}{q}", 0) for q in parents[p]]) for e in range(2)} for p in range(n)]
        out = {p: Sym(f"a{p}", 0) for p in ps}
        h = Host(prog, "InflationProblem", nr_parties=n, parents_per_party=[Nd((len(q),), q) for q in parents], effective_to_parent_settings=eff, names=["A", "B", "C"][:n], outcomes_per_party=Nd((n,), [3] * n))
        m = array([[p + 1, 1, out[p]] for p in ps], 3)
        got = truth(R, h.attr(R, "_is_knowable_q_non_networks").call(R, [m], {}))
        want = all(q in ps for p in ps for q in parents[p]) and all([same(R, out[q], eff[p][1][1 + i]) for p in ps for i, q in enumerate(parents[p])])
        d = f"parties {[p + 1 for p in ps]}, parents {[[q + 1 for q in x] for x in parents]}"
        if got == want:
            return []
        bad = [f"{q + 1} of {p + 1}" for p in ps for i, q in enumerate(parents[p]) if q not in ps or not same(R, out[q], eff[p][1][1 + i])]
        return [(BAD, f"{d}: found {'' if got else 'not '}knowable although " + (f"parent {bad[0]} is missing or has another outcome than the setting states" if bad else "all parents have the outcomes that the settings state"))]
    verdict(rep, "InflationProblem._is_knowable_q_non_networks", f"{ps} of {parents}", paths(prog, go, hooks={}, limit=2000), {BAD: C})


def run_atomic(rep, prog, cname, network):
    def go(R):
        begin(R)
        seen = []
        mon = array([[1, T("c1"), T("d1"), T("x1"), T("a1")], [2, T("c2"), T("d2"), T("x2"), T("a2")]], 5)

        def other(R, m):
            m = asarray(R, m)
            if [m.get((i, j)) for i in range(m.shape[0]) for j in (0, m.shape[1] - 2, m.shape[1] - 1)] != [1, T("x1"), T("a1"), 2, T("x2"), T("a2")]:
                seen.append(1)
            return R.boolean("consistent with the settings")
        R.hooks["nb_is_knowable"] = lambda R, m: R.boolean("identified with an event")
        h = Host(prog, cname, network_scenario=network, _is_knowable_q_non_networks=Hook(other), inflationproblem=None)
        got = truth(R, h.attr(R, "_atomic_knowable_q").call(R, [mon], {}))
        want = R.boolean("identified with an event") and (network or R.boolean("consistent with the settings"))
        if seen:
            return [(BAD, "the test of settings is applied to other columns than party, setting and outcome")]
        return [] if got == want else [(BAD, f"{'network' if network else 'other scenario'}: a moment that is {'' if R.boolean('identified with an event') else 'not '}identified with an event is {'' if got else 'not '}knowable")]
    verdict(rep, f"{cname}._atomic_knowable_q", f"network {network}", paths(prog, go, hooks={}, limit=50), {BAD: D})


LETTERS = {"A": [1, 1, 1, 0, 0], "a": [1, 1, 1, 1, 0], "C": [1, 2, 2, 0, 0], "c": [1, 2, 1, 0, 0], "B": [2, 1, 0, 0, 0], "b": [2, 1, 0, 1, 0]}


def overlap(x, y):
    return any(p and p == q for p, q in zip(x[1:-2], y[1:-2]))


def positive(word, sandwich):
    for party in (1, 2):
        ops = [LETTERS[l] for l in word if LETTERS[l][0] == party]
        lab = components(len(ops), [(i, j) for i, j in combinations(range(len(ops)), 2) if overlap(ops[i], ops[j])])
        for l in set(lab):
            f = [o for o, q in zip(ops, lab) if q == l]
            while sandwich and f and f[0] == f[-1]:
                f = f[1:-1]
            if len(f) > 1:
                return False
    return True


def run_positive(rep, prog, letters, n, sandwich):
    def go(R):
        begin(R)
        R.globals = {"nopython": True}
        f = prog.func("nb_is_physical", NPA)
        for m in range(n + 1):
            for w in product(letters, repeat=m):
                mon = array([LETTERS[l] for l in w], 5)
                got = truth(R, R.call(f, [mon], dict(sandwich_positivity=sandwich)))
                if got != positive(w, sandwich):
                    return [(BAD, f"{''.join(w)} ({', '.join(f'{l} = {LETTERS[l]}' for l in letters)}), sandwiches {sandwich}: found {'' if got else 'not '}to be non-negative")]
        return []
    verdict(rep, "nb_is_physical", f"up to {n} of {letters}, sandwiches {sandwich}", paths(prog, go, hooks={"connected_components": scipy_components}, limit=5), {BAD: E})


def check(prog, rep, tier):
    rep.rule(A, "a moment is identified with an event exactly if its operators belong to different parties and act on one copy of each source; copy indices and parties unknown, up to three operators and two sources")
    rep.rule(B, "a moment is a do-conditional exactly if its operators act on one copy of each source")
    rep.rule(C, "if parties influence each other, an event is knowable exactly if the parents of each of its parties take part with the outcomes that the effective setting states; outcomes unknown")
    rep.rule(D, "the linear and the semidefinite program classify moments by these tests, the second one outside networks only")
    rep.rule(E, "a moment is taken to be non-negative exactly if, per party and independent part, at most one operator remains when equal outer operators are removed")
    for fname, mod, parties in (("nb_is_knowable", NPA, True), ("nb_is_do_conditional", NUM, False)):
        for k in (1, 2):
            pats = list(product((0, 1), repeat=k))
            for n in range(0, 4):
                use = pats if n < 3 or k == 1 else [p for p in pats if any(p)]
                for ps in product(use, repeat=n):
                    if list(ps) == sorted(ps) or n < 3:
                        run_knowable(rep, prog, fname, mod, ps, k, parties)
    for parents in (((), (0,)), ((), (), (0, 1)), ((), (0,), (1,)), ((), (0,), (0, 1)), ((1,), (), (1,)), ((), (), ())):
        n = len(parents)
        for m in range(1, n + 1):
            for ps in combinations(range(n), m):
                run_parents(rep, prog, parents, ps)
    for cname in ("InflationLP", "InflationSDP"):
        for network in (True, False):
            run_atomic(rep, prog, cname, network)
    for sandwich in (True, False):
        for letters in ("Aa", "AaC", "Aac", "ACc", "AB", "AaB", "ABb"):
            run_positive(rep, prog, letters, 4 if tier == "quick" else 5, sandwich)
