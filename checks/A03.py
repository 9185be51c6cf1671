"""Factorisation: the search for independent parts is evaluated on unknown overlap relations; the parts are compared with the connected components of the relation."""
from itertools import product, combinations
import sa.nd as ndmod
from sa.nd import Nd, asarray
from sa.finite import paths, Host, Und, Raised, FSet
from checks.T03 import verdict
from checks.A02 import begin

A, B = "components-of-an-overlap-relation", "factors-of-a-product"
BAD = "bad"
MOD = "inflation.sdp.fast_npa"


def components(n, edges):
    lab = list(range(n))
    for a, b in edges:
        x, y = lab[a], lab[b]
        lab = [x if l == y else l for l in lab]
    return lab


def scipy_components(R, adj, *a, **k):
    n = adj.shape[0]
    if k.get("directed", True) and a[:1] != (False,):
        raise Und("directed components")
    edges = [(i, j) for i in range(n) for j in range(n) if R.truth(adj.get((i, j)))]
    lab = components(n, edges)
    ids = sorted(set(lab), key=lab.index)
    v = Nd((n,), [ids.index(l) for l in lab])
    return (len(ids), v) if k.get("return_labels", True) else len(ids)


def relation(R, n, pairs=None):
    edges = [(i, j) for i, j in combinations(range(n), 2) if (R.boolean("overlap", i, j) if pairs is None else (i, j) in pairs)]
    m = [[i == j or (i, j) in edges or (j, i) in edges for j in range(n)] for i in range(n)]
    return edges, Nd((n, n), [v for r in m for v in r], "bool")


def shown(n, edges):
    return f"{n} operators with overlaps {', '.join(f'{a}-{b}' for a, b in edges) or 'nowhere'}"


def run_labels(rep, prog, n, native):
    def go(R):
        begin(R)
        R.globals = {"nopython": native}
        edges, adj = relation(R, n)
        v = asarray(R, R.call(prog.func("nb_classify_disconnected_components", MOD), [adj], {}))
        if v.shape != (n,) or any(not isinstance(x, int) for x in v.flat):
            raise Und("labels not recognised")
        lab = components(n, edges)
        for i, j in combinations(range(n), 2):
            if (lab[i] == lab[j]) != (v.flat[i] == v.flat[j]):
                return [(BAD, f"{shown(n, edges)}: {i} and {j} are labelled {v.flat[i]} and {v.flat[j]}")]
        if sorted(set(v.flat)) != list(range(len(set(lab)))):
            return [(BAD, f"{shown(n, edges)}: the labels are {sorted(set(v.flat))} instead of 0 to {len(set(lab)) - 1}")]
        return []
    verdict(rep, "nb_classify_disconnected_components", f"{n} operators, compiled {native}", paths(prog, go, hooks={"connected_components": scipy_components}, limit=1200), {BAD: A})


def run_factor(rep, prog, word, positions, ever, canonical):
    """word: operators in their order; positions: operator -> row of the overlap table"""
    def go(R):
        begin(R)
        R.globals = {"nopython": True}
        m = max(positions) + 1
        edges, adj = relation(R, m, None if ever else set(combinations(range(m), 2)))
        h = Host(prog, "InflationProblem", ever_factorizes=ever, _lexorder_for_factorization=Nd((len(positions),), positions), _inflation_indices_overlap=adj)
        mon = Nd((len(word),), word)
        res = R.iterate(h.attr(R, "factorize_monomial_1d").call(R, [mon], dict(canonical_order=True) if canonical else {}))
        got = []
        for f in res:
            f = asarray(R, f)
            if len(f.shape) != 1 or any(not isinstance(x, int) for x in f.flat):
                raise Und("factors not recognised")
            got.append(tuple(f.flat))
        used = {positions[o] for o in word}
        lab = components(m, [e for e in edges if used >= set(e)])
        want = []
        for l in sorted({lab[positions[o]] for o in word}):
            want.append(tuple(o for o in word if lab[positions[o]] == l))
        if not word:
            want = []
            got = [g for g in got if g]
        if mon.flat != list(word):
            return [(BAD, f"the product {word} is modified")]
        if sorted(got) != sorted(want):
            return [(BAD, f"the product {word} of operators at {[positions[o] for o in word]} ({shown(m, edges)}) has the factors {got} instead of {want}")]
        if canonical and got != sorted(got):
            return [(BAD, f"the factors {got} of {word} are not in canonical order")]
        return []
    verdict(rep, "InflationProblem.factorize_monomial_1d", f"{word} at {positions}, {'may factorise' if ever else 'never factorises'}, canonical {canonical}", paths(prog, go, hooks={"connected_components": scipy_components}, limit=1200), {BAD: B})


def check(prog, rep, tier):
    rep.rule(A, "operators have the same label exactly if a chain of overlaps connects them, and labels count from zero; overlap relation unknown, up to four (thorough: five) operators, compiled and plain variant")
    rep.rule(B, "the factors of a product are its maximal connected parts, each with its operators in their order; overlap relation unknown, repeated operators and repeated supports included")
    for native in (True, False):
        for n in range(0, 5 if tier == "quick" else 6):
            run_labels(rep, prog, n, native)
    for word, pos in (((), (0,)), ((0,), (0,)), ((0, 1), (0, 1)), ((1, 0), (0, 1)), ((0, 1), (0, 0)), ((0, 0), (0,)), ((0, 1, 2), (0, 1, 2)), ((2, 0, 1), (0, 1, 2)), ((2, 0, 1), (2, 1, 0)), ((0, 1, 2), (1, 0, 1)),
                      ((1, 0, 1), (0, 1)), ((3, 1, 2), (0, 1, 2, 3)), ((0, 1, 2, 3), (0, 1, 2, 3)), ((3, 0, 2, 1), (1, 3, 0, 2)), ((2, 0, 2, 1), (0, 1, 2)), ((4, 1, 3, 0), (0, 1, 2, 2, 0))):
        for canonical in (False, True):
            run_factor(rep, prog, word, pos, True, canonical)
    for word in ((), (0,), (0, 1), (2, 0, 1)):
        run_factor(rep, prog, word, (0, 1, 2), False, False)
