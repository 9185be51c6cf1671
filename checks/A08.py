"""Compatible sets of measurements: the search for cliques is evaluated on unknown compatibility relations and compared with all subsets."""
from itertools import combinations
import sa.nd as ndmod
from sa.nd import Nd, asarray
from sa.finite import paths, Host, Und, Raised
from checks.T03 import verdict
from checks.A02 import begin

A, B, C = "all-compatible-sets", "maximal-compatible-sets", "compatibility-of-measurements"
ALL, MAX, BAD = "all", "max", "bad"
UT = "inflation.utils"


def graph(R, n):
    return {(i, j) for i, j in combinations(range(n), 2) if R.boolean("compatible", i, j)}


def adjacency(n, edges, diag):
    return Nd((n, n), [(i, j) in edges or (j, i) in edges or (i == j and diag) for i in range(n) for j in range(n)], "bool")


def cliques(n, edges):
    return [c for m in range(n + 1) for c in combinations(range(n), m) if all(p in edges for p in combinations(c, 2))]


def maximal(cs):
    return [c for c in cs if not any(set(c) < set(d) for d in cs)]


def sets(R, v):
    out = []
    for c in R.iterate(v):
        c = R.iterate(c)
        if any(not isinstance(x, int) for x in c):
            raise Und("compatible sets not recognised")
        out.append(tuple(sorted(c)))
    return out


def judge(R, n, edges, res, top, iso):
    res = R.iterate(res)
    if len(res) != 2:
        raise Und("result not recognised")
    got, mx = sets(R, res[0]), sets(R, res[1])
    cs = [c for c in cliques(n, edges) if not top or len(c) <= top]
    d = f"{n} measurements, compatible pairs {sorted(edges)}" + (f", sets of up to {top}" if top else "")
    for c in got:
        if c not in cs:
            return [(ALL, f"{d}: {c} is listed although " + ("it is larger" if top and len(c) > top else "its measurements are not all compatible"))]
        if got.count(c) > 1:
            return [(ALL, f"{d}: {c} is listed twice")]
    for c in cs:
        if c not in got:
            return [(ALL, f"{d}: the compatible set {c} is left out")]
    if got and got[0] != ():
        return [(ALL, f"{d}: the first set is {got[0]} instead of the empty one, whose event is the first variable")]
    want = [c for c in maximal(cliques(n, edges)) if c] if iso else []
    if iso and not top:
        for c in mx:
            if c not in want:
                return [(MAX, f"{d}: {c} is listed as maximal although it is not")]
            if mx.count(c) > 1:
                return [(MAX, f"{d}: the maximal set {c} is listed twice")]
        for c in want:
            if c not in mx:
                return [(MAX, f"{d}: the maximal set {c} is left out")]
    return []


def run(rep, prog, n, top, iso, diag):
    def go(R):
        begin(R)
        edges = graph(R, n)
        f = prog.func("all_and_maximal_cliques", UT)
        k = {}
        if top:
            k["max_n"] = top
        if not iso:
            k["isolate_maximal"] = False
        return judge(R, n, edges, R.call(f, [adjacency(n, edges, diag)], k), top, iso)
    verdict(rep, "all_and_maximal_cliques", f"{n} measurements, up to {top or 'any number'}, maximal {iso}", paths(prog, go, hooks={}, limit=1100), {ALL: A, MAX: B, BAD: A})


def run_problem(rep, prog, sizes):
    """sizes: outcomes per measurement; compatibility is a relation of measurements"""
    n = len(sizes)
    first = [sum(sizes[:i]) for i in range(n)]
    owner = [i for i, s in enumerate(sizes) for _ in range(s)]

    def go(R):
        begin(R)
        edges = graph(R, n)
        ok = lambda i, j: i == j or (i, j) in edges or (j, i) in edges
        m = len(owner)
        nc = Nd((m, m), [not ok(owner[i], owner[j]) for i in range(m) for j in range(m)], "bool")
        h = Host(prog, "InflationProblem", _default_notcomm=nc, _template_idxs=Nd((n,), first))
        return judge(R, n, edges, h.attr(R, "all_and_maximal_compatible_templates").call(R, [], {}), 0, True)
    verdict(rep, "InflationProblem.all_and_maximal_compatible_templates", f"{n} measurements with {sizes} outcomes", paths(prog, go, hooks={}, limit=1100), {ALL: C, MAX: C, BAD: C})


def check(prog, rep, tier):
    rep.rule(A, "every set of mutually compatible measurements (the empty one included) is found exactly once, up to the requested size; all compatibility relations of up to five measurements")
    rep.rule(B, "the maximal sets are exactly the compatible sets that no other compatible set contains")
    rep.rule(C, "measurements are compatible exactly if their operators commute")
    for n in range(1, 6 if tier != "quick" else 5):
        for diag in (True, False):
            run(rep, prog, n, 0, True, diag)
        run(rep, prog, n, 0, False, True)
        for top in (1, 2, 3):
            if top < n:
                run(rep, prog, n, top, True, True)
    if tier == "quick":
        run(rep, prog, 5, 0, True, True)
    for sizes in ((2,), (2, 3), (3, 2, 2), (2, 2, 2, 2)):
        run_problem(rep, prog, sizes)
