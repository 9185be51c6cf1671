"""Programs on a scenario: the constructors are evaluated on scenarios with unknown arrows; the tables of the program are compared with the scenario."""
import sa.nd as ndmod
from sa.nd import Nd, asarray
from sa.finite import paths, Host, T, Und, Raised
from checks.T03 import verdict
from checks.A02 import begin
from checks.A09 import Net, build, table
from checks.N10 import program, HOOKS
from checks.A13 import reader

A, B, C, D, E, F = "operators-of-the-program", "exclusive-outcomes", "commutation", "symmetries", "measurements", "outcomes-left-out"
BAD = {x: x for x in (A, B, C, D, E, F)}


def bools(R, v, shape, what):
    v = asarray(R, v)
    if any(not isinstance(x, (bool, int)) for x in v.flat):
        raise Und(f"entries of {what}")
    if v.shape != tuple(shape):
        return None
    return [bool(x) for x in v.flat]


def rowsets(R, v, n, what):
    """list of boolean arrays -> list of lists of sets of operators"""
    out = []
    for g in R.iterate(v):
        g = asarray(R, g)
        if g.shape[-1] != n and g.flat:
            return None
        m = g.shape[0] if len(g.shape) == 2 else None
        if m is None:
            raise Und(what)
        out.append([frozenset(j for j in range(n) if g.get((i, j))) for i in range(m)])
    return out


def read(R, o):
    """the text of a symbol"""
    if isinstance(o, T) and len(o.args) and isinstance(o.args[0], str):
        return o.args[0]
    raise Und("measurements are not symbols")


def judge(R, p, h, kind, net, full):
    out = []
    off = 1 if kind == "sdp" else 0
    ops = net.ops
    n = len(ops) + off
    cols = len(net.sources) + 3
    d = net.text() + (" with all outcomes" if full else "")
    at = reader(R, p)
    # operators
    want = ([0] * cols if off else []) + [x for o in ops for x in [o[0] + 1] + list(o[1:])]
    for a in ("_lexorder",) + (("_default_lexorder",) if off else ()):
        if table(R, at(a), (n, cols), a) != want:
            out.append((A, f"{d}: {a} are not the operators of the scenario"))
    if at("_nr_operators") != n:
        out.append((A, f"{d}: the number of operators is {at('_nr_operators')} instead of {n}"))
    if list(R.iterate(at("names"))) != net.names or at("names_to_ints") != {x: i + 1 for i, x in enumerate(net.names)}:
        out.append((A, f"{d}: parties {at('names')}, numbered {at('names_to_ints')}"))
    mon = R.attr(p, "mon_to_lexrepr")
    pick = list(range(len(ops)))[::-1][:4]
    v = asarray(R, R.call(mon, [Nd((len(pick), cols), [x for i in pick for x in [ops[i][0] + 1] + list(ops[i][1:])])], {})).flat
    if list(v) != [i + off for i in pick]:
        out.append((A, f"{d}: operators {pick} are numbered {list(v)}"))
    for a, w in (("_lexrepr_to_names", None), ("_lexrepr_to_copy_index_free_names", None)):
        x, y = asarray(R, at(a)).flat, asarray(R, h.attr(R, a)).flat
        if list(x)[off:] != list(y):
            out.append((A, f"{d}: {a} are not the names of the operators"))
    # exclusive outcomes, commutation
    if kind == "sdp":
        t = bools(R, at("_orthomat"), (n, n), "exclusive")
        for i in range(n):
            for j in range(n):
                if i == j:
                    continue
                w = i == 0 or j == 0 or (ops[i - 1][:-1] == ops[j - 1][:-1])
                if t is None or t[i * n + j] != w:
                    out.append((B, f"{d}: {'zero' if not i else ops[i - 1]} and {'zero' if not j else ops[j - 1]} are {'not ' if w else ''}exclusive"))
                    break
            else:
                continue
            break
        for a in ("_default_notcomm", "_notcomm"):
            t = bools(R, at(a), (n, n), "commutation")
            bad = next(((i, j) for i in range(n) for j in range(n) if t is None or t[i * n + j] != bool(i and j and net.notcomm(ops[i - 1], ops[j - 1]))), None)
            if bad:
                out.append((C, f"{d}: {a}: operators {bad[0]} and {bad[1]} (0: the zero operator) {'commute' if t and not t[bad[0] * n + bad[1]] else 'do not commute'}"))
        none = not any(net.notcomm(x, y) for x in ops for y in ops)
        if bool(at("all_operators_commute")) != none:
            out.append((C, f"{d}: all operators are{'' if not none else ' not'} found to commute"))
        if not none:
            for i in range(1, n):
                for j in range(1, n):
                    got = R.truth(R.call(at("all_commuting_q_1d"), [Nd((2,), [i, j])], {}))
                    if got == net.notcomm(ops[i - 1], ops[j - 1]):
                        out.append((C, f"{d}: {ops[i - 1]} and {ops[j - 1]} are found {'' if got else 'not '}to commute"))
                        break
                else:
                    continue
                break
    # symmetries
    s = asarray(R, h.attr(R, "lexorder_symmetries"))
    t = asarray(R, at("lexorder_symmetries"))
    want = [[0] + [x + 1 for x in r] for r in s.nested()] if off else s.nested()
    if t.nested() != want:
        out.append((D, f"{d}: the symmetries are {t.nested()[:2]}... instead of {want[:2]}..."))
    # outcomes that are left out
    kids = [full or c for c in net.children]
    if [bool(x) for x in asarray(R, at("has_children")).flat] != kids or [bool(x) for x in asarray(R, at("does_not_have_children")).flat] != [not x for x in kids]:
        out.append((F, f"{d}: parties that keep their last outcome: {asarray(R, at('has_children')).flat} instead of {kids}"))
    card = [o + (k if off else 0) for o, k in zip(net.outs, kids)]
    if [int(x) for x in asarray(R, at("outcome_cardinalities")).flat] != card:
        out.append((F, f"{d}: numbers of outcomes {asarray(R, at('outcome_cardinalities')).flat} instead of {card}"))
    groups = {}
    for i, o in enumerate(ops):
        groups.setdefault(o[:-1], []).append(i + off)
    want = sorted(tuple(sorted(g if kids[k[0]] else g[:-1])) for k, g in groups.items())
    if kind == "lp":
        got = rowsets(R, at("_CG_limited_ortho_groups_as_boolarrays"), n, "groups")
        if got is None or any(len(x) != 1 for g in got for x in g) or sorted(tuple(sorted(next(iter(x)) for x in g)) for g in got) != want:
            out.append((F, f"{d}: the outcomes of the measurements in use are {got} instead of {want}"))
        for a, w in (("_all_ortho_groups_as_boolarrays", lambda k: True), ("_CG_adjusting_ortho_groups_as_boolarrays", lambda k: not kids[k]), ("_CG_nonadjusting_ortho_groups_as_boolarrays", lambda k: kids[k])):
            want = sorted(tuple(g) for k, g in groups.items() if w(k[0]))
            got = rowsets(R, at(a), n, a)
            if got is None or any(len(x) != 1 for g in got for x in g) or sorted(tuple(sorted(next(iter(x)) for x in g)) for g in got) != want:
                out.append((F, f"{d}: {a} are {got} instead of {want}"))
        for a, w in (("_boolvec_for_not_being_in_CG_notation", False), ("_boolvec_to_trigger_equality_generation", True)):
            t = bools(R, at(a), (n,), a)
            last = [any(i == g[-1] and kids[k[0]] == w for k, g in groups.items()) for i in range(n)]
            if t != last:
                out.append((F, f"{d}: {a} marks the operators {[i for i in range(n) if t and t[i]]} instead of {[i for i in range(n) if last[i]]}"))
    else:
        # products of compatible outcomes in use
        cols = [frozenset(asarray(R, c).flat) for c in R.iterate(R.call(at("build_columns"), ["physical"], {"max_monomial_length": 2}))]
        use = [sorted(g if kids[k[0]] else g[:-1]) for k, g in sorted(groups.items())]
        op = lambda i: ops[i - 1]
        want = [frozenset()] + [frozenset([i]) for g in use for i in g]
        want += [frozenset([i, j]) for x, g in enumerate(use) for y in use[x + 1:] for i in g for j in y if not net.notcomm(op(i), op(j))]
        if sorted(map(sorted, cols)) != sorted(map(sorted, want)):
            out.append((F, f"{d}: the physical columns are {sorted(map(sorted, cols))} instead of {sorted(map(sorted, want))}"))
        # measurements[party][copies][setting][outcome]: the operators in use, as symbols
        got = [[[[read(R, o) for o in R.iterate(x)] for x in R.iterate(c)] for c in R.iterate(q)] for q in R.iterate(at("measurements"))]
        want = []
        for q, name in enumerate(net.names):
            party = {}
            for k, g in groups.items():
                if k[0] == q:
                    party.setdefault(k[1:-1], {})[k[-1]] = ["_".join([name] + [str(v) for v in k[1:]] + [str(o)]) for o in range(len(g) if kids[q] else len(g) - 1)]
            want.append([[c[x] for x in sorted(c)] for _, c in sorted(party.items())])
        if got != want:
            q = next((i for i in range(len(want)) if i >= len(got) or got[i] != want[i]), 0)
            out.append((E, f"{d}: the measurements of {net.names[q]} are {got[q:q + 1]} instead of {want[q]}"))
    return out


def run(rep, prog, kind, label, names, outs, priv, sources, maybe, fixed, levels, quantum=(), maybe_quantum=(), **kw):
    def go(R):
        begin(R)
        R.texts = __import__("sa.text", fromlist=["x"])
        R.free_terms = True
        arrows = set(fixed) | {e for e in maybe if R.boolean("arrow", *e)}
        q = set(quantum) | {x for x in maybe_quantum if R.boolean("nonclassical", x)}
        if any(not any(a == s for a, _ in arrows) for s in sources):
            return []
        net = Net(names, outs, priv, sources, [], arrows, q, levels)
        if not net.legal():
            return []
        h = build(R, prog, net, list(sources) + list(names), "lists")
        p = program(R, prog, h, kind, **kw)
        return judge(R, p, h, kind, net, bool(kw))
    hooks = dict(HOOKS)
    if kind == "sdp":
        hooks["Moment_2d"] = hooks["Moment_1d"] = lambda R, *a, **k: T("moment")
    else:
        hooks["Monomial"] = lambda R, *a, **k: T("moment")
    verdict(rep, "InflationSDP" if kind == "sdp" else "InflationLP", label, paths(prog, go, hooks=hooks, limit=600), BAD)


def check(prog, rep, tier):
    rep.rule(A, "the operators of a program are those of the scenario, in order, with their names and numbers (an SDP has the zero operator before them)")
    rep.rule(B, "two operators of an SDP are exclusive exactly if they are different outcomes of one measurement or one is zero")
    rep.rule(C, "operators of an SDP fail to commute exactly if the scenario says so; the zero operator commutes with all")
    rep.rule(D, "the symmetries of a program are those of the scenario, the zero operator stays in its place")
    rep.rule(E, "the measurements of an SDP are those of the scenario, with the outcomes in use")
    rep.rule(F, "the last outcome of a measurement is left out exactly if the party has no children and not all outcomes are asked for")
    two, three = ["A", "B"], ["A", "B", "C"]
    P = lambda *ps: [(a, b) for a, b in ps]
    jobs = []
    for kind in ("lp", "sdp"):
        mq = {"maybe_quantum": ("s", "t")} if kind == "sdp" else {}
        mq1 = {"maybe_quantum": ("s",)} if kind == "sdp" else {}
        for a, k in (
                ((kind, "two sources", two, (2, 3), (2, 1), ["s", "t"], P(("s", "A"), ("t", "B")), P(("t", "A"), ("s", "B")), (2, 1)), mq),
                ((kind, "parents", three, (2, 3, 2), (1, 2, 1), ["s"], P(("A", "B"), ("A", "C"), ("B", "C")), P(("s", "A"), ("s", "B"), ("s", "C")), (1,)), mq1),
                ((kind, "parents and copies", two, (2, 2), (1, 2), ["s"], P(("A", "B")), P(("s", "A"), ("s", "B")), (2,)), mq1),
                ((kind, "all outcomes", two, (2, 3), (2, 1), ["s"], P(("A", "B")), P(("s", "A"), ("s", "B")), (2,)), dict(mq1, include_all_outcomes=True)),
                ((kind, "supports", two, (2, 3), (2, 1), ["s"], P(("A", "B")), P(("s", "A"), ("s", "B")), (1,)), dict(mq1, supports_problem=True))):
            jobs.append((A, f"{kind} {a[1]}", lambda r, k, *a: run(r, prog, *a, **k), (k,) + a))
    rep.jobs(jobs)
