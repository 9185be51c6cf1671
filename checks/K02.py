"""Marginals: the marginalisation is evaluated on a distribution whose axes carry the role (outcome or setting of a party) and whose entries are unknown; the event's outcomes and settings are symbols."""
from itertools import combinations, permutations, product
from math import prod
import sa.nd as ndmod
from sa.nd import Nd, asarray
from sa.finite import paths, Host, Native, Hook, Ext, Und, Raised, T, FSet, num
from checks.T03 import verdict

A, B, C, D = "marginal-of-the-event", "event-of-the-moment", "impossible-event", "private-setting-of-the-effective-setting"
BAD = "bad"


class Dist(Native):
    """a conditional distribution: one axis per role; roles already indexed or summed are recorded"""
    def __init__(self, n, axes, fixed=(), summed=()):
        self.n, self.axes, self.fixed, self.summed = n, list(axes), dict(fixed), frozenset(summed)

    def new(self, *a):
        return type(self)(*a)

    def __repr__(self):
        return f"p[{', '.join(f'{r}{p + 1}={v}' for (r, p), v in sorted(self.fixed.items()))}; summed {sorted(f'{r}{p + 1}' for r, p in self.summed)}; free {self.axes}]"

    def attr(self, R, n):
        if n == "ndim":
            return len(self.axes)
        if n == "shape":
            return tuple(T("size", *r) for r in self.axes)
        if n == "T":
            return self.transposed(range(len(self.axes))[::-1])
        if n in ("dtype",):
            return Ext("numpy.float64")
        return Hook(lambda R, *a, **k: self.method(R, n, list(a), k))

    def transposed(self, order):
        return self.new(self.n, [self.axes[i % len(self.axes)] for i in order], self.fixed, self.summed)

    def sum(self, R, axis):
        if axis is None:
            return self.new(self.n, [], self.fixed, self.summed | set(self.axes))
        ax = [axis] if isinstance(axis, int) else R.iterate(axis)
        if any(not isinstance(x, int) for x in ax):
            raise Und("axis")
        if any(not -len(self.axes) <= x < len(self.axes) for x in ax):
            raise Raised("AxisError")
        ax = {x % len(self.axes) for x in ax}
        if len(ax) < len(list(R.iterate(axis)) if not isinstance(axis, int) else [0]):
            raise Raised("ValueError")
        return self.new(self.n, [r for i, r in enumerate(self.axes) if i not in ax], self.fixed, self.summed | {self.axes[i] for i in ax})

    def method(self, R, n, a, k):
        if n == "sum" and not set(k) - {"axis"}:
            return self.sum(R, a[0] if a else k.get("axis"))
        if n == "transpose":
            if not a:
                return self.attr(R, "T")
            return self.transposed(R.iterate(a[0]) if len(a) == 1 and not isinstance(a[0], int) else a)
        if n in ("copy", "astype"):
            return self
        if n == "take" and len(a) + len(k) == 2:
            ax = k.get("axis", a[1] if len(a) > 1 else None)
            return self.item(R, (slice(None),) * (ax % len(self.axes)) + (a[0],))
        if n == "swapaxes":
            o = list(range(len(self.axes)))
            o[a[0]], o[a[1]] = o[a[1]], o[a[0]]
            return self.transposed(o)
        if n == "item" and a:
            return self.item(R, tuple(a))
        raise Und(f"{n} of the distribution")

    def item(self, R, idx):
        idx = list(idx) if isinstance(idx, tuple) else [idx]
        if any(isinstance(i, (Nd, list)) for i in idx) and len(idx) == 1 and len(getattr(idx[0], "flat", idx[0])) != 1:
            raise Raised("IndexError") if False else Und("list index of the distribution")
        if sum(1 for i in idx if ndmod.isell(i)) == 1:
            j = next(j for j, i in enumerate(idx) if ndmod.isell(i))
            idx = idx[:j] + [slice(None)] * (len(self.axes) - len(idx) + 1) + idx[j + 1:]
        if len(idx) > len(self.axes):
            raise Raised("IndexError")
        left, fixed = [], dict(self.fixed)
        for r, i in zip(self.axes, idx):
            if isinstance(i, slice) and i == slice(None):
                left.append(r)
            elif isinstance(i, (Nd, slice)) or i is None or isinstance(i, bool):
                raise Und("index of the distribution")
            else:
                fixed[r] = i
        return self.new(self.n, left + self.axes[len(idx):], fixed, self.summed)

    def arith(self, R, op, o, swapped):
        if num(o) and (op in "*/" and not swapped and o == 1 or op in "+-" and not swapped and o == 0):
            return self
        raise Und("arithmetic on a probability")


def hooks():
    def total(R, p, *a, **k):
        if not isinstance(p, Dist):
            return ndmod.ext(R, "sum", "numpy.sum", [p] + list(a), k)
        if set(k) - {"axis"}:
            raise Und("keyword of sum")
        return p.sum(R, a[0] if a else k.get("axis"))

    def moved(R, p, s, d):
        if not isinstance(p, Dist):
            return ndmod.ext(R, "moveaxis", "numpy.moveaxis", [p, s, d], {})
        m = len(p.axes)
        s, d = ([x % m for x in ([v] if isinstance(v, int) else R.iterate(v))] for v in (s, d))
        order = [i for i in range(m) if i not in s]
        for b, a in sorted(zip(d, s)):
            order.insert(b, a)
        return p.transposed(order)
    return {"sum": total, "moveaxis": moved, "squeeze": None}


def symbol(r, p):
    return T(f"{r}{p + 1}")


def plain(v):
    while isinstance(v, T) and v.op in ("int", "float", "call", "astype") and v.args:
        v = v.args[-1]
    return v


def judge(res, n, event):
    """event: {party: (setting, outcome)}"""
    if not isinstance(res, Dist):
        if num(res) and not event and res == 1:
            return []
        if num(res):
            return [(BAD, f"the value is {res} whatever the distribution")]
        raise Und("result not recognised")
    if res.axes:
        return [(BAD, f"the result is not a number: the {', '.join(describe(r) for r in res.axes)} remains")]
    out = []
    if not event:
        return [(BAD, f"the empty event has the value {res}")]
    for p in range(n):
        if p in event:
            s, o = event[p]
            for r, v in (("s", s), ("o", o)):
                if (r, p) in res.summed:
                    out.append((BAD, f"event of {names(event)} in {n} parties: the {describe((r, p))} is summed over"))
                elif plain(res.fixed[(r, p)]) != v:
                    out.append((BAD, f"event of {names(event)} in {n} parties: the {describe((r, p))} is {plain(res.fixed[(r, p)])!r} instead of {v!r}"))
        else:
            if ("o", p) not in res.summed:
                out.append((BAD, f"event of {names(event)} in {n} parties: the {describe(('o', p))}, who takes no part, is {plain(res.fixed[('o', p)])!r} instead of being summed over"))
            if ("s", p) in res.summed:
                out.append((BAD, f"event of {names(event)} in {n} parties: the {describe(('s', p))}, who takes no part, is summed over"))
            elif plain(res.fixed[("s", p)]) not in (0, -1):
                out.append((BAD, f"event of {names(event)} in {n} parties: the {describe(('s', p))}, who takes no part, is {plain(res.fixed[('s', p)])!r}, which need not be a setting"))
    return out


def describe(r):
    return f"{'outcome' if r[0] == 'o' else 'setting'} of party {r[1] + 1}"


def names(event):
    return "parties " + ", ".join(str(p + 1) for p in sorted(event)) if event else "no parties"


def dist(n):
    return Dist(n, [("o", p) for p in range(n)] + [("s", p) for p in range(n)])


def event_array(n, ev, columns=3):
    return Nd((len(ev), columns), [x for p in ev for x in [p + 1] + [T(f"c{p}{j}") for j in range(columns - 3)] + [symbol("s", p), symbol("o", p)]])


def run_marginal(rep, prog, n, ev, shape):
    def go(R):
        R.nd = ndmod
        f = prog.func("compute_marginal", "inflation.sdp.monomial_utils")
        ev_ = {p: (symbol("s", p), symbol("o", p)) for p in ev}
        return judge(R.call(f, [dist(n), event_array(n, ev, shape)], {}), n, ev_)
    h = {k: v for k, v in hooks().items() if v}
    verdict(rep, "compute_marginal", f"event of {names(dict.fromkeys(ev))} in {n} parties", paths(prog, go, hooks=h, limit=100), {BAD: A})


def world(R, prog, kind, net):
    """an atomic moment of `kind`, on the operators 1 (party 1) and 4 (party 3) of a scenario with effective settings"""
    table = [[p + 1, T(f"k{p}"), T(f"e{p}{i}"), symbol("o", p)] for p in range(3) for i in range(1)]
    lex = Nd((4 if kind == "sdp" else 3, 4), ([0] * 4 if kind == "sdp" else []) + [x for r in table for x in r])

    def rectify(R, m):
        m = asarray(R, m)
        r = Nd(m.shape, m.flat)
        for i in range(m.shape[0]):
            p = m.get((i, 0)) - 1
            e = m.get((i, m.shape[1] - 2))
            r.put(r.pos((i, m.shape[1] - 2)), symbol("s", p) if e == T(f"e{p}0") else T("setting encoded by", e))
        return r

    ctx = Host(prog, "InflationSDP" if kind == "sdp" else "InflationLP", problem_type=kind, _lexorder=lex, _nr_properties=4, nr_properties=4, n_parties=3, nr_parties=3,
               rectify_fake_setting=Hook(rectify), all_commuting_q_1d=Hook(lambda R, *a: True), _atomic_knowable_q=Hook(lambda R, *a: True), names=["A", "B", "C"], verbose=0)
    return ctx


def run_atom(rep, prog, kind, ops):
    cname = "InternalAtomicMonomialSDP" if kind == "sdp" else "InternalAtomicMonomial"
    off = 1 if kind == "sdp" else 0

    def go(R):
        R.nd = ndmod
        ctx = world(R, prog, kind, True)
        atom = Host(prog, cname)
        lexmon = Nd((len(ops),), [p + off for p in ops])
        f = prog.lookup(prog.cls(cname), "__init__")
        R.invoke(f.node, f.mod, {}, [atom, ctx, lexmon], {}, f)
        ev = {p: (symbol("s", p), symbol("o", p)) for p in ops if p >= 0}
        v = R.call(R.attr(atom, "compute_marginal"), [dist(3)], {})
        if any(p < 0 for p in ops):
            return [] if num(v) and v == 0 else [(BAD, f"an impossible event has the value {v!r}")]
        return judge(v, 3, ev)
    h = {k: v for k, v in hooks().items() if v}
    h.update({"symbol_from_atom_name": lambda R, n: n, "_name": lambda R, s: "name", "_raw_name": lambda R, s: "raw", "_signature": lambda R, s: "sig", "nb_is_do_conditional": lambda R, x: True, "is_do_conditional": lambda R, x: True})
    label = "zero" if any(p < 0 for p in ops) else names(dict.fromkeys(ops))
    verdict(rep, f"{cname}.compute_marginal", f"moment of {label}", paths(prog, go, hooks=h, limit=100), {BAD: C if label == "zero" else B})


def run_rectify(rep, prog, ps, columns):
    """each operator's setting becomes the private part of its effective setting; nothing else changes, the argument included"""
    def go(R):
        R.nd = ndmod
        eff = [{e: (symbol("s", p) if (p, e) == (q, f) else T(f"other{p}{e}"), T(f"v{p}{e}"), T(f"w{p}{e}")) for e in range(3)} for p in range(3) for q, f in [(p, p % 2 + 1)]]
        h = Host(prog, "InflationProblem", effective_to_parent_settings=eff, nr_parties=3)
        rows = [[p + 1] + [T(f"c{p}{j}") for j in range(columns - 3)] + [p % 2 + 1, symbol("o", p)] for p in ps]
        m = Nd((len(ps), columns), [x for r in rows for x in r])
        v = asarray(R, h.attr(R, "rectify_fake_setting").call(R, [m], {}))
        if v.shape != m.shape:
            return [(BAD, f"an array of shape {v.shape} instead of {m.shape}")]
        out = []
        for i, p in enumerate(ps):
            want = rows[i][:-2] + [symbol("s", p), symbol("o", p)]
            got = [v.get((i, j)) for j in range(columns)]
            if got != want:
                out.append((BAD, f"operator {rows[i]} becomes {got} instead of {want}"))
        if m.flat != [x for r in rows for x in r]:
            out.append((BAD, "the argument is modified"))
        return out
    verdict(rep, "InflationProblem.rectify_fake_setting", f"operators of parties {[p + 1 for p in ps]}, {columns} columns", paths(prog, go, hooks={}, limit=50), {BAD: D})


def run_tables(rep, prog, private, outcomes, parents):
    """the same with the tables of a scenario, for every effective setting"""
    cards = [[private[p]] + [outcomes[q] for q in parents[p]] for p in range(len(private))]
    size = [prod(c) for c in cards]
    table = [dict(enumerate(product(*map(range, c)))) for c in cards]

    def go(R):
        R.nd = ndmod
        n = len(private)
        vec = lambda v: Nd((n,), list(v))
        h = Host(prog, "InflationProblem", effective_to_parent_settings=[dict(t) for t in table], nr_parties=n, settings_per_party=vec(size), private_settings_per_party=vec(private),
                 outcomes_per_party=vec(outcomes), parents_per_party=[list(x) for x in parents], has_children=[any(p in x for x in parents) for p in range(n)])
        out = []
        for e in range(max(size)):
            rows = [[p + 1, min(e, size[p] - 1), outcomes[p] - 1] for p in range(n)]
            m = Nd((n, 3), [x for r in rows for x in r])
            v = asarray(R, h.attr(R, "rectify_fake_setting").call(R, [m], {}))
            if v.shape != m.shape:
                return [(BAD, f"an array of shape {v.shape} instead of {m.shape}")]
            for p, r in enumerate(rows):
                want, got = [r[0], table[p][r[1]][0], r[2]], [v.get((p, j)) for j in range(3)]
                if got != want:
                    return [(BAD, f"party {p + 1} with {private[p]} private settings and parents with {[outcomes[q] for q in parents[p]]} outcomes: {r} becomes {got} instead of {want}")]
        return out
    verdict(rep, "InflationProblem.rectify_fake_setting", f"private settings {private}, outcomes {outcomes}, parents {parents}", paths(prog, go, hooks={}, limit=50), {BAD: D})


def check(prog, rep, tier):
    run_tables(rep, prog, (1, 2, 3), (2, 2, 3), ((), (0,), (0, 1)))
    run_tables(rep, prog, (2, 3, 2), (3, 2, 4), ((), (0,), (1,)))
    run_tables(rep, prog, (2, 1, 2), (2, 3, 2), ((1,), (), (0, 1)))
    rep.rule(A, "the value of an event is the distribution at the outcomes and settings of the parties that take part, summed over the outcomes (and nothing else) of the others; entries, outcomes, settings and numbers of outcomes unknown, all sets of parties up to four")
    rep.rule(B, "the event looked up for a knowable moment consists of the party, private setting and outcome of each of its operators")
    rep.rule(C, "moments that are identically zero have the value zero")
    rep.rule(D, "effective settings are replaced by the private setting they encode; nothing else changes")
    for columns in (3, 5):
        for ps in ((), (0,), (1,), (2,), (0, 1), (1, 2), (0, 1, 2), (2, 0)):
            run_rectify(rep, prog, ps, columns)
    for n in range(1, 5 if tier == "quick" else 7):
        for m in range(n + 1):
            for ev in combinations(range(n), m):
                for shape in (3,) if tier == "quick" else (3, 5):
                    run_marginal(rep, prog, n, ev, shape)
    for kind in ("lp", "sdp"):
        for ops in ((), (0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)):
            run_atom(rep, prog, kind, ops)
    run_atom(rep, prog, "sdp", (-1,))
    run_atom(rep, prog, "sdp", (-1, 0))
