"""Relaxations: discovery of normalisation conditions and the tables of moments are evaluated on abstract columns and moment matrices with unknown entries; conditions are compared with the sums over outcomes."""
from itertools import product, combinations
import sa.nd as ndmod
from sa.nd import Nd, asarray
from sa.finite import paths, Host, Hook, Und, Raised, T
from checks.T03 import verdict
from checks.A02 import begin
from checks.A10 import World, host, lexrepr, column
from checks.V01 import Mono

A, B, C, D, E = "columns-sum-over-outcomes", "entries-sum-over-outcomes", "conditions-of-the-program", "moment-of-every-entry", "fresh-program"
COL, ENT, CON, MOM, NEW = "columns", "entries", "conditions", "moments", "fresh"
RULES = {COL: A, ENT: B, CON: C, MOM: D, NEW: E}
QT = "inflation.sdp.quantum_tools"


def pairs(R, v):
    out = []
    for e in R.iterate(v):
        n, s = R.iterate(e)
        s = [int(x) for x in (s.flat if isinstance(s, Nd) else R.iterate(s))]
        if not isinstance(n, int) or any(not isinstance(x, int) for x in s):
            raise Und("equalities not recognised")
        out.append((int(n), tuple(s)))
    return out


def run_columns(rep, prog, parties, cols, maybe):
    """cols are always there, maybe is"""
    def go(R):
        begin(R)
        W = World(R, parties)
        R.hooks["mon_to_lexrepr"] = lexrepr(W)
        h = host(R, prog, W)
        here = [c for c in cols] + [c for c in maybe if R.boolean("column", c)]
        here.sort(key=lambda c: (len(c), c))
        if R.boolean("reversed columns"):
            here = here[:1] + here[1:][::-1]
        here = [c for c in here if all(W.used(o) for o in c)]
        row = lambda o: [W.ops[o - 1][0] + 1] + list(W.ops[o - 1][1:3])
        h.attr(R, "InflationProblem").setattr(R, "_ortho_groups", [Nd((o, 3), [x for a in range(o) for x in row(W.first[i] + a + 1)]) for i, (p, o) in enumerate(W.meas)])
        h.setattr(R, "generating_monomials_1d", [Nd((len(c),), c) for c in here])
        h.setattr(R, "genmon_1d_to_index", {c: i for i, c in enumerate(here)})
        got = pairs(R, h.attr(R, "_discover_normalization_eqns").call(R, [], {}))
        d = W.shown() + f", columns {' '.join(W.text(c) for c in here)}"
        want, must = set(), set()
        for c in here:
            lasts = [k for k, o in enumerate(c) if W.children[W.ops[o - 1][0]] and W.ops[o - 1][2] == W.meas[W.ops[o - 1][3]][1] - 1]
            found = []
            for k in lasts:
                i = W.ops[c[k] - 1][3]
                need = [c[:k] + c[k + 1:]] + [c[:k] + (W.first[i] + a + 1,) + c[k + 1:] for a in range(W.meas[i][1])]
                if all(x in here for x in need):
                    found.append((here.index(need[0]), tuple(sorted(here.index(x) for x in need[1:]))))
            want |= set(found)
            if len(found) == len(lasts):        # other equalities of the column may be left out
                must |= set(found)
        out = []
        for n, s in got:
            if (n, tuple(sorted(s))) not in want:
                inside = lambda j: W.text(here[j]) if 0 <= j < len(here) else f"column {j}"
                out.append((COL, f"{d}: {inside(n)} is set equal to {' + '.join(map(inside, s))}"))
                break
        for n, s in sorted(must - {(n, tuple(sorted(s))) for n, s in got}):
            out.append((COL, f"{d}: {' + '.join(W.text(here[j]) for j in s)} is not set equal to {W.text(here[n])}"))
            break
        return out
    verdict(rep, "InflationSDP._discover_normalization_eqns", f"measurements {parties}, columns {cols} and possibly {maybe}", paths(prog, go, hooks={}, limit=3000), {COL: A})


def run_entries(rep, prog, eqs, rows):
    def go(R):
        begin(R)
        n = len(rows[0])
        hole = [(i, j) for i in range(len(rows)) for j in range(n) if rows[i][j] is None]
        val = {k: 0 if R.boolean("zero", *k) else 90 + 3 * a for a, k in enumerate(hole)}
        m = [[val[i, j] if rows[i][j] is None else rows[i][j] for j in range(n)] for i in range(len(rows))]
        M = Nd((len(m), n), [x for r in m for x in r])
        got = pairs(R, R.call(prog.func("construct_normalization_eqs", QT), [[(a, list(b)) for a, b in eqs], M], {}))
        out = []
        if M.flat != [x for r in m for x in r]:
            out.append((ENT, f"columns {eqs}: the moment matrix {m} is modified"))
        valid = {(r[a], tuple(sorted(r[j] for j in b))) for a, b in eqs for r in m}
        for a, b in got:
            if (a, tuple(sorted(b))) not in valid:
                out.append((ENT, f"columns {eqs}, moment matrix {m}: moment {a} is set equal to the sum of {b}"))
                break
        have = {tuple(sorted(b)) for a, b in got}
        for a, b in sorted(valid):
            if all(b) and b not in have:
                out.append((ENT, f"columns {eqs}, moment matrix {m}: the sum of {b} is not set equal to moment {a}"))
                break
        return out
    verdict(rep, "construct_normalization_eqs", f"columns {eqs}, rows {rows}", paths(prog, go, hooks={}, limit=3000), {ENT: B})


class Moment(Mono):
    """a moment whose name may be changed"""
    def setattr(self, R, name, v):
        self.given = dict(getattr(self, "given", {}), **{name: v})

    def attr(self, R, name):
        return getattr(self, "given", {}).get(name) if name in getattr(self, "given", {}) else super().attr(R, name)


def moment(R, name, idx, ident=None, **kw):
    m = Moment(name, ident, idx=idx, symbol=T("symbol", name), is_zero=name == "0", is_physical=kw.get("is_hermitian"), is_one=name == "1", knowability_status="Unknowable", **kw)
    m.idx, m.is_hermitian = idx, kw.get('is_hermitian')
    return m


def run_program(rep, prog, matrix, orbits, eqs, zero):
    """matrix: merged entries; orbits: earlier index -> merged index"""
    def go(R):
        begin(R)
        R.texts = __import__("sa.text", fromlist=["x"])
        network, supports, commute = R.boolean("network"), R.boolean("supports"), R.boolean("all commute")
        log = []
        reps = {}
        for a, b in sorted(orbits.items()):
            reps.setdefault(b, a)
        corresp = {a: (a, 70 + a) for a in orbits if a}
        herm = {}
        made = {}

        def m1(R, lexmon, idx=-1):
            w = tuple(asarray(R, lexmon).flat) if isinstance(lexmon, Nd) else tuple(R.iterate(lexmon))
            if w == corresp.get(1):
                return moment(R, "1", idx, is_hermitian=True)
            herm.setdefault(w, R.boolean("hermitian", w))
            made[w] = moment(R, f"m{w[0]}", idx, is_hermitian=herm[w])
            return made[w]

        def m2(R, array, idx=-1):
            return moment(R, "0" if asarray(R, array).shape[0] else "1", idx, is_hermitian=True, __copy__=Hook(lambda R: moment(R, "1", idx, is_hermitian=True)))
        n = len(matrix)
        unsym = Nd((n, n), [0] * (n * n))
        final = Nd((n, n), [x for r in matrix for x in r])

        def columns(R, spec, *a, **k):
            log.append(("columns", spec))
            for x, v in (("n_columns", n), ("generating_monomials_1d", []), ("genmon_1d_to_index", {})):
                h.setattr(R, x, v)
            return []

        def apply(R, mm, syms, *a, **k):
            log.append(("symmetries", mm, syms))
            return final, dict(orbits), Nd((len(reps),), [reps[b] for b in sorted(reps)])

        def relations(R, cols, mm, *a, **k):
            log.append(("relations", mm))
            if cols != "column equalities":
                raise Und("column equalities")
            return [(a, list(b)) for a, b in eqs]
        hooks = dict(build_columns=columns, _build_momentmatrix_1d_internal=lambda R: (unsym, {a: Nd((2,), w) for a, w in corresp.items()}), _discover_columns_symmetries=lambda R: "symmetries",
                     apply_inflation_symmetries=apply, _discover_normalization_eqns=lambda R: "column equalities", construct_normalization_eqs=relations, Moment_1d=m1, Moment_2d=m2)
        for x in ("set_objective", "set_values"):
            hooks[x] = (lambda x: lambda R, *a, **k: log.append((x,) + a))(x)
        R.hooks.update(hooks)
        old = moment(R, "old", 50, is_hermitian=True)
        h = Host(prog, "InflationSDP", verbose=0, zero_operator=Nd((1, 3), [0, 0, 0]), identity_operator=Nd((0, 3), []), constant_term_name="constant_term", inflation_levels=Nd((2,), [2, 1]), all_operators_commute=commute, network_scenario=network,
                 supports_problem=supports, names_to_symbols={}, lexorder_symmetries=Nd((1, 3), [0, 1, 2]), atomic_monomial_from_hash={"old": old}, monomial_from_atoms={"old": old}, monomial_from_name={"old": old}, monomial_from_symbol={"old": old},
                 minimal_equalities=[{old: 1}], minimal_inequalities=[{old: 1}], moment_upperbounds={old: 1}, moment_lowerbounds={old: 1}, maskmatrices={"old": 1}, moments=[old], monomials=[old], hermitian_moments=[old], compmoment_from_idx={50: old},
                 first_free_idx=51, extra_equalities=[], extra_inequalities=[])
        stale = ("atomic_factors", "atomic_monomials", "atom_from_name", "knowable_atoms", "do_conditional_atoms")
        for x in stale:
            h.cache[x] = "old"
        h.attr(R, "generate_relaxation").call(R, ["spec"], {})
        out, d = [], f"moment matrix {matrix}"
        if ("columns", "spec") not in log:
            out.append((MOM, "the requested columns are not built"))
        sy = [x for x in log if x[0] == "symmetries"]
        if not sy or sy[-1][1] is not unsym or sy[-1][2] != "symmetries":
            out.append((MOM, "the symmetries of the columns are not applied to the moment matrix"))
        if h.attr(R, "momentmatrix") is not final:
            out.append((MOM, "the moment matrix is not the one with symmetries applied"))
        table = {k: R.getitem(h.attr(R, "compmoment_from_idx"), k) for k in R.iterate(h.attr(R, "compmoment_from_idx"))}
        present = sorted({x for r in matrix for x in r})
        for x in present:
            want = "0" if x == 0 else "1" if orbits and x == 1 else f"m{corresp[reps[x]][0]}"
            if x not in table or not isinstance(table[x], Mono):
                return out + [(MOM, f"{d}: entry {x} has no moment")]
            ok = {want} if x < 2 else {f"m{a}" for a, b in orbits.items() if b == x}
            if table[x].name not in ok:
                out.append((MOM, f"{d}: entry {x} has the moment {table[x].name}"))
            elif x > 1 and table[x].idx != x:
                out.append((MOM, f"{d}: the moment of entry {x} has the index {table[x].idx}"))
        if set(table) != set(present) | set(orbits.values()) - {0}:
            out.append((MOM, f"{d}: moments are listed for the entries {sorted(table)}"))
        for what in ("moments", "monomials"):
            l = list(R.iterate(h.attr(R, what)))
            if sorted(m.name for m in l) != sorted(m.name for m in table.values()):
                out.append((MOM, f"{d}: {what} are {[m.name for m in l]}, the entries have {sorted(m.name for m in table.values())}"))
        free = h.attr(R, "first_free_idx")
        if not isinstance(free, int) or free in table or free <= max(table):
            out.append((MOM, f"{d}: the next free index is {free}"))
        pos = sorted(m.name for m in R.iterate(h.attr(R, "hermitian_moments")))
        exp = sorted(m.name for m in table.values() if commute or m.is_hermitian)
        if pos != exp:
            out.append((MOM, f"{d}: the non-negative moments are {pos} instead of {exp}"))
        lows = h.attr(R, "moment_lowerbounds")
        got = sorted((k.name, R.getitem(lows, k)) for k in R.iterate(lows))
        if got != [(x, 0) for x in exp]:
            out.append((NEW, f"{d}: the lower bounds of a new program are {got}"))
        for what in ("moment_upperbounds", "minimal_inequalities", "maskmatrices"):
            if len(R.iterate(h.attr(R, what))):
                out.append((NEW, f"{d}: {what} of the earlier program survive"))
        for what in ("atomic_monomial_from_hash", "monomial_from_atoms", "monomial_from_name", "monomial_from_symbol"):
            if any(k == "old" for k in R.iterate(h.attr(R, what))):
                out.append((NEW, f"{d}: {what} keeps moments of the earlier program"))
        for x in stale:
            if h.cache.get(x) == "old" and x not in h.attrs:
                out.append((NEW, f"{d}: {x} of the earlier program survive"))
        for x in ("set_objective", "set_values"):
            if not any(e[0] == x and (len(e) < 2 or e[1] is None) for e in log):
                out.append((NEW, f"{d}: {x} does not start anew"))
        tests = [bool(R.truth(h.attr(R, "momentmatrix_has_a_zero"))), bool(R.truth(h.attr(R, "momentmatrix_has_a_one")))]
        if tests != [0 in present, 1 in present]:
            out.append((MOM, f"{d}: presence of zero and unit is given as {tests}"))
        rel = [x for x in log if x[0] == "relations"]
        mini = [{k: R.getitem(e, k) for k in R.iterate(e)} for e in R.iterate(h.attr(R, "minimal_equalities"))]
        if any(not isinstance(k, Mono) for e in mini for k in e):
            raise Und("terms of equalities")
        shown = sorted(tuple(sorted((k.name, v) for k, v in e.items())) for e in mini)
        want = [] if network and not supports else sorted(tuple(sorted([(table[a].name, 1)] + [(table[x].name, -1) for x in b])) for a, b in eqs)
        flip = lambda e: tuple((k, -v) for k, v in e)
        if not (network and not supports) and (not rel or rel[-1][1] is not final):
            out.append((CON, "the conditions are not those of the moment matrix with symmetries applied"))
        elif sorted(min(e, flip(e)) for e in shown) != sorted(min(e, flip(e)) for e in want):
            out.append((CON, f"{'network' if network else 'other'} scenario, supports {supports}: the equalities are {shown} instead of {want}"))
        return out
    verdict(rep, "InflationSDP.generate_relaxation", f"moment matrix {matrix}, orbits {orbits}, equalities {eqs}", paths(prog, go, hooks={}, limit=3000), RULES)


def check(prog, rep, tier):
    rep.rule(A, "every equality between columns says that a product equals the sum over all outcomes of one more measurement of a party with children; it is found whenever all these columns are present (equalities of one column are dropped together)")
    rep.rule(B, "every equality between columns gives the same equality for each row of the moment matrix, unless a summand is zero or the same sum was met before; nothing else is added and the matrix is not modified")
    rep.rule(C, "the program contains these equalities, with coefficient 1 for the product and -1 for each summand, unless the scenario is a network without its own outcomes as variables")
    rep.rule(D, "every index in the moment matrix has the moment of a product that carries it, and the lists of moments, non-negative moments and free indices agree with it")
    rep.rule(E, "a new relaxation starts without values, objective, bounds, and moments of an earlier one")
    parties = [(2,), (2,)]
    run_columns(rep, prog, parties, [(), (2,), (1, 4)], [(1,), (4,), (3,), (2, 4), (2, 3)])
    run_columns(rep, prog, [(2, 2), (2,)], [(), (1,), (2,)], [(3,), (4,), (2, 4), (2, 3), (1, 4), (4, 2, 6)])
    run_columns(rep, prog, [(3,), (2,)], [(), (1,), (3,), (4,)], [(2,), (5,), (3, 5), (2, 5), (1, 5), (3, 4)])
    run_columns(rep, prog, [(2, 2)], [(), (2, 4), (2, 4, 2), (1, 4, 2), (4, 2)], [(2, 4, 1), (2, 3, 2), (2, 2), (1, 4), (2, 3)])
    Z = None
    run_entries(rep, prog, [(0, (1, 2))], [[1, 2, 3], [2, 2, Z], [3, Z, 3], [7, 5, 4]])
    run_entries(rep, prog, [(0, (1, 2)), (3, (4, 5))], [[1, 2, 3, 4, 5, 6], [2, 2, Z, 7, 8, Z], [4, 7, 9, 4, 4, Z], [1, 3, 2, 6, 6, 5]])
    run_entries(rep, prog, [(0, (3, 1, 2)), (1, (4, 5, 0)), (5, (2,))], [[1, 2, 3, 4, 5, 6], [2, Z, 9, 7, 8, 11], [6, 7, 8, 9, Z, 12]])
    run_program(rep, prog, [[1, 2, 3], [2, 2, 5], [3, 5, 3]], {1: 1, 2: 2, 3: 3, 4: 3, 5: 5}, [(2, (3, 5))], False)
    run_program(rep, prog, [[1, 2, 4], [2, 2, 0], [4, 0, 4]], {0: 0, 1: 1, 2: 2, 3: 2, 4: 4, 5: 4}, [(1, (2, 4)), (4, (2, 1, 4))][:1], True)
    run_program(rep, prog, [[2, 3], [3, 7]], {1: 1, 2: 2, 3: 3, 5: 3, 7: 7}, [(2, (3, 7)), (3, (2, 7))], False)
    run_program(rep, prog, [[1, 2, 3], [2, 2, 4], [3, 4, 3]], {1: 1, 2: 2, 4: 3, 5: 3, 7: 4}, [(2, (3, 4))], False)
