"""The cone program built by the solver interface, term by term, in every mode."""
import itertools
from sa.api import *
from sa.interp import Interp
from sa import fusion

COMP = {"mask_matrices": "mask", "objective": "obj", "known_vars": "known", "semiknown_vars": "semi", "inequalities": "ineq", "equalities": "eq"}
ARGS = tuple(COMP) + ("solverparameters",)
FLIP = {"greaterThan 0": "lessThan 0", "lessThan 0": "greaterThan 0", "equalsTo 0": "equalsTo 0"}
BENIGN = ("none", "type", "nan", "absentattr", "hasattr", "cached")
MODES = [dict(zip(("solve_dual", "default_non_negative", "feas_as_optim", "process_constraints"), m)) for m in itertools.product((True, False), repeat=4)]


def build(prog, mode, hook=None):
    f = prog.find_func("solveSDP_MosekFUSION")
    I = Interp(prog, 3000000, {})
    M = fusion.Model(I)
    st = I.start()
    force(I, {("empty", frozenset([("mask_matrices",)])): False})
    if hook:
        I.hooks.append(hook)
    names = {a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}
    kw = {a: I.sym((a,)) for a in ARGS if a in names}
    kw.update({k: C(v) for k, v in mode.items() if k in names})
    if "verbose" in names:
        kw["verbose"] = C(0)
    r = I.run(st, f, [], kw)
    return I, M, st, r, f


def name(mode):
    return f"{'dual' if mode['solve_dual'] else 'primal'}" + "".join(" " + k for k in ("default_non_negative", "feas_as_optim", "process_constraints") if mode[k])


def roots(labels, roles):
    """roots of a product of labels -> (sorted tuple without the proportionality factors, number of the latter) or None"""
    out, semi = [], 0
    for l in labels:
        x = None
        if isinstance(l, tuple):
            if l in roles:
                x = roles[l]
            elif l[0] in COMP:
                x = COMP[l[0]]
            elif l[:1] in (("@level",), ("@dual",)) and l[1:] in roles:
                x = l[0][1:] + " " + roles[l[1:]]
            else:
                ins = [COMP[r] for r in COMP if mentions(l, r)]
                return None if not ins else ("?",), 0
        if x is None:
            return ("?",), 0
        if x == "semi":
            semi += 1
        else:
            out.append(x)
    return tuple(sorted(out)), semi


def lits(form, pol):
    """literals that hold when the formula has the given value; a disjunction is kept as one literal"""
    if form[0] == "not":
        return lits(form[1], not pol)
    if form[0] == "and" and pol or form[0] == "or" and not pol:
        return [x for f in form[1:] for x in lits(f, pol)]
    if form[0] in ("and", "or"):
        return [("any", tuple(tuple(lits(f, pol)) for f in form[1:]))]
    return [(form, pol)]


def rootset(labels):
    out = set()
    for l in labels or ():
        for r in COMP:
            if mentions(l, r):
                out.add(COMP[r])
    return out


def bad(lit, comps):
    """why a literal wrongly restricts a product of these components; None when it does not"""
    if lit[0] == "any":
        rs = [[bad(x, comps) for x in alt] for alt in lit[1]]
        if any(not any(r) for r in rs):
            return None
        return next(x for r in rs for x in r if x)
    form, pol = lit
    if form[0] != "atom":
        return None
    kind = form[1]
    own = set(comps)
    extra = {"known", "semi"}
    if kind in BENIGN:
        return None
    ls = rootset(form[2]) if isinstance(form[2], frozenset) else set()
    if kind == "member":
        if isinstance(form[2], frozenset):
            for l in form[2]:
                if isinstance(l, tuple) and l[:1] == ("obj",):
                    ls |= OBJ.get(l[1], set())
        if not ls:
            return None
        if ls == {"known"} and pol and "known" not in own and isinstance(form[3], frozenset) and form[3] and rootset(form[3]) and rootset(form[3]) <= own and "dualread" not in own:
            return "only for known moments"
        if pol and ls - extra and not (ls & own):
            return f"only for the moments that occur in {'/'.join(sorted(ls))}"
        return None
    if kind == "empty":
        if not ls:
            return None
        if pol and not (ls & own):
            return f"only when {'/'.join(sorted(ls))} is empty"
        if not pol and not (ls & (own | extra | {"mask"})):
            return f"only when {'/'.join(sorted(ls))} is not empty"
        return None
    if kind in ("zero",):
        return None if not pol else "only when a value is zero"
    if kind in ("sign", "eq", "brk", "partial"):
        if not ls and kind != "brk":
            return None
        return f"only for some ({kind} of {'/'.join(sorted(ls))})"
    return None


OBJ = {}        # local dictionaries: components whose moments are their keys


def local_dicts(I, st):
    OBJ.clear()
    for oid, o in st.heap.items():
        if o.kind in ("dict", "set"):
            ks = [k for k, x, gs in o.ents.values() if k is not None] if o.kind == "dict" else [x for k, x, gs in o.ents.values()]
            ls = set()
            for k in ks:
                for q in k.r:
                    if isinstance(q, tuple) and isinstance(q[1], tuple) and q[1][0] in COMP:
                        ls.add(COMP[q[1][0]])
            OBJ[oid] = ls


def coverage(guards, comps):
    """guards: one set of literals per addend.  None when some addend is unrestricted (or the alternatives together are)"""
    sets = []
    for g in guards:
        ls = [x for form, pol in g for x in lits(form, pol)]
        b = {x: bad(x, comps) for x in ls}
        b = {x: why for x, why in b.items() if why}
        if not b:
            return None
        sets.append(frozenset(b.items()))
    # alternatives that exclude each other
    work = set(frozenset(x for x, _ in s) for s in sets)
    changed = True
    while changed and len(work) < 200:
        changed = False
        for a in list(work):
            for b in list(work):
                for x in a:
                    if x[0] == "any":
                        continue
                    neg = (x[0], not x[1])
                    if neg in b and a - {x} == b - {neg}:
                        n = a - {x}
                        if not n:
                            return None
                        if n not in work:
                            work.add(n); changed = True
    return sorted(sets, key=lambda s: (len(s), repr(s)))[0]


def minimal(terms, roles):
    """{(roots, has proportionality factor): [(coefficient, guards)]}"""
    out = {}
    for k, ls, g in terms:
        r, s = roots(ls, roles)
        if r is None:
            r = ("?",)
        if len(set(r)) < len(r):
            continue
        out.setdefault((r, min(s, 2)), []).append((k, g))
    return out


def sgn(k):
    return (1 if k > 0 else -1 if k < 0 else 0) if isinstance(k, (int, float)) and not isinstance(k, bool) else None


class Place:
    """the union of the addends of the expressions handed over at one place"""

    def __init__(self):
        self.terms, self.u, self.lines, self.doms = [], False, set(), set()

    def add(self, v, pc, line, flip=False):
        self.u = self.u or v.u
        self.lines.add(line)
        for t in v.f:
            k = -t.k if flip and isinstance(t.k, (int, float)) else t.k
            self.terms.append((k, t.l, t.g | pc))
        for t, x in v.c:
            if t in ("int", "float") and x:
                self.terms.append((-x if flip else x, (), pc))


def roles_of(M, dual):
    """what each variable of the model stands for, from its cone and from what it multiplies"""
    roles = {}
    exprs = [o[1] for o in M.objectives] + [c[1] for c in M.constraints]
    for l, o in M.variables.items():
        if any(d.startswith("inPSDCone") for d in o["domain"]):
            roles[l] = "Z" if dual else "G"
            continue
        if not dual:
            roles[l] = "X"
            continue
        mult = set()
        for v in exprs:
            for t in v.f:
                if l in t.l:
                    mult |= rootset([x for x in t.l if x != l])
        mult -= {"known", "semi"}
        sz = rootset(o["deps"])
        if mult == {"ineq"} or not mult and "ineq" in sz:
            roles[l] = "I"
        elif mult == {"eq"} or not mult and "eq" in sz:
            roles[l] = "E"
        else:
            roles[l] = "?"
    return roles


def expect(rep, con, place, p, want, allowed=(), free_sign=False):
    """want: {(roots, semi?): sign}; every class must be there, with its sign and unrestricted; no other class may be"""
    cl = minimal(p.terms, p.roles)
    where = f"inflation/sdp/sdp_utils.py:{min(p.lines)}" if p.lines else "solveSDP_MosekFUSION"
    unk = p.u or any("?" in r for (r, s) in cl)
    if free_sign:
        s0 = None
        for key, s in want.items():
            for k, g in cl.get(key, ()):
                if sgn(k) and s:
                    s0 = s0 or sgn(k) * s
        if s0 == -1:
            want = {k: (-s if s else s) for k, s in want.items()}
    for (r, s), sign in want.items():
        what = f"{con}: {place}: {' · '.join(r)}" + (" · semi" if s else "")
        got = cl.get((r, s), [])
        if not got:
            if unk:
                rep.undecided("term-present", what, "part of the expression could not be interpreted")
            else:
                rep.violation("term-present", what, f"no such product in the {place}", where)
            continue
        rep.held("term-present", what)
        ks = {sgn(k) for k, g in got}
        if sign:
            if -sign in ks:
                rep.violation("term-sign", what, f"enters with sign {'-' if sign > 0 else '+'} instead of {'+' if sign > 0 else '-'}", where)
            elif None in ks or 0 in ks and len(ks) > 1:
                rep.undecided("term-sign", what, "sign not derived")
            elif ks == {sign}:
                wk = {abs(k) for k, g in got if sgn(k) is not None}
                if wk != {1}:
                    rep.violation("term-weight", what, f"enters with the constant factor {sorted(wk)}", where)
                else:
                    rep.held("term-sign", what)
        cov = coverage([g for k, g in got], r + (("semi",) if s else ()) + (("mask",) if r in (("X",), ("Z",), ("G",), ()) else ()))
        if cov is None:
            rep.held("term-unrestricted", what)
        else:
            rep.violation("term-unrestricted", what, "enters " + "; ".join(sorted(w for _, w in cov)), where)
    for (r, s) in cl:
        if "?" in r or (r, s) in want or (r, 0) in want and s or (r, s) in allowed or (r, 0) in allowed:
            continue
        what = f"{con}: {place}: {' · '.join(r) or 'constant'}"
        if not r and not s:
            continue
        rep.violation("no-other-term", what, f"the {place} contains a product that the formulation does not have", where)


def one(rep, prog, mode):
    stores = []

    def hook(I, st, ev):
        if ev.kind == "item" and ev.data.get("key") is not None and any(isinstance(q, tuple) and q[1] == ("semiknown_vars", "[]", "[=1]") for q in ev.data["key"].r):
            stores.append((I.numv(st, ev.data["val"]), frozenset(st.pc), getattr(ev.node, "lineno", 0)))
    I, M, st, r, f = build(prog, mode, hook)
    local_dicts(I, st)
    rep.seen(I)
    con = name(mode)
    where = f"{f.mod.rel}:{f.node.lineno}"
    if r is None or any(u[0] == "cut" for u in I.unknowns):
        rep.undecided("term-present", con, "the solver interface could not be interpreted to its end")
        return
    if not M.objectives or not M.variables or not M.constraints:
        rep.undecided("term-present", con, "no variables, constraints or objective were recognised")
        return
    dual, nn, feas, proc = (mode[k] for k in ("solve_dual", "default_non_negative", "feas_as_optim", "process_constraints"))
    roles = roles_of(M, dual)
    semis = (0, 1) if proc else (0,)
    # ---- variables and their domains
    wantdom = {"Z": "inPSDCone", "G": "inPSDCone", "I": "greaterThan 0", "E": "unbounded", "X": "greaterThan 0" if nn else "unbounded"}
    for l, role in sorted(roles.items(), key=str):
        o = M.variables[l]
        if role == "?":
            rep.undecided("cone", con, f"variable of line {o['line']} not recognised")
            return
        what = f"{con}: cone of {role}"
        ds = {d.split()[0] if d.startswith(("inPSDCone", "unbounded")) else d for d in o["domain"]}
        if not ds:
            ds = {"unbounded"}
        if any("?" in d or "#" in d for d in ds):
            rep.undecided("cone", what, f"domain {ds} not interpreted")
        elif ds != {wantdom[role]}:
            rep.violation("cone", what, f"variable ranges over {sorted(ds)} instead of {wantdom[role]}", f"{f.mod.rel}:{o['line']}")
        else:
            rep.held("cone", what)
    need = {"Z", "I", "E"} if dual else {"X", "G"}
    miss = need - set(roles.values())
    if miss:
        rep.violation("cone", f"{con}: variables", f"no variable for {sorted(miss)} in the model", where)
        return
    # ---- substitution of proportionality relations
    for v, pc, ln in stores:
        cl = minimal([(t.k, t.l, t.g) for t in v.f], roles)
        for (q, s_) in list(cl):
            if s_ != 1 or "?" in q or not q:
                continue
            what = f"{con}: substitution in {' · '.join(q)}"
            absent = any(form[0] == "atom" and form[1] == "member" and not pol and isinstance(form[3], frozenset) and ("semiknown_vars", "[]", "[=1]") in form[3] for a, b in pc for form, pol in lits(a, b) if form != "any")
            if (q, 0) in cl or absent or v.u:
                rep.held("substitution-adds", what)
            else:
                rep.violation("substitution-adds", what, "the coefficient of x = a·y is stored for y without what y already had", f"{f.mod.rel}:{ln}")
    # ---- sense
    sense = set().union(*[o[0] for o in M.objectives])
    ws = "Minimize" if dual else "Maximize"
    if sense == {ws}:
        rep.held("sense", con)
    elif sense and sense <= {"Minimize", "Maximize"}:
        rep.violation("sense", con, f"the objective is {sorted(sense)} instead of {ws}", f"{f.mod.rel}:{M.objectives[0][3]}")
    else:
        rep.undecided("sense", con, "objective sense not recognised")
    # ---- objective
    ob = Place(); ob.roles = roles
    for s, v, pc, ln in M.objectives:
        ob.add(v, pc, ln)
    want = {}

    def w(r, sign, semi=True):
        for s in (semis if semi else (0,)):
            want[(tuple(sorted(r)), s)] = sign
    allowed = set()
    if dual:
        if not feas:
            w(("known", "obj"), 1)
        w(("Z", "known", "mask"), 1, semi=False)
        w(("I", "ineq", "known"), 1); w(("E", "eq", "known"), 0)
        allowed |= {(("Z", "known", "mask"), 1)}
        if not proc:
            allowed |= {(("E", "known"), 0), (("E", "known"), 1)}
        if feas:
            allowed |= {(("Z", "known"), 0), (("Z", "known"), 1)}
    else:
        if feas:
            want[(("X",), 0)] = 1
            allowed |= {(("X",), 1), (("known",), 0), (("known",), 1)}
        else:
            w(("known", "obj"), 1); w(("X", "obj"), 1)
    expect(rep, con, "objective", ob, want, allowed)
    # ---- constraints
    groups = {}
    for l, v, doms, pc, ln in M.constraints:
        cl = minimal([(t.k, t.l, t.g) for t in v.f], roles)
        comps = {x for (r, s) in cl for x in r}
        g = "stationarity" if dual else "moment matrix" if "G" in comps or "mask" in comps else "inequality" if "ineq" in comps and "eq" not in comps else \
            "equality" if "eq" in comps and "ineq" not in comps else "?"
        groups.setdefault(g, []).append((v, doms, pc, ln))
    if "?" in groups:
        if not set().union(*[rootset([l for t in v.f for l in t.l]) for v, d, p, n in groups["?"]]) and not any(v.u for v, d, p, n in groups["?"]):
            rep.violation("no-other-term", f"{con}: constraints", "a constraint contains none of the components of the problem", f"{f.mod.rel}:{groups['?'][0][3]}")
        else:
            rep.undecided("term-present", f"{con}: constraints", "one constraint could not be assigned to a component")
            return
    wanted = {"stationarity": "lessThan 0" if nn else "equalsTo 0"} if dual else {"inequality": "greaterThan 0", "equality": "equalsTo 0", "moment matrix": "equalsTo 0"}
    for g, dom in wanted.items():
        what = f"{con}: {g} constraint"
        if g not in groups:
            rep.violation("term-present", what, "the model has no such constraint", where)
            continue
        p = Place(); p.roles = roles
        ok = True
        for v, doms, pc, ln in groups[g]:
            if len(doms) != 1 or any("?" in d or "#" in d for d in doms):
                rep.undecided("relation", what, f"relation of line {ln} not interpreted: {sorted(doms)}"); ok = False; break
            d = next(iter(doms))
            flip = False
            if d != dom and FLIP.get(d) == dom:
                flip, d = True, FLIP[d]
            if d != dom:
                rep.violation("relation", what, f"the expression is constrained to be {d} instead of {dom}", f"{f.mod.rel}:{ln}"); ok = False; break
            p.add(v, pc, ln, flip)
        if not ok:
            continue
        rep.held("relation", what)
        want, allowed = {}, set()
        if dual:
            if feas:
                allowed |= {(("Z",), 0), (("Z",), 1), (("obj",), 0), (("mask",), 0), ((), 0), ((), 1), ((), 2)}
                want[(("Z",), 0)] = -1
                want[((), 0)] = 1
            else:
                w(("obj",), 1)
            w(("Z", "mask"), 1); w(("I", "ineq"), 1); w(("E", "eq"), 0)
            if not proc:
                allowed |= {(("E",), 1), (("E",), 0)}
        elif g == "inequality":
            w(("X", "ineq"), 1); w(("ineq", "known"), 1)
        elif g == "equality":
            w(("X", "eq"), 1); w(("eq", "known"), 1)
            if not proc:
                allowed |= {(("X",), 0), (("X",), 1), (("known",), 0), (("known",), 1)}
        else:
            want[(("G",), 0)] = 1
            w(("known", "mask"), -1, semi=False); w(("X", "mask"), -1)
            allowed |= {(("known", "mask"), 1)}
            if feas:
                want[(("X",), 0)] = 1
                allowed |= {(("X",), 1), (("known",), 0), (("known",), 1)}
        expect(rep, con, f"{g} constraint", p, want, allowed, free_sign=dom == "equalsTo 0")
        if dual and g == "stationarity":
            # a free multiplier may have either sign, but the same one in the objective and in the constraint
            a = {sgn(k) for k, x in minimal(ob.terms, roles).get((("E", "eq", "known"), 0), ())}
            b = {sgn(k) for k, x in minimal(p.terms, roles).get((("E", "eq"), 0), ())}
            i = {sgn(k) for k, x in minimal(p.terms, roles).get((("I", "ineq"), 0), ())}
            z = {sgn(k) for k, x in minimal(p.terms, roles).get((("Z", "mask"), 0), ())}
            what = f"{con}: multiplier of the equalities"
            if len(a) == 1 and len(b) == 1 and None not in a | b and len(z) == 1:
                if next(iter(a)) * 1 != next(iter(b)) * next(iter(z)):
                    rep.violation("term-sign", what, "enters the objective and the constraint with different signs", f"{f.mod.rel}:{min(p.lines)}")
                else:
                    rep.held("term-sign", what)
            else:
                rep.undecided("term-sign", what, "sign not derived")
        if not proc and (dual or g == "equality"):
            e = ("E",) if dual else ("X",)
            cl = minimal(p.terms, roles)
            a, b = {sgn(k) for k, x in cl.get((e, 0), ())}, {sgn(k) for k, x in cl.get((e, 1), ())}
            what = f"{con}: {g} constraint: proportionality relations as equalities"
            if not a or not b:
                if p.u:
                    rep.undecided("proportional-equalities", what, "part of the expression could not be interpreted")
                elif not (feas and dual):
                    rep.violation("proportional-equalities", what, "the relations x = a·y are not among the equalities", f"{f.mod.rel}:{min(p.lines)}")
            elif None in a | b or len(a) > 1 or len(b) > 1:
                rep.undecided("proportional-equalities", what, "sign not derived")
            elif a == b:
                rep.violation("proportional-equalities", what, "the two sides of x = a·y enter with the same sign", f"{f.mod.rel}:{min(p.lines)}")
            else:
                rep.held("proportional-equalities", what)


def check(prog, rep, tier):
    rep.rule("cone", "each variable of the model ranges over its cone: Z, G positive semidefinite, I >= 0, E free, X free or >= 0 as asked")
    rep.rule("sense", "the primal is maximised, the dual minimised")
    rep.rule("relation", "each constraint has the relation of its component")
    rep.rule("term-present", "every product of the formulation occurs in the objective or constraint it belongs to")
    rep.rule("term-sign", "it occurs with the sign of the formulation")
    rep.rule("term-weight", "it occurs with no further constant factor")
    rep.rule("term-unrestricted", "it occurs whatever the content of the unrelated components, for every sign of its coefficients")
    rep.rule("no-other-term", "no product occurs that the formulation does not have")
    rep.rule("substitution-adds", "substituting x = a·y adds a times the coefficient of x to the coefficient y already has")
    rep.rule("proportional-equalities", "when not substituted, each relation x = a·y is an equality x - a·y")
    prog.find_func("solveSDP_MosekFUSION")
    rep.jobs([("term-present", name(m), one, (prog, m)) for m in MODES])
