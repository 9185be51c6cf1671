"""The entries of a dual certificate are sums of the contributions of all components."""
from sa.api import *
from checks.T02 import MODES, build, local_dicts, name, roles_of, minimal, coverage, roots, rootset, sgn


def cert_dicts(I, st, r):
    """the dictionaries returned under 'dual_certificate'"""
    out = set()
    for oid in r.r:
        o = I.get(st, oid)
        for k, x, gs in o.ents.values():
            if k is not None and k.const and k.const[1] == "dual_certificate":
                out |= {q for q in x.r if st.heap.get(q) is not None and st.heap[q].kind == "dict"}
    return out


def one(rep, prog, mode):
    stores = []

    def hook(I, st, ev):
        if ev.kind == "item":
            o = st.heap.get(ev.data["oid"])
            if o is not None and o.kind == "dict":
                stores.append((ev.data["oid"], ev.data.get("key"), I.numv(st, ev.data["val"]), ev.data.get("old"), list(o.ents.values()), frozenset(st.pc), getattr(ev.node, "lineno", 0)))
    I, M, st, r, f = build(prog, mode, hook)
    local_dicts(I, st)
    rep.seen(I)
    con = name(mode)
    if r is None or any(u[0] == "cut" for u in I.unknowns) or not M.constraints:
        rep.undecided("contribution", con, "the solver interface could not be interpreted to its end")
        return
    dual, feas = mode["solve_dual"], mode["feas_as_optim"]
    roles = dict(roles_of(M, dual))
    if "?" in roles.values():
        rep.undecided("contribution", con, "variables of the model not recognised")
        return
    for l, v, doms, pc, ln in M.constraints:
        cs = {x for (q, s) in minimal([(t.k, t.l, t.g) for t in v.f], roles) for x in q}
        roles[l] = "Cpsd" if "G" in cs or "mask" in cs else "Cineq" if "ineq" in cs else "Ceq" if "eq" in cs else "C"
    certs = cert_dicts(I, st, r)
    if not certs:
        rep.undecided("contribution", con, "no dictionary is returned as the dual certificate")
        return
    want = {("level Z", "mask"): 1, ("ineq", "level I"): 1, ("eq", "level E"): 1} if dual else {("dual G", "mask"): 0, ("dual Cineq", "ineq"): -1, ("dual Ceq", "eq"): -1}
    if not feas:
        want[("obj",)] = 1
    final = {}
    unk = False
    for oid in certs:
        for k, x, gs in st.heap[oid].ents.values():
            v = I.numv(st, x)
            unk = unk or v.u
            for t in v.f:
                for g in gs:
                    final.setdefault(t, set()).add(g)
    cl = {}
    for t, gs in final.items():
        rt, s = roots(t.l, roles)
        if len(set(rt)) == len(rt):
            for g in gs:
                cl.setdefault(tuple(sorted(rt)), []).append((t.k, t.g | g))
    unk = unk or any("?" in x for x in cl)
    where = f"{f.mod.rel}:{f.node.lineno}"
    lines = [x[-1] for x in stores if x[0] in certs]
    if lines:
        where = f"{f.mod.rel}:{min(lines)}"
    for rt, sign in want.items():
        what = f"{con}: {' · '.join(rt)}"
        got = cl.get(tuple(sorted(rt)))
        if not got:
            if unk:
                rep.undecided("contribution", what, "part of the certificate could not be interpreted")
            else:
                rep.violation("contribution", what, "the certificate has no such contribution", where)
            continue
        rep.held("contribution", what)
        ks = {sgn(k) for k, g in got}
        if sign and -sign in ks:
            rep.violation("contribution-sign", what, f"enters with sign {'-' if sign > 0 else '+'}", where)
        elif not sign or ks == {sign}:
            rep.held("contribution-sign", what)
        else:
            rep.undecided("contribution-sign", what, "sign not derived")
        comps = tuple(x for x in rt if " " not in x) + ("dualread", "mask", "known", "semi")
        c = coverage([g for k, g in got], comps)
        if c is None:
            rep.held("contribution-unrestricted", what)
        else:
            rep.violation("contribution-unrestricted", what, "enters " + "; ".join(sorted(w for _, w in c)), where)
    for rt in cl:
        if rt and "?" not in rt and rt not in want and tuple(sorted(rt)) not in {tuple(sorted(w)) for w in want} and not (feas and rt in (("obj",), ("level Z",), ("dual G",))) \
                and not (not mode["process_constraints"] and rt in (("level E",), ("dual Ceq",))):
            rep.violation("contribution", f"{con}: {' · '.join(rt)}", "the certificate has a contribution that the formulation does not have", where)
    # accumulation: what a store writes contains what the cell held
    cls = {tuple(sorted(w)) for w in want}

    def classes(v):
        out = set()
        for t in v.f:
            rt, s = roots(t.l, roles)
            if tuple(sorted(rt)) in cls:
                out.add(tuple(sorted(rt)))
        return out
    for oid, key, val, old, ents, pc, ln in stores:
        if oid not in certs or val.u and not val.f:
            continue
        before = set()
        same = [e for e in ents if e[0] is not None and key is not None and e[0] == key]
        for k, x, gs in same or ents:
            before |= classes(I.numv(st, x))
        new = classes(val)
        what = f"{con}: store of {'/'.join(sorted(' · '.join(x) for x in new)) or 'a constant'}"
        lost = before - new
        if lost and new:
            rep.violation("accumulate", what, f"replaces the contribution {' / '.join(sorted(' · '.join(x) for x in lost))} that the entry may already hold", f"{f.mod.rel}:{ln}")
        elif new:
            rep.held("accumulate", what)


def check(prog, rep, tier):
    rep.rule("contribution", "the returned certificate holds, for known moments, the product of every component with its multiplier, and nothing else")
    rep.rule("contribution-sign", "with the sign under which the multiplier enters the Lagrangian")
    rep.rule("contribution-unrestricted", "whatever the content of the other components")
    rep.rule("accumulate", "a store into an entry that may already hold a contribution writes a value that contains it")
    prog.find_func("solveSDP_MosekFUSION")
    rep.jobs([("contribution", name(m), one, (prog, m)) for m in MODES])
