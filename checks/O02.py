"""The scenario is never modified by the programs built on it."""
from sa import own
from sa.api import *
from sa.model import deco_names

SCEN = "InflationProblem"


def memo_attrs(prog):
    """attributes of the scenario that only the functions filling them read (a private memo)"""
    import ast
    loads, stores = {}, {}
    for f in own.all_funcs(prog):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                loads.setdefault(n.attr, set()).add(f.qual)
            if isinstance(n, (ast.Subscript, ast.Attribute)) and not isinstance(n.ctx, ast.Load):
                b = n.value if isinstance(n, ast.Subscript) else n
                if isinstance(b, ast.Attribute):
                    stores.setdefault(b.attr, set()).add(f.qual)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("setdefault", "update") and isinstance(n.func.value, ast.Attribute):
                stores.setdefault(n.func.value.attr, set()).add(f.qual)
    init = {f.qual for f in own.all_funcs(prog) if f.name == "__init__" and f.cls is not None and f.cls.name == SCEN}
    out = set()
    for a, s in stores.items():
        s = s - init
        if a.startswith("_") and len(s) == 1 and loads.get(a, set()) - init <= s:
            out.add(a)
    return out


def check(prog, rep, tier):
    rep.rule("scenario-modified", "no mutation event on an object reached from the scenario passed to (or kept by) an LP or SDP program, in any constructor or method, through any call")
    rep.rule("shared-part-modified", "an attribute of a program that is the scenario's own object (aliased in the constructor) is never modified in place by a method of the program")
    prog.cls(SCEN)
    eff, res = own.effects_of(rep, prog)
    for cname in CLASSES:
        c = prog.cls(cname)
        meths = {}
        for k in reversed(prog.mro(c)):
            meths.update(k.methods)
        init = meths.get("__init__")
        alias = {}
        r = res.get(init.qual) if init else None
        if r:
            for an, roots in r["alias"].items():
                roots = {p for p in roots if p[0] == "$inflationproblem"}
                if roots:
                    alias[an] = roots
        rep.count("aliased_attributes", len(alias))
        whole = {an[0] for an, roots in alias.items() if ("$inflationproblem",) in roots} | {SCEN}
        for g in meths.values():
            bad = False
            for p, (how, where) in sorted(eff.get(g.qual, {}).items(), key=repr):
                con = f"{cname}.{g.name}"
                if p[0] == "$inflationproblem" and len(p) > 1 or p[0] == "self" and len(p) > 2 and p[1] in whole:
                    rep.violation("scenario-modified", con, f"{how} on {'.'.join(map(str, p))}", where); bad = True
                    continue
                if p[0] != "self" or g.name == "__init__" and p[0] != "$inflationproblem":
                    if p[0] != "self":
                        continue
                for an, roots in alias.items():
                    if an[0] not in whole and p[1:1 + len(an)] == an:
                        rep.violation("shared-part-modified", con, f"{how} on self.{'.'.join(map(str, p[1:]))}, which is the scenario's {'.'.join(map(str, sorted(roots)[0][1:]))}", where); bad = True
            if res.get(g.qual) is None or not res[g.qual]["complete"]:
                rep.undecided("scenario-modified", f"{cname}.{g.name}", "not fully analysed")
            elif not bad:
                rep.held("scenario-modified", f"{cname}.{g.name}")
    memo = memo_attrs(prog)
    # helpers that receive the scenario or the program
    for f in own.all_funcs(prog):
        if f.cls is not None and f.cls.name == SCEN and f.name != "__init__":
            for p, (how, where) in eff.get(f.qual, {}).items():
                if p[0] == "self":
                    if len(p) > 1 and p[1].lstrip(".") in memo | {f.name if f.kind == "cached" else ""}:
                        continue
                    rep.violation("scenario-modified", f.qual, f"{how} on {'.'.join(map(str, p))}", where)
            rep.held("scenario-modified", f.qual)
        for p, (how, where) in eff.get(f.qual, {}).items():
            if any(x == SCEN for x in p[:-1]) and f.cls is not None and f.cls.name not in CLASSES:
                rep.violation("scenario-modified", f.qual, f"{how} on {'.'.join(map(str, p))}", where)
