"""No public function modifies what its caller passes in, default arguments or module data."""
import ast
from sa import own
from sa.api import *


def public(f):
    n = f.name
    if f.cls is not None and f.cls.name.startswith("_"):
        return False
    return not n.startswith("_") or n == "__init__"


def in_place(f):
    d = (ast.get_docstring(f.node) or "").lower()
    return "in place" in d or "in-place" in d or "inplace" in d


def is_program(prog, f, p):
    """the parameter is a program, scenario or monomial (no data the property speaks about)"""
    name = p[0][1:]
    for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
        if a.arg == name and a.annotation is not None:
            t = ast.unparse(a.annotation)
            if any(c in t for c in prog.classes):
                return True
    return False


def is_data(prog, f, p):
    return isinstance(p[0], str) and p[0].startswith("$") and p[0] != "$self" and not is_program(prog, f, p) and \
        not any(isinstance(x, str) and x.isidentifier() for x in p[1:])


def hashes(prog, f, p, seen):
    return p in seen


def check(prog, rep, tier):
    rep.rule("argument-modified", "no container mutation event (item or attribute store, deletion, in-place method or operator) on an object reached from a parameter of a public function "
                                  "(interprocedural; functions documented to work in place and parameters that are programs are exempt)")
    rep.rule("kept-argument-modified", "an attribute that holds (an element of) an argument passed earlier is never modified in place by any method of the class")
    rep.rule("default-or-module-modified", "no mutation event on a default argument or module-level object, in any function")
    eff, res = own.effects_of(rep, prog)
    by = {f.qual: f for f in own.all_funcs(prog)}
    for q, e in eff.items():
        f = by[q]
        for p, (how, where) in sorted(e.items(), key=repr):
            if p[0] in ("module", "default"):
                rep.violation("default-or-module-modified", f"{q} / {'.'.join(map(str, p))}", f"{how}: {'a default argument' if p[0] == 'default' else 'module-level data'} is modified", where)
        if not public(f):
            continue
        if in_place(f):
            rep.count("documented_in_place")
            continue
        bad = [(p, v) for p, v in e.items() if is_data(prog, f, p)]
        for p, (how, where) in sorted(bad, key=repr):
            rep.violation("argument-modified", f"{q} / {p[0][1:]}", f"{how} on {'.'.join(map(str, p))}", where)
        r = res[q]
        if r is None or not r["complete"]:
            rep.undecided("argument-modified", q, "not fully analysed")
        elif not bad:
            rep.held("argument-modified", q, f"{len(r['edges'])} calls followed through summaries")
    for c in prog.classes.values():
        meths = {}
        for k in reversed(prog.mro(c)):
            meths.update(k.methods)
        for f in meths.values():
            r = res.get(f.qual)
            if not r or not public(f):
                continue
            for an, roots in r["alias"].items():
                roots = {p for p in roots if p[0] in ("module", "default") or is_data(prog, f, p)}
                if not roots:
                    continue
                hit = False
                for g in meths.values():
                    for p, (how, where) in eff.get(g.qual, {}).items():
                        if p[0] == "self" and p[1:1 + len(an)] == an and not any(str(x).startswith(".") for x in p[1:]):
                            hit = True
                            rep.violation("kept-argument-modified", f"{c.name}.{f.name} / {'.'.join(an)}",
                                          f"{g.name} modifies self.{an[0]} in place ({how}), which may be the object passed as {sorted(roots)[0][0]}", where)
                if not hit:
                    rep.held("kept-argument-modified", f"{c.name}.{f.name} / {'.'.join(an)}", f"keeps {sorted('.'.join(map(str, x)) for x in roots)[0]}")
