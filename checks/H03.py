"""Memo soundness: everything a memoised value depends on takes part in the key, at stores and at lookups."""
import ast
from sa.api import *
from checks.H02 import attrs_in, cached_members
from checks.H01 import glabels

BENIGN_SUFFIX = {"#", "[]", "T"}


def candidates(prog):
    """functions that both store into and look up an attribute table"""
    out = []
    for cls in prog.classes.values():
        for f in cls.methods.values():
            st = any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)) or \
                any(isinstance(n, ast.Attribute) and n.attr in ("setdefault", "update") for n in ast.walk(f.node))
            look = any(isinstance(n, ast.ExceptHandler) for n in ast.walk(f.node)) or \
                any(isinstance(n, ast.Attribute) and n.attr in ("get", "setdefault") for n in ast.walk(f.node)) or \
                any(isinstance(n, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops) for n in ast.walk(f.node))
            if effects(prog).closure(f)[0] & set(SPEC):
                continue                # changes the problem: no memo function
            if st and look and f.name != "__init__" and f.kind != "static":
                out.append((cls.name, f))
    return out


def roots(labels, exact=False):
    """parameters a set of labels speaks about; exact: only through paths that keep all the information"""
    out = set()

    def go(l, lossy):
        if not isinstance(l, tuple) or not l:
            if isinstance(l, frozenset):
                for x in l: go(x, lossy)
            return
        if isinstance(l[0], str) and l[0].startswith("$"):
            if not exact or (not lossy and all(x in BENIGN_SUFFIX for x in l[1:])):
                out.add(l[0])
            return
        w = lossy or (isinstance(l[0], str) and l[0].startswith("@") and l[0] not in ("@index", "@fn", "@view"))
        for x in l:
            go(x, w)
    for l in labels:
        go(l, False)
    return out


def inst_labels(I, st, v, depth=0):
    out = set(all_labels(I, st, v)) | set(I.deps(st, v))
    for o in v.r:
        ob = st.heap.get(o)
        if ob is not None and ob.kind == "inst" and depth < 2:
            for x in ob.attrs.values():
                out |= inst_labels(I, st, x, depth + 1)
    return out


def lossy_tag(I, st, key, depth=0):
    for o in key.r:
        ob = st.heap.get(o)
        if ob is None:
            continue
        if "sorted" in ob.tags:
            return "sorted"
        if ob.kind == "set" or "fromset" in ob.tags:
            return "set"
        if depth < 3:
            for x in list(ob.items or ()) + [e[1] for e in ob.ents.values()]:
                t = lossy_tag(I, st, x, depth + 1)
                if t:
                    return t
    return None


def commuting_value(prog, I, st, v):
    """the value is a compound monomial: its factors commute"""
    for o in v.r:
        ob = st.heap.get(o)
        if ob is not None and ob.cls is not None and any(k.name == "CompoundMoment" for k in prog.mro(ob.cls)):
            return True
    return False


def analyse(rep, prog, cls, f):
    """-> {table: [(kind, need/have, where, lossy)]}"""
    I, st, me = mk(prog, cls, summarise=False, budget=100000)
    args = [I.sym(("$" + a.arg,)) for a in f.node.args.args[1:]]
    acc = {}

    def hook(I, st, ev):
        if ev.kind not in ("item", "look", "mut") or not I.stack or I.stack[-1][0] is not f:
            return
        if ev.kind == "mut" and ev.data.get("how") not in ("setdefault", "update"):
            return
        oid = ev.data["oid"]
        key = ev.data.get("key")
        if not (isinstance(oid, tuple) and oid[0] == "s" and oid[1][0] == "self" and len(oid[1]) == 2) or key is None:
            return
        T = oid[1][1]
        have = roots(all_labels(I, st, key) | set(I.deps(st, key)), True)
        tag = lossy_tag(I, st, key)
        if ev.kind == "look":
            acc.setdefault(T, []).append(("look", have, set(), set(), f"{ev.file}:{ev.line} {ev.fn}", tag, False))
        else:
            v = ev.data.get("val")
            labels = inst_labels(I, st, v) if v is not None else set()
            for g in ev.pc:
                if g[0][:2] != ("atom", "member") and not (g[0][0] == "not" and g[0][1][:2] == ("atom", "member")):
                    labels |= glabels(g)
            acc.setdefault(T, []).append(("store", have, roots(labels), attrs_in(labels) - {T}, f"{ev.file}:{ev.line} {ev.fn}", tag,
                                          v is not None and commuting_value(prog, I, st, v)))
    hook.looks = True
    I.hooks.append(hook)
    try:
        I.run(st, f, [me] + args)
    except Budget:
        rep.count("too_large_for_a_memo_function")
        return {}
    rep.seen(I)
    # a memo table is one that is looked up and stored to with keys that speak about the parameters
    return {T: a for T, a in acc.items() if {"look", "store"} <= {x[0] for x in a} and any(x[1] or x[2] for x in a)}


def lru_analyse(rep, prog, cls, f):
    I, st, me = mk(prog, cls, summarise=True)
    args = [] if f.kind == "static" else [me]
    for a in f.node.args.args[len(args):]:
        args.append(I.sym(("$" + a.arg,)))
    v = I.run(st, f, args)
    rep.seen(I)
    return attrs_in(inst_labels(I, st, v)) if v is not None else set()


def settings(rep, prog, cls, op):
    """attributes a public operation stores, in order, with the tables it replaces afterwards"""
    I, st, me = mk(prog, cls)
    seq = []

    def hook(I, st, ev):
        if ev.kind in ("attr", "delattr") and ev.data["oid"] == SELF:
            seq.append((ev.data["name"], f"{ev.file}:{ev.line} {ev.fn}"))
        elif ev.kind == "mut" and ev.data.get("how") == "clear":
            o = ev.data["oid"]
            if isinstance(o, tuple) and o[1][0] == "self" and len(o[1]) == 2:
                seq.append((o[1][1], ""))
    I.hooks.append(hook)
    apply(I, st, me, op)
    rep.seen(I)
    return seq


def check(prog, rep, tier):
    rep.rule("memo-key", "for every function that memoises in an attribute table: each parameter that the stored value or the path to the store depends on "
                         "(dataflow labels) is contained, without loss, in the key of every store and of every lookup of that table in the function")
    rep.rule("memo-lossy-key", "the key is not a set, a sorted copy or an aggregate of a parameter whose order or content the value depends on "
                               "(sorted keys are accepted for compound monomials: their factors commute)")
    rep.rule("memo-setting", "a public operation that stores a setting the memoised value depends on also empties the table")
    cand = []
    prog_classes = set(CLASSES)
    for cn, f in candidates(prog):
        c = cn
        for sub in CLASSES:
            if any(k.name == cn for k in prog.mro(prog.cls(sub))):
                c = sub
        cand.append((c, f))
    res = rep.jobs(("memo-key", f.qual, lambda r, c, f: analyse(r, prog, c, f), (c, f)) for c, f in cand)
    ops = [(cls, op) for cls in CLASSES for op in mutators(prog, cls)]
    ops.sort(key=lambda x: "generate" not in x[1][0])
    seqs = rep.jobs(("memo-setting", f"{c}.{op[0]}", lambda r, c, op: settings(r, prog, c, op), (c, op)) for c, op in ops)
    for (cls, f), tables in zip(cand, res):
        for T, acc in sorted((tables or {}).items()):
            rep.count("memo_tables")
            need, sett, commuting = set(), set(), False
            for kind, have, nd, se, w, tag, comm in acc:
                need |= nd; sett |= se; commuting = commuting or comm
            for i, (kind, have, nd, se, w, tag, comm) in enumerate(acc):
                con = f"{f.qual} / {T} / {kind}"
                miss = need - have
                if miss:
                    rep.violation("memo-key", con, f"the memoised value depends on {', '.join(sorted(x[1:] for x in miss))}, which the key does not contain", w)
                elif tag and not commuting:
                    rep.violation("memo-lossy-key", con, f"the key is a {tag} copy of what the value depends on", w)
                else:
                    rep.held("memo-key", con, f"{w}: key covers {', '.join(sorted(x[1:] for x in need)) or 'everything used'}")
            for (c, op), seq in zip(ops, seqs):
                if c != cls or not seq:
                    continue
                for j, (a, w) in enumerate(seq):
                    if a in sett and a not in tables and not any(t == T for t, _ in seq[j + 1:]):
                        if any(t == T for t, _ in seq[:j]) and a not in SPEC:
                            continue
                        rep.violation("memo-setting", f"{c}.{op[0]} / {T}", f"{a} is changed but the values memoised in {T} by {f.name}, which depend on it, are kept", w)
            rep.held("memo-setting", f"{f.qual} / {T}", f"depends on attributes {', '.join(sorted(sett))[:200]}")
    # memoised methods: the key is the argument list, so nothing of the program that can change may flow into the value
    for cls in CLASSES:
        props, lru = cached_members(prog, cls)
        changing = {}
        for (c, op), seq in zip(ops, seqs):
            if c == cls:
                for a, w in seq or ():
                    changing.setdefault(a, op[0])
        for n, f in lru.items():
            src = rep.guard("memo-key", f"{cls}.{n}", lru_analyse, rep, prog, cls, f) or set()
            bad = src & set(changing)
            if bad:
                rep.violation("memo-key", f"{cls}.{n}", f"memoised by its arguments although the value depends on {', '.join(sorted(bad))}, changed by {changing[min(bad)]}", f.qual)
            else:
                rep.held("memo-key", f"{cls}.{n}", "memoised method")
