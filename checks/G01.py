"""With and without the optional compiler every name is bound and the kernels are the same."""
import ast, builtins
from sa.model import AnchorMissing

OPT = "numba"
DEF, MAYBE = "def", "maybe"
KIND = {"bool": ("b", 8), "bool_": ("b", 8), "boolean": ("b", 8), "int": ("i", 64), "int_": ("i", 64), "intp": ("i", 64), "intc": ("i", 32), "int8": ("i", 8),
        "int16": ("i", 16), "int32": ("i", 32), "int64": ("i", 64), "uint8": ("u", 8), "uint16": ("u", 16), "uint32": ("u", 32), "uint64": ("u", 64),
        "uint": ("u", 64), "uintp": ("u", 64), "float64": ("f", 64), "float32": ("f", 32), "float": ("f", 64), "double": ("f", 64),
        "uintc": ("u", 32), "longlong": ("i", 64), "int_64": ("i", 64)}


class Stop(Exception):
    pass


class ImportMissing(Exception):
    pass


class Mod:
    """module-level execution under one configuration: which names are certainly / possibly bound, and to what"""

    def __init__(self, mod, present, others):
        self.mod, self.present, self.others = mod, present, others
        self.env, self.missing, self.uses = {}, [], []
        self.unsure = False
        try:
            self.block(mod.tree.body)
        except Stop:
            self.unsure = True
        except ImportMissing as e:
            self.missing.append((str(e), mod.tree.body[0]))

    def bind(self, name, v, sure=True):
        self.env[name] = (v, DEF if sure and not self.cond else MAYBE if name not in self.env or self.env[name][1] == MAYBE else DEF)
        if self.cond and self.env[name][1] == DEF:
            self.env[name] = (None, DEF)

    cond = 0

    def value(self, e):
        """('const', x) / ('opt', dotted) / ('type', name) / ('def', node) / None unknown"""
        if isinstance(e, ast.Constant):
            return ("const", e.value)
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id][0]
            if e.id in KIND and hasattr(builtins, e.id):
                return ("type", e.id)
            return ("builtin", e.id) if hasattr(builtins, e.id) else None
        if isinstance(e, ast.Attribute):
            b = self.value(e.value)
            if b and b[0] == "opt":
                return ("opt", b[1] + "." + e.attr)
            if b and b[0] == "mod" and b[1] in ("numpy",) and e.attr in KIND:
                return ("type", e.attr)
            return None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.truth(e.operand)
            return None if t is None else ("const", not t)
        if isinstance(e, (ast.Compare, ast.BoolOp)):
            t = self.truth(e)
            return None if t is None else ("const", t)
        if isinstance(e, ast.IfExp):
            t = self.truth(e.test)
            return None if t is None else self.value(e.body if t else e.orelse)
        if isinstance(e, ast.Lambda):
            return ("def", e)
        return None

    def truth(self, e):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.truth(e.operand)
            return None if t is None else not t
        if isinstance(e, ast.BoolOp):
            ts = [self.truth(x) for x in e.values]
            if isinstance(e.op, ast.And):
                return False if False in ts else (True if all(ts) else None)
            return True if True in ts else (False if all(t is False for t in ts) else None)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            a, b = self.value(e.left), self.value(e.comparators[0])
            if a and b:
                if a[0] == b[0] == "const":
                    eq = a[1] == b[1]
                elif "const" in (a[0], b[0]):
                    eq = False
                else:
                    return None
                return eq if isinstance(e.ops[0], (ast.Is, ast.Eq)) else not eq
            return None
        v = self.value(e)
        if v is None:
            return None
        return bool(v[1]) if v[0] == "const" else True

    def names(self, e, at):
        """names read while the statement is executed"""
        for n in shallow(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if n.id not in self.env and not hasattr(builtins, n.id) and n.id not in ("__file__", "__name__", "__path__", "__doc__"):
                    self.missing.append((n.id, n))

    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        if isinstance(s, ast.Import):
            for a in s.names:
                top = a.name.split(".")[0]
                if top == OPT and not self.present:
                    raise ImportMissing(a.name)
                self.bind(a.asname or top, ("opt", a.name if a.asname else top) if top == OPT else ("mod", a.name if a.asname else top))
        elif isinstance(s, ast.ImportFrom):
            top = (s.module or "").split(".")[0] if not s.level else ""
            if top == OPT and not self.present:
                raise ImportMissing(s.module)
            for a in s.names:
                if a.name == "*":
                    raise Stop()
                v = ("opt", s.module + "." + a.name) if top == OPT else None
                if s.level:
                    v = ("from", s.level, s.module, a.name)
                    o = self.others(self.mod, s.level, s.module)
                    if o is not None and o is not self:
                        self.uses.append((o, a.name, s))
                        if a.name in o.env:
                            v = o.env[a.name][0]
                elif top == "numpy" and a.name in KIND:
                    v = ("type", a.name)
                self.bind(a.asname or a.name, v)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list:
                self.names(d, s)
            for d in s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
                self.names(d, s)
            self.bind(s.name, ("def", s))
        elif isinstance(s, ast.ClassDef):
            self.bind(s.name, ("def", s))
        elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if s.value is not None:
                self.names(s.value, s)
                v = self.value(s.value) if not isinstance(s, ast.AugAssign) else None
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    if isinstance(t, ast.Name):
                        self.bind(t.id, v)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        vs = s.value.elts if isinstance(s.value, (ast.Tuple, ast.List)) and len(s.value.elts) == len(t.elts) else [None] * len(t.elts)
                        for x, y in zip(t.elts, vs):
                            if isinstance(x, ast.Name):
                                self.bind(x.id, self.value(y) if y is not None else None)
        elif isinstance(s, ast.If):
            self.names(s.test, s)
            t = self.truth(s.test)
            if t is not None:
                self.block(s.body if t else s.orelse)
            else:
                self.either([s.body, s.orelse])
        elif isinstance(s, ast.Try):
            try:
                self.block(s.body)
                self.block(s.orelse)
            except ImportMissing:
                for h in s.handlers:
                    t = ast.unparse(h.type) if h.type is not None else "Exception"
                    if any(k in t for k in ("ImportError", "ModuleNotFoundError", "Exception")):
                        if h.name:
                            self.bind(h.name, None)
                        self.block(h.body)
                        break
                else:
                    raise
            finally:
                self.block(s.finalbody)
        elif isinstance(s, (ast.For, ast.While, ast.With)):
            if isinstance(s, ast.With):
                self.block(s.body)
            else:
                self.either([s.body, []])
        elif isinstance(s, ast.Expr):
            self.names(s.value, s)
        elif isinstance(s, ast.Raise):
            raise Stop()

    def either(self, blocks):
        e0 = dict(self.env)
        envs = []
        for b in blocks:
            self.env = dict(e0)
            try:
                self.block(b)
                envs.append(self.env)
            except ImportMissing:
                pass
        self.env = {}
        for e in envs:
            for k, v in e.items():
                if all(k in x for x in envs):
                    self.env[k] = (v[0] if all(x[k] == v for x in envs) else None, DEF if all(x[k][1] == DEF for x in envs) else MAYBE)
                else:
                    self.env[k] = (None, MAYBE)


def shallow(e):
    """nodes evaluated now (not inside lambdas / comprehensions' own variables)"""
    bound = set()
    for n in ast.walk(e):
        if isinstance(n, ast.comprehension):
            bound |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        if isinstance(n, ast.Lambda):
            bound |= {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [y for y in (n.args.vararg, n.args.kwarg) if y]}
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and n.id not in bound:
            yield n


def prune(m, body):
    """statements of a function that can run in this configuration"""
    out = []
    for s in body:
        if isinstance(s, ast.If):
            t = m.truth(s.test) if config_test(m, s.test) else None
            if t is not None:
                b = prune(m, s.body if t else s.orelse)
                out += b
                if b and isinstance(b[-1], (ast.Return, ast.Raise)):
                    return out
                continue
        if hasattr(s, "body") and isinstance(getattr(s, "body"), list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            c = copy(s)
            for f in ("body", "orelse", "finalbody"):
                if isinstance(getattr(s, f, None), list):
                    setattr(c, f, prune(m, getattr(s, f)))
            s = c
        out.append(s)
        if isinstance(s, (ast.Return, ast.Raise)):
            return out
    return out


def copy(n):
    c = type(n)(**{f: getattr(n, f) for f in n._fields if hasattr(n, f)})
    return ast.copy_location(c, n)


def config_test(m, e):
    """the test reads only module constants"""
    ns = [n for n in ast.walk(e) if isinstance(n, ast.Name)]
    return bool(ns) and all(n.id in m.env and n.id not in m.locals for n in ns)


def local_names(f):
    out = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs + [x for x in (f.args.vararg, f.args.kwarg) if x]}
    glob = set()
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f:
            out.add(n.name)
        elif isinstance(n, ast.FunctionDef):
            pass
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Global):
            glob |= set(n.names)
    return out - glob


def loads(body):
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                yield n


def strip_doc(body):
    return body[1:] if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) else body


def identity(f, depth=0):
    """does calling this function yield (a decorator yielding) the decorated function itself? True / False / None"""
    if depth > 3:
        return None
    if isinstance(f, ast.Lambda):
        return is_first(f, f.body, depth)
    if not isinstance(f, ast.FunctionDef):
        return None
    rets = [n for n in own_nodes(f) if isinstance(n, ast.Return)]
    if not rets:
        return False
    res = [is_first(f, r.value, depth) for r in rets]
    return None if None in res else all(res)


def own_nodes(f):
    stack = list(f.body)
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            stack += list(ast.iter_child_nodes(n))


def is_first(f, e, depth):
    if e is None or isinstance(e, ast.Constant):
        return False
    first = [a.arg for a in f.args.posonlyargs + f.args.args][:1]
    if isinstance(e, ast.Name):
        if e.id in first:
            return True
        inner = next((n for n in ast.walk(f) if isinstance(n, ast.FunctionDef) and n.name == e.id and n is not f), None)
        if inner is not None:
            return identity(inner, depth + 1)
        for n in ast.walk(f):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                return is_first(f, n.value, depth + 1) if depth < 4 else None
        return None
    if isinstance(e, ast.Lambda):
        return identity(e, depth + 1)
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and f.args.vararg and e.value.id == f.args.vararg.arg:
        return True
    if isinstance(e, ast.IfExp):
        a, b = is_first(f, e.body, depth), is_first(f, e.orelse, depth)
        return None if None in (a, b) else a and b
    return None


def norm(body):
    return [ast.dump(s) for s in strip_doc(body)]


def opt_names(m):
    """names of the module that come from the optional package when it is there"""
    return {k: v[0][1] for k, v in m.env.items() if v[0] and v[0][0] == "opt"}


def check(prog, rep, tier):
    rep.rule("unbound-name", "module-level execution of every module with and without the optional compiler (failed import continues in the handler): every global name read by a statement or "
                             "function that runs in a configuration, and every name imported from the module, is bound in that configuration")
    rep.rule("fallback-meaning", "what stands in for an object of the compiler means the same: decorators return the decorated function, types have the same kind and are not narrower")
    rep.rule("same-kernel", "after folding the configuration flag, each function has the same definition and body in both configurations")
    cache = {}

    def load(mod, present):
        k = (mod.name, present)
        if k not in cache:
            cache[k] = None
            m = Mod(mod, present, lambda a, lv, nm: resolve(a, lv, nm, present))
            m.locals = set()
            cache[k] = m
        return cache[k]

    def resolve(a, level, name, present):
        parts = a.name.split(".")
        base = parts if a.rel.endswith("__init__.py") else parts[:-1]
        base = base[:len(base) - (level - 1)]
        t = ".".join(base + (name.split(".") if name else []))
        mod = prog.modules.get(t)
        return load(mod, present) if mod is not None else None

    touched = 0
    for mod in prog.modules.values():
        A, B = load(mod, True), load(mod, False)
        names = {True: "with the compiler", False: "without the compiler"}
        uses_opt = any(isinstance(n, (ast.Import, ast.ImportFrom)) and OPT in (getattr(n, "module", None) or " ".join(a.name for a in n.names)).split(".")[0] for n in mod.tree.body for n in ast.walk(n))
        touched += uses_opt
        for m in (A, B):
            if m.unsure:
                rep.undecided("unbound-name", mod.rel, "module level not understood")
                continue
            bad = set()
            for nm, node in m.missing:
                bad.add(nm)
                rep.violation("unbound-name", f"{mod.rel} / {nm} ({names[m.present]})", f"{nm} is read at module level but not bound in this configuration", f"{mod.rel}:{getattr(node, 'lineno', 0)}")
            for o, nm, node in m.uses:
                if not o.unsure and nm not in o.env and not any(x.name.endswith("." + nm) or x.name == nm for x in prog.modules.values()):
                    rep.violation("unbound-name", f"{mod.rel} / {nm} ({names[m.present]})", f"imports {nm}, which {o.mod.rel} does not define in this configuration", f"{mod.rel}:{node.lineno}")
            for f, scope in functions(mod.tree):
                m.locals = scope
                if in_dead(m, mod.tree, f):
                    continue
                body = prune(m, f.body)
                con = f"{mod.rel}:{f.name} ({names[m.present]})"
                miss = {}
                for n in loads(body):
                    if n.id not in scope and n.id not in m.env and not hasattr(builtins, n.id) and n.id not in ("__file__", "__name__", "__class__"):
                        miss.setdefault(n.id, n)
                for k, n in miss.items():
                    rep.violation("unbound-name", con + " / " + k, f"{k} is not bound in this configuration", f"{mod.rel}:{n.lineno}")
                if not miss:
                    rep.held("unbound-name", con)
        if not uses_opt and not opt_names(A):
            continue
        # what stands in for the compiler's objects
        for k, path in sorted(opt_names(A).items()):
            con = f"{mod.rel} / {k} = {path}"
            b = B.env.get(k)
            if b is None or b[1] != DEF or A.env[k][1] != DEF:
                rep.held("fallback-meaning", con, "not available in both configurations; uses are checked by unbound-name") if b is None else rep.undecided("fallback-meaning", con, "conditionally bound")
                continue
            v = b[0]
            last = path.split(".")[-1]
            ka = KIND.get(last)
            if v is None:
                rep.undecided("fallback-meaning", con, "stand-in not understood")
            elif v[0] == "opt":
                rep.undecided("fallback-meaning", con, "stand-in comes from the compiler itself")
            elif ka:
                kb = KIND.get(v[1]) if v[0] in ("type", "builtin") else None
                used = [f.name for f, sc in functions(mod.tree) if any(n.id == k for n in loads(f.body))]
                if v[0] == "const" or kb is None:
                    if used:
                        rep.violation("fallback-meaning", con, f"used as a type in {used[0]} but its stand-in is {v[1]!r}", mod.rel)
                    else:
                        rep.held("fallback-meaning", con, "only in annotations")
                elif kb[0] != ka[0] or kb[1] < min(ka[1], 32 if ka[0] == "i" else ka[1]):
                    rep.violation("fallback-meaning", con, f"the stand-in {v[1]} is a different or narrower type", mod.rel)
                else:
                    rep.held("fallback-meaning", con, f"stand-in {v[1]}")
            elif last in ("jit", "njit", "vectorize", "guvectorize", "stencil"):
                if v[0] != "def":
                    rep.undecided("fallback-meaning", con, "stand-in decorator not understood")
                    continue
                r = identity(v[1])
                if r is True:
                    rep.held("fallback-meaning", con, "returns the decorated function itself")
                elif r is False:
                    rep.violation("fallback-meaning", con, "the stand-in decorator does not return the decorated function", f"{mod.rel}:{v[1].lineno}")
                else:
                    rep.undecided("fallback-meaning", con, "stand-in decorator not understood")
            elif last == "prange":
                if v == ("builtin", "range"):
                    rep.held("fallback-meaning", con)
                elif v[0] == "builtin":
                    rep.violation("fallback-meaning", con, f"the stand-in is {v[1]}", mod.rel)
                else:
                    rep.undecided("fallback-meaning", con, "stand-in not understood")
            else:
                rep.held("fallback-meaning", con, "not interpreted")
        # same definitions
        oa = set(opt_names(A))
        for k in sorted(set(A.env) | set(B.env)):
            if k in oa:
                continue
            a, b = A.env.get(k), B.env.get(k)
            fa = a and a[0] and a[0][0] == "def" and isinstance(a[0][1], ast.FunctionDef)
            fb = b and b[0] and b[0][0] == "def" and isinstance(b[0][1], ast.FunctionDef)
            if not (fa or fb):
                continue
            con = f"{mod.rel}:{k}"
            if not (fa and fb):
                (rep.held if a is None or b is None else rep.undecided)("same-kernel", con, "helper of one configuration" if a is None or b is None else "one definition is not a plain function")
                continue
            na, nb = a[0][1], b[0][1]
            A.locals, B.locals = local_names(na), local_names(nb)
            ba, bb = prune(A, na.body), prune(B, nb.body)
            if norm(ba) == norm(bb) and ast.dump(na.args) == ast.dump(nb.args):
                rep.held("same-kernel", con)
                # values of configuration-dependent module constants
                for n in loads(ba):
                    va, vb = A.env.get(n.id), B.env.get(n.id)
                    if va and vb and n.id not in A.locals and va[0] and vb[0] and va[0][0] == vb[0][0] == "const" and va[0][1] != vb[0][1]:
                        rep.violation("same-kernel", con + " / " + n.id, f"uses {n.id}, which is {va[0][1]!r} with and {vb[0][1]!r} without the compiler", f"{mod.rel}:{n.lineno}")
            elif any(isinstance(n, ast.Call) and ast.unparse(n.func).endswith("connected_components") for s in bb for n in ast.walk(s)):
                components(rep, con, mod, nb, bb)
            else:
                rep.violation("same-kernel", con, "the function is defined differently in the two configurations", f"{mod.rel}:{nb.lineno}")
    if not touched:
        rep.held("same-kernel", "the optional compiler is not used any more")


def components(rep, con, mod, f, body):
    """the library's connected components of the (undirected) matrix passed in"""
    calls = [n for s in body for n in ast.walk(s) if isinstance(n, ast.Call) and ast.unparse(n.func).endswith("connected_components")]
    c = calls[0]
    kw = {k.arg: k.value for k in c.keywords}
    p = f.args.args[0].arg if f.args.args else None
    arg = c.args[0] if c.args else kw.get("csgraph")
    if isinstance(arg, ast.Constant) or arg is None or not any(isinstance(n, ast.Name) and n.id == p for n in ast.walk(arg)) and len(body) == 1:
        rep.violation("same-kernel", con, "the library routine is not applied to the matrix passed in", f"{mod.rel}:{c.lineno}")
        return
    rl = kw.get("return_labels")
    if isinstance(rl, ast.Constant) and rl.value is False:
        rep.violation("same-kernel", con, "the fallback returns the number of components, not their labels", f"{mod.rel}:{c.lineno}")
        return
    rets = [n for s in body for n in ast.walk(s) if isinstance(n, ast.Return)]
    for r in rets:
        if isinstance(r.value, ast.Subscript) and r.value.value is c:
            i = ast.unparse(r.value.slice)
            if i not in ("-1", "1"):
                rep.violation("same-kernel", con, "the fallback returns the number of components, not their labels", f"{mod.rel}:{c.lineno}")
                return
    rep.held("same-kernel", con, "fallback: library routine for connected components of the same matrix")


def functions(tree):
    """module-level functions and methods with the names local to them (own and enclosing)"""
    def go(body, scope):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield s, scope | local_names(s)
            elif isinstance(s, ast.ClassDef):
                yield from go(s.body, scope)
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ("body", "orelse", "finalbody"):
                    yield from go(getattr(s, f, []), scope)
                for h in getattr(s, "handlers", []):
                    yield from go(h.body, scope)
    yield from go(tree.body, frozenset())


def in_dead(m, tree, f):
    """defined at module level, but not in this configuration"""
    if f in tree.body:
        return False
    v = m.env.get(f.name)
    if any(f in c.body for c in ast.walk(tree) if isinstance(c, ast.ClassDef)):
        return False
    return v is None or v[0] is None or v[0][0] != "def" or v[0][1] is not f
