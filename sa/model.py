"""Program model: every module of /repo/inflation parsed, names resolved.

Nothing of the analysed program is imported or executed; only `ast` is used.
"""
import ast, os

ROOT = os.environ.get("SA_REPO", "/repo")
PKG = "inflation"


class AnchorMissing(Exception):
    """A public entry point that a rule needs is not in the source."""


class Func:
    __slots__ = ("node", "mod", "cls", "name", "qual", "kind")

    def __init__(self, node, mod, cls=None, kind="function"):
        self.node, self.mod, self.cls, self.kind = node, mod, cls, kind
        self.name = node.name
        self.qual = f"{mod.name}:{cls.name + '.' if cls else ''}{node.name}"

    def __repr__(self):
        return f"<{self.qual}>"

    @property
    def public(self):
        return not self.name.startswith("_")


class Cls:
    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name
        self.bases = []          # expressions, resolved lazily
        self.methods = {}        # name -> Func (kind: method/property/cached/static/classmethod)
        self.attrs = {}          # class-level assigned expressions
        self.setters = {}
        self.slots = None

    def __repr__(self):
        return f"<class {self.name}>"


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.funcs, self.classes, self.imports, self.consts = {}, {}, {}, {}
        self.rel = os.path.relpath(path, ROOT)


def deco_names(node):
    out = []
    for d in node.decorator_list:
        if isinstance(d, ast.Call):
            d = d.func
        if isinstance(d, ast.Attribute):
            out.append(d.attr)
        elif isinstance(d, ast.Name):
            out.append(d.id)
    return out


CACHED_DECOS = {"cached_property", "lru_cache", "cache"}


class Program:
    def __init__(self, root=None):
        root = root or ROOT
        self.root = root
        self.modules = {}
        base = os.path.join(root, PKG)
        for d, _, files in sorted(os.walk(base)):
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
                pkgmod = rel.endswith(".__init__")
                name = rel[:-9] if pkgmod else rel
                src = open(path, encoding="utf-8").read()
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as e:
                    raise AnchorMissing(f"{path} does not parse: {e}")
                m = Module(name, path, tree, src)
                m.is_pkg = pkgmod
                self.modules[name] = m
        for m in self.modules.values():
            self._collect(m, m.tree.body)
        self.classes = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.classes.setdefault(c.name, c)
        self._resolve_bases()
        self.cha = {}
        for c in self.classes.values():
            for n, f in c.methods.items():
                self.cha.setdefault(n, []).append(f)
        self.aliases = {}
        for c in self.classes.values():
            self._ctor_aliases(c)

    # -- collection ------------------------------------------------------
    def _collect(self, m, body, alt=False):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if not (alt and n.name in m.funcs):
                    m.funcs[n.name] = Func(n, m)
            elif isinstance(n, ast.ClassDef):
                m.classes[n.name] = self._class(n, m)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    m.imports[a.asname or a.name.split(".")[0]] = (a.name if a.asname else a.name.split(".")[0], None)
            elif isinstance(n, ast.ImportFrom):
                mod = n.module or ""
                if n.level:
                    parts = m.name.split(".")
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (n.level - 1)]
                    mod = ".".join(parts + ([mod] if mod else []))
                for a in n.names:
                    m.imports[a.asname or a.name] = (mod, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.consts.setdefault(t.id, n.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                m.consts.setdefault(e.id, None)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                m.consts.setdefault(n.target.id, n.value)
            elif isinstance(n, ast.Try):
                self._collect(m, n.body)
                for h in n.handlers:
                    self._collect(m, h.body, alt=True)
                self._collect(m, n.orelse)
                self._collect(m, n.finalbody)
            elif isinstance(n, ast.If):
                self._collect(m, n.body)
                self._collect(m, n.orelse, alt=True)

    def _class(self, node, m):
        c = Cls(node, m)
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                d = deco_names(n)
                if "setter" in d or "deleter" in d:
                    c.setters[n.name] = Func(n, m, c, "setter")
                    continue
                kind = ("cached" if "cached_property" in d else "property" if "property" in d
                        else "static" if "staticmethod" in d else "classmethod" if "classmethod" in d else "method")
                c.methods[n.name] = Func(n, m, c, kind)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                c.attrs[n.target.id] = n.value
        # name = cached_property(func) / property(func)
        for a, v in list(c.attrs.items()):
            if isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)):
                fname = v.func.id if isinstance(v.func, ast.Name) else v.func.attr
                if fname in ("property", "cached_property") and v.args and isinstance(v.args[0], ast.Name) \
                        and v.args[0].id in c.methods:
                    f = c.methods[v.args[0].id]
                    c.methods[a] = Func(f.node, m, c, "cached" if fname == "cached_property" else "property")
        return c

    def _resolve_bases(self):
        for c in self.classes.values():
            for b in c.node.bases:
                if isinstance(b, ast.Name):
                    r = self.resolve(c.mod, b.id)
                    if r and r[0] == "cls" and r[1] is not c:
                        c.bases.append(r[1])

    def mro(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x not in out:
                out.append(x)
                todo.extend(x.bases)
        return out

    def name_known(self, name):
        """some class of the package defines or stores an attribute of this name (or a string constant spells it)"""
        r = getattr(self, "_names", None)
        if r is None:
            r = set()
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute):
                        r.add(n.attr)
                    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        r.add(n.name)
                    elif isinstance(n, ast.Name):
                        r.add(n.id)
                    elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                        r.add(n.value)
            self._names = r
        return name in r

    def array_attrs(self):
        """attribute names that every plain store in the package makes an array (numpy constructor or array annotation)"""
        r = getattr(self, "_array_attrs", None)
        if r is None:
            yes, no = set(), set()
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Assign):
                        pairs = [(t, n.value) for t in n.targets]
                    elif isinstance(n, ast.AnnAssign) and n.value is not None:
                        pairs = [(n.target, n.value)]
                    else:
                        continue
                    for t, v in pairs:
                        if isinstance(t, ast.Attribute):
                            (yes if self._is_np(v) else no).add(t.attr)
            # attributes that copy such an attribute
            r = self._array_attrs = frozenset(yes - no)
        return r

    def _is_np(self, e):
        if isinstance(e, ast.Call):
            f = ast.unparse(e.func)
            if f.startswith(("np.", "numpy.")):
                return f.split(".")[-1] in ("array", "asarray", "zeros", "ones", "empty", "full", "arange", "vstack", "hstack", "concatenate",
                                            "logical_not", "logical_and", "logical_or", "unique", "ones_like", "zeros_like", "full_like", "fromiter", "pad")
            if isinstance(e.func, ast.Attribute) and e.func.attr == "astype":
                return True
        return False

    def lookup(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def class_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
        return None

    # -- names -----------------------------------------------------------
    def resolve(self, m, name, depth=0):
        """-> ('fn', Func) | ('cls', Cls) | ('mod', Module) | ('ext', dotted) | ('const', Module, name) | None"""
        if depth > 8:
            return None
        if name in m.classes:
            return ("cls", m.classes[name])
        if name in m.funcs:
            return ("fn", m.funcs[name])
        if name in m.imports:
            mod, attr = m.imports[name]
            return self.resolve_import(mod, attr, depth)
        if name in m.consts:
            return ("const", m, name)
        return None

    def resolve_import(self, mod, attr, depth=0):
        if attr is None:
            if mod in self.modules:
                return ("mod", self.modules[mod])
            return ("ext", mod)
        if mod in self.modules:
            r = self.resolve(self.modules[mod], attr, depth + 1)
            if r:
                return r
            sub = mod + "." + attr
            if sub in self.modules:
                return ("mod", self.modules[sub])
            return ("ext", mod + "." + attr)
        if mod + "." + attr in self.modules:
            return ("mod", self.modules[mod + "." + attr])
        return ("ext", mod + "." + attr)

    # -- constructor aliases: self.A = param.B with B a method of the param's class
    def _ctor_aliases(self, c):
        init = c.methods.get("__init__")
        if not init:
            return
        ptypes = self.param_types(init)
        for n in ast.walk(init.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) \
                    and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == "self" \
                    and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) \
                    and n.value.value.id in ptypes:
                k = ptypes[n.value.value.id]
                f = self.lookup(k, n.value.attr)
                if f is not None and f.kind == "method":
                    self.aliases[(c.name, n.targets[0].attr)] = f

    def param_types(self, func):
        out = {}
        for a in func.node.args.posonlyargs + func.node.args.args + func.node.args.kwonlyargs:
            ann = a.annotation
            if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
                try:
                    ann = ast.parse(ann.value, mode="eval").body
                except SyntaxError:
                    ann = None
            if isinstance(ann, ast.Name):
                r = self.resolve(func.mod, ann.id)
                if r and r[0] == "cls":
                    out[a.arg] = r[1]
        return out

    # -- anchors ---------------------------------------------------------
    def cls(self, name):
        if name not in self.classes:
            raise AnchorMissing(f"class {name} not found in {PKG}")
        return self.classes[name]

    def method(self, cname, name):
        f = self.lookup(self.cls(cname), name)
        if f is None:
            raise AnchorMissing(f"{cname}.{name} not found")
        return f

    def func(self, name, modname=None):
        for m in self.modules.values():
            if (modname is None or m.name.endswith(modname)) and name in m.funcs:
                return m.funcs[name]
        raise AnchorMissing(f"function {name} not found in {modname or PKG}")

    def find_func(self, name, modname=None):
        try:
            return self.func(name, modname)
        except AnchorMissing:
            return None
