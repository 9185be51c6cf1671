"""Real coefficients and text for the finite-path interpreter: polynomials whose zero/sign pattern is chosen, strings with numbers in them."""
from fractions import Fraction
from sa.finite import Native, Hook, Und, Raised, Arr, FSet, Host, num, DDict

TINY = 1e-4


class Real(Native):
    """polynomial with rational coefficients over named real symbols; a symbol ending in '!' is not zero"""
    def __init__(self, terms):
        self.terms = {m: c for m, c in terms.items() if c}

    @staticmethod
    def of(x):
        if isinstance(x, Real):
            return x
        if num(x):
            return Real({(): Fraction(x)})
        return None

    def __repr__(self):
        return " + ".join("*".join(([str(c)] if c != 1 or not m else []) + list(m)) for m, c in sorted(self.terms.items())) or "0"

    def __add__(self, o):
        t = dict(self.terms)
        for m, c in o.terms.items():
            t[m] = t.get(m, 0) + c
        return Real(t)

    def __neg__(self):
        return Real({m: -c for m, c in self.terms.items()})

    def __mul__(self, o):
        t = {}
        for m, c in self.terms.items():
            for n, d in o.terms.items():
                k = tuple(sorted(m + n))
                for x in [x for x in k if x.startswith("1/")]:
                    if x[2:] in k:
                        k = list(k)
                        k.remove(x)
                        k.remove(x[2:])
                        k = tuple(k)
                t[k] = t.get(k, 0) + c * d
        return Real(t)

    def inverse(self, R):
        """of a single term whose symbols are not zero"""
        p = self.known(R)
        if len(p.terms) != 1 or p.zero(R):
            raise Und("division by a sum or by zero")
        (m, c), = p.terms.items()
        return Real({tuple(sorted(s[2:] if s.startswith("1/") else "1/" + s for s in m)): 1 / c})

    def const(self):
        if not self.terms:
            return Fraction(0)
        return self.terms[()] if set(self.terms) == {()} else None

    # -- sign pattern ---------------------------------------------------------
    def known(self, R):
        """without the terms in which a symbol is already taken to be zero"""
        return Real({m: c for m, c in self.terms.items() if not any(R.memo.get(("rz", s)) for s in m)})

    def outside(self):
        """linear in one symbol that is between 0 and 1 (its name ends in '~'), with a root that is not"""
        ms = [m for m in self.terms if m]
        if len(ms) != 1 or len(ms[0]) != 1 or not ms[0][0].endswith("~"):
            return False
        return not 0 <= -self.terms.get((), 0) / self.terms[ms[0]] <= 1

    def canon(self):
        k = sorted(self.terms.items())
        c = k[0][1]
        return tuple((m, x / c) for m, x in k), (1 if c > 0 else -1)

    def decided_zero(self, R):
        p = self.known(R)
        return not p.terms or bool(R.memo.get(("pz", p.canon()[0])))

    def zero(self, R):
        if self.const() is not None:
            return self.const() == 0
        for m in sorted(self.terms):
            for s in m:
                if not s.endswith("!") and not s.startswith("1/"):
                    R.choose(("rz", s), (False, True))
        p = self.known(R)
        if not p.terms:
            return True
        if len(p.terms) == 1 or p.outside():
            return False
        return R.choose(("pz", p.canon()[0]), (False, True))

    def sign(self, R):
        if self.zero(R):
            return 0
        p = self.known(R)
        if len(p.terms) == 1:
            (m, c), = p.terms.items()
            r = 1 if c > 0 else -1
            for s in m:
                r *= R.choose(("rs", s[2:] if s.startswith("1/") else s), (1, -1))
            return r
        key, lead = p.canon()
        return lead * R.choose(("ps", key), (1, -1))

    # -- what the interpreter asks ------------------------------------------------
    def arith(self, R, op, o, swapped):
        o = Real.of(o)
        if o is None:
            raise Und("arithmetic of a number with an object")
        a, b = (o, self) if swapped else (self, o)
        if op == "+":
            return tidy(a + b)
        if op == "-":
            return tidy(a + -b)
        if op == "*":
            return tidy(a * b)
        if op == "/" and b.const():
            return tidy(a * Real({(): 1 / b.const()}))
        if op == "/":
            return tidy(a * b.inverse(R))
        if op == "**" and b.const() in (1, 2):
            return tidy(a if b.const() == 1 else a * a)
        raise Und(f"operator {op} on numbers")

    def equals(self, R, o):
        if isinstance(o, (str, tuple, list, dict, type(None))):
            return False
        o = Real.of(o)
        if o is None:
            raise Und("comparison of a number with an object")
        return thin(self + -o).zero(R)

    def less(self, R, o, swapped):
        o = Real.of(o)
        if o is None:
            raise Und("order of a number and an object")
        d = thin(self + -o)
        return (d.sign(R) > 0) if swapped else (d.sign(R) < 0)

    def truth(self, R):
        return not self.zero(R)

    def attr(self, R, name):
        if name in ("item", "astype", "copy", "conjugate"):
            return Hook(lambda R, *a, **k: self)
        if name in ("real", "T"):
            return self
        raise Und(f"attribute {name} of a number")

    def text(self, R):
        return Str.make([Num(self, "")])


def thin(d):
    """tolerances do not matter: a number is zero or not small"""
    if len(d.terms) > 1 and abs(d.terms.get((), 0)) < TINY:
        return Real({m: c for m, c in d.terms.items() if m})
    return d


def tidy(p):
    c = p.const()
    if c is None:
        return p
    return int(c) if c.denominator == 1 else float(c)


def rsym(name, zero=True):
    return Real({(name if zero else name + "!",): Fraction(1)})


def absolute(R, x):
    if isinstance(x, Real):
        return x if x.sign(R) >= 0 else tidy(-x)
    return abs(x)


class Num:
    """a number printed in a text"""
    def __init__(self, value, spec):
        self.value, self.spec = value, spec

    def __repr__(self):
        return f"<{self.value}{':' + self.spec if self.spec else ''}>"


class Str(Native):
    def __init__(self, items):
        self.items = tuple(items)

    @staticmethod
    def make(items):
        items = list(items)
        return "".join(items) if all(isinstance(c, str) for c in items) else Str(items)

    def __repr__(self):
        return "".join(c if isinstance(c, str) else repr(c) for c in self.items)

    def arith(self, R, op, o, swapped):
        if op == "%" and not swapped:
            return percent(R, self, o)
        if op == "*" and isinstance(o, int):
            return Str.make(self.items * o)
        if op != "+" or not isinstance(o, (str, Str)):
            raise Und(f"operator {op} on text")
        return Str.make(chars(o) + list(self.items) if swapped else list(self.items) + chars(o))

    def equals(self, R, o):
        if not isinstance(o, (str, Str)):
            return False
        a, b = list(self.items), chars(o)
        if a == b:
            return True
        if isinstance(o, str):
            if not o:
                return False
            m = min(i for i, c in enumerate(a) if not isinstance(c, str))
            if a[:m] != b[:m]:
                return False
            if m < len(b) and b[m] not in "-0123456789.":
                return False
        raise Und("comparison of text with numbers in it")

    def less(self, R, o, swapped):
        a, b = list(self.items), chars(o)
        for x, y in zip(a, b):
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    return (y < x) if swapped else (x < y)
            elif x is not y:
                raise Und("order of text with numbers in it")
        return len(b) < len(a) if swapped else len(a) < len(b)

    def truth(self, R):
        return True

    def item(self, R, i):
        if isinstance(i, slice):
            r = self.cut(R, i)
            return r
        if not isinstance(i, int):
            raise Und("index of text")
        a = list(self.items)
        if i >= 0 and all(isinstance(c, str) for c in a[:i]) or i < 0 and all(isinstance(c, str) for c in a[len(a) + i + 1:]):
            try:
                return first(R, a, i)
            except IndexError:
                raise Raised("IndexError")
        raise Und("index behind a number in a text")

    def cut(self, R, s):
        a = list(self.items)
        if s.step not in (None, 1):
            raise Und("step in text")
        lo, hi = s.start, s.stop

        def ok(i):
            if i is None:
                return True
            return all(isinstance(c, str) for c in (a[:i] if i >= 0 else a[len(a) + i:]))
        if not (ok(lo) and ok(hi)):
            raise Und("slice inside a number in a text")
        return Str.make(a[lo:hi])

    def contains(self, R, x):
        if isinstance(x, str) and len(x) == 1:
            if x in self.items:
                return True
            if x in "-+.0123456789e":
                raise Und("search for part of a number")
            return False
        raise Und("search in text")

    def elements(self, R):
        raise Und("iteration over text with numbers")

    def attr(self, R, name):
        return Hook(lambda R, *a, **k: method(R, self, name, list(a), k))

    def text(self, R):
        return self


def first(R, a, i):
    c = a[i]
    if isinstance(c, str):
        return c
    if i in (0, -len(a)) or i == len(a) - 1 or True:
        v = Real.of(c.value)
        if i >= 0 and v.sign(R) < 0:
            return "-"
        return Str([c])         # some digit
    return c


def chars(x):
    return list(x.items) if isinstance(x, Str) else list(x)


def text(R, v, rep=False):
    """str() or repr() of a value"""
    if isinstance(v, (str, Str)):
        return Str.make(["'"] + chars(v) + ["'"]) if rep else v
    if v is None or isinstance(v, (bool, int, float)):
        return repr(v)
    if isinstance(v, (list, tuple)):
        out = ["[" if isinstance(v, list) else "("]
        for i, x in enumerate(v):
            if i:
                out += [",", " "]
            out += chars(text(R, x, True))
        if isinstance(v, tuple) and len(v) == 1:
            out.append(",")
        return Str.make(out + ["]" if isinstance(v, list) else ")"])
    if isinstance(v, dict):
        out = ["{"]
        for i, (k, x) in enumerate(v.items()):
            if i:
                out += [",", " "]
            out += chars(text(R, k, True)) + [":", " "] + chars(text(R, x, True))
        return Str.make(out + ["}"])
    if getattr(v, "op", None) in ("symbol", "symbols"):
        return repr(v)                  # the TeX form of names, unlike any name
    t = getattr(v, "text", None)
    if t is not None:
        return t(R)
    raise Und(f"text of {type(v).__name__}")


def fmt(R, v, spec):
    if isinstance(v, Real):
        sp = spec.strip()
        lead = [] if not sp.startswith(("+",)) else ["+"] if v.sign(R) >= 0 else []
        return Str.make(lead + [Num(v, sp)] + ([" "] if spec and spec[-1:].isdigit() and "." not in spec and False else []))
    if isinstance(v, Str):
        if spec:
            raise Und("format of text with numbers")
        return v
    if isinstance(v, (int, float, str)) and not isinstance(v, bool):
        try:
            return format(v, spec)
        except ValueError:
            raise Und("format")
    if spec:
        raise Und("format of an object")
    return text(R, v)


def percent(R, s, o):
    raise Und("printf-style format")


def template(R, s, a, k):
    """str.format"""
    import string
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out += list(lit)
        if field is None:
            continue
        if field == "":
            v, auto = a[auto], auto + 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            raise Und("format field")
        out += chars(text(R, v, True) if conv == "r" else fmt(R, v, spec or ""))
    return Str.make(out)


def method(R, o, n, a, k):
    l = chars(o)
    if n == "format" and isinstance(o, str):
        return template(R, o, a, k)
    if n == "join":
        out = []
        for i, x in enumerate(R.iterate(a[0])):
            if not isinstance(x, (str, Str)):
                raise Und("join of objects")
            out += (l if i else []) + chars(x)
        return Str.make(out)
    if isinstance(o, str) and all(isinstance(x, (str, int)) or x is None or isinstance(x, tuple) and all(isinstance(y, str) for y in x) for x in list(a) + list(k.values())):
        if n in ("split", "rsplit", "strip", "lstrip", "rstrip", "replace", "startswith", "endswith", "upper", "lower", "ljust", "rjust", "center", "zfill", "find", "index", "count", "isdigit",
                 "isalpha", "isalnum", "partition", "rpartition", "splitlines", "removesuffix", "removeprefix", "title", "expandtabs"):
            try:
                return getattr(o, n)(*a, **k)
            except ValueError:
                raise Raised("ValueError")
    if n in ("ljust", "rjust", "center"):
        raise Und("padding of text with numbers")
    if n in ("strip", "lstrip", "rstrip"):
        cs = a[0] if a and a[0] is not None else " \t\n\r"
        if n != "rstrip":
            while l and isinstance(l[0], str) and l[0] in cs:
                l.pop(0)
        if n != "lstrip":
            while l and isinstance(l[-1], str) and l[-1] in cs:
                l.pop()
        if l and set(cs) & set("-+.0123456789e") and not (isinstance(l[0], str) and isinstance(l[-1], str)):
            if not isinstance(l[0], str) and n != "rstrip" and not set(cs) & set("-.0123456789") or not isinstance(l[-1], str) and n != "lstrip" and not set(cs) & set(".0123456789e"):
                return Str.make(l)
            raise Und("strip of digits")
        return Str.make(l)
    if n in ("replace", "split") and a and isinstance(a[0], str) and a[0] and set(a[0]) & set("-+.0123456789e") == set():
        w, parts, i = list(a[0]), [[]], 0
        while i < len(l):
            if l[i:i + len(w)] == w:
                parts.append([])
                i += len(w)
            else:
                parts[-1].append(l[i])
                i += 1
        if n == "split":
            if len(a) > 1 and isinstance(a[1], int):
                while len(parts) > a[1] + 1:
                    x = parts.pop()
                    parts[-1] += w + x
            return [Str.make(p) for p in parts]
        out = parts[0]
        for p in parts[1:]:
            out = out + chars(a[1]) + p
        return Str.make(out)
    if n == "replace" and a and isinstance(a[0], str):
        # text that may touch the digits of a number
        w = a[0]
        hit = [i for i in range(len(l)) if not isinstance(l[i], str)]
        for i in hit:
            if any(c in "-.0123456789e" for c in w):
                nxt = "".join(c for c in l[i + 1:i + 1 + len(w)] if isinstance(c, str))
                prv = "".join(c for c in l[max(0, i - len(w)):i] if isinstance(c, str))
                touch = w in nxt or w in prv or any(prv.endswith(w[:j]) and w[j] == "-" for j in range(1, len(w))) or all(c in "-.0123456789e+" for c in w)
                v = Real.of(l[i].value)
                if touch and any(prv.endswith(w[:j]) and w[j:] == "-" for j in range(1, len(w))):
                    # a sign written before a number: it depends on the sign of the number
                    if v.sign(R) < 0:
                        j = next(j for j in range(1, len(w)) if prv.endswith(w[:j]) and w[j:] == "-")
                        l[i] = Num(tidy(-v), l[i].spec)
                        l[i - j:i] = chars(a[1])
                        return method(R, Str.make(l), n, a, k)
                elif all(c in "-.0123456789e+" for c in w):
                    raise Und("replacement of digits")
        s, out, i = l, [], 0
        while i < len(s):
            if s[i:i + len(w)] == list(w):
                out += chars(a[1])
                i += len(w)
            else:
                out.append(s[i])
                i += 1
        return Str.make(out)
    if n in ("startswith", "endswith") and isinstance(a[0], str):
        part = l[:len(a[0])] if n == "startswith" else l[-len(a[0]):]
        if part == list(a[0]):
            return True
        if all(isinstance(c, str) for c in part):
            return False
        if n == "startswith" and len(a[0]) == 1:
            return first(R, l, 0) == a[0]
        raise Und("search in a text with numbers")
    if n == "splitlines":
        return [Str.make(x) for x in lines(l)]
    raise Und(f"str.{n}")


def lines(items):
    out = [[]]
    for c in items:
        if c == "\n":
            out.append([])
        else:
            out[-1].append(c)
    if not out[-1]:
        out.pop()
    return out


class File(Native):
    def __init__(self):
        self.items = []

    def attr(self, R, name):
        if name == "write":
            def write(R, x):
                self.items += chars(text(R, x) if isinstance(x, (str, Str)) else und("write of an object"))
            return Hook(write)
        if name == "writelines":
            def wl(R, x):
                for y in R.iterate(x):
                    self.items += chars(y)
            return Hook(wl)
        if name in ("close", "flush"):
            return Hook(lambda R: None)
        raise Und(f"file.{name}")

    def enter(self, R):
        return self


def close(R, x, y):
    if isinstance(x, Real) or isinstance(y, Real):
        return R.eq(x, y)
    if num(x) and num(y):
        return abs(x - y) <= TINY
    raise Und("comparison of numbers")


def und(why):
    raise Und(why)


def tokens(R, items):
    """split a line into words; a word is a str or (number, spec)"""
    out, cur = [], []

    def flush():
        if not cur:
            return
        if all(isinstance(c, str) for c in cur):
            out.append("".join(cur))
        else:
            sgn, i = 1, 0
            while i < len(cur) and cur[i] in ("+", "-"):
                sgn *= -1 if cur[i] == "-" else 1
                i += 1
            if i > 1 or len(cur) != i + 1 or isinstance(cur[i], str):
                out.append(("bad", "".join(c if isinstance(c, str) else repr(c) for c in cur)))
            else:
                v = Real.of(cur[i].value)
                if i and cur[0] == "-" and v.sign(R) < 0 and not v.decided_zero(R):
                    out.append(("bad", f"-{cur[i]!r}"))
                elif i and v.sign(R) < 0:
                    out.append(("bad", f"+{cur[i]!r}"))
                else:
                    out.append(Num(v if sgn > 0 else -v, cur[i].spec))
        cur.clear()
    for c in items:
        if isinstance(c, str) and c in " \t\r":
            flush()
        else:
            cur.append(c)
    flush()
    return out


def value(tok):
    """number written by a word, or None"""
    if isinstance(tok, Num):
        return tok.value
    if isinstance(tok, str):
        try:
            f = float(tok)
        except ValueError:
            return None
        return Real.of(f) if abs(f) != float("inf") and f == f else None
    return None


def digits(tok):
    """number of significant digits a format keeps; None when all of them"""
    if not isinstance(tok, Num) or not tok.spec:
        return None
    s = tok.spec
    if "." in s:
        p = "".join(c for c in s.split(".", 1)[1] if c.isdigit())
        if p and int(p) < 12:
            return int(p)
    elif s[-1:] in "feEgG":
        return 6
    elif s[-1:] in "d":
        return 0
    return None


def same(R, a, b):
    return (Real.of(a) + -Real.of(b)).decided_zero(R)


# -- hooks of the interpreter ---------------------------------------------------
def joined(R, e, env, mod):
    import ast
    out = []
    for p in e.values:
        if isinstance(p, ast.Constant):
            out += list(str(p.value))
            continue
        v = R.ev(p.value, env, mod)
        if p.conversion in (114, 97):
            v = text(R, v, True)
        elif p.conversion == 115:
            v = text(R, v)
        spec = joined(R, p.format_spec, env, mod) if p.format_spec is not None else ""
        if not isinstance(spec, str):
            raise Und("format specification")
        out += chars(fmt(R, v, spec))
    return Str.make(out)


def copied(v):
    if isinstance(v, DDict):
        return DDict(v.factory, {k: copied(x) for k, x in v.items()})
    if isinstance(v, dict):
        return {k: copied(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(copied(x) for x in v)
    if isinstance(v, Arr):
        return v.map(copied)
    return v


def each(R, f, v):
    if isinstance(v, Arr):
        return R.ew(lambda x, y: f(x), v, 0)
    return f(v)


def ext(R, n, path, a, k):
    if path in ("open", "builtins.open", "io.open", "codecs.open"):
        f = File()
        if not isinstance(a[0], str):
            raise Und("file name")
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        if mode not in ("w", "wt", "x"):
            raise Und("file mode")
        R.files[a[0]] = f
        return f
    if n == "print":
        f = k.get("file")
        if f is not None:
            sep, end = k.get("sep", " "), k.get("end", "\n")
            for i, x in enumerate(a):
                f.items += (chars(sep) if i else []) + chars(text(R, x))
            f.items += chars(end)
        return None
    if n == "len" and isinstance(a[0], Str):
        R.memo[("rz", "length!")], R.memo[("rs", "length!")] = False, 1
        return rsym("length", False)
    if n in ("str", "repr"):
        return text(R, a[0], n == "repr") if a else ""
    if n == "format" and "numpy" not in path:
        return fmt(R, a[0], a[1] if len(a) > 1 else "")
    if n in ("int", "float", "float64", "Fraction") and a:
        x = a[0]
        if isinstance(x, str):
            try:
                return (int if n == "int" else float)(x)
            except ValueError:
                raise Raised("ValueError")
        if isinstance(x, Str):
            t = tokens(R, x.items)
            if len(t) == 1 and isinstance(t[0], Num) and n != "int":
                return tidy(t[0].value)
            if any(isinstance(c, str) and c.isalpha() and c != "e" for c in x.items):
                raise Raised("ValueError")
            raise Und("number of a text")
        if isinstance(x, Real):
            if n == "int":
                raise Und("integer part of a number")
            return x
        return NotImplemented
    if n in ("abs", "absolute", "fabs"):
        return each(R, lambda x: absolute(R, x), a[0]) if isinstance(a[0], (Real, Arr)) else NotImplemented
    if n in ("round", "around") and a and isinstance(a[0], (Real, Arr)) and hasattr(R, "rounded"):
        R.rounded.append(a[1] if len(a) > 1 else k.get("decimals", 0))
        return a[0]
    if n == "sign" and isinstance(a[0], Real):
        return a[0].sign(R)
    if n in ("isnan", "isfinite", "isinf") and len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, Real):
            return n == "isfinite"
        if isinstance(x, (int, float)):
            return {"isnan": x != x, "isinf": x in (float("inf"), -float("inf")), "isfinite": x == x and abs(x) != float("inf")}[n]
        if isinstance(x, (str, Str)) or x is None:
            raise Raised("TypeError")
    if n == "isclose" and set(k) - {"atol", "rtol"}:
        return NotImplemented
    if n in ("isclose",) and (isinstance(a[0], Real) or isinstance(a[1], Real)):
        return R.eq(a[0], a[1])
    if n == "allclose" and len(a) == 2 and not set(k) - {"atol", "rtol"}:
        x, y = [R.iterate(v) if isinstance(v, (list, tuple, Arr, dict)) else v for v in a]
        if isinstance(x, list) or isinstance(y, list):
            n1 = len(x) if isinstance(x, list) else len(y)
            x, y = [v if isinstance(v, list) else [v] * n1 for v in (x, y)]
            if len(x) != len(y):
                raise Raised("ValueError")
            return all(close(R, p, q) for p, q in zip(x, y))
        return close(R, x, y)
    if n == "isclose" and num(a[0]) and num(a[1]):
        return abs(a[0] - a[1]) <= TINY
    if n == "deepcopy" or path == "copy.copy":
        return copied(a[0])
    if n == "vectorize":
        f = a[0]
        return Hook(lambda R, x, *r, **kk: each(R, lambda y: R.call(f, [y], {}), R.asarr(x) if isinstance(x, (list, tuple)) else x))
    if n in ("triu", "tril") and isinstance(a[0], Arr) and len(a) == 1:
        v = a[0]
        out = Arr(v.axes, dict(v.data))
        r, c = v.axes
        for i, p in enumerate(r):
            for j, q in enumerate(c):
                if (j < i) if n == "triu" else (j > i):
                    out.data[(p, q)] = 0
        return out
    if n in ("warn", "simplefilter", "catch_warnings"):
        return None
    if n == "savemat":
        R.saved = a[1] if len(a) > 1 else k.get("mdict")
        return None
    if n == "join" and path.endswith("path.join"):
        return "/".join(a)
    return NotImplemented


class Named(Native):
    """a moment: a name, a number, equal only to itself"""
    def __init__(self, name, **kw):
        self.name, self.kw = name, kw

    def attr(self, R, n):
        if n == "name":
            return self.name
        if n in self.kw:
            return self.kw[n]
        raise Raised("AttributeError") if n.startswith("__") else Und(f"attribute {n} of a moment")

    def equals(self, R, o):
        return self is o

    def text(self, R):
        return self.name

    def less(self, R, o, swapped):
        raise Und("order of moments")

    def truth(self, R):
        return True

    def __repr__(self):
        return self.name
