"""Readers of the exported text formats: abstract file content -> the optimisation problem it states."""
from sa.text import Real, Num, Str, tokens, value, digits, lines, same
from sa.finite import Und


class Problem:
    """maximise obj + const subject to cons; bounds by variable"""
    def __init__(self):
        self.sense, self.obj, self.const = None, {}, Real({})
        self.cons = []          # (terms, relation, right-hand side)
        self.bounds = {}        # variable -> {"lo": v | None, "up": v | None}
        self.vars = set()
        self.bad = []

    def add(self, d, x, c):
        d[x] = d.get(x, Real({})) + c
        self.vars.add(x)


def lex(items):
    """characters of a line to operators, names and numbers"""
    out, i, n = [], 0, len(items)
    glue = False
    while i < n:
        c = items[i]
        if isinstance(c, Num):
            out.append(("num", c.value, c, glue))
            i, glue = i + 1, True
            continue
        if c in " \t\r":
            i, glue = i + 1, False
            continue
        if c.isdigit() or c == "." and i + 1 < n and isinstance(items[i + 1], str) and items[i + 1].isdigit():
            j = i
            while j < n and isinstance(items[j], str) and (items[j].isdigit() or items[j] == "."):
                j += 1
            if j + 1 < n and items[j] in ("e", "E") and isinstance(items[j + 1], str) and (items[j + 1].isdigit() or items[j + 1] in "+-" and j + 2 < n and isinstance(items[j + 2], str) and items[j + 2].isdigit()):
                j += 2
                while j < n and isinstance(items[j], str) and items[j].isdigit():
                    j += 1
            w = "".join(items[i:j])
            out.append(("num", value(w), w, glue))
            i, glue = j, True
            continue
        if c.isalpha() or c in "_":
            j = i
            while j < n and isinstance(items[j], str) and (items[j].isalnum() or items[j] in "_.()[]{},;|@#$%&!?'\""):
                j += 1
            out.append(("name", "".join(items[i:j]), None, glue))
            i, glue = j, True
            continue
        if c in "<>=":
            j = i
            while j < n and items[j] in ("<", ">", "="):
                j += 1
            w = "".join(items[i:j])
            out.append(("rel", {"<": "<=", "=<": "<=", "<=": "<=", ">": ">=", ">=": ">=", "=": "="}.get(w, w), None, False))
            i, glue = j, False
            continue
        out.append(("op", c, None, glue))
        i, glue = i + 1, c not in "+-:"
    return out


def expression(P, toks, where, R):
    """terms and constant of a linear expression"""
    terms, const, i = {}, Real({}), 0
    while i < len(toks):
        sgn = 1
        signs = 0
        while i < len(toks) and toks[i][0] == "op" and toks[i][1] in "+-":
            sgn *= -1 if toks[i][1] == "-" else 1
            i, signs = i + 1, signs + 1
        if i >= len(toks):
            P.bad.append(f"{where} ends with a sign")
            break
        if signs == 0 and (terms or const.terms):
            P.bad.append(f"{where}: two terms without a sign between them")
            break
        kind, v, raw, glue = toks[i]
        if kind == "num":
            precision(P, raw, where)
            nxt = toks[i + 1] if i + 1 < len(toks) else None
            if nxt is not None and nxt[0] == "name":
                if nxt[3]:
                    P.bad.append(f"{where}: a coefficient runs into the name {nxt[1]}")
                    break
                P.add(terms, nxt[1], v if sgn > 0 else -v)
                i += 2
            else:
                const = const + (v if sgn > 0 else -v)
                i += 1
        elif kind == "name":
            P.add(terms, v, Real.of(sgn))
            i += 1
        else:
            P.bad.append(f"{where}: unexpected {v}")
            break
    return terms, const


def precision(P, raw, where):
    d = digits(raw)
    if d is not None:
        P.bad.append(f"{where}: a number is written with {d} digits only")


def bound(P, x, which, v):
    P.bounds.setdefault(x, {})[which] = v


def read_lp(R, items):
    P, sec = Problem(), None
    for ln in lines(items):
        while ln and ln[0] in (" ", "\t"):
            ln = ln[1:]
        if not ln or ln[0] == "\\":
            continue
        head = "".join(c for c in ln if isinstance(c, str)).strip().lower() if all(isinstance(c, str) for c in ln) else ""
        if head in ("maximize", "max", "maximise", "maximum", "minimize", "min", "minimise", "minimum"):
            P.sense, sec = ("max" if head.startswith("max") else "min"), "obj"
            continue
        if head in ("subject to", "st", "s.t.", "such that"):
            sec = "cons"
            continue
        if head in ("bounds", "bound"):
            sec = "bounds"
            continue
        if head == "end":
            sec = "end"
            continue
        toks = lex(ln)
        if sec in ("obj", "cons") and len(toks) > 1 and toks[0][0] == "name" and toks[1][:2] == ("op", ":"):
            toks = toks[2:]
        if sec == "obj":
            t, c = expression(P, toks, "objective", R)
            for x, v in t.items():
                P.add(P.obj, x, v)
            P.const = P.const + c
        elif sec == "cons":
            at = [i for i, t in enumerate(toks) if t[0] == "rel"]
            if len(at) != 1 or toks[at[0]][1] not in ("<=", ">=", "="):
                P.bad.append("a constraint record does not have one relation")
                continue
            t, c = expression(P, toks[:at[0]], "constraint", R)
            r, rc = expression(P, toks[at[0] + 1:], "constraint", R)
            if r:
                raise Und("variables on the right-hand side")
            P.cons.append((t, toks[at[0]][1], rc + -c))
        elif sec == "bounds":
            parts, cur = [], []
            for t in toks:
                if t[0] == "rel":
                    parts += [cur, t[1]]
                    cur = []
                else:
                    cur.append(t)
            parts.append(cur)
            if len(parts) == 1 and len(cur) == 2 and cur[0][0] == "name" and cur[1][1] == "free":
                bound(P, cur[0][1], "lo", "-inf")
                bound(P, cur[0][1], "up", "inf")
                P.vars.add(cur[0][1])
                continue
            vals = []
            for p in parts[::2]:
                if len(p) == 1 and p[0][0] == "name" and p[0][1].lower().lstrip("+-") not in ("inf", "infinity"):
                    vals.append(("x", p[0][1]))
                    continue
                s, q = 1, list(p)
                while q and q[0][0] == "op" and q[0][1] in "+-":
                    s, q = (-s if q[0][1] == "-" else s), q[1:]
                if len(q) == 1 and q[0][0] == "num":
                    precision(P, q[0][2], "a bound")
                    vals.append(("v", q[0][1] if s > 0 else -q[0][1]))
                elif len(q) == 1 and q[0][0] == "name":
                    vals.append(("v", "inf" if s > 0 else "-inf"))
                else:
                    vals.append(None)
            shape = tuple(v and v[0] for v in vals)
            rels = parts[1::2]
            if shape == ("x", "v"):
                x, v = vals[0][1], vals[1][1]
                for w in {"<=": ("up",), ">=": ("lo",), "=": ("lo", "up")}.get(rels[0], ()):
                    bound(P, x, w, v)
            elif shape == ("v", "x", "v") and rels == ["<=", "<="]:
                x = vals[1][1]
                bound(P, x, "lo", vals[0][1])
                bound(P, x, "up", vals[2][1])
            elif shape == ("v", "x"):
                # accepted by the format, but MOSEK reads no bound from it
                P.bad.append("a bound of the form 'value <= variable' is not read by MOSEK")
                continue
            else:
                P.bad.append("a record of the bounds section is not a bound of one variable")
                continue
            P.vars.add(x)
        elif sec == "end":
            P.bad.append("records after the end of the file")
        else:
            P.bad.append("a record before the objective")
    if sec != "end":
        P.bad.append("the file does not end with 'end'")
    return P


def read_mps(R, items):
    P, sec = Problem(), None
    rows, cols, rhs, order = {}, {}, {}, []
    P.sense, done = "min", False
    last = None
    for ln in lines(items):
        if not ln or ln[0] == "*":
            continue
        toks = tokens(R, ln)
        if not toks:
            continue
        for t in toks:
            if isinstance(t, tuple):
                P.bad.append(f"a field of the {sec} section is not a name or a number: {t[1]}")
        if ln[0] not in (" ", "\t"):
            sec = toks[0]
            if sec == "ENDATA":
                done = True
            if sec == "OBJSENSE" and len(toks) > 1:
                P.sense = "max" if str(toks[1]).upper().startswith("MAX") else "min"
            continue
        if sec == "OBJSENSE":
            P.sense = "max" if str(toks[0]).upper().startswith("MAX") else "min"
        elif sec == "ROWS":
            rows[toks[1]] = toks[0]
        elif sec in ("COLUMNS", "RHS"):
            if len(toks) not in (3, 5):
                P.bad.append(f"a record of the {sec} section has {len(toks)} fields")
                continue
            for r, v in zip(toks[1::2], toks[2::2]):
                if r not in rows:
                    P.bad.append(f"a record of the {sec} section refers to an unknown row")
                    continue
                if value(v) is None:
                    P.bad.append(f"a record of the {sec} section has no number")
                    continue
                precision(P, v, sec)
                if sec == "COLUMNS":
                    if toks[0] in cols and last != toks[0]:
                        P.bad.append("the records of a column are not together")
                    last = toks[0]
                    c = cols.setdefault(toks[0], {})
                    if r in c:
                        P.bad.append("two records for one entry of the matrix")
                    c[r] = value(v)
                else:
                    if r in rhs:
                        P.bad.append("two right-hand sides for one row")
                    rhs[r] = value(v)
        elif sec == "BOUNDS":
            kind, x = toks[0], toks[2] if len(toks) > 2 else None
            if x not in cols:
                P.bad.append("a bound refers to a variable that has no column")
                continue
            v = value(toks[3]) if len(toks) > 3 else None
            if kind in ("LO", "UP", "FX") and (v is None or len(toks) != 4):
                P.bad.append("a bound has no value")
                continue
            if len(toks) > 3:
                precision(P, toks[3], "a bound")
            for w, val in {"LO": (("lo", v),), "UP": (("up", v),), "FX": (("lo", v), ("up", v)), "FR": (("lo", "-inf"), ("up", "inf")),
                           "MI": (("lo", "-inf"),), "PL": (("up", "inf"),)}.get(kind, ()):
                bound(P, x, w, val)
            if kind not in ("LO", "UP", "FX", "FR", "MI", "PL"):
                P.bad.append("unknown kind of bound")
        elif sec == "RANGES":
            raise Und("ranges")
        elif sec != "NAME":
            P.bad.append(f"a record in section {sec}")
    if not done:
        P.bad.append("the file does not end with ENDATA")
    for x, c in cols.items():
        P.vars.add(x)
        for r, v in c.items():
            if rows[r] == "N":
                P.add(P.obj, x, v)
    for r, k in rows.items():
        if k == "N":
            P.const = -rhs.get(r, Real({}))
        else:
            P.cons.append(({x: c[r] for x, c in cols.items() if r in c}, {"E": "=", "G": ">=", "L": "<="}[k], rhs.get(r, Real({}))))
    return P


class Sdpa:
    """minimise/maximise c.x subject to sum_i x_i F_i - F_0 >= 0, block by block"""
    def __init__(self):
        self.bad, self.cost, self.blocks, self.entries, self.nvars = [], [], [], {}, None


def read_sdpa(R, items):
    S, stage = Sdpa(), 0
    for ln in lines(items):
        if not ln or (stage == 0 and ln[0] in ('"', "*")):
            continue
        if stage == 3:
            # the cost vector may contain separators and brackets
            row = [c if not (isinstance(c, str) and c in "{}(),") else " " for c in ln]
            toks = tokens(R, row)
            if any(value(t) is None for t in toks):
                S.bad.append("the objective is not a list of numbers")
            else:
                for t in toks:
                    precision(S, t, "the objective")
                S.cost = [value(t) for t in toks]
            stage = 4
            continue
        if stage < 3:
            row = [c if not (isinstance(c, str) and c in "{}(),") else " " for c in ln]
            nums = []
            for t in tokens(R, row):
                try:
                    nums.append(int(t))
                except (ValueError, TypeError):
                    break
            if not nums:
                S.bad.append("a header record without a number")
            elif stage == 0:
                S.nvars = nums[0]
            elif stage == 1:
                S.nblocks = nums[0]
            else:
                S.blocks = nums
            stage += 1
            continue
        toks = tokens(R, ln)
        try:
            v, b, i, j = (int(t) for t in toks[:4])
            x = value(toks[4])
            if len(toks) != 5 or x is None:
                raise ValueError
        except (ValueError, TypeError, IndexError):
            S.bad.append(f"an entry that is not 'variable block row column value': {' '.join(map(str, toks))}")
            continue
        precision(S, toks[4], "an entry")
        if not 1 <= b <= len(S.blocks):
            S.bad.append("an entry of a block that is not announced")
            continue
        n = abs(S.blocks[b - 1])
        if not (1 <= i <= n and 1 <= j <= n and (i == j or S.blocks[b - 1] > 0)):
            S.bad.append(f"an entry outside of its block ({i}, {j} in a block of size {S.blocks[b - 1]})")
            continue
        if not 0 <= v <= (S.nvars or 0):
            S.bad.append("an entry of a variable that is not announced")
            continue
        key = (v, b, min(i, j), max(i, j))
        if key in S.entries:
            S.bad.append("two records for one entry")
        S.entries[key] = x
    if len(S.cost) != S.nvars:
        S.bad.append("the length of the objective is not the number of variables")
    if getattr(S, "nblocks", None) != len(S.blocks):
        S.bad.append("the number of blocks is not the announced one")
    return S
