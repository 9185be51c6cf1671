"""Obligations, violations and the evidence file of one check."""
import json, os, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.ok, self.bad, self.und, self.notes = [], [], [], []
        self.functions, self.counts = set(), {}
        self.rules = {}

    def rule(self, name, text):
        self.rules[name] = text

    def held(self, rule, construct, note=""):
        self.ok.append((rule, construct, note))

    def violation(self, rule, construct, msg, where=""):
        v = (rule, construct, msg, where)
        if v not in self.bad:
            self.bad.append(v)

    def undecided(self, rule, construct, why):
        self.und.append((rule, construct, why))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def seen(self, interp):
        self.functions |= interp.functions_seen
        self.count("abstract_steps", interp.steps)

    def guard(self, rule, construct, fn, *a, **k):
        """run one obligation; an analysis failure leaves it undecided"""
        from .model import AnchorMissing
        try:
            return fn(*a, **k)
        except AnchorMissing:
            raise
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            self.undecided(rule, construct, f"analysis gave up: {type(e).__name__}: {str(e)[:200]}")
            return None


    def merge(self, o):
        self.ok += o.ok; self.und += o.und; self.notes += o.notes
        for v in o.bad:
            if v not in self.bad:
                self.bad.append(v)
        self.functions |= o.functions
        for k, n in o.counts.items():
            self.counts[k] = self.counts.get(k, 0) + n if isinstance(n, int) else n
        self.rules.update(o.rules)

    def jobs(self, items, limit=200):
        """independent obligations (rule, construct, fn, args): fn(rep, *args) in parallel processes; -> their results in order"""
        items = list(items)
        if os.environ.get("SA_SERIAL") or len(items) < 2:
            return [self.guard(r, c, f, self, *a) for r, c, f, a in items]
        global _JOBS
        _JOBS = (self, items, limit)
        import multiprocessing as mp
        out = []
        with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1, len(items))) as pool:
            for sub, res, missing in pool.imap(_job, range(len(items)), 1):
                if missing:
                    from .model import AnchorMissing
                    raise AnchorMissing(missing)
                self.merge(sub)
                out.append(res)
        return out


_JOBS = None


class JobTime(BaseException):
    pass


def _job(i):
    import signal
    from .model import AnchorMissing
    rep, items, limit = _JOBS
    rule, construct, fn, args = items[i]
    sub = Report(rep.prop, rep.tier)

    def alarm(*a):
        raise JobTime()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit if rep.tier == "quick" else 2 * limit)
    res, missing = None, None
    try:
        res = sub.guard(rule, construct, fn, sub, *args)
    except JobTime:
        sub.undecided(rule, construct, f"stopped after {limit} s")
    except AnchorMissing as e:
        missing = str(e)
    signal.alarm(0)
    return sub, res, missing


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(x.split("=", 1) for x in line[8:].split(" | ") if "=" in x)
                d = {k.strip(): v.strip() for k, v in d.items()}
                if d.get("property") == prop:
                    out.append(d)
    return out


def finish(rep, level="other", extra=None):
    kf = known_findings(rep.prop)
    bad, known = [], []
    for v in rep.bad:
        for d in kf:
            if d["rule"] == v[0] and d["construct"] == v[1]:
                known.append((d, v)); break
        else:
            bad.append(v)
    ev = os.environ.get("SA_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    cov = {
        "explanation": "Abstract interpretation of the current source (nothing of the package is imported or executed). "
                       "Each obligation is one rule applied to one construct (entry point, history of entry points, call site or stored value); "
                       "undecided obligations are those whose construct the analysis could not interpret, they raise no alarm.",
        "rules": rep.rules,
        "obligations": len(rep.ok) + len(rep.bad) + len(rep.und),
        "discharged": len(rep.ok),
        "violated": len(rep.bad),
        "undecided": [" | ".join(map(str, u)) for u in rep.und][:60],
        "undecided_count": len(rep.und),
        "functions_analysed": len(rep.functions),
        "functions": sorted(rep.functions)[:200],
        "counts": rep.counts,
        "samples": [" | ".join(map(str, o)) for o in rep.ok][:60],
    }
    if extra:
        cov.update(extra)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    doc = {"property": rep.prop, "tier": rep.tier, "seed": seed, "level": level, "coverage": cov,
           "wall_s": round(time.time() - rep.t0, 3)}
    json.dump(doc, open(os.path.join(ev, rep.prop + ".json"), "w"), indent=1, default=str)
    for d, v in known:
        print(f"KNOWN-FINDING: property={rep.prop} {d.get('what', v[2])}")
    print(f"{rep.prop}: {len(rep.ok)} obligations hold, {len(rep.und)} undecided, {len(bad)} violated, "
          f"{len(rep.functions)} functions analysed, {doc['wall_s']} s")
    if os.environ.get("SA_SHOW"):
        for o in rep.ok: print("   ok ", " | ".join(map(str, o)))
    if os.environ.get("SA_SHOW") or os.environ.get("SA_UND"):
        for o in rep.und: print("   und", " | ".join(map(str, o)))
    path = os.path.join(ev, rep.prop + ".violation.json")
    if bad:
        json.dump([dict(rule=r, rule_text=rep.rules.get(r, ""), construct=c, message=m, where=w) for r, c, m, w in bad],
                  open(path, "w"), indent=1, default=str)
        for r, c, m, w in bad:
            print(f"  {r}: {c}: {m} [{w}]")
        print(f"VIOLATION property={rep.prop} replay={path}")
        return 1
    if os.path.exists(path):
        os.unlink(path)
    return 0
