#!/usr/bin/env python3
"""Development aid: build /verif/seeded/<name>/ from gen/seeds/<name>.txt and confirm it in a scratch copy.
usage: seed.py [--no-tests] [--checks] names...
spec: 'property: X', 'needs: ..', 'breaks: ..' lines, then '@@ file' / old / '---' / new edits, then '%% demo' and the python demonstration."""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "..", "seeded")
SH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR=$(mktemp -d)
timeout 120 /opt/venv/bin/python "$d/demo.py"
rc=$?
rm -rf "$NUMBA_CACHE_DIR"
exit $rc
'''


def ns(copy, cmd, **kw):
    return subprocess.run(["unshare", "-Urm", "sh", "-c", f"mkdir -p {copy}.work && mount --bind {copy}.work /opt/vp/work && mount --bind {copy} /repo && cd /repo && {cmd}"], capture_output=True, text=True, **kw)


def build(name, tests, checks):
    spec = open(os.path.join(HERE, "seeds", name + ".txt")).read()
    head, demo = spec.split("%% demo\n", 1)
    meta = dict(re.findall(r"^(property|needs|breaks): (.*)$", head.split("@@ ", 1)[0], flags=re.M))
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        r = os.path.join(d, "r")
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        for e in re.split(r"^@@ ", head, flags=re.M)[1:]:
            f, rest = e.split("\n", 1)
            old, new = rest.split("\n---\n", 1) if "\n---\n" in rest else (rest.removesuffix("---\n").rstrip("\n"), "")
            p = os.path.join(r, f.strip())
            s = open(p).read()
            old, new = old.rstrip("\n"), new.rstrip("\n")
            if s.count(old) != 1:
                return f"{name}: edit matches {s.count(old)} times: {old[:60]!r}"
            if not new: old = old + "\n"
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
        o = os.path.join(OUT, name)
        os.makedirs(o, exist_ok=True)
        open(os.path.join(o, "patch.diff"), "w").write(diff)
        open(os.path.join(o, "demo.py"), "w").write("from common import *\n" + demo)
        shutil.copy(os.path.join(HERE, "seeds", "common.py"), o)
        open(os.path.join(o, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(o, "demo.sh"), 0o755)
        json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
        res = []
        a = subprocess.run(["bash", os.path.join(o, "demo.sh")], cwd="/repo", capture_output=True, text=True)
        b = ns(r, f"bash {os.path.join(o, 'demo.sh')}")
        res.append(f"clean={a.returncode} patched={b.returncode}")
        if a.returncode: res.append("CLEAN FAILS " + (a.stderr or a.stdout)[-400:])
        if not b.returncode: res.append("DEMO DOES NOT SEE IT")
        else: res.append((b.stderr or b.stdout).strip().splitlines()[-1][:120])
        if tests:
            t = ns(r, f"bash /opt/vp/test.sh {d}/out.json")
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            got = json.load(open(f"{d}/out.json"))
            passed = set(got.get("passed") or [k for k, v in got.items() if v in ("passed", "pass", True)])
            res.append("tests ok" if base <= passed else f"TESTS FAIL {sorted(base - passed)[:4]}")
        if checks:
            c = subprocess.run([sys.executable, os.path.join(HERE, "..", "check.py"), meta["property"]], env={**os.environ, "SA_REPO": r, "SA_EVIDENCE": d}, capture_output=True, text=True)
            res.append("CAUGHT" if c.returncode == 1 else f"missed (rc {c.returncode})")
            res.append(next((l.strip()[:150] for l in c.stdout.splitlines() if l.startswith("  ")), ""))
        return f"{name}: " + "; ".join(res)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    args = sys.argv[1:]
    tests, checks = "--no-tests" not in args, "--checks" in args
    names = [a for a in args if not a.startswith("--")] or sorted(f[:-4] for f in os.listdir(os.path.join(HERE, "seeds")) if f.endswith(".txt"))
    for n in names:
        print(build(n, tests, checks), flush=True)
