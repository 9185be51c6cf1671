#!/usr/bin/env python3
"""Development aid (no check uses it): apply each textual mutant of selftest/mutants.txt to a scratch copy of /repo and run checks on it.
usage: run.py [-j N] [filter...]      mutants are separated by lines '=== name | checks expected to fire (or none) | file | checks to run'"""
import os, shutil, subprocess, sys, tempfile, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
ALL = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "..", "checks")) if re.fullmatch(r"[A-Z]\d\d\.py", f))


def parse(path):
    out = []
    for block in re.split(r"^=== ", open(path).read(), flags=re.M)[1:]:
        head, body = block.split("\n", 1)
        parts = [x.strip() for x in head.split("|")]
        name, exp = parts[0], parts[1].split()
        run = parts[2].split() if len(parts) > 2 else None
        edits = []
        for e in re.split(r"^@@ ", body, flags=re.M)[1:]:
            f, rest = e.split("\n", 1)
            old, new = rest.split("\n---\n", 1) if "\n---\n" in rest else (rest.rstrip("\n").removesuffix("\n---"), "")
            edits.append((f.strip(), old, new.rstrip("\n") if not new.endswith("\n\n") else new[:-1]))
        out.append((name, exp, run, edits))
    return out


def one(m):
    name, exp, run, edits = m
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/inflation", d], check=True)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            old = old.rstrip("\n")
            if s.count(old) < 1:
                return f"{name}: EDIT DOES NOT APPLY in {f}: {old[:60]!r}"
            s = s.replace(old, new.rstrip("\n"), 1)
            open(p, "w").write(s)
            import ast
            ast.parse(s)
        todo = run or (exp if exp and exp != ["none"] else ALL)
        if todo == ["all"]: todo = ALL
        res = []
        for c in todo:
            r = subprocess.run([sys.executable, os.path.join(HERE, "..", "check.py"), c], env={**os.environ, "SA_REPO": d, "SA_EVIDENCE": d}, capture_output=True, text=True)
            want = c in exp
            got = r.returncode == 1
            tag = "ok" if want == got else ("MISSED" if want else "FALSE ALARM")
            if r.returncode not in (0, 1): tag = f"ERROR {r.returncode} {r.stderr[-300:]}"
            line = next((l for l in r.stdout.splitlines() if l.startswith("  ")), "")
            if tag != "ok" or os.environ.get("V"):
                res.append(f"{c}:{tag} {line[:400] if got else ''}")
            else:
                res.append(f"{c}:{tag}")
        return f"{name}: " + " ; ".join(res)
    except SyntaxError as e:
        return f"{name}: SYNTAX {e}"
    finally:
        shutil.rmtree(d)


ms = []
args = sys.argv[1:]
j = 3
if args[:1] == ["-j"]:
    j = int(args[1]); args = args[2:]
for f in sorted(os.listdir(HERE)):
    if f.endswith(".txt"):
        ms += parse(os.path.join(HERE, f))
if args:
    ms = [m for m in ms if any(a in m[0] for a in args)]
with ThreadPoolExecutor(j) as ex:
    for r in ex.map(one, ms):
        print(r, flush=True)
