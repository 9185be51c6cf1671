#!/usr/bin/env python3
"""python3 check.py <property id> [--thorough]: decide one property from the source in /repo."""
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    import resource
    try:
        hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
        want = 1 << 29
        resource.setrlimit(resource.RLIMIT_STACK, (want if hard == resource.RLIM_INFINITY else min(want, hard), hard))
    except (ValueError, OSError):
        pass
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import importlib, signal
from sa.report import Report, finish
from sa.model import Program, AnchorMissing


class TimeUp(BaseException):
    pass


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    rep = Report(prop, tier)
    limit = int(os.environ.get("SA_LIMIT", "600" if tier == "quick" else "800"))

    def alarm(*a):
        raise TimeUp()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    mod = importlib.import_module("checks." + prop)
    try:
        prog = Program()
        mod.check(prog, rep, tier)
    except AnchorMissing as e:
        print(f"{prop}: analysis impossible, a public entry point is missing: {e}")
        sys.exit(2)
    except TimeUp:
        rep.undecided("time", "whole check", f"stopped after {limit} s")
    signal.alarm(0)
    sys.exit(finish(rep))


main()
