"""Shared by the demonstrations: small scenarios and stand-ins for the solvers (no licence here)."""
import os, sys, warnings
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
os.environ.setdefault("NUMBA_CACHE_DIR", "/tmp/demo_numba_cache")
warnings.simplefilter("ignore")
import numpy as np
import inflation
import inflation.lp.InflationLP as lpmod
import inflation.sdp.InflationSDP as sdpmod
from inflation import InflationProblem, InflationLP, InflationSDP

CALLS = []
RESULT = {"success": True, "status": "feasible", "primal_value": 1.5, "dual_value": 1.5,
          "dual_certificate": {"1": 1.0}, "x": {}, "lambda": 0.5}


def _solver(**kw):
    CALLS.append(kw)
    return dict(RESULT)


def stub(**result):
    RESULT.update(result)
    lpmod.solveLP = _solver
    sdpmod.solveSDP_MosekFUSION = _solver


def bell(levels=None, **kw):
    return InflationProblem(dag={"h": ["A", "B"]}, outcomes_per_party=(2, 2), settings_per_party=(2, 2),
                            inflation_level_per_source=(1,), order=("A", "B"), **kw)


def tri(level=2, settings=(1, 1, 1), **kw):
    return InflationProblem(dag={"h1": ["A", "B"], "h2": ["B", "C"], "h3": ["A", "C"]}, outcomes_per_party=(2, 2, 2),
                            settings_per_party=settings, inflation_level_per_source=(level,) * 3, order=("A", "B", "C"), **kw)


def lp(prob=None, **kw):
    return InflationLP(prob if prob is not None else bell(classical_sources="all"), **kw)


def sdp(prob=None, cols="npa1", **kw):
    s = InflationSDP(prob if prob is not None else bell(), **kw)
    s.generate_relaxation(cols)
    return s


def raises(f, *kinds):
    try:
        f()
    except kinds or (Exception,):
        return True
    return False


def fake_mosek(status="PrimalAndDualFeasible"):
    """MOSEK Fusion without a licence: models are built for real, solving does nothing, multipliers count 1, 2, ..."""
    import mosek.fusion as mf
    import mosek.fusion.impl._implementation as impl
    mf.Model.solve = lambda self: None
    mf.Model.getProblemStatus = lambda self: getattr(mf.ProblemStatus, status)
    mf.Model.primalObjValue = mf.Model.dualObjValue = lambda self: 0.
    for name in dir(impl):
        c = getattr(impl, name)
        if isinstance(c, type) and "Constr" in name and hasattr(c, "dual"):
            c.dual = lambda self: -np.arange(1., 1 + self.getSize())
        if isinstance(c, type) and "Var" in name and hasattr(c, "level"):
            c.level = lambda self: np.arange(1., 1 + self.getSize())


class Stop(Exception):
    pass


def lp_task(**kw):
    """What solveLP hands to the MOSEK task for these arguments."""
    import inflation.lp.lp_utils as L
    rec = {}

    class Task:
        def __enter__(s):
            return s

        def __exit__(s, *a):
            return False

        def __getattr__(s, n):
            def f(*a, **k):
                if n == "inputdata":
                    rec.update(zip("nc nv c cf pb pe sub val bkc blc buc bkx blx bux".split(), a))
                    raise Stop
            return f

    class Env(Task):
        def Task(s):
            return Task()
    L.mosek.Env = Env
    L.mosek.Task = lambda *a: Task()
    try:
        L.solveLP(**kw)
    except Stop:
        pass
    return rec
