"""Errors of the unchanged samplers over many generated cases: python3 tools/calibrate.py KIND COUNT SEED"""
import os
import sys
import time

for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ[k] = "1"
sys.path[:0] = ["/verif", "/repo"]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import warnings
warnings.simplefilter("ignore")
os.environ["PBT_SCRATCH"] = "/tmp"
import numpy as np
import hypothesis
from hypothesis import settings, given, HealthCheck, Phase
import contextlib, io
from pbt.props import c19
from pbt import core

kind, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
out = []
t0 = time.time()


def body(case):
    np.random.seed(case["seed"] % 2 ** 32)
    try:
        with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
            key, a, b = c19.errors(case)[:3]
    except core.Skip:
        out.append((-1.0, -1.0, case))
        return
    except core.Violation as e:
        key, a, b = kind, 9.0, 9.0
        print("VIOL", e, case)
    out.append((a, b, case))


hypothesis.seed(seed)(settings(max_examples=count, database=None, deadline=None, phases=(Phase.generate,),
                               suppress_health_check=list(HealthCheck))(given(c19.make(kind))(body)))()
A = sorted(o[0] for o in out)
B = sorted(o[1] for o in out)
q = lambda v: [round(v[int((len(v) - 1) * f)], 3) for f in (.5, .9, .99, 1)]
print(kind, 'skipped', sum(a < 0 for a in A), "n", len(out), "mean", q(A), "mass", q(B), "s/case", round((time.time() - t0) / len(out), 3), flush=True)
for o in sorted(out, key=lambda o: -max(o[0], o[1]))[:2]:
    print("  worst", round(o[0], 3), round(o[1], 3), o[2])
