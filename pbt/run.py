import argparse
import importlib
import os
import shutil
import sys
import tempfile
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    scratch = tempfile.mkdtemp(prefix="pbt-")
    try:
        os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
        os.mkdir(os.environ["MPLCONFIGDIR"])
        os.environ["PBT_SCRATCH"] = scratch
        for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
            os.environ[k] = "1"
        sys.dont_write_bytecode = True
        sys.path.insert(0, "/repo")
        try:
            import hypothesis  # noqa: F401
        except ImportError:
            sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
        from pbt import guard
        guard.silence()
        try:
            return work(a, tier, seed, guard)
        except SystemExit:
            raise
        except BaseException:
            guard.real_stdout.write("the check itself failed:\n" + traceback.format_exc())
            guard.real_stdout.flush()
            return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def work(a, tier, seed, guard):
    guard.alarm(860 if tier == "quick" else 7 * 3600)
    # The libraries come from their compiled files, the code under test is compiled from its sources every time
    import numpy as np
    import scipy.special, scipy.stats, scipy.spatial, sklearn.cluster, matplotlib.pyplot, yaml, guppy  # noqa: F401,E401
    sys.pycache_prefix = os.path.join(os.environ["PBT_SCRATCH"], "pycache")
    import ais_benchmarks.distributions  # noqa: F401
    import ais_benchmarks.sampling_methods  # noqa: F401
    import ais_benchmarks.metrics.divergences  # noqa: F401
    from pbt import core
    guard.install_steps()
    if a.selftest:
        import hypothesis
        names = sorted(f[:-3] for f in os.listdir(os.path.join(core.ROOT, "pbt", "props")) if f.startswith("c") and f.endswith(".py"))
        for n in names:
            importlib.import_module("pbt.props." + n)
        core.say("hypothesis %s, numpy %s, %d property modules" % (hypothesis.__version__, np.__version__, len(names)))
        return 0
    module = importlib.import_module("pbt.props." + a.property.lower())
    if a.replay:
        return core.replay(module, a.replay)
    return core.run(module, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
