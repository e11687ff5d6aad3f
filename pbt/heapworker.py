"""A small process for the memory metric: the time of a heap measurement grows with the number of live objects."""
import gc
import json
import os
import sys
import tempfile
import traceback


def block(kind, n):
    if kind == "array":
        import numpy as np
        return np.zeros(n, dtype=np.uint8)
    if kind == "cycle":
        # Garbage once released, but only the collector can tell
        a = [bytearray(n)]
        a.append(a)
        return a
    return bytearray(n)


def act(acts, kind, held):
    delta = 0
    for what, a in acts:
        if what == "keep" and a:
            held.append((block(kind, a), a))
            delta += a
        elif what == "temp" and a:
            block(kind, a)
        elif what == "free" and held:
            delta -= held.pop(a % len(held))[1]
    return delta


def measure(case):
    from ais_benchmarks.metrics.performance import CMemoryUsage
    m = CMemoryUsage()
    m.reset()
    held, out = [], []
    for op, acts in case["ops"]:
        d = 0
        if op == "interval":
            m.pre()
            d = act(acts, case["kind"], held)
            m.post()
        elif op == "outside":
            act(acts, case["kind"], held)
        elif op == "start":
            m.pre()                    # never stopped
        else:
            m.reset()
        out.append([d, [float(m.compute()), float(m.value), float(m.compute(p=None, q=None, nsamples=1))]])
    return out


def main():
    out = os.fdopen(os.dup(1), "w")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    sys.path.insert(0, "/repo")
    sys.pycache_prefix = os.path.join(os.environ.get("PBT_SCRATCH", tempfile.gettempdir()), "pycache")
    sys.dont_write_bytecode = True
    for line in sys.stdin:
        try:
            answer = {"ok": measure(json.loads(line))}
        except Exception as e:
            at = traceback.extract_tb(e.__traceback__)[-1]
            answer = {"error": "unexpected %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(at.filename), at.lineno),
                      "repo": any(f.filename.startswith("/repo/") for f in traceback.extract_tb(e.__traceback__))}
        gc.collect()
        out.write(json.dumps(answer) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
