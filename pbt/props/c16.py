import json
import subprocess
import sys

import hypothesis.strategies as st

from pbt.core import Part, fail, require
from pbt.gen import seeds

ID = "C16"
RULE = ("A case is a history of resets and intervals with allocations and releases of blocks before, inside and between the intervals. "
        "Non-trivial: some interval keeps or releases at least half a megabyte.")
ASSUMPTIONS = ["Blocks are bytearrays and arrays of at least 0.3 MB; 0.2 MB of tolerance for the interpreter's own allocations."]

SIZES = [5_000_000, 1_000_000, 300_000]


@st.composite
def cases(draw):
    act = st.one_of(st.tuples(st.just("keep"), st.sampled_from(SIZES)), st.tuples(st.just("temp"), st.sampled_from(SIZES)),
                    st.tuples(st.just("free"), st.integers(0, 3)))
    acts = st.lists(act, min_size=1, max_size=3)
    interval = st.tuples(st.just("interval"), acts)
    op = st.one_of(interval, interval, st.tuples(st.just("outside"), acts), st.tuples(st.just("reset"), st.just([])), st.tuples(st.just("start"), st.just([])))
    ops = draw(st.lists(op, max_size=2)) + [draw(interval)] + draw(st.lists(op, max_size=1)) + [draw(interval)]
    return {"ops": [[o[0], [list(a) for a in o[1]]] for o in ops],
            "kind": draw(st.sampled_from(["bytes", "array", "cycle"])), "seed": draw(seeds)}


_worker = []


def ask(case):
    if not _worker:
        _worker.append(subprocess.Popen([sys.executable, "-m", "pbt.heapworker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True))
    w = _worker[0]
    w.stdin.write(json.dumps(case) + "\n")
    w.stdin.flush()
    line = w.stdout.readline()
    if not line:
        raise RuntimeError("the worker ended")
    answer = json.loads(line)
    if "error" in answer:
        if answer["repo"]:
            fail("%s", answer["error"])
        raise ImportError(answer["error"])
    return answer["ok"]


def check(case, ctx):
    total, big = 0, False
    for (op, acts), (d, values) in zip(case["ops"], ask(case)):
        if op == "interval":
            total += d
            big = big or abs(d) >= 500_000
            ctx.label("grow" if d > 0 else "shrink" if d < 0 else "level")
        elif op == "reset":
            total = 0
            ctx.label("reset")
        for v in values:
            require(abs(v - total / 1e6) <= 0.2, "%.3f MB measured, the heap grew by %.3f MB between start and stop since the last reset", v, total / 1e6)
    if not big:
        ctx.trivial("small")


MB = 1_000_000
EXAMPLES = [
    {"ops": [["outside", [["keep", 5 * MB]]], ["interval", [["free", 0], ["keep", MB]]], ["interval", [["keep", MB]]]], "kind": "bytes", "seed": 0},
    {"ops": [["interval", [["keep", 5 * MB], ["temp", 5 * MB]]], ["outside", [["keep", 5 * MB]]], ["reset", []], ["interval", [["keep", MB]]]],
     "kind": "cycle", "seed": 0},
]
PARTS = [Part("heap", cases(), check, 60, 400, examples=EXAMPLES)]
