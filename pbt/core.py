"""Runner of the property checks: generation (Hypothesis), shrinking, replay, evidence, exit codes.

A property module defines ID, RULE, PARTS and optionally FINDINGS. Every part draws one JSON value (the case) from a
strategy and hands it to a check function, which raises Violation when the code under test breaks the property. Every
random choice of the harness is in the case; the code under test draws from numpy's global generator, seeded per case.
"""
import hashlib
import json
import os
import subprocess
import sys
import time as _time
import traceback
import warnings

import numpy as np
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings

from pbt import guard

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
_monotonic = _time.monotonic          # kept: the checks replace the functions of the time module


class Violation(Exception):
    pass


class Skip(Exception):
    """The case does not reach the property (counted as trivial)."""


class _Stop(BaseException):
    """Leaves Hypothesis: shrinking or generation has used its share of the time."""


class Ctx:
    """What one execution of a case reports about itself."""

    def __init__(self):
        self.labels = []
        self.nontrivial = True
        self.findings = []

    def label(self, *names):
        self.labels.extend(names)

    def trivial(self, why=None):
        self.nontrivial = False
        if why:
            self.labels.append("trivial:" + why)

    def finding(self, key):
        self.findings.append(key)


class Part:
    def __init__(self, name, strategy, check, quick, thorough=None, examples=()):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough or quick * 12
        self.examples = list(examples)


def split(name, strategies, check):
    """One part per class of cases, so that none depends on the luck of the draw. strategies: label -> (strategy, cases)."""
    return [Part("%s.%s" % (name, k), s, check, n) for k, (s, n) in strategies.items()]


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def vec(x, n, what):
    """x as a float vector of n finite-or-infinite values; anything else breaks the interface."""
    if not isinstance(x, np.ndarray):
        fail("%s is %s, expected an array", what, type(x).__name__)
    require(x.shape == (n,), "%s has shape %s, expected %s", what, x.shape, (n,))
    require(x.dtype.kind in "fiu", "%s has dtype %s", what, x.dtype)
    return x.astype(float)


def close(a, b, rtol=1e-7, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    with np.errstate(all="ignore"):
        return (a == b) | (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))) | (np.isnan(a) & np.isnan(b))


def require_close(a, b, what, rtol=1e-7, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    require(a.shape == b.shape, "%s: shapes %s and %s differ", what, a.shape, b.shape)
    ok = close(a, b, rtol, atol)
    if not np.all(ok):
        i = np.argwhere(~np.atleast_1d(ok))[0]
        i = tuple(i) if a.ndim else ()
        fail("%s: got %r, expected %r (index %s)", what, float(a[i]), float(b[i]), i)


# Exceptions of the harness itself; any other exception comes from what the code under test did or returned.
HARNESS = (AttributeError, ImportError, NameError, MemoryError, OSError, hypothesis.errors.HypothesisException)


def in_repo(exc):
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + "/"):
            return True
        tb = tb.tb_next
    return False


# Function entries and backward jumps a case may take, beyond the usual: drawing evaluates densities on grids of a million points
STEPS = {"c36": 60_000_000}


def execute(part, case):
    """Runs one case. Returns (ctx, None) or (ctx, message of the violation)."""
    ctx = Ctx()
    np.random.seed(case.get("seed", 0) % (2 ** 32))
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"), guard.steps(STEPS.get(part.check.__module__[-3:], 10_000_000)):
            warnings.simplefilter("ignore")
            part.check(case, ctx)
    except Skip as e:
        ctx.trivial(str(e) or "skip")
    except Violation as e:
        return ctx, str(e)
    except guard.StepLimit as e:
        return ctx, "does not terminate: %s" % e
    except Exception as e:
        if isinstance(e, HARNESS) and not in_repo(e):
            raise
        where = traceback.extract_tb(e.__traceback__)
        at = next((f for f in reversed(where) if f.filename.startswith(REPO + "/")), where[-1])
        return ctx, "unexpected %s: %s (%s:%d)" % (type(e).__name__, str(e)[:300], os.path.basename(at.filename), at.lineno)
    return ctx, None


class Runner:
    def __init__(self, module, tier, seed):
        self.m, self.tier, self.seed = module, tier, seed
        self.evaluations = 0
        self.distinct = set()
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.per_part = {}
        self.findings = {}
        self.t0 = _monotonic()
        self.limit = 420.0 if tier == "quick" else 6 * 3600.0
        self.cut = []
        self.history = []                  # every case executed by this process, for failures that depend on earlier cases
        self.before = []                   # those the failing case needs, if any

    def execute(self, part, case):
        self.history.append([part.name, case])
        return execute(part, case)

    def alone(self, part, candidates):
        """A failing case that passes when it is executed again depends on what the process executed before it (state of
        classes or modules). Looks for the shortest run of cases that makes it fail in a new process.
        candidates: [(position in the history, case, message)]. Sets self.before and returns (case, message)."""
        path = os.path.join(ROOT, "replays", "%s-%s.json" % (self.m.ID, part.name))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        for at, case, msg in candidates:
            k = 0
            while True:
                before = self.history[at - k:at] if k else []
                with open(path, "w") as f:
                    json.dump({"property": self.m.ID, "part": part.name, "message": msg, "case": case, "before": before}, f, indent=1)
                try:
                    run = subprocess.run([sys.executable, "-m", "pbt.run", self.m.ID, "--replay", path], cwd=ROOT, timeout=max(1, min(300, self.t0 + (780 if self.tier == "quick" else 6.5 * 3600) - _monotonic())),
                                         capture_output=True, text=True)
                    if run.returncode == 1 and "VIOLATION property=%s" % self.m.ID in run.stdout:
                        self.before = before
                        return case, msg
                except subprocess.TimeoutExpired:
                    break
                if k >= at:
                    break
                k = min(at, max(1, 3 * k))
        os.remove(path)
        return None

    def account(self, part, case, ctx):
        self.evaluations += 1
        key = hashlib.sha1((part.name + json.dumps(case, sort_keys=True)).encode()).hexdigest()
        p = self.per_part.setdefault(part.name, {"evaluations": 0, "nontrivial": 0})
        p["evaluations"] += 1
        for l in set(ctx.labels):
            self.labels[part.name + ":" + l] = self.labels.get(part.name + ":" + l, 0) + 1
        for f in ctx.findings:
            self.findings[f] = self.findings.get(f, 0) + 1
        new = key not in self.distinct
        self.distinct.add(key)
        if ctx.nontrivial:
            p["nontrivial"] += 1
            if new:
                self.nontrivial.add(key)
                if p["nontrivial"] in (3, 40):
                    self.samples.append({"part": part.name, "case": case})

    def run_part(self, part):
        n = part.thorough if self.tier == "thorough" else part.quick
        best, first = [], []
        t_fail = []

        def body(case):
            if best and _monotonic() - t_fail[0] > (60 if self.tier == "quick" else 300):
                raise _Stop()
            if _monotonic() - self.t0 > self.limit:
                self.cut.append(part.name)
                raise _Stop()
            ctx, msg = self.execute(part, case)
            if msg is None:
                self.account(part, case, ctx)
                return
            if not best:
                t_fail.append(_monotonic())
                first[:] = [(len(self.history) - 1, case, msg)]
            text = json.dumps(case, sort_keys=True)
            if not best or (len(text), text) <= best[0][0]:
                best[:] = [((len(text), text), case, msg)]
            raise Violation(msg)

        for case in part.examples:
            ctx, msg = self.execute(part, case)
            if msg is not None:
                return case, msg
            self.account(part, case, ctx)

        seed = int.from_bytes(hashlib.sha256(("%s/%s/%d" % (self.m.ID, part.name, self.seed)).encode()).digest()[:8], "big")
        test = hypothesis.seed(seed)(settings(
            max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck), print_blob=False,
            verbosity=hypothesis.Verbosity.quiet)(given(part.strategy)(body)))
        try:
            test()
        except _Stop:
            pass
        except Violation:
            pass
        except hypothesis.errors.HypothesisException:
            if not best:
                raise
        if best:
            # The reported case is the one that fails on its own
            _, case, msg = best[0]
            ctx, again = execute(part, case)
            if again is None:
                found = self.alone(part, [(0, case, msg)] + first)
                if found is None:
                    raise RuntimeError("case of %s/%s failed once (%s) and passed when replayed: %s"
                                       % (self.m.ID, part.name, msg, json.dumps(case)))
                return found
            return case, again
        return None

    def evidence(self, violations):
        path = os.path.join(ROOT, "evidence", self.m.ID + ".json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        samples = self.samples[:8]
        while samples and len(json.dumps(samples)) > 20000:
            samples = samples[:-1]
        data = {
            "property": self.m.ID, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": len(self.nontrivial),
                "rule": self.m.RULE,
                "samples": samples,
                "parts": self.per_part,
                "labels": dict(sorted(self.labels.items())),
                "known_findings_seen": self.findings,
                "stopped_early": self.cut,
            },
            "assumptions": list(getattr(self.m, "ASSUMPTIONS", [])),
            "wall_s": round(_monotonic() - self.t0, 2),
            "violations": violations,
        }
        tmp = path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(data, f, indent=1)
        os.replace(tmp, path)


def say(line):
    out = guard.real_stdout
    out.write(line + "\n")
    out.flush()


def findings_of(prop):
    path = os.path.join(ROOT, "known_findings.json")
    with open(path) as f:
        return {e["key"]: e for e in json.load(f)["findings"] if e["property"] == prop}


def run(module, tier, seed):
    r = Runner(module, tier, seed)
    known = findings_of(module.ID)
    for part in module.PARTS:
        t0 = _monotonic()
        bad = r.run_part(part)
        r.per_part.setdefault(part.name, {"evaluations": 0, "nontrivial": 0})["wall_s"] = round(_monotonic() - t0, 2)
        if bad is None:
            continue
        case, msg = bad
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (module.ID, part.name))
        with open(path, "w") as f:
            json.dump(dict({"property": module.ID, "part": part.name, "message": msg, "case": case}, **({"before": r.before} if r.before else {})),
                      f, indent=1)
        r.evidence(1)
        say("property %s, part %s: %s" % (module.ID, part.name, msg))
        say("smallest failing case: " + json.dumps(case)[:2000])
        if r.before:
            say("after %d other cases in the same process (in the replay file)" % len(r.before))
        say("VIOLATION property=%s replay=%s" % (module.ID, path))
        return 1
    unknown = set(r.findings) - set(known)
    if unknown:
        raise RuntimeError("findings that are not in known_findings.json: %s" % sorted(unknown))
    for key, e in known.items():
        say("KNOWN-FINDING: property=%s %s%s" % (module.ID, e["what"], "" if key in r.findings else " (not seen in this run)"))
    r.evidence(0)
    say("%s held: %d cases, %d distinct non-trivial, %.1f s" % (module.ID, r.evaluations, len(r.nontrivial), _monotonic() - r.t0))
    return 0


def replay(module, path):
    with open(path) as f:
        data = json.load(f)
    parts = {p.name: p for p in module.PARTS}
    for name, case in data.get("before", []):
        execute(parts[name], case)
    ctx, msg = execute(parts[data["part"]], data["case"])
    if msg is None:
        say("%s: the case passes" % module.ID)
        return 0
    say("property %s, part %s: %s" % (module.ID, data["part"], msg))
    say("VIOLATION property=%s replay=%s" % (module.ID, path))
    return 1
