"""Runner: Hypothesis-driven laws over JSON-able cases.

A property is decided by one or more *laws*.  A law has
  * a strategy producing a JSON-able `case` (a plain dict), and
  * a function `law(case)` that runs the real code on the case and compares it
    with an explicit oracle, raising `Violation` when they disagree and
    returning a `Info` (labels + non-trivial flag) otherwise.

Everything random comes out of Hypothesis (seeded from VERIF_SEED), a failing
case is shrunk by Hypothesis, and the shrunk case is written as a replay file
that is re-run *without* Hypothesis before a violation is reported.
"""
from . import env  # noqa: F401  (must come first)

import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback
from collections import Counter
from concurrent.futures import ProcessPoolExecutor
from multiprocessing import get_context

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings

VERIF = env.VERIF


class Violation(Exception):
    """The code under test disagrees with the oracle."""


class Skip(Exception):
    """The generated case is outside the law's domain (counted, not judged)."""


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


class Law:
    def __init__(self, name, strategy, fn, quick, thorough=None, rule="", weight=1):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough or quick * 25
        self.rule = rule


class Check:
    """All laws of one property."""

    def __init__(self, pid, rule, assumptions=(), known=None):
        self.pid = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.laws = []
        self.known = known  # callable -> list of known-finding lines still reproducing

    def law(self, strategy, quick=200, thorough=None):
        def deco(fn):
            self.laws.append(Law(fn.__name__, strategy, fn, quick, thorough))
            return fn
        return deco

    def get(self, name):
        for l in self.laws:
            if l.name == name:
                return l
        raise KeyError(name)


def load(pid):
    mod = importlib.import_module("vp.checks." + pid.lower())
    return mod.check


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


class Hang(BaseException):
    """A case did not finish."""


CASE_SECONDS = 60


def judge(law, case):
    """Like judge_case, but a case that never finishes is a violation."""
    def alarm(*_):
        raise Hang()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(CASE_SECONDS)
    try:
        return judge_case(law, case)
    except Hang:
        return "hang", "did not finish within %d s" % CASE_SECONDS
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def judge_case(law, case):
    """Run a law on one case. Returns (status, detail): ok/skip/violation."""
    # The case is re-parsed so that what is judged is exactly what a replay
    # file will contain.
    case = json.loads(canon(case))
    try:
        info = law.fn(case)
    except Skip as e:
        return "skip", str(e)
    except Violation as e:
        return "violation", str(e)
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:  # the code (or its result) could not be used at all
        tb = traceback.extract_tb(e.__traceback__)
        last = [f for f in tb if f.filename.startswith(env.REPO)]
        where = "%s:%d" % (last[-1].filename, last[-1].lineno) if last else \
            "%s:%d" % (tb[-1].filename, tb[-1].lineno)
        return "violation", "unexpected %s: %s (at %s)" % (type(e).__name__, e, where)
    finally:
        plt = sys.modules.get("matplotlib.pyplot")
        if plt is not None:
            plt.close("all")
    return "ok", info


def _seed_for(seed, *parts):
    h = hashlib.sha256(("%d|" % seed + "|".join(map(str, parts))).encode()).digest()
    return int.from_bytes(h[:6], "big")


SHRINK_SECONDS = 60


def run_shard(pid, law_name, n, seed, deadline=None, fast=False):
    """One Hypothesis campaign. Runs in a worker process."""
    law = load(pid).get(law_name)
    stats = dict(law=law_name, evaluations=0, skipped=0, labels=Counter(),
                 nontrivial=set(), samples=[], failure=None, error=None)
    best = {}
    history = []

    def body(case):
        if best:
            if time.time() - best["t"] > (0 if best.get("hang") else SHRINK_SECONDS):
                if case == best["case"]:
                    raise Violation(best["detail"])
                return
        else:
            if deadline and time.time() > deadline:
                stats["cut"] = True
                return
            history.append(case)
        status, detail = judge(law, case)
        if status == "hang":
            best["hang"] = True
            status = "violation"
        if status == "skip":
            stats["skipped"] += 1
            return
        stats["evaluations"] += 1
        if status == "violation":
            best["case"], best["detail"] = case, detail
            best.setdefault("t", time.time())
            best.setdefault("first", (case, detail))
            raise Violation(detail)
        labels, nontrivial = detail if detail is not None else ((), True)
        for l in labels:
            stats["labels"][l] += 1
        if nontrivial:
            text = canon(case)
            d = hashlib.sha1(text.encode()).hexdigest()[:16]
            if d not in stats["nontrivial"]:
                stats["nontrivial"].add(d)
                k = len(stats["nontrivial"])
                if k in (1, 7, 50):
                    stats["samples"].append(text if len(text) < 1500 else text[:1500] + "...")

    test = settings(max_examples=n, deadline=None, database=None,
                    derandomize=False, print_blob=False,
                    report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck),
                    phases=(Phase.generate,) if fast else (Phase.generate, Phase.shrink))(
        given(law.strategy)(body))
    test = hypothesis.seed(seed)(test)
    try:
        import io
        import contextlib
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            test()
    except Violation:
        pass
    except Exception as e:
        if not best:
            stats["error"] = "".join(traceback.format_exception(e))[-4000:]
    if best:
        # Confirm outside of Hypothesis: the shrunk case, else the first one.
        stats["hang"] = best.get("hang", False)
        for case, detail in ((best["case"], best["detail"]), best["first"]):
            status, d = ("hang", detail) if best.get("hang") else judge(law, case)
            if status in ("violation", "hang"):
                stats["failure"] = dict(case=case, detail=d)
                break
        else:
            # It depends on what ran before it: hand over the whole sequence.
            stats["error"] = "failing case does not reproduce: " + canon(best["case"])[:2000]
            stats["sequence"] = history
            stats["detail"] = best["first"][1]
    return stats


def replay_sequence(pid, law, cases):
    """Run a sequence of cases in a fresh process: does any of them fail?"""
    import subprocess
    import tempfile
    with tempfile.NamedTemporaryFile("w", suffix=".json", dir=os.environ.get("VERIF_SCRATCH")) as f:
        json.dump(dict(property=pid, law=law, cases=cases), f)
        f.flush()
        try:
            r = subprocess.run([sys.executable, "-W", "ignore", "-m", "vp", pid, "--replay", f.name],
                               capture_output=True, text=True, timeout=120, cwd=VERIF)
        except subprocess.TimeoutExpired:
            return None
    return r.stdout.splitlines()[0] if r.returncode == 1 and r.stdout else None


def shrink_sequence(pid, law, cases, budget=24, seconds=120):
    """Delta-debug a state-dependent failing sequence; None if it does not fail."""
    t0 = time.time()
    detail = replay_sequence(pid, law, cases)
    if detail is None:
        return None
    chunk = max(1, (len(cases) - 1) // 2)
    while chunk >= 1 and budget > 0 and time.time() - t0 < seconds:
        i = 0
        while i < len(cases) - 1 and budget > 0 and time.time() - t0 < seconds:
            trial = cases[:i] + cases[min(i + chunk, len(cases) - 1):]
            budget -= 1
            d = replay_sequence(pid, law, trial)
            if d is not None:
                cases, detail = trial, d
            else:
                i += chunk
        if chunk == 1:
            break
        chunk //= 2
    return cases, detail


def evidence(pid, tier, seed, check, results, wall, violations):
    labels = {}
    samples = []
    nontrivial = set()
    ev = 0
    skipped = 0
    per_law = {}
    for r in results:
        ev += r["evaluations"]
        skipped += r["skipped"]
        nontrivial |= {r["law"] + d for d in r["nontrivial"]}
        c = labels.setdefault(r["law"], Counter())
        c.update(r["labels"])
        p = per_law.setdefault(r["law"], dict(evaluations=0, skipped=0))
        p["evaluations"] += r["evaluations"]
        p["skipped"] += r["skipped"]
        if len([s for s in samples if s["law"] == r["law"]]) < 3:
            for s in r["samples"][:2]:
                samples.append(dict(law=r["law"], case=s))
    for k, p in per_law.items():
        p["classes"] = dict(labels[k].most_common(25))
    out = dict(property=pid, tier=tier, seed=seed, level="exploration",
               coverage=dict(evaluations=ev, distinct_nontrivial=len(nontrivial),
                             rule=check.rule, samples=samples,
                             out_of_domain=skipped, laws=per_law),
               assumptions=check.assumptions, wall_s=round(wall, 2),
               violations=violations)
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(out, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, pid + ".json"))
    return out


def known_findings():
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                out.append(line)
    return out


class BrokenCode(Exception):
    """The code under test cannot be loaded at all."""


def unloadable(pid, tier, seed, e, wall):
    """Loading a check failed: the code's own fault (its module raised, or its
    frontend sources cannot be bundled), or the check's?"""
    traceback.print_exception(e)
    tb = traceback.extract_tb(e.__traceback__)
    if not (isinstance(e, BrokenCode) or tb and tb[-1].filename.startswith(env.REPO + os.sep)):
        return 2
    detail = "the code cannot be loaded: %s: %s" % (type(e).__name__, e)
    stub = Check(pid, "loading the modules under test is the only case; it failed")
    r = dict(law="import", evaluations=1, skipped=0, labels=Counter(), nontrivial={"import"},
             samples=[detail[:500]], failure=None, error=None)
    evidence(pid, tier, seed, stub, [r], wall, 1)
    path = os.path.join(VERIF, "replays", "%s-import.json" % pid)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(dict(property=pid, law="import", seed=seed, detail=detail, case={}), f, indent=1)
    print("  " + detail)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


QUICK = 2      # quick volumes of the laws are scaled by this


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--law")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--fast", action="store_true", help="stop at the first failure, do not shrink it")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args(argv)
    pid = a.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    try:
        check = load(pid)
    except Exception as e:
        return unloadable(pid, tier, seed, e, time.time() - t0)

    if a.replay:
        rec = json.load(open(a.replay))
        if rec["law"] == "import":
            print("ok import")
            return 0
        for case in rec.get("cases") or [rec["case"]]:
            status, detail = judge(check.get(rec["law"]), case)
            if status in ("violation", "hang"):
                break
        print(status, rec["law"], detail if status in ("violation", "hang") else "")
        if status in ("violation", "hang"):
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        return 0

    tasks = []
    for law in check.laws:
        if a.law and law.name != a.law:
            continue
        total = max(1, int((law.thorough if tier == "thorough" else QUICK * law.quick) * a.scale))
        shards = min(a.jobs, max(1, total // 15))
        if tier == "thorough":
            shards = max(shards, min(64, total // 400))
        for i in range(shards):
            n = total // shards + (1 if i < total % shards else 0)
            # the quick tier answers in time even on a machine many times slower
            tasks.append((pid, law.name, n, _seed_for(seed, pid, law.name, i),
                          t0 + 450 if tier == "quick" else None, a.fast))
    # interleave so that the pool is busy throughout
    results = []
    if a.jobs == 1:
        for t in tasks:
            results.append(run_shard(*t))
            if a.fast and results[-1]["failure"]:
                break
    else:
        with ProcessPoolExecutor(a.jobs, mp_context=get_context("fork")) as ex:
            futures = [ex.submit(run_shard, *t) for t in tasks]
            for f in futures:
                if f.cancelled():
                    continue
                r = f.result()
                results.append(r)
                if r["failure"] and (r.get("hang") or a.fast or time.time() - t0 > 300):
                    # one is enough: do not start what has not been started yet
                    for other in futures:
                        other.cancel()

    if not any(r["failure"] for r in results):
        # A failure that needs earlier cases (state kept between calls) is
        # confirmed and shrunk as a sequence, each trial in a fresh process.
        for r in sorted((r for r in results if r.get("sequence")), key=lambda r: len(r["sequence"]))[:2]:
            got = shrink_sequence(pid, r["law"], r["sequence"])
            if got:
                r["failure"] = dict(cases=got[0], case=got[0][-1],
                                    detail="after %d earlier case(s): %s" % (len(got[0]) - 1, got[1]))
                break
    failures = [r for r in results if r["failure"]]
    errors = [r for r in results if r["error"]]
    wall = time.time() - t0
    ev = evidence(pid, tier, seed, check, results, wall, len({f["law"] for f in failures}))
    print("%s tier=%s seed=%d laws=%d cases=%d nontrivial=%d skipped=%d wall=%.1fs" % (
        pid, tier, seed, len(check.laws), ev["coverage"]["evaluations"],
        ev["coverage"]["distinct_nontrivial"], ev["coverage"]["out_of_domain"], wall))

    if check.known is not None:
        try:
            live = check.known()
        except Exception:     # whatever it is, it is not the known finding
            live = []
        for line in known_findings():
            if "property=%s " % pid in line and any(k in line for k in live):
                print(line)

    if failures:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        seen = set()
        # smallest failing case of each law
        failures.sort(key=lambda r: (r["law"], len(canon(r["failure"]["case"]))))
        for r in failures:
            if r["law"] in seen:
                continue
            seen.add(r["law"])
            path = os.path.join(d, "%s-%s.json" % (pid, r["law"]))
            with open(path, "w") as f:
                json.dump(dict(property=pid, law=r["law"], seed=seed,
                               detail=r["failure"]["detail"],
                               **({"cases": r["failure"]["cases"]} if "cases" in r["failure"]
                                  else {"case": r["failure"]["case"]})), f, indent=1)
            print("  law %s: %s" % (r["law"], r["failure"]["detail"]))
            print("  replay with: ./check %s --replay %s" % (pid, path))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for r in errors[:3]:
            print("HARNESS ERROR in law %s:\n%s" % (r["law"], r["error"]), file=sys.stderr)
        return 2
    # A law that judged (almost) nothing is an error of the check.
    for law in check.laws:
        p = ev["coverage"]["laws"].get(law.name)
        if p and p["evaluations"] == 0 and not any(r.get("cut") for r in results):
            print("HARNESS ERROR: law %s judged no case" % law.name, file=sys.stderr)
            return 2
    return 0

