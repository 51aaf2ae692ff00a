"""Runner for property checks: Hypothesis-driven sub-checks, shards, replay files, evidence, known findings."""
import argparse
import hashlib
import json
import multiprocessing
import os
import resource
import signal
import struct
import sys
import time
import traceback

from . import mp4lib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REAL_TIME = time.time


class Violation(Exception):
    "The property is broken on this case."

    def __init__(self, key, msg):
        Exception.__init__(self, "%s: %s" % (key, msg))
        self.key = key
        self.msg = msg


def check(cond, key, msg=""):
    if not cond:
        raise Violation(key, msg() if callable(msg) else msg)


def eq(a, b, key, what=""):
    if a != b:
        raise Violation(key, "%s: got %r, expected %r" % (what, a, b))


class Stats:
    def __init__(self):
        self.evals = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self._nt = False

    def nt(self, flag=True):
        "Mark the current case as non-trivial."
        if flag:
            self._nt = True

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n


class Sub:
    "A sub-check: name, strategy of JSON-able cases, func(case, stats), example counts (total over shards)."

    def __init__(self, name, strategy, func, quick=400, thorough=20000, rule="", fixed=()):
        self.name = name
        self.strategy = strategy
        self.func = func
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.fixed = list(fixed)


def canon(case):
    return json.dumps(case, sort_keys=True)


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


# Exceptions that a check function can only meet when the observed output is malformed.
UNEXPECTED = (ValueError, KeyError, IndexError, TypeError, AttributeError, AssertionError, ArithmeticError, StopIteration,
              struct.error, mp4lib.Mp4Error)


class Inconclusive(Exception):
    pass


class Hang(BaseException):
    "A case used more CPU time than any case can need."


HANG_S = 40        # CPU seconds for a single case; the slowest ones need well below one second
MEM = 3 << 30


def _hang(_sig, _frm):
    raise Hang()


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-5:]))


def _from_repo(e):
    root = os.path.abspath(os.environ.get("VERIF_REPO", "/repo")) + os.sep
    return any(os.path.abspath(f.filename).startswith(root) for f in traceback.extract_tb(e.__traceback__))


def run_case(sub, case, stats):
    """Run one case: raises Violation, or HarnessError-like exceptions.

    Exceptions that come from code under test inside a check function are wrapped by the check itself."""
    stats._nt = False
    old = signal.signal(signal.SIGPROF, _hang)
    signal.setitimer(signal.ITIMER_PROF, HANG_S, 5)
    try:
        sub.func(case, stats)
    except Violation:
        raise
    except (Hang, MemoryError) as e:
        raise Violation("no-answer", "the case does not end (%s) at %s" % (type(e).__name__, _where(e)))
    except UNEXPECTED as e:   # what was observed is not even of the expected form
        raise Violation("malformed-%s" % type(e).__name__, "%s: %s at %s" % (type(e).__name__, e, _where(e)))
    except Exception as e:
        if isinstance(e, (ImportError, OSError)) and not _from_repo(e):
            raise
        if type(e).__module__.split(".")[0] not in ("hypothesis", "vlib"):
            raise Violation("raised-%s" % type(e).__name__, "%s: %s at %s" % (type(e).__name__, e, _where(e)))
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    stats.evals += 1
    if stats._nt:
        h = hashlib.sha1((sub.name + canon(case)).encode()).hexdigest()[:16]
        if h not in stats.nontrivial:
            stats.nontrivial.add(h)
            if len(stats.nontrivial) in (1, 8, 40, 120):
                stats.samples.append({"sub": sub.name, "case": case})


def shard(args):
    "One shard of one sub-check. Returns a result dict."
    modname, subname, n, seed, deadline_s, known, tmain = args
    out = {"sub": subname, "viol": None, "err": None}
    stats = Stats()
    t0 = time.monotonic()
    if deadline_s < 600 and t0 - tmain > 500:   # only reached when earlier shards did not end in time
        out.update(evals=0, nontrivial=set(), labels={}, samples=[], timeout=True)
        return out
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, resource.getrlimit(resource.RLIMIT_AS)[1]))
        import importlib
        import hypothesis
        from hypothesis import HealthCheck, Phase, settings
        from hypothesis.errors import Flaky
        import hypothesis.internal.conjecture.engine as engine
        engine.MAX_SHRINKING_SECONDS = 40
        sys.path.insert(0, HERE)
        mod = importlib.import_module(modname)
        sub = [s for s in mod.SUBS if s.name == subname][0]
        best = {}
        state = {"timeout": False, "known": {}}

        def body(case):
            if time.monotonic() - t0 > deadline_s and not best:
                state["timeout"] = True
                return
            try:
                run_case(sub, case, stats)
            except Violation as v:
                for k in known:
                    if k.get("key") == v.key and (k.get("sub") in (None, subname)) and \
                            (k.get("match") is None or k["match"] in v.msg):
                        state["known"][k["id"]] = v.msg
                        return
                sz = len(canon(case))
                if "case" not in best or sz <= best["size"]:
                    best.update(case=case, key=v.key, msg=v.msg, size=sz)
                raise

        for case in (sub.fixed if seed[1] == 0 else []):
            body(case)
        strat = sub.strategy() if callable(sub.strategy) else sub.strategy
        test = hypothesis.given(strat)(body)
        test = hypothesis.settings(max_examples=max(1, n), database=None, deadline=None, derandomize=False,
                                   suppress_health_check=list(HealthCheck),
                                   phases=[Phase.generate, Phase.shrink], print_blob=False,
                                   report_multiple_bugs=False)(test)
        test = hypothesis.seed(seed[0] * 1000003 + seed[1] * 7919 + int(hashlib.sha1(subname.encode()).hexdigest()[:6], 16))(test)
        devnull = open(os.devnull, "w")
        err = sys.stderr
        try:
            test()
        except Violation:
            pass
        except Flaky:
            if not best:
                raise
        finally:
            sys.stderr = err
            devnull.close()
        if best:
            out["viol"] = best
        out["timeout"] = state["timeout"]
        out["known"] = state["known"]
    except Violation as v:
        out["viol"] = {"case": best.get("case"), "key": v.key, "msg": v.msg}
    except BaseException as e:  # noqa: BLE001
        if "best" in dir() and best:
            out["viol"] = best
        else:
            out["err"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())
    out["evals"] = stats.evals
    out["nontrivial"] = stats.nontrivial
    out["labels"] = stats.labels
    out["samples"] = stats.samples
    try:
        from . import content
        content.cleanup()
    except Exception:
        pass
    return out


def write_replay(pid, sub, viol):
    d = os.environ.get("VERIF_REPLAYS") or os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s_%s_%s.json" % (pid, sub, hashlib.sha1(canon(viol["case"]).encode()).hexdigest()[:8])
    p = os.path.join(d, name)
    with open(p, "w") as f:
        json.dump({"property": pid, "sub": sub, "key": viol["key"], "msg": viol["msg"], "case": viol["case"]}, f, indent=1)
    return p


def main(pid, argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    os.environ["TZ"] = "AAA-3:30BBB,M3.2.0,M11.1.0"  # Nothing may depend on the time zone of the server
    time.tzset()
    t0 = time.monotonic()
    tier = "thorough" if a.thorough or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    modname = "checks." + pid.lower()
    sys.path.insert(0, HERE)
    known = [k for k in load_known() if k.get("property") == pid]
    if a.replay:
        return replay(pid, modname, a.replay)
    import importlib
    mod = importlib.import_module(modname)
    subs = [s for s in mod.SUBS if not a.sub or s.name == a.sub]
    ncores = max(1, min(a.jobs, os.cpu_count() or 1))
    tasks = []
    cap = 1500 if tier == "thorough" else 150
    for s in subs:
        total = int((3 * s.quick if tier == "quick" else s.thorough) * a.scale)
        per = max(25, total // ncores) if total >= 50 else total
        k = 0
        left = total
        while left > 0:
            n = min(per, left)
            tasks.append((modname, s.name, n, (seed, k), cap, known, t0))
            left -= n
            k += 1
    results = []
    ctx = multiprocessing.get_context("fork")
    from concurrent.futures import ProcessPoolExecutor
    errs = []
    viols = []
    with ProcessPoolExecutor(max_workers=ncores, mp_context=ctx) as ex:
        for r in ex.map(shard, tasks):
            results.append(r)
    stats = {"evals": 0, "nt": set(), "labels": {}, "samples": [], "subs": {}}
    timeouts = 0
    knownhit = {}
    for r in results:
        stats["evals"] += r["evals"]
        stats["nt"] |= r["nontrivial"]
        sb = stats["subs"].setdefault(r["sub"], {"evaluations": 0, "nontrivial": set(), "labels": {}})
        sb["evaluations"] += r["evals"]
        sb["nontrivial"] |= r["nontrivial"]
        for k, v in r["labels"].items():
            sb["labels"][k] = sb["labels"].get(k, 0) + v
        if len([s for s in stats["samples"] if s["sub"] == r["sub"]]) < 2:
            stats["samples"] += r["samples"][-1:]
        timeouts += 1 if r.get("timeout") else 0
        knownhit.update(r.get("known") or {})
        if r["err"]:
            errs.append((r["sub"], r["err"]))
        if r["viol"]:
            viols.append((r["sub"], r["viol"]))
    # known findings are re-run from their stored inputs so that they are reported on every run
    for k in known:
        if k.get("status") == "fixed" or "case" not in k:
            continue
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": stats["evals"], "distinct_nontrivial": len(stats["nt"]),
                       "rule": " | ".join("%s: %s" % (s.name, s.rule) for s in subs),
                       "samples": stats["samples"][:12],
                       "per_sub_check": {k: {"evaluations": v["evaluations"], "distinct_nontrivial": len(v["nontrivial"]),
                                             "labels": dict(sorted(v["labels"].items()))}
                                         for k, v in sorted(stats["subs"].items())},
                       "shards_stopped_by_time_limit": timeouts},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.monotonic() - t0, 2), "violations": len(viols)}
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    rc = 0
    if viols:
        seen = set()
        viols.sort(key=lambda x: len(canon(x[1].get("case"))))
        for sname, v in viols:
            if (sname, v["key"]) in seen:
                continue
            seen.add((sname, v["key"]))
            p = write_replay(pid, sname, v)
            print("VIOLATION property=%s replay=%s" % (pid, p))
            print("  %s/%s %s" % (sname, v["key"], v["msg"][:1500]))
        rc = 1
    elif errs:
        for sname, e in errs[:3]:
            print("HARNESS ERROR in %s: %s" % (sname, e))
        rc = 2
    print("%s %s seed=%d evaluations=%d nontrivial=%d wall=%.1fs rc=%d" % (
        pid, tier, seed, stats["evals"], len(stats["nt"]), time.monotonic() - t0, rc))
    return rc


def replay(pid, modname, path):
    import importlib
    with open(path) as f:
        rp = json.load(f)
    mod = importlib.import_module(modname)
    sub = [s for s in mod.SUBS if s.name == rp["sub"]][0]
    try:
        run_case(sub, rp["case"], Stats())
    except Violation as v:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s %s" % (v.key, v.msg))
        return 1
    print("replay of %s: property held" % path)
    return 0
