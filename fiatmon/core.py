"""Job runner, observation recorder and verdicts.

A check module (fiatmon/checks/cNN.py) defines
    RULE            what a case is and what makes it non-trivial (text)
    REQUIRED        {counter name: minimum}  -- fewer observations => inconclusive
    jobs(tier, seed) -> list of JSON-able job descriptions (dicts with a "key")
    run(job, m)     drives FIAT and feeds observations to the monitor m
Verdicts are three-valued: violated (exit 1), held on what was observed (exit 0),
inconclusive (exit 3: a deciding monitor was not reached, or a watchdog fired).
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("FIATMON_EVIDENCE") or os.path.join(VERIF, "evidence")


class Watchdog(BaseException):
    pass


class NoAnswer(BaseException):
    """a job used up its processor time (not wall-clock time)"""


def rng_for(seed, key):
    h = hashlib.sha256(("%d|%s" % (seed, key)).encode()).digest()
    return np.random.RandomState(int.from_bytes(h[:4], "little"))


def short(x, n=400):
    try:
        if isinstance(x, np.ndarray):
            s = np.array2string(x, threshold=12, precision=17)
        else:
            s = repr(x)
    except Exception as e:  # pragma: no cover
        s = "<unprintable %s>" % type(e).__name__
    return s if len(s) <= n else s[:n] + "..."


class Monitor(object):
    """Records observations of one job and judges them on-line."""

    MAXV = 12

    def __init__(self, prop, job, seed, tier):
        self.prop, self.job, self.seed, self.tier = prop, job, seed, tier
        self.key = job["key"]
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.violations = []
        self.nviol = 0
        self.samples = []
        self.maxerr = {}

    # -- observation ---------------------------------------------------
    def rng(self, tag=""):
        return rng_for(self.seed, "%s|%s|%s" % (self.prop, self.key, tag))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def observe(self, oracle, what="", nontrivial=True, n=1, sample=None):
        self.evaluations += n
        self.count("oracle:" + oracle, n)
        if nontrivial:
            self.distinct.add(hashlib.md5(("%s|%s|%s" % (self.key, oracle, what)).encode()).digest()[:8])
        if sample is not None and len(self.samples) < 2:
            self.samples.append({"job": self.key, "oracle": oracle, "what": str(what), "observed": sample})

    def fail(self, oracle, what, detail, mechanism=None):
        self.nviol += 1
        self.count("failed:" + oracle)
        if len(self.violations) < self.MAXV:
            self.violations.append({"oracle": oracle, "what": str(what), "detail": detail,
                                    "mechanism": mechanism or ("%s:%s" % (oracle, self.key)),
                                    "job": self.job, "seed": self.seed, "tier": self.tier})

    def check(self, oracle, ok, what="", detail="", nontrivial=True, sample=None, mechanism=None):
        self.observe(oracle, what, nontrivial, sample=sample)
        if not ok:
            self.fail(oracle, what, detail() if callable(detail) else detail, mechanism)
        return bool(ok)

    def close(self, oracle, got, want, tol, what="", scale=None, mechanism=None, nontrivial=None):
        """max|got-want| <= tol*scale, where scale defaults to max(1,|want|)."""
        got = np.asarray(got, dtype=float) if not isinstance(got, np.ndarray) or got.dtype != float else got
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            self.observe(oracle, what)
            self.fail(oracle, what, "shape %s, expected %s" % (got.shape, want.shape), mechanism)
            return False
        if scale is None:
            scale = max(1.0, float(np.max(np.abs(want))) if want.size else 1.0)
        err = float(np.max(np.abs(got - want))) / scale if want.size else 0.0
        bad = not (err <= tol)
        if nontrivial is None:
            nontrivial = bool(want.size and np.any(np.abs(want) > 0))
        s = None
        if len(self.samples) < 2 and nontrivial:
            s = {"max_rel_error": err, "tol": tol, "entries": int(want.size)}
        self.observe(oracle, what, nontrivial, sample=s)
        if err == err:
            self.maxerr[oracle] = max(self.maxerr.get(oracle, 0.0), err / max(tol, 1e-300))
        if bad:
            d = np.abs(got - want)
            d = np.where(np.isnan(d), np.inf, d)
            idx = np.unravel_index(int(np.argmax(d)), d.shape) if d.size else ()
            self.fail(oracle, what, "max error %.3g (tolerance %.3g, scale %.3g) at index %s: got %.17g expected %.17g"
                      % (err * scale, tol * scale, scale, tuple(int(i) for i in idx), got[idx], want[idx]), mechanism)
        return not bad

    def raises(self, oracle, fn, what="", accept=None, mechanism=None):
        """fn() must raise; an answer is a violation (unless accept(answer))."""
        self.observe(oracle, what)
        try:
            r = fn()
        except Exception as e:
            self.count("raised:" + type(e).__name__)
            return True
        if accept is not None and accept(r):
            return True
        self.fail(oracle, what, "no error raised; returned %s" % short(r, 160), mechanism)
        return False

    def result(self):
        return dict(key=self.key, evaluations=self.evaluations, distinct=list(self.distinct),
                    counters=self.counters, violations=self.violations, nviol=self.nviol,
                    samples=self.samples, maxerr=self.maxerr)


# ----------------------------------------------------------------------
_STATE = {}


def _alarm(signum, frame):
    raise Watchdog()


def _spent(signum, frame):
    raise NoAnswer()


def _frames_in_fiat(tb):
    from fiatmon.loader import REPO
    root = os.path.realpath(REPO) + os.sep
    return [f for f in traceback.extract_tb(tb) if os.path.realpath(f.filename).startswith(root)]


def run_job(args):
    prop, job, seed, tier, limit = args
    mod = _STATE["mod"]
    hooks = _STATE["hooks"]
    m = Monitor(prop, job, seed, tier)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _spent)
    signal.setitimer(signal.ITIMER_REAL, 2.5 * limit)
    signal.setitimer(signal.ITIMER_PROF, limit)
    status, note = "done", ""
    try:
        hooks.begin(m)
        if "siblings" in job:
            # the same judgement on cells that have much in common, one after another in one process
            from fiatmon import geom
            for c in geom.siblings(job["siblings"], m.rng(), job.get("sizes", (1e-5, 1e4))):
                geom.FORCED[job["siblings"]] = c
                m.count("sibling cells")
                mod.run(job, m)
        elif "together" in job:
            # different objects that look alike, one after another in one process
            for s in job["together"]:
                m.count("look-alikes")
                mod.run(dict(job, spec=s), m)
        else:
            mod.run(job, m)
    except Watchdog:
        status, note = "watchdog", "job exceeded %gs" % (2.5 * limit)
    except NoAnswer:
        # processor time, five times what the slowest job needs: FIAT does not terminate on a supported request
        fr = _frames_in_fiat(sys.exc_info()[2])
        if fr:
            m.observe("no-answer", "processor time")
            m.fail("no-answer", "processor time", "no answer after %g s of processor time in %s line %d"
                   % (limit, os.path.basename(fr[-1].filename), fr[-1].lineno), "no-answer:%s" % m.key)
        else:
            status, note = "watchdog", "job used %g s of processor time" % limit
    except MemoryError:
        status, note = "memory", "MemoryError"
    except Exception as e:
        tb = sys.exc_info()[2]
        fr = _frames_in_fiat(tb)
        text = "".join(traceback.format_exception(type(e), e, tb)[-14:])
        m.observe("no-crash", "exception")
        m.fail("no-crash", type(e).__name__,
               ("FIAT raised on a supported request: " if fr else "the oracle could not interpret FIAT's answer: ") + text,
               "no-crash:%s" % m.key)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        hooks.end(m)
        if "siblings" in job:
            from fiatmon import geom
            geom.FORCED.clear()
    r = m.result()
    r["status"], r["note"], r["wall"] = status, note, time.time() - t0
    return r


def load_known(prop):
    """known findings: mechanisms (or ~regex) of recorded defects"""
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == prop]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--procs", type=int, default=int(os.environ.get("FIATMON_PROCS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    if a.selftest:
        import pkgutil
        import fiatmon.checks as cks
        names = [x.name for x in pkgutil.iter_modules(cks.__path__)]
        for n in names:
            importlib.import_module("fiatmon.checks." + n)
        print("fiatmon: %d check modules load" % len(names))
        return
    prop, tier, seed = a.prop, a.tier, a.seed
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()

    only_keys = None
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        prop, tier, seed = rep["property"], rep["tier"], rep["seed"]
        only_keys = set(v["job"]["key"] for v in rep["violations"])

    from fiatmon import loader
    crash = None
    try:
        loader.load()
    except loader.LoadFailure as e:
        print("cannot load the tree under test: %s" % e)
        sys.exit(2)
    except Exception:
        crash = traceback.format_exc()
    if crash is not None:
        # the library cannot even be imported: nothing was observed
        print("INCONCLUSIVE property=%s: importing FIAT failed\n%s" % (prop, crash))
        sys.exit(3)

    mod = importlib.import_module("fiatmon.checks." + prop.lower())
    from fiatmon import hooks
    hooks.install(prop)
    _STATE["mod"], _STATE["hooks"] = mod, hooks

    jobs = list(mod.jobs(tier, seed))
    keys = [j["key"] for j in jobs]
    assert len(set(keys)) == len(keys), "duplicate job keys: %s" % [k for k in keys if keys.count(k) > 1][:3]
    if only_keys is not None:
        jobs = [j for j in jobs if j["key"] in only_keys]
    if a.only:
        jobs = [j for j in jobs if re.search(a.only, j["key"])]
    limit = getattr(mod, "JOB_LIMIT", {"quick": 150, "thorough": 600})[tier]
    budget = {"quick": 780, "thorough": 6 * 3600}[tier]
    jobs.sort(key=lambda j: -j.get("cost", 1))
    args = [(prop, j, seed, tier, limit) for j in jobs]

    results = []
    if a.procs > 1 and len(jobs) > 1:
        ctx = mp.get_context("fork")
        pool = ctx.Pool(min(a.procs, len(jobs)), maxtasksperchild=getattr(mod, "TASKS_PER_CHILD", None))
        it = pool.imap_unordered(run_job, args, chunksize=1)
        pending = set(j["key"] for j in jobs)
        while pending:
            left = budget - (time.time() - t0)
            try:
                r = it.next(timeout=max(1.0, left))
            except mp.TimeoutError:
                break
            except StopIteration:
                break
            results.append(r)
            pending.discard(r["key"])
        for k in pending:
            results.append(dict(key=k, evaluations=0, distinct=[], counters={}, violations=[], nviol=0, samples=[],
                                maxerr={}, status="unexplored", note="overall budget exhausted", wall=0.0))
        pool.terminate()
        pool.join()
    else:
        results = [run_job(x) for x in args]
    results.sort(key=lambda r: r["key"])
    verdict(prop, tier, seed, mod, jobs, results, t0, a)


def verdict(prop, tier, seed, mod, jobs, results, t0, a):
    counters, distinct, maxerr = {}, set(), {}
    evaluations = 0
    samples = []
    viols = []
    inconclusive, unexplored = [], []
    nviol = 0
    for r in results:
        evaluations += r["evaluations"]
        distinct.update(r["distinct"])
        nviol += r["nviol"]
        viols += r["violations"]
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r["maxerr"].items():
            maxerr[k] = max(maxerr.get(k, 0), v)
        if r["status"] == "unexplored":
            unexplored.append(r["key"])
        elif r["status"] != "done":
            inconclusive.append("%s: %s %s" % (r["key"], r["status"], r["note"]))
    step = max(1, len(results) // 12)
    for r in results[::step]:
        samples += r["samples"][:1]

    known = load_known(prop)
    fresh, seen_known = [], {}
    for v in viols:
        k = next((k for k in known if (re.fullmatch(k["mechanism"][1:], v["mechanism"])
                                       if k["mechanism"].startswith("~") else k["mechanism"] == v["mechanism"])), None)
        if k is None:
            fresh.append(v)
        else:
            seen_known.setdefault(k["mechanism"], k)

    partial = bool(a.only or a.replay)
    missing = []
    if not partial:
        for name, lo in getattr(mod, "REQUIRED", {}).items():
            if counters.get(name, 0) < lo:
                missing.append("%s: %d observed, at least %d needed" % (name, counters.get(name, 0), lo))
        if not evaluations:
            missing.append("no oracle was evaluated")
        if len(unexplored) > len(jobs) // 2:
            missing.append("%d of %d jobs were not run within the time" % (len(unexplored), len(jobs)))

    cov = dict(evaluations=evaluations, distinct_nontrivial=len(distinct), rule=mod.RULE,
               samples=samples[:12] or [{"note": "no sample"}],
               jobs=len(jobs), events={k: v for k, v in sorted(counters.items())},
               worst_error_over_tolerance={k: float("%.3g" % v) for k, v in sorted(maxerr.items())},
               slowest_jobs=[[r["key"], round(r["wall"], 1)] for r in sorted(results, key=lambda r: -r["wall"])[:12]],
               inconclusive=inconclusive[:20], jobs_not_run_for_lack_of_time=len(unexplored), known_findings_seen=sorted(seen_known))
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2),
              violations=len(fresh))
    if not partial:
        os.makedirs(os.path.join(EVIDENCE), exist_ok=True)
        tmp = os.path.join(EVIDENCE, ".%s.%d.tmp" % (prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(EVIDENCE, prop + ".json"))

    print("%s %s seed=%d: %d jobs, %d oracle evaluations, %d distinct non-trivial, %.1fs"
          % (prop, tier, seed, len(jobs), evaluations, len(distinct), time.time() - t0))
    if unexplored:
        print("  %d jobs were not run for lack of time (overloaded machine); what was explored is in the evidence" % len(unexplored))
    if a.v:
        for k, v in sorted(counters.items()):
            print("   %-50s %d" % (k, v))
        for k, v in sorted(maxerr.items()):
            print("   worst error/tolerance %-35s %.3g" % (k, v))
        for k in cov["slowest_jobs"]:
            print("   slow", k)
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if fresh:
        path = os.path.join(EVIDENCE, "replay-%s.json" % prop)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=seed,
                           how="./check %s --replay %s" % (prop, path), violations=fresh[:60]), f, indent=1, default=str)
        for v in fresh[:60 if a.v else 6]:
            print("  [%s] %s :: %s\n      %s" % (v["oracle"], v["job"]["key"], v["what"], str(v["detail"])[:1500].strip()))
        print("  %d observations violated the property" % nviol)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.stdout.flush()
        os._exit(1)
    stale = os.path.join(EVIDENCE, "replay-%s.json" % prop)
    if not partial and os.path.exists(stale):
        os.remove(stale)
    if inconclusive or missing:
        for x in inconclusive[:10] + missing:
            print("INCONCLUSIVE property=%s %s" % (prop, x))
        sys.stdout.flush()
        os._exit(3)
    print("OK property=%s held on everything observed" % prop)
    sys.stdout.flush()
    os._exit(0)
