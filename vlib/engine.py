"""Bounded-exhaustive exploration engine shared by every check.

A check module (checks/<name>.py) defines

    PROPERTY   id of the property it decides
    LEVEL      evidence level
    RULE       how cases are made / what counts as non-trivial
    BOUNDS     text: the bounds of the enumerated space
    def cases(tier): iterable of JSON-serialisable case keys  (the *complete* bounded space)
    def run(case, rec): executes the real code of /repo on one case, calling
        rec.check(cond, label, msg)  / rec.close(a, b, tol, label)   -- property oracles
        rec.state(x) / rec.step(n)                                  -- coverage counters

All cases of the space are executed (never sampled, never time capped).  Every case is executed in a worker process
with a fixed seed, so a violation is replayable:  python -m vlib.engine <check> --replay <file>.
"""

import argparse
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import fcntl

# checks import this module as "vlib.engine", also when it runs as the main program: one set of classes for both names
sys.modules.setdefault("vlib.engine", sys.modules[__name__])

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True


class Violation(Exception):
    pass


class Skip(Exception):
    """Raised by a harness when a case lies outside of the property's domain (e.g. reference did not converge)."""


def digest(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


class Recorder:
    def __init__(self, case):
        self.case = case
        self.states = set()
        self.transitions = 0
        self.checks = 0
        self.traces = 0
        self.violations = []  # (label, message)
        self.notes = []
        self.outcome = []
        self.skipped = None
        self.maxdev = 0.0

    # -- coverage
    def state(self, *x):
        self.states.add(digest(x))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def out(self, *x):
        self.outcome.append(x)

    # -- oracles
    def check(self, cond, label, msg=""):
        self.checks += 1
        if not cond:
            self.fail(label, msg)
            return False
        return True

    def fail(self, label, msg=""):
        if len(self.violations) < 50:
            self.violations.append((str(label), str(msg)[:2000]))

    def close(self, a, b, tol, label, msg=""):
        import numpy as np

        self.checks += 1
        try:
            a = np.asarray(a)
            b = np.asarray(b)
        except Exception as e:  # ragged
            self.fail(label, "cannot compare: %s %s" % (e, msg))
            return False
        if a.shape != b.shape:
            self.fail(label, "shape %s != %s %s" % (a.shape, b.shape, msg))
            return False
        if a.size == 0:
            return True
        if a.dtype == object or b.dtype == object:
            self.fail(label, "object arrays (None?) %r %r %s" % (a, b, msg))
            return False
        dev = float(np.max(np.abs(a - b)))
        if not (dev <= tol):
            self.fail(label, "max deviation %.3e > %.1e: %s vs %s %s" % (dev, tol, _short(a), _short(b), msg))
            return False
        self.maxdev = max(self.maxdev, dev / tol if tol else 0.0)
        return True

    def call(self, label, fn, *args, **kwargs):
        """Call real code which the property requires to succeed; a raised exception is a violation."""
        try:
            return fn(*args, **kwargs)
        except Skip:
            raise
        except Exception as e:
            self.fail(label, "raised %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-6)))
            raise Violation(label)


def _short(a):
    import numpy as np

    if a.size <= 8:
        return np.array2string(a, precision=10)
    i = np.unravel_index(0, a.shape)
    return "array%s[first=%s]" % (a.shape, a[i])


# ---------------------------------------------------------------------------------------------------------------------

_build_msg = ""


def build_repo():
    """(Re)build the C library from /repo's working tree (git-ignored output)."""
    lock = os.path.join(tempfile.gettempdir(), "verif-build.lock")
    with open(lock, "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        res = subprocess.run(["bash", "/opt/vp/build.sh", "--lib"], capture_output=True, text=True)
    if res.returncode != 0:
        print("note: C library did not build:\n" + res.stdout[-2000:] + res.stderr[-2000:])
    return res.returncode == 0


def import_vayesta(quiet=True):
    """Import vayesta from /repo inside a scratch cwd with a controlled command line."""
    import warnings

    warnings.simplefilter("ignore")
    sys.argv = [sys.argv[0], "--quiet", "--no-colors"] if quiet else [sys.argv[0]]
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import vayesta

    assert os.path.realpath(vayesta.__file__) == os.path.realpath(os.path.join(REPO, "vayesta/__init__.py")), (
        vayesta.__file__
    )
    import logging

    logging.getLogger().setLevel(logging.CRITICAL + 10)
    for h in list(logging.getLogger().handlers):
        try:
            h.setLevel(logging.CRITICAL + 10)
        except Exception:
            pass
    vayesta.log.setLevel(logging.CRITICAL + 10)
    for h in list(vayesta.log.handlers):
        h.setLevel(logging.CRITICAL + 10)
    return vayesta


def run_one(mod, case):
    import numpy as np

    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    np.random.seed((seed * 7919 + int(digest(case)[:6], 16)) % (2**32 - 1))
    rec = Recorder(case)
    t0 = time.time()
    try:
        mod.run(case, rec)
    except Violation:
        pass
    except Skip as e:
        rec.skipped = str(e) or "skip"
    except Exception as e:
        rec.fail(
            "exception",
            "unexpected %s while executing the case: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-8)),
        )
    return dict(
        case=case,
        states=sorted(rec.states),
        transitions=rec.transitions,
        checks=rec.checks,
        traces=rec.traces,
        violations=rec.violations,
        skipped=rec.skipped,
        outcome=digest(rec.outcome) if rec.outcome else None,
        outcome_n=len(rec.outcome),
        maxdev=rec.maxdev,
        notes=rec.notes,
        t=time.time() - t0,
    )


_MOD = None


def _worker(case):
    out = io.StringIO()
    old = sys.stdout
    sys.stdout = out
    try:
        return run_one(_MOD, case)
    finally:
        sys.stdout = old


def load_known(prop):
    """Lines  'finding: property=<id> match=<substring> :: <description>'  suppress exactly the violations whose
    '<case-json> | <label>' contains the substring.  Lines 'fixed: ...' suppress nothing."""
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            body = line[len("finding:") :].strip()
            head, _, desc = body.partition(" :: ")
            fields = head.split(" ", 1)
            if fields[0] != "property=" + prop:
                continue
            match = fields[1].strip()
            assert match.startswith("match=")
            res.append((match[len("match=") :], desc))
    return res


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--only", help="substring filter on the case (debugging; evidence is then not exhaustive)")
    ap.add_argument("--nobuild", action="store_true")
    ap.add_argument("--times", action="store_true")
    args = ap.parse_args(argv)
    t0 = time.time()
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if not args.nobuild:
        build_repo()
    scratch = tempfile.mkdtemp(prefix="verif-")
    pyscf_tmp = os.path.join(scratch, "tmp")
    os.mkdir(pyscf_tmp)
    os.environ["PYSCF_TMPDIR"] = pyscf_tmp
    os.environ["TMPDIR"] = pyscf_tmp
    tempfile.tempdir = pyscf_tmp
    os.chdir(scratch)
    rc = 2
    try:
        rc = _main(args, tier, seed, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    return rc


def _main(args, tier, seed, t0):
    global _MOD
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    name = args.check
    pid = name
    mod = None
    try:
        if not getattr(importlib.import_module("checks." + name), "NO_IMPORT", False):
            import_vayesta()
        mod = importlib.import_module("checks." + name)
        pid = mod.PROPERTY
        if hasattr(mod, "setup"):
            mod.setup(tier)
    except Exception as e:
        # The code under test can no longer even be imported / set up: that is a broken tree.
        traceback.print_exc()
        pid = getattr(mod, "PROPERTY", name)
        path = _write_replay(pid, 0, dict(case="<setup>", violations=[("setup", traceback.format_exc())]), tier, seed)
        _evidence(pid, "exploration", tier, seed, t0, [], 0, 1, mod, False)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    _MOD = mod
    if args.replay:
        data = json.load(open(args.replay))
        res = run_one(mod, data["case"])
        print(json.dumps(res, indent=1, default=str))
        if res["violations"]:
            print("VIOLATION property=%s replay=%s" % (pid, args.replay))
            return 1
        return 0
    cases = list(mod.cases(tier))
    ncases = len(cases)
    keys = [json.dumps(c, sort_keys=True) for c in cases]
    assert len(set(keys)) == ncases, "duplicate cases"
    if args.only:
        cases = [c for c, k in zip(cases, keys) if args.only in k]
    results = []
    jobs = max(1, min(args.jobs, len(cases)))
    if hasattr(mod, "cost"):
        cases.sort(key=lambda c: -mod.cost(c))
    if getattr(mod, "SERIAL", False) or jobs == 1:
        for c in cases:
            results.append(_worker(c))
    else:
        results = _parallel(cases, jobs)
    results.sort(key=lambda r: json.dumps(r["case"], sort_keys=True))
    extra = []
    if hasattr(mod, "finish"):
        extra = mod.finish(results, tier) or []
    if args.times:
        for r in sorted(results, key=lambda r: -r["t"])[:15]:
            print("%.2fs maxdev=%.2g %s" % (r["t"], r["maxdev"], json.dumps(r["case"])), file=sys.stderr)
        print("max maxdev", max([r["maxdev"] for r in results] or [0]), "total cpu", sum(r["t"] for r in results), file=sys.stderr)
    known = load_known(pid)
    hit = {}
    nviol = 0
    printed = 0
    if os.environ.get("VERIF_LABELS"):
        import collections
        cnt = collections.Counter()
        exs = {}
        for r in results:
            for label, msg in r["violations"]:
                k = label.split(">")[-1]
                cnt[k] += 1
                exs.setdefault(k, (r["case"], label, msg[-300:]))
        for k, v in cnt.most_common(40):
            print(v, k, exs[k], file=sys.stderr)
        if os.environ["VERIF_LABELS"] != "1":
            with open(os.environ["VERIF_LABELS"], "w") as f:
                json.dump([[r["case"], r["violations"], r.get("skipped")] for r in results], f)
    for i, r in enumerate(results + extra):
        left = []
        for label, msg in r["violations"]:
            full = json.dumps(r["case"], sort_keys=True) + " | " + label
            for m, desc in known:
                if m in full:
                    hit[m] = desc
                    break
            else:
                left.append((label, msg))
        if left:
            nviol += 1
            if printed < 10:
                path = _write_replay(pid, printed, dict(case=r["case"], violations=left), tier, seed)
                print("case %s" % json.dumps(r["case"], sort_keys=True))
                for label, msg in left[:4]:
                    print("   [%s] %s" % (label, msg))
                print("VIOLATION property=%s replay=%s" % (pid, path))
                printed += 1
    for m, desc in hit.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, desc))
    ok = [r for r in results if not r["skipped"]]
    _evidence(pid, mod.LEVEL, tier, seed, t0, results, ncases, nviol, mod, not args.only)
    print(
        "%s %s: %d cases (%d outside the domain), %d states, %d transitions, %d oracle evaluations, %d violating, %.1f s"
        % (
            pid,
            tier,
            len(results),
            len(results) - len(ok),
            len(set(s for r in results for s in r["states"])),
            sum(r["transitions"] for r in results),
            sum(r["checks"] for r in results),
            nviol,
            time.time() - t0,
        )
    )
    return 1 if nviol else 0


def _parallel(cases, jobs):
    """Fork-based pool which survives a dying worker (the case is then reported as a violation) and has a per-case
    watchdog (a case which never ends, e.g. a deadlock, is reported as a violation too)."""
    ctx = mp.get_context("fork")
    limit = getattr(_MOD, "CASE_LIMIT", 400)
    recycle = getattr(_MOD, "RECYCLE", 0)
    results = []
    todo = list(reversed(cases))
    workers = {}

    def serve(conn):
        n = 0
        while True:
            try:
                msg = conn.recv()
            except EOFError:
                os._exit(0)
            if msg is None:
                os._exit(0)
            try:
                res = _worker(msg)
            except BaseException as e:  # KeyboardInterrupt, SystemExit
                res = _dead(msg, "%s: %s" % (type(e).__name__, e))
            conn.send(res)

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=serve, args=(b,))
        p.start()
        b.close()
        workers[a] = dict(p=p, case=None, t=0, n=0)
        return a

    def give(a):
        w = workers[a]
        if recycle and w["n"] >= recycle:
            _stop(a)
            a = spawn()
            w = workers[a]
        if todo:
            w["case"] = todo.pop()
            w["t"] = time.time()
            w["n"] += 1
            a.send(w["case"])
        else:
            _stop(a)

    def _stop(a):
        w = workers.pop(a)
        try:
            a.send(None)
        except Exception:
            pass
        a.close()
        w["p"].join(5)
        if w["p"].is_alive():
            w["p"].kill()
            w["p"].join()

    for _ in range(jobs):
        give(spawn())
    from multiprocessing.connection import wait

    while workers:
        ready = wait(list(workers), timeout=1.0)
        for a in ready:
            try:
                res = a.recv()
                results.append(res)
                give(a)
            except (EOFError, ConnectionError):
                w = workers.pop(a)
                w["p"].join()
                if w["case"] is not None:
                    results.append(_dead(w["case"], "worker process died with exit code %s" % w["p"].exitcode))
                give(spawn())
        now = time.time()
        for a in list(workers):
            w = workers[a]
            if w["case"] is not None and now - w["t"] > limit and a not in ready:
                w["p"].kill()
                w["p"].join()
                workers.pop(a)
                a.close()
                results.append(_dead(w["case"], "no answer within %d s" % limit))
                give(spawn())
    return results


def _dead(case, why):
    return dict(
        case=case, states=[], transitions=0, checks=0, traces=0, violations=[("died", why)], skipped=None,
        outcome=None, outcome_n=0, maxdev=0, notes=[], t=0.0,
    )  # fmt: skip


def _write_replay(pid, n, data, tier, seed):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (pid, n))
    data = dict(data, property=pid, tier=tier, seed=seed, how="python -m vlib.engine <check> --replay this-file")
    with open(path, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return path


def _evidence(pid, level, tier, seed, t0, results, ncases, nviol, mod, complete):
    ok = [r for r in results if not r["skipped"]]
    states = set(s for r in results for s in r["states"])
    samples = []
    pick = ok[:: max(1, len(ok) // 4)][:4] if ok else []
    for r in pick:
        samples.append(dict(case=r["case"], oracle_evaluations=r["checks"], transitions=r["transitions"]))
    cov = dict(
        evaluations=len(results),
        distinct_nontrivial=len([r for r in ok if r["checks"] > 0]),
        oracle_evaluations=sum(r["checks"] for r in results),
        distinct_outcomes=len(set(r["outcome"] for r in ok if r["outcome"])),
        skipped_outside_domain=len(results) - len(ok),
        rule=getattr(mod, "RULE", ""),
        bounds=getattr(mod, "BOUNDS", ""),
        samples=samples or ["none"],
        exhaustive=bool(complete and len(results) == ncases and ncases > 0),
        worst_deviation_over_tolerance=max([r["maxdev"] for r in results] or [0]),
    )
    if level == "model_checking":
        cov["states"] = len(states)
        cov["transitions"] = sum(r["transitions"] for r in results)
        cov["traces_validated_against_impl"] = sum(r["traces"] for r in results)
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level=level,
        coverage=cov,
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=nviol,
    )
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
