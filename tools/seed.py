"""Helpers for planted bugs (development only; no check uses this).

  seed.py make DEF.py...   create seeded/<id>/ from definition files (ID, PROPERTY, EDITS, DEMO, NEEDS, BREAKS)
  seed.py test ID...       full confirmation in a scratch copy: applies, demo passes/fails, stable tests pass
  seed.py demo ID...       only the demo part
  seed.py check ID...      runs the property's quick check against the patched scratch copy
"""
import json, os, shutil, subprocess, sys, tempfile, ast, glob, runpy

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")
DEMO_SH = """#!/bin/bash
# cwd: the repository. exit 0: behaviour is right
REPO="$PWD"
HERE="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 2
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
export PYTHONPATH="$REPO" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 TMPDIR="$T" PYSCF_TMPDIR="$T"
/opt/venv/bin/python -W ignore "$HERE/demo.py" --quiet
"""


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def make(f):
    d = runpy.run_path(f)
    wt = tempfile.mkdtemp(prefix="seedmk-")
    try:
        sh("git", "-C", "/repo", "worktree", "prune")
        assert sh("git", "clone", "-q", "/repo", wt + "/r").returncode == 0
        for path, old, new in d["EDITS"]:
            p = os.path.join(wt, "r", path)
            s = open(p).read()
            assert s.count(old) == 1, (d["ID"], path, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git", "-C", wt + "/r", "diff").stdout
    finally:
        shutil.rmtree(wt)
    out = os.path.join(SEED, d["ID"])
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.sh", "w").write(DEMO_SH)
    open(out + "/demo.py", "w").write(d["DEMO"].lstrip("\n"))
    json.dump(dict(property=d["PROPERTY"], needs=d["NEEDS"], what_it_breaks=d["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
    print("made", d["ID"])


def copy(id):
    wt = tempfile.mkdtemp(prefix="seedt-")
    subprocess.run(["cp", "-a", "/repo", wt + "/repo"], check=True)
    sh("git", "-C", wt + "/repo", "checkout", "--", ".")
    return wt, wt + "/repo"


def demo(id, r):
    e = dict(os.environ)
    e.pop("PYTHONPATH", None)
    return subprocess.run(["bash", os.path.join(SEED, id, "demo.sh")], cwd=r, env=e, capture_output=True, text=True, timeout=300)


def test(id, tests=True):
    wt, r = copy(id)
    try:
        a = demo(id, r)
        ap = sh("git", "-C", r, "apply", os.path.join(SEED, id, "patch.diff"))
        if ap.returncode:
            print(id, "DOES NOT APPLY", ap.stderr)
            return
        # rebuild C library of the copy if touched
        if "/libs/" in open(os.path.join(SEED, id, "patch.diff")).read():
            sh("bash", "-c", "cd %s && rm -rf build/cmake && cmake -S vayesta/libs -B build/cmake -DCMAKE_C_COMPILER=/usr/bin/gcc -DCOMPILER_SUPPORTS_MARCH_NATIVE=OFF -DCMAKE_POLICY_VERSION_MINIMUM=3.5 && cmake --build build/cmake" % r)
        b = demo(id, r)
        print(id, "demo unchanged rc=%d, patched rc=%d" % (a.returncode, b.returncode), (a.stderr[-400:] if a.returncode else ""), (b.stdout + b.stderr)[-300:])
        if not tests:
            return
        e = dict(os.environ, PYTHONPATH=r + ":/opt/vp/plugins", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONHASHSEED="0")
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=600", "--continue-on-collection-errors", "-n", "8", "--dist", "loadscope", "--no-loadscope-reorder", "--override-ini=junit_family=xunit2", "--junitxml=" + wt + "/j.xml", "vayesta/tests"], cwd=r, env=e, capture_output=True)
        sh("/usr/bin/python3", "/opt/vp/results.py", wt + "/o.json", "junit:" + wt + "/j.xml")
        res = json.load(open(wt + "/o.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("passed") or base.get("stable") or base
        miss = [t for t in stable if t not in set(res["passed"])]
        print(id, "TESTS", len(res["passed"]), "stable not passing:", miss[:6], len(miss))
    finally:
        shutil.rmtree(wt)


def check(id, extra):
    wt, r = copy(id)
    try:
        ap = sh("git", "-C", r, "apply", os.path.join(SEED, id, "patch.diff"))
        assert ap.returncode == 0, ap.stderr
        prop = json.load(open(os.path.join(SEED, id, "meta.json")))["property"]
        man = json.load(open(V + "/MANIFEST.json"))
        names = [c["quick_cmd"].split()[2] for c in man["checks"] if c["property"] == prop] + extra
        for n in names:
            p = sh("bash", V + "/run.sh", n, "--nobuild", env=dict(os.environ, VERIF_REPO=r), cwd=V)
            print(id, prop, n, "rc", p.returncode, "CAUGHT" if p.returncode == 1 and "VIOLATION property=" in p.stdout else "MISSED", p.stdout.strip().splitlines()[-1:])
            if "-v" in sys.argv:
                print(p.stdout[:3000])
    finally:
        shutil.rmtree(wt)


cmd, args = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("-")]
if args == ["all"]:
    args = sorted(os.listdir(SEED))
for a in args:
    if cmd == "make":
        make(a)
    elif cmd == "test":
        test(a)
    elif cmd == "demo":
        test(a, False)
    elif cmd == "check":
        check(a, [])
