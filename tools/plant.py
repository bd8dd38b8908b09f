"""Plant a bug: make and confirm a folder of seeded/.

  plant.py make FILE.py     FILE.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new), ...], demo)]
  plant.py verify ID ...    patch applies, the stable tests pass, demo.sh passes without and fails with the patch
  plant.py check ID ...     run the quick check of the bug's property (or --props C01,C02) against the patched copy

All of it works on a scratch copy of /repo; nothing here is used by a check.
"""
import json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
PY = "/opt/venv/bin/python"
DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg QT_QPA_PLATFORM=offscreen OPENBLAS_NUM_THREADS=1
SCRATCH=$(mktemp -d) || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
export SCRATCH MPLCONFIGDIR="$SCRATCH/mpl" TMPDIR="$SCRATCH"
PYTHONPATH="$PWD" timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def scratch():
    d = tempfile.mkdtemp(prefix="plant_")
    r = os.path.join(d, "repo")
    subprocess.check_call(["cp", "-a", "/repo", r])
    subprocess.check_call(["git", "-C", r, "checkout", "-q", "--", "."])
    return d, r


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    for b in ns["BUGS"]:
        d, r = scratch()
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(r, f)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            out = os.path.join(SEEDED, b["id"])
            os.makedirs(out, exist_ok=True)
            diff = subprocess.check_output(["git", "-C", r, "diff"], text=True)
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            open(os.path.join(out, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            open(os.path.join(out, "demo.py"), "w").write(b["demo"].lstrip("\n"))
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
        finally:
            shutil.rmtree(d)
        verify(b["id"])


def demo(i, r):
    d = tempfile.mkdtemp(prefix="plantdemo_")
    try:
        for f in os.listdir(os.path.join(SEEDED, i)):
            if f not in ("patch.diff", "meta.json"):
                shutil.copy(os.path.join(SEEDED, i, f), d)
        p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=r, capture_output=True, text=True)
        return p
    finally:
        shutil.rmtree(d)


def tests(r):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="agg",
               QT_QPA_PLATFORM="offscreen", PYTHONPATH=r, HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(r, "..", "hyp"))
    x = os.path.join(r, "..", "j.xml")
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--hypothesis-profile=ci",
                    "-o", "junit_family=xunit2", "--junitxml=" + x, "tests"], cwd=r, env=env, capture_output=True)
    o = os.path.join(r, "..", "o.json")
    subprocess.run([PY, "/opt/vp/results.py", o, "junit:" + x], capture_output=True)
    passed = set(json.load(open(o))["passed"])
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed)


def verify(i):
    d, r = scratch()
    try:
        a = demo(i, r)
        subprocess.check_call(["git", "-C", r, "apply", os.path.join(SEEDED, i, "patch.diff")])
        b = demo(i, r)
        failed = tests(r)
        ok = a.returncode == 0 and b.returncode != 0 and not failed
        print("%-28s %s clean=%d patched=%d tests_failed=%s" % (i, "OK " if ok else "BAD", a.returncode, b.returncode, failed), flush=True)
        if a.returncode != 0:
            print(a.stdout[-500:], a.stderr[-2500:])
        elif b.returncode != 0:
            print("    ", (b.stderr.strip() or b.stdout.strip()).splitlines()[-1][:220], flush=True)
        return ok
    finally:
        shutil.rmtree(d)


def note(i, p, run, caught, seed):
    """tools/caught.json: bug -> check -> run that found it (seed 1)"""
    if seed != "1":
        return
    import fcntl
    fn = os.path.join(VERIF, "tools", "caught.json")
    with open(os.path.join(VERIF, "build", "caught.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        d = json.load(open(fn)) if os.path.exists(fn) else {}
        e = d.setdefault(i, {})
        e.pop(p, None)
        if caught:
            e[p] = run
        json.dump(d, open(fn, "w"), indent=0, sort_keys=True)


def check(i, props=None, seed="1"):
    meta = json.load(open(os.path.join(SEEDED, i, "meta.json")))
    d, r = scratch()
    try:
        subprocess.check_call(["git", "-C", r, "apply", os.path.join(SEEDED, i, "patch.diff")])
        for p in props or [meta["property"]]:
            q = subprocess.run([sys.executable, "run.py", "check", p, "--seed", seed], cwd=VERIF, capture_output=True, text=True,
                               env=dict(os.environ, SIM_REPO=r))
            line = [l for l in q.stdout.splitlines() if l.startswith("VIOLATION")]
            run = re.search(r"violation in run (\d+)", q.stdout)
            note(i, p, int(run.group(1)) if run else None, bool(line) and q.returncode == 1, seed)
            print("%-28s %s rc=%d %s" % (i, p, q.returncode, line[:1] or ("MISSED" if q.returncode == 0 else (q.stdout + q.stderr)[-800:])), flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    props = None
    if "--props" in args:
        k = args.index("--props")
        props = args[k + 1].split(",")
        del args[k:k + 2]
    if cmd == "make":
        make(args[0])
    else:
        for i in args or sorted(os.listdir(SEEDED)):
            if cmd == "verify":
                verify(i)
            else:
                check(i, props)
