#!/usr/bin/env python3
"""mutate.py [ID or PROPERTY ...]: applies each change of tools/mutants/*.py to a private copy of
/repo's tree and runs the quick check of its property against it. Only for developing the checks."""
import glob, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
M = {}


def m(id, prop, edits, note=""):
    assert id not in M, id
    M[id] = (prop, edits, note)


def main():
    for p in sorted(glob.glob(HERE + "/mutants/*.py")):
        exec(compile(open(p).read(), p, "exec"), {"m": m})
    for p in sorted(glob.glob(HERE + "/seeds/*.py")):
        exec(compile(open(p).read(), p, "exec"), {"seed": lambda id, prop, edits, *_, **__: m(id, prop, edits), "HERE": HERE})
    want = [a for a in sys.argv[1:] if not a.startswith("-")]
    tmp = tempfile.mkdtemp(prefix="mutate", dir="/tmp")
    r = tmp + "/r"
    env = dict(os.environ, SIM_REPO=r, SIM_BUILD=os.environ.get("MUTBUILD", "/tmp/mutbuild"), VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    res = []
    try:
        for id, (prop, edits, note) in M.items():
            if want and not any(w in (id, prop) or id.startswith(w + "-") for w in want):
                continue
            shutil.rmtree(r, ignore_errors=True)
            subprocess.run("mkdir -p %s && git -C %s archive HEAD | tar x -C %s" % (r, os.environ.get("MUTREPO", "/repo"), r), shell=True, check=True)
            bad = None
            for f, old, new in edits:
                t = open(f"{r}/{f}").read()
                if t.count(old) != 1:
                    bad = f"{f}: text occurs {t.count(old)} times: {old[:60]!r}"
                    break
                open(f"{r}/{f}", "w").write(t.replace(old, new))
            if bad:
                print(f"{id}: {bad}", flush=True)
                continue
            t0 = time.time()
            if "-n" in sys.argv:
                continue
            p = subprocess.run(["python3", V + "/check.py", prop, "quick"], env=env, capture_output=True, text=True)
            dt = time.time() - t0
            if p.returncode == 1 and f"VIOLATION property={prop} " in p.stdout:
                line = [l for l in p.stdout.splitlines() if l and not l.startswith(("[", "VIOL", "KNOWN"))]
                s = "CAUGHT   %s" % (line[0][:110] if line else "")
            else:
                s = "MISSED(%d) %s" % (p.returncode, (p.stdout + p.stderr).strip().splitlines()[-1][:160] if p.returncode else "")
            print("%-38s %s %3.0fs %s" % (id, prop, dt, s), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
