"""Decides the property about the code generator: simulated runs of the repository's Python code (see gen/worker.py)"""
import fcntl
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE + "/gen")
import build as simbuild  # noqa: E402
import models  # noqa: E402

PY = "/usr/bin/python3"


def prepare():
    out = simbuild.OUT + "/gsim"
    os.makedirs(out + "/bin", exist_ok=True)
    for src, dst, fl in (("shim.c", "shim.so", ["-shared", "-fPIC"]), ("fakeformat.c", "bin/clang-format", [])):
        simbuild.run(["gcc", "-O2", "-w", *fl, "-o", "%s/%s.%d" % (out, dst, os.getpid()), "%s/gen/%s" % (HERE, src), "-ldl"])
        os.replace("%s/%s.%d" % (out, dst, os.getpid()), "%s/%s" % (out, dst))
    return out


def scratch():
    """a directory whose name is the same in every run, unless others use it"""
    for i in range(64):
        d = "/tmp/gsim-%d" % i
        try:
            lock = os.open(d + ".lock", os.O_RDWR | os.O_CREAT, 0o600)
        except OSError:
            continue
        try:
            fcntl.flock(lock, fcntl.LOCK_EX | fcntl.LOCK_NB)
            if os.path.islink(d):
                raise OSError
            shutil.rmtree(d, ignore_errors=True)
            os.mkdir(d, 0o700)
        except OSError:
            os.close(lock)
            continue
        return d, lock
    return tempfile.mkdtemp(prefix="gsim"), -1


class Pool:
    def __init__(self, tmp, libs, seed, n):
        self.tmp, self.libs = tmp, libs
        self.configs = models.library(seed, n, simbuild.REPO)
        self.k = 0
        self.fixed = shutil.which("setarch")
        if self.fixed and subprocess.run(["setarch", "-R", "true"], capture_output=True).returncode:
            self.fixed = None

    def job(self, mode, hashseed, locale, **kw):
        self.k += 1
        # runs with the same hash seed see the same paths, which their hashes depend on
        d = "%s/w%d" % (self.tmp, self.k) if mode == "refs" else "%s/run%d" % (self.tmp, hashseed)
        os.makedirs(d)
        j = dict(kw, mode=mode, repo=simbuild.REPO, scratch=d, shim=self.libs + "/shim.so", bin=self.libs + "/bin", pyc=self.tmp + "/pyc", warm=self.tmp + "/warm", configs=self.configs, result=d + "/result.json")
        with open(d + "/job.json", "w") as f:
            json.dump(j, f)
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG"))}
        env.update(PYTHONHASHSEED=str(hashseed), LD_PRELOAD=j["shim"], HOME=d)
        env.update(dict(LC_ALL="C", PYTHONCOERCECLOCALE="0", PYTHONUTF8="0") if locale == "C" else dict(LC_ALL=locale))
        cmd = (["setarch", "-R"] if self.fixed else []) + [PY, HERE + "/gen/worker.py", d + "/job.json"]
        with open(d + "/log", "w") as log:
            return d, subprocess.Popen(cmd, env=env, stdout=log, stderr=log, cwd=d)

    def wait(self, d, p):
        rc = p.wait()
        if rc or not os.path.exists(d + "/result.json"):
            with open(d + "/log") as f:
                raise RuntimeError("a worker failed: %s %s" % (rc, f.read()[-3000:]))
        with open(d + "/result.json") as f:
            r = json.load(f)
        shutil.rmtree(d)
        return r

    def refs(self, only=None):
        names = [c["name"] for c in self.configs if only is None or c["name"] in only]
        self.reffiles = []
        n = min(8, len(names))
        ps = []
        for i in range(n):
            f = "%s/refs%d" % (self.tmp, i)
            self.reffiles.append(f)
            ps.append(self.job("refs", 0, "C.UTF-8", only=names[i::n], refs=f))
        for x in ps:
            self.wait(*x)


def uses(h):
    r = {h["cfg"]}
    for s in h["steps"]:
        r.add(s["cfg"])
        if "pair" in s:
            r.add(s["pair"]["cfg"])
    r.update(p[1] for p in h["prior"] if p[0] == "full")
    return r


def replay(rep, path):
    libs = prepare()
    tmp, lock = scratch()
    try:
        pool = Pool(tmp, libs, rep["verif_seed"], rep["models"])
        pool.configs = rep["configs"]
        pool.refs()
        r = pool.wait(*pool.job("replay", rep["hashseed"], rep["locale"], refs=pool.reffiles, history=rep["history"]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if not r["outcome"]:
        print("no violation")
        return 0
    print("\n".join(r["trace"]))
    print("%s: %s" % tuple(r["outcome"]))
    print("reproduced" if r["outcome"][0] == rep["kind"] else "another kind of violation than recorded")
    print("VIOLATION property=%s replay=%s" % (rep["property"], path))
    return 1


def check(prop, tier, seed, cfg):
    t0 = time.time()
    thorough = tier == "thorough"
    libs = prepare()
    tmp, lock = scratch()
    nmod, nhist, nhash, secs = (60, 40000, 200, 2400) if thorough else (16, 960, 24, 40)
    nhist = max(40, int(nhist * float(os.environ.get("SIM_SCALE", "1"))))
    total = {"counters": {}, "runs": 0, "ops": 0, "switches": 0, "twice": 0, "differ": 0, "histories": 0, "nontrivial": 0}
    hashes, samples, viols, bad = set(), [], [], []
    try:
        pool = Pool(tmp, libs, seed, nmod)
        pool.refs()
        t_ref = time.time() - t0
        import pickle
        refused = []
        for f in pool.reffiles:
            with open(f, "rb") as h:
                for k, v in pickle.load(h).items():
                    if v["code"]:
                        refused.append((k, v["text"]))
        if any(not k.startswith("drawn") for k, _ in refused) or len(refused) > nmod // 2:
            print("the generator refuses sound models: %s" % refused[:3])
            return 2
        per = nhist // nhash
        todo = [(hs, "C" if hs % 3 == 2 else "C.UTF-8", list(range(seed * 1000000 + hs * per, seed * 1000000 + (hs + 1) * per))) for hs in range(1, nhash + 1)]
        running = []
        jobs = min(8, os.cpu_count() or 8)
        while (todo and not viols) or running:
            while todo and len(running) < jobs and not viols and time.time() - t0 < secs:
                hs, loc, seeds = todo.pop(0)
                running.append((hs, loc, pool.job("run", hs, loc, refs=pool.reffiles, seeds=seeds, seconds=max(1, secs - (time.time() - t0)))))
            if time.time() - t0 >= secs:
                todo = []
            if not running:
                break
            done = next((x for x in running if x[2][1].poll() is not None), None)
            if not done:
                time.sleep(0.05)
                continue
            running.remove(done)
            r = pool.wait(*done[2])
            for k in total:
                if k == "counters":
                    for a, b in r[k].items():
                        total[k][a] = total[k].get(a, 0) + b
                else:
                    total[k] += r[k]
            hashes.update(r["hashes"])
            samples += r["samples"]
            for v in r["violations"]:
                if len(viols) < 3:
                    viols.append(dict(v, hashseed=done[0], locale=done[1]))
        t_sim = time.time() - t0 - t_ref
        out = []
        for v in viols[:2]:
            s = pool.wait(*pool.job("shrink", v["hashseed"], v["locale"], refs=pool.reffiles, history=v["history"], kind=v["kind"], seconds=20))
            h = s["history"] if s["outcome"] and s["outcome"][0] == v["kind"] else v["history"]
            # the gate: twice again, in fresh processes
            a, b = (pool.wait(*pool.job("replay", v["hashseed"], v["locale"], refs=pool.reffiles, history=h)) for _ in range(2))
            if not a["outcome"] or a["outcome"][0] != v["kind"] or a["outcome"] != b["outcome"] or a["hashes"] != b["hashes"]:
                bad.append("seed %s: %s" % (v["seed"], v["message"][:300]))
                continue
            out.append({"property": prop, "python": True, "seed": v["seed"], "verif_seed": seed, "models": nmod, "hashseed": v["hashseed"], "locale": v["locale"], "kind": v["kind"],
                        "message": a["outcome"][1], "history": h, "configs": [c for c in pool.configs if c["name"] in uses(h)], "trace": a["trace"]})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    rdir = os.path.join(VERIF, "build", "replay")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for v in out:
        p = os.path.join(rdir, "%s-generate-%s.json" % (prop, v["seed"]))
        with open(p, "w") as f:
            json.dump(v, f, indent=1)
        print("%s, seed %d, hash seed %d:\n%s\n%s" % (v["kind"], v["seed"], v["hashseed"], "\n".join(v["trace"]), v["message"]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, p))
    faults = {k[6:]: n for k, n in sorted(total["counters"].items()) if k.startswith("fault:")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total["histories"], "distinct_nontrivial": len(hashes),
            "rule": cfg["rule"] + " A history counts as distinct by the hash of all its file operations, their results, the exit codes and the files left.",
            "samples": samples[:3],
            "simulated_runs_per_hour": int(total["histories"] / max(t_sim, 0.01) * 3600), "seeds_per_hour": int(total["histories"] / max(t_sim, 0.01) * 3600),
            "runs_of_the_generator": total["runs"],
            "simulated_time": "the generator has no timers; progress is counted in file operations: %d" % total["ops"],
            "context_switches": total["switches"],
            "hash_seeds": nhash, "models": len(pool.configs), "models_refused": len(refused),
            "faults_injected": faults, "operations": {k: n for k, n in sorted(total["counters"].items()) if not k.startswith("fault:")},
            "seeds_run_twice": total["twice"], "seeds_that_differed": total["differ"],
            "real_components": cfg["real"], "simulated_components": cfg["stubs"],
        },
        "assumptions": cfg.get("assumptions", []),
        "build_s": round(t_ref, 1), "wall_s": round(time.time() - t0, 1), "violations": len(out),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if out:
        for l in lines:
            print(l)
        return 1
    if bad or total["differ"]:
        print("not reproducible: %s %d of %d repeated seeds differ" % (bad, total["differ"], total["twice"]))
        return 2
    print("%s held in %d histories of %d runs of the generator (%d distinct), %.1f s" % (prop, total["histories"], total["runs"], len(hashes), time.time() - t0))
    return 0
