#!/usr/bin/env python3
"""Decides one property by simulation:  check.py PROPERTY [quick|thorough]
Reproduces a reported violation:        check.py replay FILE

Exit 0: the property held in everything that was explored; 1: it is violated
(a VIOLATION line names the replay file); anything else: no answer.
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "sim"))
sys.dont_write_bytecode = True
import build as simbuild  # noqa: E402
from props import PROPS  # noqa: E402

KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS")


def known_findings(prop):
    """lines "known: property=X workload=W match=REGEX :: description" """
    out = []
    try:
        with open(KNOWN) as f:
            for l in f:
                m = re.match(r"known: property=(\S+) workload=(\S+) match=(.*?) :: (.*)", l)
                if m and m.group(1) == prop:
                    out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    except OSError:
        pass
    return out


def symbolize(exe, text):
    pcs = sorted(set(re.findall(r"0x[0-9a-f]{6,8}\b", text)))
    if not pcs or not exe:
        return text
    tool = next((t for t in ("llvm-symbolizer-18", "llvm-symbolizer", "/usr/lib/llvm-18/bin/llvm-symbolizer") if shutil.which(t)), None)
    names = {}
    try:
        if tool:
            r = subprocess.run([tool, "--obj=" + exe, "--no-inlines", "-s", "-C", *[hex(int(p, 16) - 1) for p in pcs]], capture_output=True, text=True, timeout=60)
            blocks = r.stdout.strip().split("\n\n")
            for p, b in zip(pcs, blocks):
                l = b.split("\n")
                if l and not l[0].startswith("??"):
                    names[p] = "%s (%s)" % (re.sub(r"\(.*", "", l[0])[:90], l[1] if len(l) > 1 else "")
    except (OSError, subprocess.SubprocessError):
        pass
    return re.sub(r"0x[0-9a-f]{6,8}\b", lambda m: names.get(m.group(0), m.group(0)), text)


def plain(streams, path):
    with open(path, "w") as f:
        for s in streams:
            f.write("%d %s\n" % (len(s), " ".join(map(str, s))))


def replay_once(exe, rep, tmp):
    """run one recorded execution in a fresh process"""
    out = os.path.join(tmp, "replay.json")
    cmd = [exe, "--workload", rep["workload"], "--out", out]
    if rep.get("thorough"):
        cmd.append("--thorough")
    if rep.get("streams") is not None:
        p = os.path.join(tmp, "replay.txt")
        plain(rep["streams"], p)
        cmd += ["--replay", p]
    else:
        cmd += ["--exact", str(rep["seed"])]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    if r.returncode not in (0, 1):
        return None
    with open(out) as f:
        return json.load(f)


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    if "python" in rep:
        import gsim
        return gsim.replay(rep, path)
    exe = simbuild.build(rep["program"])
    with tempfile.TemporaryDirectory(prefix="simreplay") as tmp:
        d = replay_once(exe, rep, tmp)
    if d is None:
        print("the simulation itself failed")
        return 2
    if d["kind"] == "none":
        print("no violation")
        return 0
    print(d["trace"])
    print("%s: %s" % (d["kind"], symbolize(exe, d["message"])))
    same = d["kind"] == rep["kind"]
    print("reproduced" if same else "another kind of violation than recorded")
    print("VIOLATION property=%s replay=%s" % (rep["property"], path))
    return 1


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    cfg = PROPS[prop]
    if cfg.get("python"):
        import gsim
        return gsim.check(prop, tier, seed, cfg)
    thorough = tier == "thorough"
    exes = {}
    for prog in dict.fromkeys(r[0] for r in cfg["runs"]):
        exes[prog] = simbuild.build(prog)
    t_build = time.time() - t0
    tot = {}
    counters, per, samples, violations, known_hits = {}, {}, [], [], {}
    il = 0
    twice = differ = 0
    known = known_findings(prop)
    bad = []
    tmp = tempfile.mkdtemp(prefix="sim")
    jobs = min(16, os.cpu_count() or 8)
    scale = float(os.environ.get("SIM_SCALE", "1"))
    t_sim = 0.0
    try:
        for prog, wl, nq, nt in cfg["runs"]:
            count = max(20, int((nt if thorough else nq) * scale))
            base = os.path.join(tmp, wl)
            cmd = [exes[prog], "--workload", wl, "--seed", str(seed), "--count", str(count), "--jobs", str(jobs), "--out", base, "--shrink", "15",
                   "--maxviol", "40" if known else "1", "--budget", "3000" if thorough else str(max(30.0, 240.0 / len(cfg["runs"])))]
            if thorough:
                cmd.append("--thorough")
            t1 = time.time()
            r = subprocess.run(cmd, capture_output=True, text=True)
            dt = time.time() - t1
            t_sim += dt
            if r.returncode:
                print("%s: the simulator failed: %s %s" % (wl, r.returncode, (r.stdout + r.stderr)[-2000:]))
                return 2
            st = {"wall_s": round(dt, 2)}
            ils = set()
            for p in sorted(glob.glob(base + ".[0-9]*")):
                with open(p) as f:
                    d = json.load(f)
                for k in ("runs", "steps", "switches", "syncs", "nontrivial", "threads", "allocs", "events", "twice", "differ"):
                    st[k] = st.get(k, 0) + d[k]
                ils.update(d["il"])
                for k, v in d["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                if d["sample"]:
                    samples.append({"workload": wl, "trace": d["sample"].split("\n")[:40]})
            st["distinct"] = len(ils)
            il += len(ils)
            twice += st["twice"]
            differ += st["differ"]
            per[wl] = st
            for k, v in st.items():
                if k != "wall_s":
                    tot[k] = tot.get(k, 0) + v
            for p in sorted(glob.glob(base + ".viol.*")):
                with open(p) as f:
                    d = json.load(f)
                v = d["v"]
                rep = {"property": prop, "program": prog, "workload": wl, "seed": int(p.rsplit(".", 1)[1]), "verif_seed": seed, "thorough": thorough,
                       "streams": v["streams"], "kind": v["kind"]}
                # gate: the minimised execution, or else the original one, happens again in a fresh process, twice
                got = None
                for alt in (rep, dict(rep, streams=None, kind=None)):
                    a = replay_once(exes[prog], alt, tmp)
                    b = replay_once(exes[prog], alt, tmp)
                    if a and b and a["kind"] != "none" and a == b and alt["kind"] in (None, a["kind"]):
                        got = dict(alt, kind=a["kind"])
                        break
                if not got:
                    bad.append("%s seed %s: %s" % (wl, rep["seed"], d["original_message"][:300]))
                    continue
                got["message"] = symbolize(exes[prog], a["message"])
                got["trace"] = a["trace"].split("\n")
                hit = [k for k in known if k[0] == wl and k[1].search(got["kind"] + ": " + got["message"])]
                if hit:
                    known_hits[hit[0][2]] = known_hits.get(hit[0][2], 0) + 1
                    continue
                violations.append(got)
            if violations:
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    rdir = os.path.join(VERIF, "build", "replay")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for v in violations[:5]:
        p = os.path.join(rdir, "%s-%s-%s.json" % (prop, v["workload"], v["seed"]))
        with open(p, "w") as f:
            json.dump(v, f, indent=1)
        print("%s in workload %s, seed %d:\n%s\n%s" % (v["kind"], v["workload"], v["seed"], "\n".join(v["trace"][-60:]), v["message"]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, p))
    faults = {k[6:]: n for k, n in sorted(counters.items()) if k.startswith("fault:")}
    ops = {k: n for k, n in sorted(counters.items()) if not k.startswith("fault:")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": tot.get("runs", 0),
            "distinct_nontrivial": il,
            "rule": cfg["rule"] + " An execution counts as distinct by the hash of its order of context switches, synchronisation operations and checked results.",
            "samples": samples[:4],
            "simulated_runs_per_hour": int(tot.get("runs", 0) / max(t_sim, 0.01) * 3600),
            "seeds_per_hour": int(tot.get("runs", 0) / max(t_sim, 0.01) * 3600),
            "simulated_time": "the code has no clock or timer; simulated progress is counted in scheduling points (memory accesses and synchronisation operations): %d" % tot.get("steps", 0),
            "context_switches": tot.get("switches", 0), "simulated_threads": tot.get("threads", 0), "allocations_tracked": tot.get("allocs", 0),
            "faults_injected": faults, "operations": ops,
            "seeds_run_twice": twice, "seeds_that_differed": differ,
            "per_workload": per,
            "real_components": cfg["real"], "simulated_components": cfg["stubs"],
        },
        "assumptions": cfg.get("assumptions", []),
        "build_s": round(t_build, 1), "wall_s": round(time.time() - t0, 1), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for text, n in known_hits.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if violations:
        for l in lines:
            print(l)
        return 1
    if bad or differ:
        print("not reproducible: %s %d of %d repeated seeds differ" % (bad, differ, twice))
        return 2
    print("%s held in %d executions (%d distinct and non-trivial), %.1f s" % (prop, tot.get("runs", 0), il, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except simbuild.BuildError as e:
        print("the simulation does not build:\n" + str(e))
        sys.exit(2)
