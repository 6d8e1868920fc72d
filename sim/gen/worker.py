"""One simulated process tree of the code generator. Started by gsim.py with a hash seed, a locale and the shim below it;
every run of the generator is a fork of this process that has loaded nothing of the repository yet."""
import ctypes
import hashlib
import json
import os
import pickle
import random
import runpy
import shutil
import signal
import sys
import time

# what the generator needs of the system; loaded once
import argparse  # noqa: F401
import collections  # noqa: F401
import copy  # noqa: F401
import re  # noqa: F401
import subprocess  # noqa: F401
import tempfile  # noqa: F401
import jinja2  # noqa: F401
import jinja2.ext  # noqa: F401
import yaml  # noqa: F401

KINDS = ["open", "create", "read", "write", "close", "close-written", "mkdir", "rename", "unlink", "truncate", "sync"]
ERRS = {"EIO": 5, "ENOSPC": 28, "EACCES": 13, "EROFS": 30, "EMFILE": 24, "EDQUOT": 122, "EINTR": 4, "ENOMEM": 12}
ACTS = {"error": 1, "short": 2, "crash": 3, "torn": 4}
MAYFAIL = {"open": ["EIO", "EACCES", "EMFILE"], "create": ["ENOSPC", "EACCES", "EROFS", "EIO", "EMFILE"], "read": ["EIO"], "write": ["EIO", "ENOSPC", "EDQUOT"],
           "close-written": ["EIO", "ENOSPC"], "mkdir": ["ENOSPC", "EACCES", "EROFS"], "rename": ["EIO", "ENOSPC"]}


class Log(ctypes.Structure):
    _fields_ = [("kind", ctypes.c_uint8), ("result", ctypes.c_uint8), ("err", ctypes.c_int16), ("len", ctypes.c_int32), ("path", ctypes.c_char * 120)]


class Violation(Exception):
    def __init__(self, kind, text):
        Exception.__init__(self, text)
        self.kind = kind


class NoAnswer(Exception):
    pass


class Sim:
    def __init__(self, job):
        self.job = job
        self.repo = job["repo"]
        self.base = job["scratch"]
        self.root = self.base + "/r"
        self.lib = ctypes.CDLL(job["shim"])
        self.lib.gs_shared()
        self.lib.gs_log.restype = ctypes.POINTER(Log)
        self.lib.gs_plan.argtypes = [ctypes.c_int, ctypes.c_void_p, ctypes.c_int, ctypes.c_int64]
        self.lib.gs_arm.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_uint64, ctypes.c_uint64]
        self.configs = {c["name"]: c for c in job["configs"]}
        self.refs = {}
        self.counters = {}
        self.runs = self.ops = self.switches = 0
        self.trace = []
        self.hash = None

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    # ---- one run of the generator, or two at once
    def argv(self, cfg, mdir, out, dry):
        a = [self.repo + "/python/podio_class_generator.py"]
        sub = lambda x: x.replace("@", mdir + "/")  # noqa: E731
        a += ["-q"] + (["-d"] if dry else []) + ([] if cfg["lang"] == "cpp" else ["-l", cfg["lang"]])
        ex = [sub(x) for x in cfg["extra"]]
        k = ex.index("--old-descriptions") if "--old-descriptions" in ex else len(ex)
        return a + ex[:k] + [mdir + "/" + cfg["main"], out, cfg["pkg"]] + cfg["backends"] + ex[k:]

    def models(self, cfg):
        d = self.root + "/models/" + cfg["name"]
        if not os.path.isdir(d):
            os.makedirs(d)
            for n, t in cfg["files"].items():
                with open(d + "/" + n, "w", encoding="utf-8") as f:
                    f.write(t)
        return d

    def go(self, procs, sched=b""):
        """procs: dicts with cfg, out, faults, ...; returns the exit codes. Does not return in the children."""
        lib = self.lib
        lib.gs_reset(len(procs), bytes(sched), len(sched))
        pids = {}
        for i, p in enumerate(procs):
            fl = []
            for f in p.get("faults", []):
                fl += [KINDS.index(f["on"]) if f["on"] != "any" else -1, f["nth"], ACTS[f["do"]], ERRS.get(f.get("err"), 0), f.get("arg", 0), f.get("times", 1)]
            arr = (ctypes.c_int32 * max(1, len(fl)))(*fl)
            lib.gs_plan(i, arr, len(fl) // 6, p.get("space", -1))
            fmt = self.base + "/format%d" % i
            with open(fmt, "w") as f:
                f.write("%d %d 0" % (p.get("format", -1), p.get("format_mode", 0)))
            mdir = self.models(p["cfg"]) if "mdir" not in p else p["mdir"]
            os.makedirs(self.root + "/cwd", exist_ok=True)
            cwd = self.root + "/cwd"
            rel = lambda x: os.path.relpath(x, cwd) if p.get("rel") else x  # noqa: E731
            argv = self.argv(p["cfg"], rel(mdir), rel(p["out"]), p.get("dry"))
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                self.child(i, p, argv, cwd, fmt)  # does not return: leaves as the generator does
            pids[pid] = i
        lib.gs_start(0)
        codes = [None] * len(procs)
        signal.alarm(100)
        while pids:
            pid, st = os.waitpid(-1, 0)
            if pid not in pids:
                continue
            i = pids.pop(pid)
            codes[i] = os.waitstatus_to_exitcode(st)
            lib.gs_ended(i)
        signal.alarm(0)
        self.runs += len(procs)
        self.switches += lib.gs_switches()
        for i, p in enumerate(procs):
            n = lib.gs_nlog(i)
            self.ops += lib.gs_total(i)
            ops = []
            for k in range(n):
                l = lib.gs_log(i, k).contents
                ops.append((KINDS[l.kind], l.result, l.err, l.len, l.path.decode("latin1")))
                if l.result and l.err != 2 and not (l.kind == 6 and l.err == 17):
                    self.count("fault:%s %s" % (["", "error " + next((a for a, b in ERRS.items() if b == l.err), str(l.err)), "short", "process ends"][l.result], KINDS[l.kind]))
            p["ops"] = ops
            if p.get("format", -1) >= 0:
                with open(self.base + "/format%d" % i) as f:
                    if int(f.read().split()[2]) > p["format"]:
                        self.count("fault:formatter fails")
            self.hash.update(repr((codes[i], ops)).encode())
            if p.get("format", -1) >= 0:
                self.trace.append("the formatter fails in its run %d" % p["format"])
            self.trace.append("%s %s -> exit status %s after %d operations%s" % (
                p["cfg"]["name"], os.path.relpath(p["out"], self.root), codes[i], lib.gs_total(i), "".join("\n    %s" % (o,) for o in ops if o[1] and o[2] not in (2, 17))))
        if 99 in codes:
            raise Violation("liveness", "the generator goes on and on: more than 100000 file operations")
        return codes

    def child(self, i, p, argv, cwd, fmt):
        signal.alarm(0)
        fd = os.open(self.base + "/std%d" % i, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        os.close(fd)
        os.chdir(cwd)
        tmp = self.root + "/" + p.get("tmp", "tmp")
        os.environ.update(TMPDIR=tmp, PATH=self.job["bin"] + ":" + os.environ["PATH"], GSIM_FORMAT=fmt)
        sys.argv = argv
        sys.path[0] = self.repo + "/python"
        self.keep = heap(p.get("heap", 0))
        self.lib.gs_arm(i, self.root.encode(), (self.repo + "/python/templates").encode(), p.get("random", 1), p.get("clock", 0))
        runpy.run_path(argv[0], run_name="__main__")
        raise SystemExit(0)

    # ---- checks
    def files(self, d):
        r = {}
        for top, _, fs in os.walk(d):
            for f in fs:
                p = os.path.join(top, f)
                with open(p, "rb") as h:
                    r[os.path.relpath(p, d)] = h.read()
        return r

    def stderr(self, i=0):
        try:
            with open(self.base + "/std%d" % i, errors="replace") as f:
                return f.read()[-1500:]
        except OSError:
            return ""

    def compare(self, cfg, out, what):
        ref = self.refs[cfg["name"]]["files"]
        got = self.files(out)
        for n in sorted(ref):
            if n not in got:
                raise Violation("incomplete", "%s: %s is not there" % (what, n))
            if got[n] != ref[n]:
                a, b = got[n], ref[n]
                k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                raise Violation("content", "%s: %s has %d bytes, not the %d of an undisturbed first run; from byte %d it has %r, not %r" % (what, n, len(a), len(b), k, a[max(0, k - 20):k + 60], b[max(0, k - 20):k + 60]))
        self.hash.update(repr(sorted(got)).encode())

    def fresh(self):
        # the scratch directory of this worker, made by gsim.py
        assert self.root.startswith(self.job["scratch"] + "/")
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        self.trace = []
        self.hash = hashlib.sha256()

    def reference(self, cfg):
        self.fresh()
        p = {"cfg": cfg, "out": self.root + "/out"}
        code = self.go([p])[0]
        if code:
            return {"code": code, "text": self.stderr()}
        cnt = {k: 0 for k in KINDS}
        for o in p["ops"]:
            cnt[o[0]] += 1
        # with the cache of templates that is there now
        for top, _, fs in os.walk(self.root + "/tmp"):
            for f in sorted(fs):
                d = os.path.join(self.job["warm"], os.path.relpath(top, self.root + "/tmp"))
                os.makedirs(d, exist_ok=True)
                shutil.copy(os.path.join(top, f), "%s/%s.%d" % (self.base, f, os.getpid()))
                os.replace("%s/%s.%d" % (self.base, f, os.getpid()), os.path.join(d, f))
        q = {"cfg": cfg, "out": self.root + "/out2"}
        self.go([q])
        cnt2 = {k: 0 for k in KINDS}
        for o in q["ops"]:
            cnt2[o[0]] += 1
        return {"code": 0, "files": self.files(p["out"]), "cold": cnt, "warm": cnt2, "bytes": sum(o[3] for o in p["ops"] if o[0] == "write"),
                "outbytes": sum(o[3] for o in q["ops"] if o[0] == "write")}

    def prior(self, h, out):
        for pr in h["prior"]:
            if pr[0] == "full":
                for n, b in self.refs[pr[1]]["files"].items():
                    os.makedirs(os.path.dirname(out + "/" + n), exist_ok=True)
                    with open(out + "/" + n, "wb") as f:
                        f.write(b)
            elif pr[0] == "damage":
                names = sorted(self.refs[h["cfg"]]["files"])
                n = names[pr[1] % len(names)]
                p = out + "/" + n
                os.makedirs(os.path.dirname(p), exist_ok=True)
                b = b""
                if os.path.exists(p):
                    with open(p, "rb") as f:
                        b = f.read()
                how, x = pr[2], pr[3]
                ref = self.refs[h["cfg"]]["files"]
                r = random.Random(x)
                if how == "cut":
                    b = ref[n][:x % (len(ref[n]) + 1)]
                elif how == "cut-inside":  # in the middle of a character, if there is any to be cut
                    at = [i for i, c in enumerate(ref[n]) if 0x80 <= c < 0xc0]
                    b = ref[n][:at[x % len(at)]] if at else ref[n][:x % (len(ref[n]) + 1)]
                elif how == "garbage":
                    b = bytes(r.randrange(256) for _ in range(r.randrange(1, 300)))
                elif how == "append":
                    b = ref[n] + b"\n"
                elif how == "insert":  # bytes that are no characters
                    k = x % (len(ref[n]) + 1)
                    b = ref[n][:k] + r.choice([b"\xff", b"\xfe\xff", b"\0", b"\xef\xbb\xbf"]) + ref[n][k:]
                elif how == "flip" and ref[n]:
                    k = x % len(ref[n])
                    b = ref[n][:k] + bytes([ref[n][k] ^ (1 << r.randrange(7))]) + ref[n][k + 1:]
                elif how == "other":
                    b = ref[names[x % len(names)]]
                elif how == "blank":
                    b = ref[n].replace(b"  ", b" ") if x % 2 else ref[n].replace(b"\n\n", b"\n")
                elif how == "crlf":  # line ends of another system, in all lines or in one
                    k = ref[n].find(b"\n", x % (len(ref[n]) + 1))
                    b = ref[n].replace(b"\n", b"\r\n") if x % 2 or k < 0 else ref[n][:k] + (b"\r\n" if x % 4 else b"\r") + ref[n][k + 1:]
                elif how == "comment":
                    b = ref[n].replace(b"//", b"///", 1)
                elif how == "zeros":
                    b = b"\0" * len(ref[n])
                elif how == "delete":
                    if os.path.exists(p):
                        os.unlink(p)
                    continue
                with open(p, "wb") as f:
                    f.write(b)

    def execute(self, h):
        """one history; raises Violation"""
        self.fresh()
        cfg = self.configs[h["cfg"]]
        out = self.root + "/" + h["out"]
        self.prior(h, out)
        if h.get("warm") and os.path.isdir(self.job["warm"]):
            shutil.copytree(self.job["warm"], self.root + "/tmp")
        for s in h["steps"]:
            c = self.configs[s["cfg"]]
            p = dict(s, cfg=c, out=out, rel=h.get("rel"))
            if s.get("bad"):
                d = self.root + "/models/bad-" + s["bad"] + c["name"]
                if not os.path.isdir(d):
                    os.makedirs(d)
                    for n, t in spoil(c, s["bad"]).items():
                        with open(d + "/" + n, "w", encoding="utf-8") as f:
                            f.write(t)
                p["mdir"] = d
            before = self.files(out) if s.get("bad") or s.get("dry") else None
            procs = [p]
            if "pair" in s:
                procs.append(dict(s["pair"], cfg=self.configs[s["pair"]["cfg"]], out=self.root + "/second", rel=h.get("rel")))
            codes = self.go(procs, bytes(s.get("sched", [])))
            for i, (q, code) in enumerate(zip(procs, codes)):
                what = "after run %d, which claims to be fine" % (h["steps"].index(s) + 1)
                if before is not None and not q.get("faults") and q.get("space", -1) < 0:
                    now = self.files(out)
                    if s.get("bad") and code == 0:
                        if s["bad"] in ("syntax", "type", "missing") and spoil(c, s["bad"]) != c["files"]:
                            raise Violation("success", "a run with a spoilt definition (%s) reports success" % s["bad"])
                        self.count("spoilt definition accepted")
                    elif now != before:
                        diff = sorted(n for n in set(now) | set(before) if now.get(n) != before.get(n))
                        raise Violation("changed", "%s changed %s" % ("a dry run" if s.get("dry") else "a definition that is rejected", diff[:5]))
                elif code == 0 and not s.get("bad") and not s.get("dry"):
                    self.compare(q["cfg"], q["out"], what)
                    self.count("disturbed runs that succeeded" if q.get("faults") or q.get("space", -1) >= 0 else "undisturbed runs")
                elif not q.get("faults") and q.get("space", -1) < 0 and q.get("format", -1) < 0 and not s.get("bad"):
                    raise Violation("failure", "%s: an undisturbed run ends with status %s: %s" % (q["cfg"]["name"], code, self.stderr(i)))
                else:
                    self.count("runs that ended early" if code == 137 else "runs that reported failure")
        # undisturbed
        old = {n: st for n, st in self.stats(out, True).items()}
        had = self.files(out)
        p = dict(h["last"], cfg=cfg, out=out, rel=h.get("rel"))
        code = self.go([p])[0]
        if code:
            raise Violation("failure", "the undisturbed run ends with status %s: %s" % (code, self.stderr()))
        self.compare(cfg, out, "after the undisturbed run")
        ref = self.refs[cfg["name"]]["files"]
        new = self.stats(out)
        for n in ref:
            if had.get(n) == ref[n] and not n.endswith(".cmake") and new[n] != old[n]:
                raise Violation("rewritten", "the undisturbed run rewrote %s, which was right already" % n)
        old = self.stats(out, True)
        q = dict(h["again"], cfg=cfg, out=out, rel=h.get("rel"))
        code = self.go([q])[0]
        if code:
            raise Violation("failure", "the second undisturbed run ends with status %s: %s" % (code, self.stderr()))
        new = self.stats(out)
        for n in ref:
            if new.get(n) != old[n]:
                raise Violation("rewritten", "nothing has changed, and the second run rewrote %s" % n)
        self.compare(cfg, out, "after the second run")

    def stats(self, d, age=False):
        r = {}
        for top, _, fs in os.walk(d):
            for f in fs:
                p = os.path.join(top, f)
                if age:
                    os.utime(p, ns=(10 ** 18, 10 ** 18))
                s = os.stat(p)
                r[os.path.relpath(p, d)] = (s.st_ino, s.st_mtime_ns, s.st_size)
        return r


def heap(n):
    """change where the next objects end up"""
    r = random.Random(n)
    objs = [[b"x" * r.randrange(1, 500), {}, (i,), object()] for i in range(n % 3000)]
    r.shuffle(objs)
    return objs[:len(objs) // 2]


def spoil(cfg, how):
    """the files of a definition with something wrong"""
    fs = dict(cfg["files"])
    m = cfg["main"]
    if how == "member":
        fs[m] = fs[m].replace("double energy", "no::such energy", 1)
    elif how == "syntax":
        fs[m] += "\n]: {- [\n"
    elif how == "type":
        fs[m] = fs[m].replace("datatypes:", "datatypes:\n  Broken:\n    Members:\n      - NoSuchType x // x\n", 1)
    elif how == "old":  # an older version that cannot become this one
        for n in fs:
            if n.startswith("old"):
                fs[n] = fs[n].replace("double e", "bool e")
    elif how == "missing" and len(fs) > 1:
        del fs[list(fs)[-1]]
    return fs


def draw_fault(rng, cnt, nbytes):
    n = sum(cnt.values())
    k = rng.randrange(10)
    if k < 3:
        return {"on": "any", "nth": rng.randrange(n) if rng.random() < 0.7 else max(0, n - 1 - rng.randrange(12)), "do": "crash"}
    if k < 5:
        return {"on": "write", "nth": rng.randrange(max(1, cnt["write"])), "do": "torn", "arg": rng.randrange(256)}
    if k < 9:
        on = rng.choice([x for x in MAYFAIL if cnt.get(x)] + ["write", "create", "write"])
        return {"on": on, "nth": rng.randrange(max(1, cnt[on])) if rng.random() < 0.7 else max(0, cnt[on] - 1 - rng.randrange(4)), "do": "error", "err": rng.choice(MAYFAIL[on]), "times": rng.choice([1, 1, 2, 1000000])}
    if rng.random() < 0.5:
        return {"on": rng.choice(["read", "write"]), "nth": rng.randrange(20), "do": "short", "arg": rng.randrange(256), "times": rng.choice([1, 50, 1000000])}
    return {"on": rng.choice(["read", "write", "open", "create"]), "nth": rng.randrange(max(1, cnt["write"])), "do": "error", "err": "EINTR", "times": rng.choice([1, 5])}


def draw_env(rng):
    return {"heap": rng.choice([0, rng.randrange(1000000)]), "random": rng.randrange(1 << 30), "clock": rng.choice([0, rng.randrange(1 << 31)]), "tmp": rng.choice(["tmp", "tmp", "tmp", "t m p"])}


def draw(rng, refs, configs):
    names = [n for n in refs if refs[n]["code"] == 0]
    a = rng.choice(names)
    sib = [n for n in names if configs[n]["pkg"] == configs[a]["pkg"] and configs[n]["lang"] == configs[a]["lang"] and n != a]
    near = [n for n in sib if n.split("-")[0] == a.split("-")[0]] or sib
    h = {"cfg": a, "out": rng.choice(["out", "out", "deep/er/out", "o u t"]), "rel": rng.random() < 0.3, "warm": rng.random() < 0.8, "prior": [], "steps": [], "last": draw_env(rng), "again": draw_env(rng)}
    k = rng.randrange(6)
    if k < 2:
        h["prior"].append(["full", a])
    elif k < 4 and near:
        h["prior"].append(["full", rng.choice(near)])
    if rng.random() < 0.4:
        for _ in range(rng.randrange(1, 5)):
            h["prior"].append(["damage", rng.randrange(1000), rng.choice(["cut", "cut", "cut-inside", "garbage", "append", "insert", "flip", "other", "blank", "crlf", "comment", "zeros", "delete"]), rng.randrange(1000000)])

    def disturbed(c, p):
        cnt = refs[c][rng.choice(["cold", "warm"])]
        f = rng.random()
        if f < 0.65:
            p["faults"] = [draw_fault(rng, cnt, 0) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        elif f < 0.8:
            p["space"] = rng.randrange(refs[c][rng.choice(["bytes", "outbytes"])] + 1) if rng.random() < 0.7 else max(0, refs[c]["outbytes"] - rng.randrange(3000))
        elif "-c" in configs[c]["extra"]:
            p["format"] = rng.randrange(len(refs[c]["files"]) + 2)
            p["format_mode"] = rng.randrange(3)
        return p
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
        c = rng.choice([a, a, a] + near[:3])
        s = dict(draw_env(rng), cfg=c)
        k = rng.randrange(12)
        if k == 0:
            s["dry"] = True
        elif k == 1:
            s["bad"] = rng.choice(["member", "syntax", "type", "old", "old", "missing"])
        elif k < 4:
            b = rng.choice(names)
            disturbed(c, s)
            s["pair"] = dict(draw_env(rng), cfg=b, tmp=s["tmp"])
            if rng.random() < 0.4:
                disturbed(b, s["pair"])
            stick = rng.choice([1, 2, 5, 20])
            s["sched"] = [x for _ in range(4000 // stick) for x in [rng.randrange(2)] * rng.randrange(1, 2 * stick)][:8000]
        else:
            disturbed(c, s)
        h["steps"].append(s)
    return h


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    sys.pycache_prefix = job["pyc"]
    sys.dont_write_bytecode = False
    sim = Sim(job)
    res = {"violations": [], "hashes": [], "twice": 0, "differ": 0, "histories": 0, "samples": [], "nontrivial": 0}
    if job["mode"] == "refs":
        refs = {}
        for c in job["configs"]:
            if c["name"] in job["only"]:
                refs[c["name"]] = sim.reference(c)
        with open(job["refs"], "wb") as f:
            pickle.dump(refs, f)
        with open(job["result"], "w") as f:
            json.dump(res, f)
        return
    for p in job["refs"]:
        with open(p, "rb") as f:
            sim.refs.update(pickle.load(f))

    def one(h):
        try:
            sim.execute(h)
            return None
        except Violation as v:
            return [v.kind, str(v)]
    if job["mode"] == "replay":
        h = job["history"]
        res["outcome"] = one(h)
        res["trace"] = sim.trace
        res["hashes"] = [sim.hash.hexdigest()]
    elif job["mode"] == "shrink":
        h, kind = job["history"], job["kind"]
        t0 = time.time()

        def still(x):
            r = one(x)
            return r is not None and r[0] == kind
        changed = True
        while changed and time.time() - t0 < job["seconds"]:
            changed = False
            for cand in smaller(h):
                if time.time() - t0 > job["seconds"]:
                    break
                if still(cand):
                    h, changed = cand, True
                    break
        res["history"] = h
        res["outcome"] = one(h)
        res["trace"] = sim.trace
        res["hashes"] = [sim.hash.hexdigest()]
    else:
        t0 = time.time()
        for s in job["seeds"]:
            if time.time() - t0 > job["seconds"]:
                break
            h = draw(random.Random(s), sim.refs, sim.configs)
            r = one(h)
            hx = sim.hash.hexdigest()
            res["histories"] += 1
            if h["steps"] or h["prior"]:
                res["nontrivial"] += 1
                res["hashes"].append(hx[:16])
            if len(res["samples"]) < 1 and len(h["steps"]) > 1:
                res["samples"].append({"history": {k: v for k, v in h.items() if k != "steps"}, "trace": [x[:400] for x in sim.trace]})
            if s % 40 == 3:
                one(h)
                res["twice"] += 1
                res["differ"] += sim.hash.hexdigest() != hx
            if r:
                res["violations"].append({"seed": s, "history": h, "kind": r[0], "message": r[1], "trace": sim.trace})
                break
    res.update(counters=sim.counters, runs=sim.runs, ops=sim.ops, switches=sim.switches)
    with open(job["result"], "w") as f:
        json.dump(res, f)


def smaller(h):
    for i in range(len(h["steps"])):
        yield dict(h, steps=h["steps"][:i] + h["steps"][i + 1:])
    for i in range(len(h["prior"])):
        yield dict(h, prior=h["prior"][:i] + h["prior"][i + 1:])
    for i, s in enumerate(h["steps"]):
        def rep(t):
            return dict(h, steps=h["steps"][:i] + [t] + h["steps"][i + 1:])
        if "pair" in s:
            yield rep({k: v for k, v in s.items() if k not in ("pair", "sched")})
        for j in range(len(s.get("faults", []))):
            yield rep(dict(s, faults=s["faults"][:j] + s["faults"][j + 1:]))
        if len(s.get("sched", [])) > 8:
            yield rep(dict(s, sched=s["sched"][:len(s["sched"]) // 2]))
        for k, v in (("heap", 0), ("clock", 0), ("random", 1), ("tmp", "tmp")):
            if s.get(k, v) != v:
                yield rep(dict(s, **{k: v}))
    for w in ("last", "again"):
        if h[w] != {}:
            yield dict(h, **{w: {}})
    for k in ("rel", "warm"):
        if h[k]:
            yield dict(h, **{k: False})
    if h["out"] != "out":
        yield dict(h, out="out")


if __name__ == "__main__":
    main()
