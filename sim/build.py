#!/usr/bin/env python3
"""Builds the simulated programs from the current tree of the repository.

Everything is compiled by content: an object is reused only if the flags and
the content of every file it was compiled from are unchanged.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++"
_hash_memo = {}


def fhash(p):
    try:
        st = os.stat(p)
    except OSError:
        return None
    k = (p, st.st_mtime_ns, st.st_size)
    if k not in _hash_memo:
        with open(p, "rb") as f:
            _hash_memo[k] = hashlib.sha1(f.read()).hexdigest()
    return _hash_memo[k]


class BuildError(Exception):
    """the tree does not build"""


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        errs = "\n".join([l for l in r.stdout.split("\n") if "error:" in l][:20])
        raise BuildError(" ".join(cmd[:4]) + " ...\n" + errs[:3000] + "\n" + r.stdout[-1500:])
    return r.stdout


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def version_header():
    with open(f"{REPO}/CMakeLists.txt") as f:
        txt = f.read()
    v = dict(re.findall(r"_VERSION_(MAJOR|MINOR|PATCH) +([0-9]+)", txt))
    with open(f"{REPO}/podioVersion.in.h") as f:
        h = f.read()
    for k in ("MAJOR", "MINOR", "PATCH"):
        h = h.replace(f"@podio_VERSION_{k}@", v[k])
    write_if_changed(f"{OUT}/inc/podio/podioVersion.h", h)


BASE = ["-std=c++20", "-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-fno-pie", "-w",
        "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-optimize-sibling-calls", *os.environ.get("SIM_CXXFLAGS", "").split()]
INSTR = ["-fsanitize=thread", "-mllvm", "-tsan-distinguish-volatile=0"]


def incs():
    return [f"-I{OUT}/inc", f"-I{REPO}/include", f"-I{HERE}/rt", f"-I{HERE}/work", f"-I{HERE}/sio",
            f"-I{REPO}/src", f"-I{OUT}/gen"]


def compile_one(src, flags):
    key = hashlib.sha1((src + "\0" + "\0".join(flags)).encode()).hexdigest()
    obj = f"{OUT}/obj/{key}.o"
    meta = f"{OUT}/obj/{key}.json"
    try:
        with open(meta) as f:
            m = json.load(f)
        if os.path.exists(obj) and all(fhash(p) == h for p, h in m.items()):
            return obj
    except (OSError, ValueError):
        pass
    os.makedirs(f"{OUT}/obj", exist_ok=True)
    dep = f"{OUT}/obj/{key}.d"
    run([CXX, *flags, "-MD", "-MF", dep, "-c", src, "-o", obj])
    with open(dep) as f:
        deps = f.read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = [d for d in deps if not d.startswith("/usr/")]
    with open(meta, "w") as f:
        json.dump({d: fhash(d) for d in deps}, f)
    return obj


WRAP = ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_rwlock_rdlock",
        "pthread_rwlock_tryrdlock", "pthread_rwlock_wrlock", "pthread_rwlock_trywrlock", "pthread_rwlock_unlock",
        "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_once",
        "__cxa_thread_atexit", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "sched_yield", "memcmp", "strlen",
        "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_",
        "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_",
        "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base",
        "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base",
        "_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm", "_ZSt11_Hash_bytesPKvmm"]


def core_sources(var="core_sources"):
    with open(f"{REPO}/src/CMakeLists.txt") as f:
        txt = f.read()
    m = re.search(r"set\(%s([^)]*)\)" % var, txt, re.I)
    names = [n for n in m.group(1).split() if n.endswith((".cc", ".cpp", ".cxx"))]
    return [f"{REPO}/src/{n}" for n in names]


def generate(name, yaml, out, extra=(), backends=("SIO",)):
    """run the repository's generator"""
    env = dict(os.environ, PYTHONPATH=f"{REPO}/python", PYTHONDONTWRITEBYTECODE="1", TMPDIR=f"{OUT}/tmp")
    os.makedirs(f"{OUT}/tmp", exist_ok=True)
    os.makedirs(f"{out}/src", exist_ok=True)
    os.makedirs(f"{out}/{name}", exist_ok=True)
    run(["/usr/bin/python3", f"{REPO}/python/podio_class_generator.py", "-q", *extra, yaml, out, name, *backends], env=env)


GLOBWRAP = ["glob"]
DISKWRAP = ["fopen64", "fileno", "fclose", "fflush", "lseek64", "read", "write", "writev", "fstat64", "poll", "ioctl"]


def link(exe, objs, wraps=()):
    run([CXX, "-static", "-no-pie", "-fuse-ld=lld", "-o", exe, *objs, *[f"-Wl,--wrap={w}" for w in [*WRAP, *wraps]], "-lpthread", "-lz"])


def core_flags():
    return BASE + INSTR + incs() + ["-pthread"]


def core_tus(flags=None):
    """the core library of the repository"""
    version_header()
    f = flags or core_flags()
    return [(s, f) for s in core_sources() if not s.endswith("Pythonizations.cc")] + [(f"{HERE}/work/stubs.cc", core_flags())]


def model_tus(name, yaml=None, sio=False, extra=(), flags=()):
    """the generated code of a data model: one translation unit per data type"""
    yaml = yaml or f"{HERE}/model/{name}.yaml"
    out = f"{OUT}/gen/{name}"
    shutil.rmtree(f"{out}.new", ignore_errors=True)
    generate(name, yaml, f"{out}.new", extra=extra)
    # keep the time stamps of unchanged files out of it: everything is cached by content
    shutil.rmtree(out, ignore_errors=True)
    os.rename(f"{out}.new", out)
    f = core_flags() + [f"-I{out}", *flags] + (["-DPODIO_ENABLE_SIO=1"] if sio else [])
    files = sorted(os.path.basename(p)[:-3] for p in glob.glob(f"{out}/src/*.cc"))
    types = [t[:-len("CollectionData")] for t in files if t.endswith("CollectionData")]
    units, used = {}, set()
    for t in types:
        units[t] = [x for x in (f"{t}Obj", t, f"Mutable{t}", f"{t}CollectionData", f"{t}Collection") if x in files]
        used.update(units[t])
        used.add(f"{t}SIOBlock")
        if sio:
            units[t].append(f"{t}SIOBlock")
    rest = [x for x in files if x not in used and not x.endswith("SIOBlock")]
    units["_rest"] = rest + (["DatamodelLinkSIOBlock"] if sio and "DatamodelLinkSIOBlock" in files else [])
    tus = []
    for u, parts in units.items():
        p = f"{out}/unity/{u}.cc"
        write_if_changed(p, "".join(f'#include "src/{x}.cc"\n' for x in parts))
        tus.append((p, f, [f"{out}/src/{x}.cc" for x in parts]))
    return tus


def work_tus(works, flags=()):
    return [(f"{HERE}/work/{w}.cc", core_flags() + list(flags)) for w in works]


def compile_all(tus):
    tus = [(f"{HERE}/rt/simrt.cc", ["-std=c++20", "-O2", "-g1", "-fno-pie", "-w", f"-I{HERE}/rt"])] + list(tus)
    # the biggest first
    tus.sort(key=lambda t: 0 if "/work/" in t[0] else 1 if "/unity/" in t[0] else 2)

    def one(t):
        try:
            return [compile_one(t[0], t[1])]
        except BuildError:
            if len(t) < 3 or len(t[2]) < 2:
                raise
            return [compile_one(p, t[1]) for p in t[2]]  # not as one unit, then
    with cf.ThreadPoolExecutor(os.cpu_count()) as ex:
        return [o for l in ex.map(one, tus) for o in l]


def sio_tus():
    """the SIO backend of the repository over a stand-in for the SIO library and a simulated disk"""
    plain = ["-std=c++20", "-O2", "-g1", "-fno-pie", "-w", f"-I{HERE}/rt", f"-I{HERE}/sio"]
    return ([(s, core_flags() + ["-DPODIO_ENABLE_SIO=1"]) for s in core_sources("sio_sources")]
            + [(f"{HERE}/sio/sio.cc", plain), (f"{HERE}/work/disk.cc", plain)])


STUB = [f"-I{HERE}/stub"]


def generic_tus():
    """the generic reader and writer of the repository over the SIO backend and stand-ins for the ROOT backends"""
    f = STUB + core_flags() + ["-DPODIO_ENABLE_SIO=1", "-DPODIO_ENABLE_RNTUPLE=1"]
    return [(f"{REPO}/src/{n}.cc", f) for n in ("Reader", "Writer")] + [
        (f"{HERE}/stub/globdisk.cc", ["-std=c++20", "-O2", "-g1", "-fno-pie", "-w", f"-I{HERE}/rt", f"-I{HERE}/work"])]


DM = [f"-I{OUT}/gen/dm"]
JSON = ["-DPODIO_JSON_OUTPUT"]
DMS = [f"-I{OUT}/gen/{m}" for m in ("dm", "dmx", "dmy")]
UPSTREAM = ["--upstream-edm", f"dm:{HERE}/model/dm.yaml", "--datamodel-version", "3.1.4"]
# name -> (function giving the translation units)
PROGRAMS = {
    "params": lambda: core_tus() + work_tus(["params"]),
    "idtable": lambda: core_tus() + work_tus(["idtable"]),
    "registry": lambda: core_tus() + work_tus(["registry"]),
    "frame_put": lambda: core_tus() + model_tus("dm") + work_tus(["frame_put"], DM),
    "prepare": lambda: core_tus() + model_tus("dm") + work_tus(["prepare"], DM),
    "evolve": lambda: core_tus() + model_tus("dm") + work_tus(["evolve"], DM),
    "objects": lambda: core_tus() + model_tus("dm") + work_tus(["objects"], DM),
    "handles": lambda: core_tus() + model_tus("dm") + work_tus(["handles"], DM),
    "print": lambda: core_tus() + model_tus("dm", flags=JSON) + model_tus("cyc", flags=JSON) + work_tus(["print"], DM + JSON + [f"-I{OUT}/gen/cyc"]),
    "userdata": lambda: core_tus() + work_tus(["userdata"]),
    "sio": lambda: core_tus() + model_tus("dm", sio=True) + sio_tus() + work_tus(["sio"], DM + ["-DPODIO_ENABLE_SIO=1", "-DDML_ALL_USER_TYPES"]),
    "sio_meta": lambda: (core_tus() + model_tus("dm", sio=True) + model_tus("dmx", sio=True, extra=UPSTREAM, flags=DM) + model_tus("dmy", sio=True, extra=["--datamodel-version", "0.2.0"])
                         + sio_tus() + work_tus(["sio_meta"], DMS + ["-DPODIO_ENABLE_SIO=1", "-DDML_ALL_USER_TYPES"])),
    "sio_generic": lambda: (core_tus() + model_tus("dm", sio=True) + sio_tus() + generic_tus()
                            + work_tus(["sio_generic"], STUB + DM + ["-DPODIO_ENABLE_SIO=1", "-DPODIO_ENABLE_RNTUPLE=1", "-DDML_ALL_USER_TYPES"])),
    "sio_dump": lambda: (core_tus() + model_tus("dm", sio=True) + sio_tus() + generic_tus()
                         + [(f"{REPO}/tools/src/podio-dump-tool.cpp", STUB + core_flags() + ["-DPODIO_ENABLE_SIO=1", "-DPODIO_ENABLE_RNTUPLE=1", "-include", f"{HERE}/work/dumpshim.h"])]
                         + work_tus(["dump"], DM + ["-DPODIO_ENABLE_SIO=1", "-DPODIO_ENABLE_RNTUPLE=1", "-DDML_ALL_USER_TYPES"])),
    "frame_get": lambda: core_tus() + model_tus("dm") + work_tus(["frame_get"], DM),
}


def build(prog):
    os.makedirs(f"{OUT}/bin", exist_ok=True)
    exe = f"{OUT}/bin/{prog}"
    link(exe, compile_all(PROGRAMS[prog]()), (DISKWRAP + GLOBWRAP if prog in ("sio_generic", "sio_dump") else DISKWRAP) if prog.startswith("sio") else ())
    return exe


if __name__ == "__main__":
    if "--check-tools" in sys.argv:
        for t in (CXX, "ld.lld", "/usr/bin/python3"):
            if not shutil.which(t):
                sys.exit("missing: " + t)
        version_header()
        compile_all([])  # the run time
        sys.exit(0)
    for p in sys.argv[1:] or list(PROGRAMS):
        t = time.time()
        print(build(p), "built in %.1f s" % (time.time() - t))
