#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in tools/seeds/*.py

A definition is a call  seed(id, property, edits, needs, breaks, demo, kind)
with edits = [(file, old text, new text)] against /repo's HEAD.
"""
import glob, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
SEEDS = {}

CORE = '''#!/bin/bash
# exit 0: the property holds in this demonstration
set -u
D=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-/repo}
T=$(mktemp -d /tmp/seeddemo.XXXXXX)
trap 'rm -rf "$T"' EXIT
export PYTHONDONTWRITEBYTECODE=1 TSAN_OPTIONS="halt_on_error=1 exitcode=66 report_signal_unsafe=0"
I="-I$R/include -I$R/_build/include -I$R/src -I$T/gen -I$D"
CORESRC="CollectionBufferFactory CollectionIDTable DatamodelRegistry DatamodelRegistryIOHelpers GenericParameters SchemaEvolution"
'''
KINDS = {
    # the core sources compiled into the demonstration
    "core": 'g++ -std=c++20 -O1 -w -pthread $I "$D/demo.cc" $(for s in $CORESRC; do echo $R/src/$s.cc; done) $R/src/MurmurHash3.cpp -o $T/demo || exit 3\n',
    "core-tsan": 'g++ -std=c++20 -O1 -g -w -pthread -fsanitize=thread $I "$D/demo.cc" $(for s in $CORESRC; do echo $R/src/$s.cc; done) $R/src/MurmurHash3.cpp -o $T/demo || exit 3\n',
}
GEN = '''mkdir -p $T/gen/src $T/gen/mini
PYTHONPATH=$R/python /usr/bin/python3 $R/python/podio_class_generator.py -q "$D/mini.yaml" $T/gen mini SIO || exit 3
SRC=$(ls $T/gen/src/*.cc | grep -v SIOBlock)
pids=
for s in $SRC $(for s in $CORESRC; do echo $R/src/$s.cc; done) $R/src/MurmurHash3.cpp "$D/demo.cc"; do
  g++ -std=c++20 -O1 -g -w -pthread %s $I -c "$s" -o $T/$(basename "$s").o & pids="$pids $!"
done
for p in $pids; do wait $p || exit 3; done
g++ -pthread %s $T/*.o -o $T/demo || exit 3
'''
KINDS["model"] = GEN % ("", "")
KINDS["model-asan"] = GEN % ("-fsanitize=address,undefined", "-fsanitize=address,undefined")
KINDS["model-tsan"] = GEN % ("-fsanitize=thread", "-fsanitize=thread")
SIO = GEN.replace("gen/mini\n", "gen/mini $T/inc/sio\n", 1).replace(
    "PYTHONPATH", """cp "$D/sio.h.txt" $T/inc/sio/sio.h
for h in api block buffer definitions exception io_device version; do echo '#include <sio/sio.h>' > $T/inc/sio/$h.h; done
mkdir -p $T/inc/sio/compression
echo '#include <sio/sio.h>' > $T/inc/sio/compression/zlib.h
I="$I -I$T/inc -DPODIO_ENABLE_SIO=1"
PYTHONPATH""", 1).replace("mini SIO", "mini SIO --datamodel-version 0.7.1").replace("$(ls $T/gen/src/*.cc | grep -v SIOBlock)", "$(ls $T/gen/src/*.cc)").replace(
    '"$D/demo.cc"; do', 'SIO "$D/demo.cc"; do').replace("MurmurHash3.cpp SIO", 'MurmurHash3.cpp $R/src/UserDataCollection.cc $R/src/SIO*.cc "$D/sio.cc"').replace(
    "$T/*.o -o", "$T/*.o -lz -ldl -o")
KINDS["sio"] = SIO % ("", "")
KINDS["sio-asan"] = SIO % ("-fsanitize=address,undefined", "-fsanitize=address,undefined")
RUN = 'timeout 120 $T/demo $T > $T/out 2>&1\nrc=$?\ntail -25 $T/out\nexit $rc\n'


def seed(id, prop, edits, needs, breaks, demo, kind="core", files=(), script=None):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, kind=kind, files=dict(files), script=script)


def main():
    with open(os.path.join(HERE, "seeds", "mini.yaml")) as f:
        mini = f.read()
    for p in sorted(glob.glob(os.path.join(HERE, "seeds", "*.py"))):
        exec(compile(open(p).read(), p, "exec"), {"seed": seed, "HERE": HERE})
    want = sys.argv[1:] or list(SEEDS)
    tmp = tempfile.mkdtemp(prefix="mkseed")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
        for id in want:
            s = SEEDS[id]
            r = tmp + "/r"
            subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
            for f, old, new in s["edits"]:
                t = open(f"{r}/{f}").read()
                if t.count(old) != 1:
                    print(f"{id}: {f}: text occurs {t.count(old)} times:\n{old}")
                    break
                open(f"{r}/{f}", "w").write(t.replace(old, new))
            else:
                d = f"{OUT}/{id}"
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                diff = subprocess.run(["git", "-C", r, "diff"], check=True, capture_output=True, text=True).stdout
                open(f"{d}/patch.diff", "w").write(diff)
                json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
                if s["script"]:
                    open(f"{d}/demo.sh", "w").write(CORE + s["script"])
                else:
                    open(f"{d}/demo.sh", "w").write(CORE + KINDS[s["kind"]] + RUN)
                    open(f"{d}/demo.cc", "w").write(s["demo"])
                if s["kind"].startswith(("model", "sio")):
                    open(f"{d}/mini.yaml", "w").write(mini)
                for n, t in s["files"].items():
                    open(f"{d}/{n}", "w").write(t)
                os.chmod(f"{d}/demo.sh", 0o755)
    finally:
        pass
        shutil.rmtree(tmp, ignore_errors=True)


main()
