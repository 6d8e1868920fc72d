#!/usr/bin/env python3
"""Makes sim/golden/sio.bin with the current tree: files of the SIO backend and
of the event store of old, with what they hold. Only for a change of the format
that is meant; the checks never run this."""
import glob, os, struct, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("SIM_BUILD", HERE + "/build")
subprocess.run([sys.executable, HERE + "/sim/build.py", "sio"], env=dict(os.environ, SIM_CXXFLAGS="-DSIM_GOLDEN_MAKE"), check=True)
with tempfile.TemporaryDirectory() as d:
    subprocess.run([OUT + "/bin/sio", "--workload", "golden_make", "--seed", "77", "--count", sys.argv[1] if len(sys.argv) > 1 else "260", "--jobs", "1", "--out", d + "/o"],
                   env=dict(os.environ, GOLDEN_OUT=d), check=True, stdout=subprocess.DEVNULL)
    fs = sorted(open(p, "rb").read() for p in glob.glob(d + "/*") if os.path.basename(p).isdigit())
at = [8 + 4 * len(fs)]
for f in fs:
    at.append(at[-1] + len(f))
os.makedirs(HERE + "/sim/golden", exist_ok=True)
with open(HERE + "/sim/golden/sio.bin", "wb") as o:
    o.write(struct.pack("<I", len(fs)) + b"".join(struct.pack("<I", a) for a in at) + b"".join(fs))
print(len(fs), "files,", at[-1], "bytes")
