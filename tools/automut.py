#!/usr/bin/env python3
"""automut.py N SEED [LANE LANES]: draws N small changes (negated conditions, changed comparisons and
constants, left out statements) in the files below and runs the quick checks that should see them
until one does. Only for developing the checks: survivors are to be looked at by hand."""
import os, random, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/podio/"
FILES = {
    I + "GenericParameters.h": "C03 O06", "src/GenericParameters.cc": "C03 O07",
    "src/CollectionIDTable.cc": "C04 O06", I + "CollectionIDTable.h": "C04",
    "src/SchemaEvolution.cc": "C06 S07", "src/CollectionBufferFactory.cc": "C06", "src/DatamodelRegistry.cc": "C06 S06",
    "src/DatamodelRegistryIOHelpers.cc": "S06", I + "DatamodelRegistry.h": "C06",
    I + "UserDataCollection.h": "O02 O06 O07 S01",
    I + "detail/LinkCollectionImpl.h": "O05 O02 O06 O07 C05", I + "detail/LinkObj.h": "O05 O03 O01", I + "detail/LinkCollectionData.h": "O05 C05 O06 O01",
    I + "detail/LinkCollectionIterator.h": "O02 O05", I + "detail/Link.h": "O05 O03 O07", I + "LinkNavigator.h": "O05",
    I + "RelationRange.h": "O04", I + "utilities/MaybeSharedPtr.h": "O01 O06", I + "detail/RelationIOHelpers.h": "C02 O05 O04 O06",
    I + "Frame.h": "C01 C02 C03 C05 S03 S07 O06", I + "CollectionBuffers.h": "C05 S01", I + "detail/OrderKey.h": "O02", I + "ObjectID.h": "O02 O07",
    "src/SIOBlock.cc": "S01 S02 S04 S10", I + "SIOBlock.h": "S01 S07 S10", I + "detail/LinkSIOBlock.h": "S01 S10", "src/sioUtils.h": "S01 S04 S05", "src/SIOFrameData.cc": "S01 S03 S04 S08",
    "src/SIOReader.cc": "S02 S01 S04 S06 S10", "src/SIOWriter.cc": "S01 S03 S05", "src/SIOLegacyReader.cc": "S08 S10", "src/Reader.cc": "S09", "src/Writer.cc": "S09", "src/Glob.cc": "S09",
    I + "Reader.h": "S09", I + "Writer.h": "S09",
    "tools/src/podio-dump-tool.cpp": "S11", "tools/src/argparseUtils.h": "S11", "tools/src/tabulate.h": "S11",
    "python/templates/Collection.cc.jinja2": "O02 O06 C05 O01", "python/templates/CollectionData.cc.jinja2": "C05 C02 O04 O06", "python/templates/Obj.cc.jinja2": "O03 O01",
    "python/templates/MutableObject.cc.jinja2": "O03 O04", "python/templates/Object.cc.jinja2": "O03 O04", "python/templates/macros/implementations.jinja2": "O04 O07",
    "python/templates/macros/collections.jinja2": "O02 O07", "python/templates/macros/iterator.jinja2": "O02", "python/templates/Interface.h.jinja2": "O01 O02 O07",
}
OPS = [
    (r"(?<![<>=!\-+*/&|])<(?=\s)(?!\s*(class|typename))", "<="), (r"\s<=\s", " < "), (r"\s>\s(?=[\w(])", " >= "), (r"\s>=\s", " > "), (r"\s==\s", " != "), (r"\s!=\s", " == "),
    (r"&&(?=\s)(?=[^;]*\)\s*\{?)", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+\+(?=\w)", "--"), (r"\s\+\s(?=\w)", " - "), (r"\s-\s(?=\w)", " + "),
    (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\bif \((?!.*=.*;)(.*)\) \{$", r"if (!(\1)) {"), (r"std::move\((\w+)\)", r"\1"), (r"\bcontinue;", "break;"), (r"\bbreak;", ""),
]
STMT = re.compile(r"^\s+(?!return|using|const|auto|static|throw|friend|for|if|else|std::lock_guard|template|typename|typedef|#|//|\*|public|case|default|virtual|explicit|inline|constexpr|class|struct|enum|delete\b)[\w:>\-.\[\]*()&]+(\(| = |\+\+|\.|->).*;\s*$")
LOCK = re.compile(r"^\s+std::(lock_guard|scoped_lock|unique_lock).*;\s*$")


def candidates(repo):
    out = []
    for f in FILES:
        lines = open(f"{repo}/{f}").read().split("\n")
        skip = False
        for n, l in enumerate(lines):
            s = l.strip()
            if s.startswith("#if") and (("JSON" in s and not os.environ.get("MUTJSON")) or "ROOT" in s or "CLING" in s or "clang" in s): skip = True
            if s.startswith("#endif"): skip = False
            if skip or not s or s.startswith(("//", "*", "#", "/*", "template", "{#", "using ", "requires", "static_assert", "throw", "[[")) or "{% " in s or "= delete" in s or "= default" in s or "= 0;" in s or "reserve(" in s: continue
            code = l.split("//")[0]
            if STMT.match(l) or LOCK.match(l): out.append((f, n, l, ""))
            for pat, rep in OPS:
                for m in re.finditer(pat, code):
                    if '"' in code[: m.start()] and code[: m.start()].count('"') % 2: continue
                    if "operator" in code: continue
                    new = code[: m.start()] + m.expand(rep) + code[m.end():]
                    if new != l: out.append((f, n, l, new))
    return out


def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    lane, lanes = (int(sys.argv[3]), int(sys.argv[4])) if len(sys.argv) > 4 else (0, 1)
    repo = os.environ.get("MUTREPO", "/repo")
    rnd = random.Random(seed)
    per = {}
    for c in candidates(repo): per.setdefault(c[0], []).append(c)
    files = sorted(per)
    only = os.environ.get("MUTFILES")
    if only: files = [f for f in files if re.search(only, f)]
    line = os.environ.get("MUTLINE")
    if line: per = {f: v for f, v in ((f, [c for c in v if re.search(line, c[2])]) for f, v in per.items()) if v}; files = [f for f in files if f in per]
    picks = []
    while len(picks) < n:
        f = rnd.choices(files, [len(per[f]) ** 0.5 for f in files])[0]
        c = rnd.choice(per[f])
        if c not in picks: picks.append(c)
    if "-n" in sys.argv:
        print(sum(map(len, per.values())))
        for f, n, old, new in picks: print(f"{f}:{n+1}\n  - {old.strip()}\n  + {new.strip()}")
        return
    tmp = tempfile.mkdtemp(prefix="automut", dir="/tmp")
    r = tmp + "/r"
    env = dict(os.environ, SIM_REPO=r, SIM_BUILD=f"/tmp/am/build{lane}", VERIF_SEED="1")
    subprocess.run(f"mkdir -p {r} && git -C {repo} archive HEAD | tar x -C {r}", shell=True, check=True)
    try:
        for k, (f, n, old, new) in enumerate(picks):
            if k % lanes != lane: continue
            text = open(f"{r}/{f}").read()
            lines = text.split("\n")
            lines[n] = new
            open(f"{r}/{f}", "w").write("\n".join(lines))
            t0 = time.time()
            verdict = "SURVIVED"
            for prop in FILES[f].split():
                p = subprocess.run(["python3", V + "/check.py", prop, "quick"], env=env, capture_output=True, text=True)
                if p.returncode == 1 and "VIOLATION property=" in p.stdout:
                    verdict = "caught by " + prop
                    break
                if p.returncode not in (0, 1) or "BuildError" in p.stdout + p.stderr:
                    verdict = "does not build"
                    break
            open(f"{r}/{f}", "w").write(text)
            print(f"{verdict:16} {time.time()-t0:4.0f}s {f}:{n+1}\n    - {old.strip()}\n    + {new.strip()}", flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
