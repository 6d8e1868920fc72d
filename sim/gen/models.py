"""Data models for the simulated runs of the code generator: fixed ones, and drawn ones"""
import glob
import os
import random

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))

BUILTIN = ["int", "float", "double", "bool", "int16_t", "int32_t", "int64_t", "uint16_t", "uint32_t", "uint64_t", "char", "short", "long"]
WORDS = ["energy", "time", "x", "y", "z", "cellID", "flag", "status", "mass", "charge", "index", "chi2", "ndf", "weight", "type", "pid", "len", "phase"]
NAMES = ["Hit", "Track", "Cluster", "Vertex", "Particle", "Digi", "Event", "Cell", "Wave", "Pulse", "Seed", "Calo", "Muon", "Tau", "Jet", "Ring", "Raw", "Gen"]
TEXT = ["plain text", "with \u00e9\u00e8 accents", "\u03bcm and \u00b0", "a 'quote'", "\u4e2d\u6587", "100 %", "a\tb"]


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\t", "\\t") + '"'


def dump(m):
    """the definition as YAML, in the order it was drawn in"""
    o = ["---", "schema_version: %d" % m["version"], "options:"]
    o += ["  %s: %s" % kv for kv in m["options"]]

    def members(ind, l):
        return [ind + "- " + x for x in l]

    def extra(ind, e, key):
        r = []
        if e:
            r.append(ind + key + ":")
            for k, v in e.items():
                if "\n" in v:
                    r.append(ind + "  " + k + ": |")
                    r += [ind + "    " + x for x in v.split("\n") if x]
                else:
                    r.append(ind + "  " + k + ": " + q(v))
        return r
    if m["components"]:
        o.append("components:")
        for n, c in m["components"].items():
            o += ["  %s:" % n, "    Members:"] + members("      ", c["Members"]) + extra("    ", c.get("ExtraCode"), "ExtraCode")
    if m["datatypes"]:
        o.append("datatypes:")
        for n, d in m["datatypes"].items():
            o += ["  %s:" % n, "    Description: " + q(d["Description"]), "    Author: " + q(d["Author"])]
            for k in ("Members", "VectorMembers", "OneToOneRelations", "OneToManyRelations"):
                if d[k]:
                    o += ["    %s:" % k] + members("      ", d[k])
            o += extra("    ", d.get("ExtraCode"), "ExtraCode") + extra("    ", d.get("MutableExtraCode"), "MutableExtraCode")
    if m["interfaces"]:
        o.append("interfaces:")
        for n, d in m["interfaces"].items():
            o += ["  %s:" % n, "    Description: " + q(d["Description"]), "    Author: " + q("sim"), "    Members:"] + members("      ", d["Members"])
            o += ["    Types:"] + members("      ", d["Types"])
    if m["links"]:
        o.append("links:")
        for n, d in m["links"].items():
            o += ["  %s:" % n, "    Description: " + q(d["Description"]), "    Author: " + q("sim"), "    From: " + d["From"], "    To: " + d["To"]]
    return "\n".join(o) + "\n"


def draw(rng, interfaces=True):
    """a model, and possibly its older versions and how they are related"""
    ns = rng.choice(["", "edm", "a", "edm"])
    full = lambda n: (ns + "::" if ns and rng.random() < 0.85 else "") + n  # noqa: E731
    comps, types, ifs, links = {}, {}, {}, {}
    for i in range(rng.randrange(0, 9)):
        n = full("C%s" % rng.choice(["Vec", "Arr", "Pos", "Ref", "Cov", "Quant"]) + "abcdefghij"[i])
        mem = []
        for j, w in enumerate(rng.sample(WORDS, rng.randrange(1, 5))):
            k = rng.randrange(10)
            if k < 6 or not comps:
                mem.append("%s %s" % (rng.choice(BUILTIN), w))
            elif k < 8:
                mem.append("%s %s" % (rng.choice(list(comps)), w))
            elif k < 9:
                mem.append("std::array<%s, %d> %s" % (rng.choice(BUILTIN), rng.randrange(1, 7), w))
            else:
                mem.append("std::array<%s, %d> %s" % (rng.choice(list(comps)), rng.randrange(1, 4), w))
        comps[n] = {"Members": mem}
        if rng.random() < 0.3:
            comps[n]["ExtraCode"] = {"declaration": "int f%d() const { return %d; }\n" % (i, i),
                                     "includes": "".join("#include <%s>\n" % h for h in rng.sample(["cmath", "string", "algorithm", "array", "map"], rng.randrange(1, 4)))}
    tn = [full(n) for n in rng.sample(NAMES, rng.randrange(1, 9))]
    ifn = [full("I" + n) for n in rng.sample(NAMES, rng.randrange(0, 3))] if interfaces and len(tn) > 1 else []
    for n in tn:
        ws = rng.sample(WORDS, 12)
        d = {"Description": rng.choice(TEXT), "Author": rng.choice(["sim", "J\u00f6rg"]), "Members": [], "VectorMembers": [], "OneToOneRelations": [], "OneToManyRelations": []}
        com = lambda: " // " + rng.choice(TEXT).replace("\t", " ")  # noqa: E731
        # what interfaces need
        d["Members"].append("double energy%s" % com())
        ws = [w for w in ws if w != "energy"]
        for _ in range(rng.randrange(0, 4)):
            k = rng.randrange(10)
            t = rng.choice(BUILTIN) if k < 5 or not comps else rng.choice(list(comps)) if k < 8 else "std::array<%s, %d>" % (rng.choice(BUILTIN + list(comps)), rng.randrange(1, 5))
            d["Members"].append("%s %s%s%s" % (t, ws.pop(), "{%d}" % rng.randrange(9) if t in BUILTIN and t not in ("bool", "char") and rng.random() < 0.3 else "", com()))
        for _ in range(rng.randrange(0, 3)):
            d["VectorMembers"].append("%s %s%s" % (rng.choice(BUILTIN + list(comps)), ws.pop(), com()))
        rel = tn + ifn
        for _ in range(rng.randrange(0, 3)):
            d["OneToOneRelations"].append("%s %s%s" % (rng.choice(rel), ws.pop(), com()))
        for _ in range(rng.randrange(0, 3)):
            d["OneToManyRelations"].append("%s %s%s" % (rng.choice(rel), ws.pop(), com()))
        if rng.random() < 0.4:
            d["ExtraCode"] = {"declaration": "int one() const { return 1; }\n", "includes": "".join("#include <%s>\n" % h for h in rng.sample(["cmath", "string", "algorithm", "set", "map"], rng.randrange(1, 4)))}
        if rng.random() < 0.2:
            d["MutableExtraCode"] = {"declaration": "int two() { return 2; }\n", "includes": "#include <list>\n#include <deque>\n"}
        types[n] = d
    for n in ifn:
        ifs[n] = {"Description": rng.choice(TEXT), "Members": ["double energy // e"], "Types": rng.sample(tn, rng.randrange(1, min(4, len(tn)) + 1))}
    for i in range(rng.randrange(0, 4)):
        links[full("Link" + "abcd"[i])] = {"Description": rng.choice(TEXT), "From": rng.choice(tn + ifn), "To": rng.choice(tn + ifn)}
    m = {"version": rng.randrange(2, 6), "options": [("getSyntax", rng.choice(["True", "False"])), ("exposePODMembers", "False"), ("includeSubfolder", "True")],
         "components": comps, "datatypes": types, "interfaces": ifs, "links": links}
    return m


def older(m, rng, version):
    """a model that m may have come from without anything that has to be explained"""
    import copy
    o = copy.deepcopy(m)
    o["version"] = version
    o["links"] = {}
    for d in o["datatypes"].values():
        d.pop("ExtraCode", None)
        d.pop("MutableExtraCode", None)
        while len(d["Members"]) > 1 and rng.random() < 0.3:
            d["Members"].pop()
    for c in o["components"].values():
        c.pop("ExtraCode", None)
    # components that are no more
    for i in range(rng.randrange(0, 5)):
        o["components"]["Gone%s" % "EDACB"[i]] = {"Members": ["int a", "float b"]}
    for n in list(o["datatypes"]):
        used = any(x.split(" ")[0] == n for d in o["datatypes"].values() for k in ("OneToOneRelations", "OneToManyRelations") for x in d[k])
        used = used or any(n in d["Types"] for d in o["interfaces"].values())
        if len(o["datatypes"]) > 1 and not used and rng.random() < 0.2:
            del o["datatypes"][n]
    return o


def config(name, files, pkg, backends, lang="cpp", extra=()):
    """files: name -> text; the first one is the definition"""
    return {"name": name, "files": files, "pkg": pkg, "main": next(iter(files)), "backends": list(backends), "lang": lang, "extra": list(extra)}


def read(p):
    with open(p, encoding="utf-8") as f:
        return f.read()


def library(seed, n, repo):
    """all the models of one check"""
    m = {k: read("%s/sim/model/%s.yaml" % (VERIF, k)) for k in ("dm", "dmx", "dmy")}
    out = [config("dm", {"dm.yaml": m["dm"]}, "dm", ["ROOT", "SIO"]),
           config("dm-sio", {"dm.yaml": m["dm"]}, "dm", ["SIO"]),
           config("dmy", {"dmy.yaml": m["dmy"]}, "dmy", ["ROOT", "SIO", "ARROW"], extra=["--datamodel-version", "v1.2"]),
           config("dm-julia", {"dm.yaml": m["dm"]}, "dm", ["ROOT"], lang="julia"),
           config("dmx", {"dmx.yaml": m["dmx"], "dm.yaml": m["dm"]}, "dmx", ["ROOT", "SIO"], extra=["--upstream-edm", "dm:@dm.yaml"])]
    full = read(HERE + "/full.yaml")
    old = full.replace("schema_version: 3", "schema_version: 1").replace("x_new", "x").replace("id{-1}", "number{-1}")
    files = {"full.yaml": full, "pos.h": "// \u03c1 in the plane\ndouble rho() const { return std::sqrt(x_new * x_new + y * y); }\n",
             "hit.ipp": "// \u00d72\ndouble {name}::twice() const {{ return 2 * energy(); }}\n".replace("{{", "{").replace("}}", "}"),
             "clu.h": "void none() {} // \u00e9\n", "old1.yaml": old,
             "evo.yaml": "migrations:\n  full::Pos:\n    - {from_version: 1, to_version: 3, rename_member: {from: x, to: x_new}}\n"
                         "  full::Cluster:\n    - {from_version: 1, to_version: 3, rename_member: {from: number, to: id}}\n"}
    out += [config("full", files, "full", ["ROOT", "SIO"], extra=["--evolution_file", "@evo.yaml", "--old-descriptions", "@old1.yaml"]),
            config("full-format", {k: v for k, v in files.items() if k not in ("old1.yaml", "evo.yaml")}, "full", ["ROOT", "SIO"], extra=["-c"])]
    rng = random.Random(seed * 1000003 + 17)
    i = 0
    while i < n:
        lang = "julia" if i % 4 == 3 else "cpp"
        mod = draw(rng, interfaces=lang == "cpp")
        files = {"m.yaml": dump(mod)}
        extra = []
        if lang == "cpp" and i % 2 == 0:
            vs = sorted(rng.sample(range(1, mod["version"]), rng.randrange(1, min(3, mod["version"]))), reverse=True)
            prev = mod
            for v in vs:
                prev = older(prev, rng, v)
                files["old%d.yaml" % v] = dump(prev)
            extra = ["--old-descriptions"] + ["@" + f for f in files if f != "m.yaml"]
        if lang == "cpp" and rng.random() < 0.15:
            extra = ["-c"] + extra
        out.append(config("drawn%d" % i, files, "edm", rng.choice([["ROOT"], ["SIO"], ["ROOT", "SIO"], ["SIO", "ROOT"]] + ([["ROOT", "SIO", "ARROW"]])), lang, extra))
        # the same model after an edit
        if rng.random() < 0.6:
            import copy
            e = copy.deepcopy(mod)
            for d in e["datatypes"].values():
                if rng.random() < 0.5:
                    d["Members"].append("int added // new")
            if len(e["datatypes"]) > 1 and rng.random() < 0.5:
                k = list(e["datatypes"])[-1]
                if not any(x.split(" ")[0] == k for d in e["datatypes"].values() for r in ("OneToOneRelations", "OneToManyRelations") for x in d[r]) and \
                        not any(k in d["Types"] for d in e["interfaces"].values()) and not any(k in (d["From"], d["To"]) for d in e["links"].values()):
                    del e["datatypes"][k]
            out.append(config("drawn%d-edited" % i, {"m.yaml": dump(e)}, "edm", out[-1]["backends"], lang, [x for x in extra if x == "-c"]))
        i += 1
    return out
