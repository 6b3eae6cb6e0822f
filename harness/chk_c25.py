import json
import os
import subprocess

from . import asm, clscases, common as c
from .chk_c07 import pooled
from .chk_c22 import ERRS, HERE

MF = b"Manifest-Version: 1.0\r\nX: y\r\n\r\nName: a.txt\r\nSealed: true\r\n\r\n"


def jar_entries(r, bad=None):
    es = [["c%d.class" % i if r.random() < .6 else "p/c%d.class" % i, list(pooled(r))] for i in range(r.choice([0, 1, 2, 3]))]
    es.append(["a.txt", list(b"text")])
    if r.random() < .6:
        es.insert(r.randrange(len(es) + 1), ["META-INF/MANIFEST.MF", list(MF)])
    if r.random() < .3:
        es.append(["empty.d/", []])
    if bad == "class":
        es.insert(r.randrange(len(es) + 1), ["bad.class", list(pooled(r))[:r.choice([0, 3, 9, 30])]])
    if bad == "crc":
        es.insert(r.randrange(len(es) + 1), ["torn.class", list(pooled(r))])
    return es


def archives(r):
    out = {}
    for n in ("j", "k"):
        bad = r.choice([None, None, "class", "crc"])
        out[n] = {"kind": "jar", "es": jar_entries(r, bad), "crc": "torn.class" if bad == "crc" else None, "level": 0}
    for n in ("d", "e"):
        es = [["lib/%s.jar" % x, [], x] for x in r.sample(["j", "k"], r.choice([0, 1, 2]))] + [["x/%s" % e[0], e[1]] for e in jar_entries(r, r.choice([None, None, None, "class"]))]
        if r.random() < .2:
            es.append(["not.jar", list(b"no archive")])
        r.shuffle(es)
        out[n] = {"kind": "dist", "es": es, "level": 1}
        if r.random() < .25:
            out[n]["crc"] = "x/a.txt"
    return out


def jar_q(r, a):
    names = [e[0] for e in a["es"] if not e[0].endswith("/")]
    cls = [n for n in names if n.endswith(".class")] + ["none.class"]
    other = lambda: json.dumps(r.sample(["@j", "@k"], 2) if r.random() < .8 else ["@j", "@j"])
    return r.choice(["provides", "requires", 'provides ["a.*"]', 'requires ["java.*", "b.?"]', "classes", "manifest", "entries", "class " + r.choice(cls), "class " + r.choice(cls),
                     "read " + r.choice(names + ["none"]), "with", "cli " + json.dumps(r.sample(["--zip", "--manifest", "--jar-classes", "--jar-provides", "--jar-requires", "--json"], 2)),
                     "jardiff " + other()])


def dist_q(r, a):
    cls = [e[0] for e in a["es"] if e[0].endswith(".class")] + ["none.class"]
    jars = [e[0] for e in a["es"] if e[0].endswith(".jar")] + ["none.jar"]
    return r.choice(["contents", "jars", "classes", "provides", "requires", "provides", "requires", 'provides ["a.*"]', "class " + r.choice(cls), "jar " + r.choice(jars), "lent " + r.choice(jars),
                     "cli " + json.dumps(r.sample(["--dist-provides", "--dist-requires", "--json"], 2))])


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C25")
    so = os.path.join(scratch, "faults.so")
    p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, os.path.join(HERE, "native", "faults.c"), "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise c.Machinery("gcc: %r" % p.stdout[-2000:])
    scen = clscases.from_spec(chk, "MC_Resources", scratch, deep_cfg=True)
    chk.refutes("MC_Resources", "MC_Resources_partial", "Truthful", scratch=scratch)
    chk.refutes("MC_Resources", "MC_Resources_leak", "Held", scratch=scratch)
    r.shuffle(scen)
    cases = []

    def sometimes(op, always=False):
        if always or r.random() < .35:
            op["fault"], op["err"] = r.random(), r.choice(ERRS)
        return op
    for s in scen:
        for _ in range(8 if deep else 1):
            a = archives(r)
            a["d"].pop("crc", None)
            ops = []
            for i, k in enumerate(s["ops"]):
                op = {"k": "close", "o": 0} if k == "close" else {"k": "ask", "o": 0, "q": k}
                ops.append(sometimes(op, True) if i + 1 in s["fault"] else op)
            cases.append({"archives": a, "objs": [["dist-zip", "d"]], "ops": ops + [{"k": "ask", "o": 0, "q": "contents"}, {"k": "ask", "o": 0, "q": "provides"}]})
    for _ in range(6000 if deep else 450):
        a = archives(r)
        objs = []
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.choice(["jar-zip", "jar-zip", "jar-dir", "dist-zip", "dist-zip", "dist-dir"])
            objs.append([k, r.choice("jk" if k.startswith("jar") else "de")])
        ops = []
        for _ in range(r.choice([3, 6, 10])):
            o = r.randrange(len(objs))
            k, n = objs[o]
            # (where a distribution cannot be unpacked, a fault could hit the tidying up)
            maybe = (lambda op: op) if k == "dist-zip" and a[n].get("crc") else sometimes
            x = r.random()
            if x < .2:
                ops.append(maybe({"k": "close", "o": o}))
            elif x < .27:
                ops.append({"k": "drop", "o": o})
            elif x < .35 and k == "dist-dir":
                ops.append(maybe({"k": "ask", "o": o, "q": "distdiff " + json.dumps(r.choice([["@d", "@e"], ["@d", "@d"], ["--processes", "0", "@e", "@d"]]))}))
            else:
                ops.append(maybe({"k": "ask", "o": o, "q": (jar_q if k.startswith("jar") else dist_q)(r, a[n])}))
        cases.append({"archives": a, "objs": objs, "ops": ops})
    chk.conform("Trace_Resources", "resources", cases, scratch, par=8, chunk=400, timeout_case=60,
                env={"LD_PRELOAD": so, "VERIF_FAULTS": so, "PYTHONDONTWRITEBYTECODE": "1"})
    chk.assumptions = ["a fault is one failing operation on a file; where closing itself fails it is closed once more",
                       "what commands and comparisons hold is looked at when their exception has been dropped"]
