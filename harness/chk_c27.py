from . import asm, clscases, common as c, gencls, mfcases
from .chk_c06 import GLOBS
from .chk_c07 import DIRS, pooled

SHOWS = ["--header", "--public", "--package", "--private"]
CLS = ["-l", "-o", "-c", "-s", "-p", "--verbose", "--class-provides", "--class-requires"]
JAR = ["--zip", "--manifest", "--jar-provides", "--jar-requires", "--jar-classes"]
DIST = ["--dist-provides", "--dist-requires"]


def words(r, on):
    w = r.sample(SHOWS, r.choice([0, 1, 1, 1, 2]))
    rare = r.random() < .7
    w += [x for x in CLS[:5] if r.random() < .4] + [x for x in CLS[5:] if r.random() < (.12 if rare else .4)]
    if on != "class":
        w += [x for x in JAR if r.random() < .5]
    if on == "dist":
        w += [x for x in DIST if r.random() < .6]
    r.shuffle(w)
    return w


def manifest(r):
    k = r.random()
    if k < .2:
        return b""
    d = mfcases.document(r)
    return mfcases.text(r, d, r.choice([b"\r\n", b"\n"]))


def jar(r, n):
    k = r.random()
    es = {}
    if k > .12:
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            x = r.choice(DIRS) + r.choice(["A", "B", "C$1", "é", "-x"]) + r.choice([".class", ".class", ".txt", ".properties"])
            es[x] = r.randrange(n) if x.endswith(".class") else list(r.choice([b"", b"a" * 400, b"some thing", bytes(range(256)), b"x"]))
    if r.random() < .6:
        m = manifest(r)
        es["META-INF/MANIFEST.MF"] = list(m)
    es = [[a, b] for a, b in es.items()]
    r.shuffle(es)
    if r.random() < .3:
        es.insert(r.randrange(len(es) + 1), ["some/dir/", -2])
    return {"es": es, "stored": r.random() < .4}


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C27")
    scen = clscases.from_spec(chk, "MC_InfoText", scratch, deep_cfg=False)
    chk.refutes("MC_InfoText", "MC_InfoText_careless", "Exact", scratch=scratch)
    r.shuffle(scen)
    cases = []
    for i in range(3000 if deep else 700):
        bs = [list(pooled(r) if r.random() < .3 else clscases.build(r, nan=True)) for _ in range(r.choice([1, 1, 2, 3]))]
        case = {"bodies": bs, "jars": [jar(r, len(bs)) for _ in range(r.choice([1, 1, 2]))], "loose": r.sample(range(len(bs)), r.randrange(len(bs) + 1)), "ops": []}
        for _ in range(r.choice([4, 6, 8])):
            on = r.choice(["class"] * 4 + ["jar"] * 4 + ["dist"])
            js = r.random() < .4
            of = [[k, r.random() < .4] for k in r.sample(range(len(case["jars"])), r.choice([1, 1, len(case["jars"])]))] if on == "jar" else r.sample(range(len(bs)), r.choice([1, 1, len(bs)]))
            w = scen.pop()["words"] if scen and on == "class" else words(r, on)
            case["ops"].append({"on": on, "json": js, "of": of, "words": w, "ign": r.sample(GLOBS, r.choice([0, 0, 1, 2]))})
        cases.append(case)
    for _name, b in clscases.samples():
        case = {"bodies": [list(b)], "jars": [{"es": [["S.class", 0]]}], "ops": []}
        for _ in range(4):
            case["ops"].append({"on": "class", "json": r.random() < .3, "of": [0], "words": words(r, "class"), "ign": []})
        case["ops"].append({"on": "jar", "json": False, "of": [[0, False]], "words": ["--verbose", "--jar-classes", "--private"], "ign": []})
        cases.append(case)
    chk.conform("Trace_InfoText", "info", cases, scratch, par=8, chunk=100, timeout_case=60)
    chk.assumptions = ["classes and manifests are valid", "the names, values and renderings of a class are those the library's interface gives (C03, C05, C06)"]
