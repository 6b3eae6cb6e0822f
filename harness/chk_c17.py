import copy
import os
import shutil
import subprocess

from . import common as c, clscases, archivecases as ac, comparecases as cc, diffcases as dc, gencls, genmut, asm

#: names of classes no plain path can be made of
HOSTILE = ["../up.class", "../../up.class", "../../../A.class", "a/../../A.class", "a/../A.class", "./A.class", "a/./A.class", "a//A.class",
           "@ABS@/abs.class", "@ABS@/w/abs.class", "//A.class", "JarReport.html/A.class", "JarReport.json/A.class", "JavaClassReport.html.class",
           "A.class/JavaClassReport.html/B.class", "A.class/JavaClassReport.json/B.class", "A.class", "A.class/B.class", "%2E%2E/A.class", "%2E/A.class", "%/A.class",
           "%25/A.class", "a%2FA.class", "a b.class", "a'b\".class", "a&b.class", "<b>.class", "a#b.class", "a?b.class", "a:b.class", "ü/Ä.class", "\u65e5.class",
           "&lt;.class", "a;b=c.class", " .class", ".class", "..class", "...class", "..a/A.class", ".a/A.class", "A.class/../B.class", "%00.class", "%252E/A.class",
           "\\A.class", "a\\..\\B.class", "DistReport.json/A.class", "JarReport.html.class", "JarReport%2Ehtml/A.class", "JarReport.text/x/A.class", "~/A.class", "$HOME.class"]


def built(scratch):
    """the library with its page templates, built from the working tree"""
    src = os.path.join(scratch, "src")
    shutil.copytree(c.REPO, src, ignore=shutil.ignore_patterns(".git", "build", "dist", "*.egg-info", "__pycache__", "tests"))
    p = subprocess.run([c.PY, "-B", "setup.py", "-q", "build", "--build-base", os.path.join(scratch, "b"), "--build-lib", os.path.join(scratch, "lib")],
                       cwd=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    lib = os.path.join(scratch, "lib")
    if p.returncode or not os.path.isdir(os.path.join(lib, "javatools", "cheetah")):
        raise c.Machinery("build: " + p.stdout.decode("utf-8", "replace")[-800:])
    shutil.rmtree(src)
    return lib


def klass_pair(r):
    k = gencls.klass(r, nf=r.choice([0, 1, 2]), nm=r.choice([0, 1, 2]), rich=r.choice([.1, .3, .7]))
    e = genmut.edited(r, k, r.choice([1, 2, 4]))
    w = r.randrange(5)
    if w == 0:
        # only what can be ignored
        e = copy.deepcopy(k)
        e["major"] = {45: 46, 61: 60}.get(k["major"], k["major"] + 1)
    elif w == 1:
        return dc.relaid(r, k)
    return asm.assemble(k, **dc.lay(r)), asm.assemble(e, **dc.lay(r))


def hostile_name(r):
    if r.random() < .75:
        return r.choice(HOSTILE)
    parts = ["a", "B", "..", ".", "", "%", "%2E", "JarReport.html", "JavaClassReport.json", "A.class", "ü", " ", "x.y"]
    n = "/".join(r.choice(parts) for _ in range(r.choice([1, 2, 2, 3]))) + "/" + r.choice(["A", "", ".", "..", "B", "%"]) + ".class"
    while n.split("/").count("..") > 3:
        n = n.replace("../", "", 1)
    return "@ABS@" + n if n.startswith("/") else n


def hostile_jar(r, most=5):
    bs = ac.Bodies(r)
    names = []
    for _ in range(r.randrange(2, most + 1)):
        n = hostile_name(r)
        if n not in names:
            names.append(n)
    return names_jar(r, bs, names) + (bs,)


def names_jar(r, bs, names):
    l, rr = [], []
    for n in names:
        a, b = klass_pair(r)
        x, y = bs.add(a), bs.add(b)
        w = r.random()
        if w < .15:
            y = x
        if w < .93:
            l.append({"n": ac.cp(n), "c": x})
        if w > .07:
            rr.append({"n": ac.cp(n), "c": y})
    return l, rr


REPS = [["rep"], ["rep", "deep", "er"], [], ["r p ü"], ["a#b", "c?d%20"]]


def report_call(r, base, **kw):
    formats = r.choice([["html", "json", "text"]] * 4 + [["json", "html"], ["html"], ["json"], ["text"], ["htm", "txt"], ["json", "json"], ["text", "json"]])
    rep = r.choice(REPS)
    k = dict(base, formats=formats, rep=rep, abs=r.random() < .5, si=r.random() < .5, su=r.random() < .5, data=[], processes=0, again=r.random() < .15,
             out=r.choice(["quiet", "quiet", "json", "text", "output"]))
    if "html" in formats and r.random() < .4:
        k["data"] = r.choice([rep + ["data"], ["media"], ["me dia", "x#y"]])
    if "html" in formats and r.random() < .4:
        for what, ext in (("sheets", "css"), ("scripts", "js")):
            k[what] = [[r.choice(["rel", "rel", "abs", "url", "gone"]), "%s%d.%s" % (r.choice(["m", "n/o/m"]), i, ext)] for i in range(r.choice([0, 1, 2, 3]))]
            # names which URLs reserve characters of, found by relative paths
            k[what] += [["rel", "a b#%%c?d.%s" % ext]] if r.random() < .3 else []
    if r.random() < .3:
        k["indent"] = r.choice([0, 1, 4, 7])
    k.update(kw)
    return k


def tiny(r, i, kind):
    """a pair of small classes which differ in a given way, named after i"""
    k = gencls.klass(r, nf=0, nm=0, rich=0)
    k["this"], k["super"] = "p/K%d" % i, "p/S"
    e = copy.deepcopy(k)
    if kind == "info":
        e["super"] = k["super"] + "X"
    elif kind == "ignored":
        k["major"], e["major"] = 50, 51
    if kind == "relaid":
        return dc.relaid(r, k)
    a = asm.assemble(k)
    return a, a if kind == "same" else asm.assemble(e)


def placed(r, scen):
    """all the entries the specification tells apart, in one jar"""
    bs = ac.Bodies(r)
    l, rr = [], []
    for i, e in enumerate(scen["entries"]):
        n = "/".join(e)
        for n in [n + "/A.class"] + ([n] if n.endswith(".class") else []):
            a, b = tiny(r, i if n.endswith("/A.class") else 1000 + i, scen["kinds"][i])
            n = "@ABS@" + n if n.startswith("/") else n
            l.append({"n": ac.cp(n), "c": bs.add(a)})
            rr.append({"n": ac.cp(n), "c": bs.add(b)})
    seen = {tuple(x["n"]): x for x in l}
    keep = {t: (x, next(y for y in rr if y["n"] == x["n"])) for t, x in seen.items()}
    return {"kind": "jar", "l": [x for x, _ in keep.values()], "r": [y for _, y in keep.values()], "lf": "zip", "rf": "zip",
            "bodies": bs.list, "how_l": ac.how(r), "how_r": ac.how(r)}


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C17")
    lib = built(scratch)
    cases = []
    scen = clscases.from_spec(chk, "MC_Report", scratch)
    chk.refutes("MC_Report", "MC_Report_careless", "Contained", scratch=scratch)
    chk.refutes("MC_Report", "MC_Report_shared", "Alone", scratch=scratch)
    for s in scen:
        case = placed(r, s)
        case["calls"] = [report_call(r, dict(ac.plain("quiet"), words=["version_up"]), si=s["si"], su=s["su"], formats=["html", "json", "text"])]
        cases.append(case)
    for i in range(800 if deep else 60):
        a, b = klass_pair(r)
        bs = ac.Bodies(r)
        base = ac.plain("quiet")
        calls = []
        for j in range(2):
            w = r.choice([[], [], dc.words(r), dc.WORDS])
            calls.append(report_call(r, dict(base, words=sorted(set(w)), form=r.randrange(3))))
        cases.append({"kind": "class", "l": list(a), "r": list(b), "calls": calls})
    for i in range(800 if deep else 60):
        case, bs = ac.jar_case(r)
        case["calls"] = [report_call(r, ac.call(r, case, bs, "quiet")) for _ in range(2)]
        cases.append(case)
    for i in range(1200 if deep else 80):
        l, rr, bs = hostile_jar(r)
        case = {"kind": "jar", "l": l, "r": rr, "lf": "zip", "rf": "zip", "bodies": bs.list, "how_l": ac.how(r), "how_r": ac.how(r)}
        case["calls"] = [report_call(r, ac.plain("quiet") if r.random() < .6 else ac.call(r, case, bs, "quiet"))]
        cases.append(case)
    for i in range(600 if deep else 50):
        case, bs = ac.dist_case(r)
        if r.random() < .5:
            x = hostile_jar(r, 3)
            es = []
            for side in x[:2]:
                es.append(bs.jar([dict(e, c=bs.add(bytes(x[2].list[e["c"] - 1]["b"]))) for e in side]))
            n = r.choice(["h.jar", "lib/h.jar", "h h.jar", "#.jar", "%.jar", "JarReport.html.jar", "DistReport.html/x.jar", "..jar", "ü.jar", "DistReport.json.jar"])
            for s, x in (("l", es[0]), ("r", es[1])):
                ac.put(case, s, n, x)
            case["bodies"] = bs.list
        case["calls"] = [report_call(r, ac.call(r, case, bs, "quiet") if r.random() < .7 else ac.plain("quiet"), processes=p) for p in (0, r.choice([1, 2, 3]))]
        cases.append(case)
    chk.conform("Trace_Report", "report", cases, scratch, chunk=40, par=8, timeout_case=60, pythonpath=lib)
    chk.assumptions = ["what the comparison finds is taken from the library without reports (C10, C11 and C12 decide it)",
                       "the instructions and lines of code are taken from the library (C04 decides them)"]
