from . import archivecases as ac, common as c
from .chk_c17 import built, klass_pair
from .chk_c29 import asks_of, big_jar

HOSTILE = ["../up.txt", "../../up.txt", "../../cwd/a.txt", "../../in/l.zip", "@TOP@/in/abs.txt", "@TOP@/keep/a.txt", "x/../../../keep/a.txt", "..\\up.txt", "./a.txt", "../../own/j", "C:/a.txt", "~/a.txt"]


def stopped(r, deep):
    return int(10 ** r.uniform(0, 4)) if r.random() < .3 else 0


def requests(r, kind, html, zipped):
    qs = []
    for a in asks_of(r, kind, html):
        a.pop("forks", None)
        if a["main"] == "distdiff":
            a["args"].insert(0, "--processes=%d" % r.choice([0, 0, 1]))
        a["writes"] = ["out"] if "OUT" in a["args"] else []
        if a["main"].endswith("diff") and not a["writes"] and r.random() < .3:
            a["args"] = ["-o", "OUT"] + a["args"]
            a["writes"] = ["out"]
        qs.append(a)
    if kind == "jar":
        qs.append({"main": "manifest", "args": ["c", "l"], "writes": []})
        if zipped:
            key, cert = r.choice([("rsa1", "rsa1"), ("ec1", "ec1"), ("dsa1", "dsa1")])
            qs.append({"main": "jarutil", "args": ["s", "-o", "OUT", "OWN", "cert:" + cert, "key:" + key, "K"], "writes": ["out"]})
            qs.append({"main": "jarutil", "args": ["s", "l", "cert:rsa1", "key:none", "K"], "writes": []})
            qs.append({"main": "jarutil", "args": ["s", "-o", "NODIR", "OWN", "cert:" + cert, "key:" + key, "K"], "writes": []})
            qs.append({"main": "jarutil", "args": ["v", "l", "cert:" + cert], "writes": []})
            own = [{"main": "jarutil", "args": ["s", "OWN", "cert:" + cert, "key:" + key, "K"], "writes": ["own"]},
                   {"main": "jarutil", "args": ["v", "OWN", "cert:" + cert], "writes": []}]
            if r.random() < .5:
                return r.sample(qs, 3) + own
    if r.random() < .3:
        qs.append({"main": "jarutil", "args": ["c", "OUT", "IN"], "writes": ["out"]})
    return r.sample(qs, min(len(qs), r.choice([2, 3, 4])))


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C30")
    chk.model("MC_Frame", scratch=scratch)
    chk.refutes("MC_Frame", "MC_Frame_literal", "Kept", scratch=scratch)
    chk.refutes("MC_Frame", "MC_Frame_borrow", "Kept", scratch=scratch)
    chk.refutes("MC_Frame", "MC_Frame_beside", "Always", scratch=scratch)
    lib = built(scratch)
    cases = []

    def add(case, html):
        zipped = case["kind"] == "jar" and case.get("lf") == "zip"
        qs = requests(r, case["kind"], html, zipped)
        for q in qs:
            q["rel"] = r.random() < .3
            if "--processes=1" not in q["args"]:
                q["stop"] = stopped(r, deep)
            if q.get("stop") and q["main"] == "jarutil" and q["args"][1] == "OWN":
                q["stop"] = 0
        case["asks"] = qs
        cases.append(case)
    for i in range(600 if deep else 60):
        a, b = klass_pair(r)
        add({"kind": "class", "l": list(a), "r": list(b)}, i % 4 == 0)
    for i in range(2400 if deep else 200):
        if r.random() < .4:
            case, _bs = ac.jar_case(r)
        else:
            l, rr, bs = big_jar(r)
            case = {"kind": "jar", "l": l, "r": rr, "lf": r.choice(["zip", "zip", "dir"]), "rf": r.choice(["zip", "zip", "dir"]), "bodies": bs.list, "how_l": ac.how(r), "how_r": ac.how(r)}
        case["links"] = r.random() < .3
        if r.random() < .15:
            case["cut"] = r.choice([0, 10, 50, 99])
        elif r.random() < .25:
            case["flip"] = r.randrange(100)
        add(case, i % 5 == 0)
    for i in range(1800 if deep else 160):
        case, bs = ac.dist_case(r)
        x = big_jar(r)
        es = []
        for side in x[:2]:
            es.append(bs.jar([dict(e, c=bs.add(bytes(x[2].list[e["c"] - 1]["b"]))) for e in side]))
        for s, e in (("l", es[0]), ("r", es[1])):
            ac.put(case, s, r.choice(["lib/big.jar", "b.jar"]), e)
        case["bodies"] = bs.list
        case["links"] = r.random() < .3
        if r.random() < .5:
            case["packed"] = r.sample(HOSTILE, r.choice([0, 1, 3]))
            if r.random() < .2:
                case["cut"] = r.choice([0, 10, 50, 99])
        add(case, i % 5 == 0)
    chk.conform("Trace_Frame", "frame", cases, scratch, chunk=100, par=6, timeout_case=90, pythonpath=lib)
    chk.assumptions = ["an in-place signing that is interrupted is left to C22", "reading a file is not a change of it (access times are not looked at)",
                       "the temporary directory is the one TMPDIR names"]
