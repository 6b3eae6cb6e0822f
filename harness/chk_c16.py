import copy
import re

from . import common as c, archivecases as ac, gencls, asm, genmut, diffcases as dc


def words_from_spec(chk, scratch):
    r = chk.model("MC_MpDist", "MC_MpDist_words", scratch=scratch)
    res = []
    for m in re.findall(r'^<<"WORD", \d+, \d+, \d+, <<([\d, ]*)>>', r.out, re.M):
        res.append([int(x) for x in m.split(",")])
    if len(res) < 1000:
        raise c.Machinery("only %d schedules from MC_MpDist_words" % len(res))
    return res


def spoil(r, data):
    """not a class (or manifest) any more"""
    if data[:4] == b"\xca\xfe\xba\xbe":
        return data[:r.randrange(4, len(data))] if r.random() < .5 else b"\x00" + data[1:]
    return b"no manifest\r\nat all"


def many(r, n):
    """a distribution of many changed classes and jars"""
    bs = ac.Bodies(r)
    l, rr = [], []
    for i in range(n):
        if i % 3 == 2:
            es = ac.entries(r, bs, 2)
            x, y = bs.jar(es[0]), bs.jar(es[1])
            p = ac.cp("lib/j%d.jar" % i)
        else:
            k = gencls.klass(r, nf=1, nm=1, rich=.1)
            x, y = bs.add(asm.assemble(k)), bs.add(asm.assemble(genmut.edited(r, k, 1)))
            p = ac.cp("c%d.class" % i)
        if r.random() < .15:
            y = x
        if r.random() < .95:
            l.append({"p": p, "c": x})
        if r.random() < .95:
            rr.append({"p": p, "c": y})
    for i in range(r.randrange(0, 4)):
        l.append({"p": ac.cp("t%d.txt" % i), "c": bs.add(b"t")})
        rr.append({"p": ac.cp("t%d.txt" % i), "c": bs.add(r.choice([b"t", b"u"]))})
    return {"kind": "dist", "l": l, "r": rr, "bodies": bs.list, "stamp": None}, bs


def damage(r, case, bs):
    """spoil what some changed entries hold"""
    tasks = []
    for e in case["l"]:
        for f in case["r"]:
            if e["p"] == f["p"] and e["c"] != f["c"] and e["c"] and f["c"]:
                n = ac.cc_name(e, "p")
                if n.endswith(".class") or n.rsplit("/", 1)[-1] == "MANIFEST.MF":
                    tasks.append(r.choice([e, f]))
                elif n.endswith(".jar"):
                    b = case["bodies"][e["c"] - 1]
                    for x in b["a"]:
                        if ac.cc_name(x, "n").endswith(".class"):
                            tasks.append(x)
    if not tasks:
        return False
    for e in r.sample(tasks, min(len(tasks), r.choice([1, 1, 1, 2, 9]))):
        data = bytes(case["bodies"][e["c"] - 1]["b"])
        if not data:
            continue
        # not shared with what is fine
        case["bodies"].append({"b": list(spoil(r, data)), "a": [], "bad": True})
        e["c"] = len(case["bodies"])
    return True


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C16")
    chk.model("MC_MpDist", scratch=scratch)
    if deep:
        chk.model("MC_MpDist", "MC_MpDist_deep", scratch=scratch, timeout=3000)
    words = words_from_spec(chk, scratch)
    chk.cov["schedules_from_MC_MpDist"] = len(words)
    quiet = [w for w in words if max(w) < 10]
    cases = []

    def word(kind):
        if kind == "spec":
            return list(r.choice(quiet))
        if kind == "die":
            return list(r.choice(words))
        k = r.choice([1, 2, 3, 8])
        if kind == "bursts":
            w = []
            while len(w) < 60:
                w += [r.randrange(k + 1)] * r.choice([1, 3, 10, 30])
            return w
        return [r.randrange(k + 1) for _ in range(r.choice([10, 40, 120]))]

    def sched(call, formats, n, die=False):
        res = []
        for _ in range(n):
            w = word(r.choice(["spec", "spec", "spec", "rand", "bursts"]))
            if die:
                w = word("die") if r.random() < .5 else w
                if max(w + [0]) < 10:
                    w.insert(r.randrange(len(w) + 1), 10 + r.choice([1, 1, 2, 3]))
            res.append({"how": "words", "word": w, "seed": r.randrange(10 ** 6), "processes": r.choice([1, 2, 2, 3, 8]),
                        "formats": formats, "call": call})
        return res

    def add(case, bs, n, reals=0, die=False, big=False):
        call = ac.call(r, case, bs, "api")
        if r.random() < .4:
            call = ac.plain("api")
        call.update(dir="lr", shallow=False, slash=False)
        formats = r.choice([["json"], ["json"], ["json", "text"]])
        case["runs"] = [{"how": "words", "word": [], "seed": 0, "processes": 0, "formats": formats, "call": call}]
        case["runs"] += sched(call, formats, n, die)
        for _ in range(reals):
            rn = {"how": "real", "processes": r.choice([1, 2, 5]), "formats": formats, "call": call, "patience": 60}
            if die:
                t = [e["p"] for e in case["l"] if ac.cc_name(e, "p").rsplit(".", 1)[-1] in ("class", "jar")]
                if t:
                    rn["victim"] = r.choice(t)
            case["runs"].append(rn)
        cases.append(case)

    for i in range(3000 if deep else 330):
        if r.random() < .5:
            case, bs = ac.dist_case(r)
        else:
            case, bs = many(r, r.choice([2, 2, 3, 6, 12]))
        w = i % 6
        if w == 4:
            damage(r, case, bs)
        add(case, bs, 6, reals=1 if i % (30 if deep else 22) == 0 else 0, die=w == 5)
    for i in range(40 if deep else 6):
        case, bs = many(r, r.choice([3, 9]))
        if i % 2:
            damage(r, case, bs)
        add(case, bs, 2, reals=1, die=i % 2 == 0)
    for i in range(4 if deep else 2):
        # more than fits into a pipe
        case, bs = many(r, 250)
        if i % 2:
            damage(r, case, bs)
        add(case, bs, 1, reals=2)
    chk.conform("Trace_MpDist", "mpdist", cases, scratch, chunk=400, timeout_case=400)
    chk.assumptions = ["helpers share nothing but the queues: arguments and queue items are copied",
                       "stand-in queues deliver in order and without loss; real queues are used in a few runs"]
