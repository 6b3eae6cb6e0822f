from . import archivecases as ac, asm, common as c, diffcases as dc, gencls
from .chk_c17 import built, klass_pair


def big_jar(r):
    """a jar of many entries, the other a variation of it"""
    bs = ac.Bodies(r)
    l, rr = [], []
    mf = lambda s: ("Manifest-Version: 1.0\r\n" + "".join("K%d: %s\r\n" % (i, s) for i in range(r.randrange(5))) + "\r\n" +
                    "".join("Name: n%d\r\nX: %s\r\n\r\n" % (i, r.choice(["a", s])) for i in r.sample(range(12), 8))).encode()
    for s, x in (("l", l), ("r", rr)):
        if r.random() < .9:
            x.append({"n": ac.cp("META-INF/MANIFEST.MF"), "c": bs.add(mf(s))})
    for i in range(r.randrange(4, 14)):
        n = r.choice(["p/C%d.class", "q/r/C%d.class", "C%d.class", "t/%d.txt", "lib/%d.properties", "%d"]) % i
        if n.endswith(".class"):
            a, b = klass_pair(r)
        else:
            a, b = b"one %d" % i, b"two %d" % i
        x, y = bs.add(bytes(a)), bs.add(bytes(b))
        if r.random() < .3:
            y = x
        w = r.random()
        if w < .75:
            l.append({"n": ac.cp(n), "c": x})
        if w > .25:
            rr.append({"n": ac.cp(n), "c": y})
    r.shuffle(l)
    r.shuffle(rr)
    return l, rr, bs


def words(r):
    w = r.choice([[], [], dc.words(r), dc.WORDS])
    return (["--ignore=" + ",".join(w)] if w else []) + r.choice([[], ["--show-ignored"], ["--show-unchanged"], ["--show-ignored", "--show-unchanged"]])


def asks_of(r, kind, html):
    fm = lambda: r.choice(["json", "text", "text,json"] + (["html"] if html else []))

    def diff(main, **kw):
        how = r.choice(["show", "json", "report", "report"])
        a = {"main": main, "args": words(r) + {"show": [], "json": ["--json"], "report": ["--report=" + fm(), "--report-dir=OUT"]}[how] + ["l", "r"]}
        if how == "report":
            a["report"] = True
            a["args"] = [x for x in a["args"] if not x.startswith("--report-dir")]
            a["args"] = a["args"][:-2] + ["--report-dir", "OUT", "l", "r"]
            a.update(kw)
        return a
    api = lambda p: r.choice([["--%s-provides" % p], ["--%s-requires" % p], ["--%s-provides" % p, "--%s-requires" % p]]) + (["--api-ignore=java.*"] if r.random() < .2 else [])
    if kind == "class":
        return [diff("classdiff"), {"main": "classinfo", "args": r.choice([["--json"], [], ["--verbose"]]) + api("class") + ["l"]},
                {"main": "classinfo", "args": r.choice([["--json"], ["--verbose"], ["-p", "-c"]]) + ["l"]}]
    if kind == "jar":
        return [diff("jardiff"), {"main": "jarinfo", "args": r.choice([["--json"], []]) + api("jar") + ["l"]},
                {"main": "jarinfo", "args": ["--jar-classes", "--zip"] + r.choice([["--manifest"], []]) + ["l"]},
                {"main": "manifest", "args": ["c", "-d", r.choice(["MD5", "SHA-256,SHA-512", "SHA1,MD5", "SHA-512,SHA-256,SHA1,MD5,SHA1", "MD5,MD5,SHA-384"]), "-m", "OUT", "l"]},
                {"main": "manifest", "args": ["q", "l", "Manifest-Version", "K1"]}, {"main": "manifest", "args": ["v", "l"]}]
    return [dict(diff("distdiff", forks=[0, 2, 0, 1]), ), {"main": "distinfo", "args": r.choice([["--json"], []]) + api("dist") + ["l"]}]


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C29")
    chk.model("MC_Repeat", scratch=scratch)
    chk.refutes("MC_Repeat", "MC_Repeat_unsorted", "Same", scratch=scratch)
    chk.refutes("MC_Repeat", "MC_Repeat_asdone", "Same", scratch=scratch)
    chk.refutes("MC_Repeat", "MC_Repeat_stale", "Right", scratch=scratch)
    lib = built(scratch)
    runs = 6 if deep else 3
    cases = []

    def add(case, html):
        asks = asks_of(r, case["kind"], html)
        for a in asks:
            if a["main"] == "distdiff" and "forks" not in a:
                a["args"].insert(0, "--processes=0")
        case["asks"] = asks
        n = list(range(len(asks)))
        case["orders"] = [r.sample(n, len(n)) for _ in range(runs)]
        cases.append(case)
    for i in range(1000 if deep else 100):
        a, b = klass_pair(r)
        if r.random() < .4:
            k = gencls.klass(r, nf=5, nm=6, rich=.8)
            a = asm.assemble(k, **dc.lay(r))
        add({"kind": "class", "l": list(a), "r": list(b)}, i % 3 == 0)
    for i in range(800 if deep else 90):
        if r.random() < .3:
            case, _bs = ac.jar_case(r)
        else:
            l, rr, bs = big_jar(r)
            case = {"kind": "jar", "l": l, "r": rr, "lf": r.choice(["zip", "zip", "dir"]), "rf": r.choice(["zip", "zip", "dir"]), "bodies": bs.list, "how_l": ac.how(r), "how_r": ac.how(r)}
        add(case, i % 4 == 0)
    for i in range(600 if deep else 70):
        case, bs = ac.dist_case(r)
        x = big_jar(r)
        es = []
        for side in x[:2]:
            es.append(bs.jar([dict(e, c=bs.add(bytes(x[2].list[e["c"] - 1]["b"]))) for e in side]))
        n = r.choice(["lib/big.jar", "b.jar", "x/y/z.war"])
        for s, e in (("l", es[0]), ("r", es[1])):
            ac.put(case, s, n, e)
        # a tree on one side only
        for q in r.sample(["d/a.txt", "d/b.txt", "d/c.txt", "d/e/a", "d/e/b", "d/f/a", "d/g.txt", "d/h.class"], 6):
            ac.put(case, "l", "only/" + q, bs.add(q.encode() if not q.endswith("class") else bytes(klass_pair(r)[0])))
        case["bodies"] = bs.list
        add(case, i % 4 == 0)
    chk.conform("Trace_Repeat", "repeat", cases, scratch, chunk=200, par=4, timeout_case=90, pythonpath=lib, env={"VERIF_RUNS": str(runs)})
    chk.assumptions = ["the order in which a directory is listed and the hashes of texts are varied; memory addresses vary as they do from process to process"]
