import copy

from . import clscases, common as c

KINDS = ["class", "class", "text", "manifest", "jar"]
TOPS = ["missing", "empty", "junk", "cut", "wrong"]
CLASSASK = [[], ["-p"], ["--public"], ["-c"], ["-p", "-c", "-o"], ["--json"], ["--json", "--class-provides", "--class-requires"], ["--verbose"], ["--class-provides"], ["--class-requires"], ["-l", "-s"]]
MASKED = ["--ignore=pool,lines,version,platform,deprecated,added"]


def shut(w):
    for p in w["parts"]:
        if p["up"]:
            q = w["parts"][p["up"] - 1]
            for s in "lr":
                if q[s] not in "ab":
                    p[s] = "no"
    for s, t in (("l", "lt"), ("r", "rt")):
        if w[t] != "good":
            for p in w["parts"]:
                p[s] = "no"
    return w


def request(r, cmd, ask=None, masks=None):
    """a request and the words to make it with"""
    pre = []
    hopeless = ask == ["badargs"] or (ask is None and r.random() < .05)
    if hopeless:
        ask = None
    if masks is None:
        masks = r.random() < .3 and cmd.endswith("diff")
    if cmd == "classinfo":
        pre = r.choice(CLASSASK)
    if cmd == "jarinfo":
        ask = r.sample(["provides", "requires", "manifest", "classes"], r.choice([0, 1, 1, 2, 4])) if ask is None else ask
        pre = ["--" + ("jar-" + a if a != "manifest" else a) for a in ask]
        if "json" not in ask and set(ask) <= {"provides", "requires"} and ask and r.random() < .3:
            pre.append("--json")
    if cmd == "distinfo":
        ask = r.choice([["provides"], ["requires"], ["provides", "requires"]]) if not ask else ask
        pre = ["--dist-" + a for a in ask]
        if r.random() < .3:
            pre.append("--json")
    if cmd.endswith("diff"):
        pre = list(r.choice([[], [], ["-q"], ["--json"], ["--show-ignored"], ["-v"]]))
        if cmd == "distdiff":
            pre.append("--processes=%d" % r.choice([0, 0, 0, 0, 0, 0, 1, 2]))
            if not masks and r.random() < .25:
                pre.append("--shallow")
        if masks:
            pre += MASKED
            if cmd != "classdiff":
                pre.append("--ignore-jar-signature")
            if cmd == "distdiff":
                pre.append("--ignore-trailing-whitespace")
    if cmd == "sign" and ask is None and r.random() < .2:
        ask = [r.choice(["badkey", "badname"])]
    if cmd == "mfc" and ask is None and r.random() < .15:
        ask = ["badname"]
    op = {"q": {"cmd": cmd, "ask": (ask or []) + (["badargs"] if hopeless else []), "masks": bool(masks)}, "pre": pre}
    if cmd.endswith("diff") and r.random() < .3:
        op["report"] = r.choice(["text", "json", "text,json"])
    if cmd == "mfq":
        op["post"] = [r.choice(["X-Of", "Manifest-Version", "X-None"])]
    if cmd == "mfc":
        op["pre"] = r.choice([[], ["-d", "SHA-256"], ["-d", "MD5,SHA-512"]])
    return op


def layout(r, w, op):
    """archives given as directories, or distributions as archives"""
    cmd = op["q"]["cmd"]
    if w["lt"] == w["rt"] == "good":
        if cmd in ("jarinfo", "jardiff") and not any(p["k"] == "text" and p[s][0] == "d" for p in w["parts"] for s in "lr") and r.random() < .35:
            op["zipped"] = False
        if cmd == "distinfo" and r.random() < .35:
            op["zipped"] = True
    return op



def world(r, sort):
    st = lambda: r.choice(["a"] * 6 + ["b", "da", "da", "db", "no"])
    parts = []
    n = {"class": 1}.get(sort) or r.choice([1, 2, 3, 5, 8])
    for i in range(n):
        k = "class" if sort == "class" else r.choice([x for x in KINDS if sort == "dist" or x != "jar"])
        up = 0
        if sort == "dist" and r.random() < .6 and k != "jar":
            js = [j + 1 for j, p in enumerate(parts) if p["k"] == "jar"]
            up = r.choice(js) if js else 0
        if k == "manifest" and any(p["k"] == "manifest" and p["up"] == up for p in parts):
            k = "class"
        x = st()
        p = {"k": k, "up": up, "l": x, "r": x if r.random() < .75 else st()}
        if k == "text" and sort == "dist" and not up:
            for s in "lr":
                p[s] = {"da": "a", "db": "b"}.get(p[s], p[s])
        if sort == "class":
            for s in "lr":
                p[s] = "a" if p[s] == "no" else p[s]
        parts.append(p)
    w = {"lt": "good", "rt": "good", "parts": parts}
    if r.random() < .12:
        w[r.choice(["lt", "rt"])] = r.choice(TOPS)
    return shut(w)


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C28")
    scen = clscases.from_spec(chk, "MC_Unusable", scratch, deep_cfg=False)
    if deep:
        chk.model("MC_Unusable", env={"TWO": "1"}, scratch=scratch, timeout=3000)
    chk.refutes("MC_Unusable", "MC_Unusable_swallow", "Allowed", scratch=scratch)
    cases = []

    def add(w, ops):
        for op in ops:
            layout(r, w, op)
            if op["q"]["cmd"] == "distinfo" and op.get("zipped") and w["lt"] == "good" and any(
                    p["k"] == "text" and p["up"] == 0 and p["l"][0] == "d" for p in w["parts"]):
                op["zipped"] = False
        cases.append({"w": w, "how": r.randrange(5040), "ops": ops})
    for s in scen:
        q = s["q"]
        for _ in range(4 if deep else 1):
            add(copy.deepcopy(s["w"]), [request(r, q["cmd"], sorted(q["ask"]), q["masks"])])
    cmds = {"class": ["classinfo", "classdiff"], "jar": ["jarinfo", "jardiff", "mfq", "mfv", "mfc", "sign"], "dist": ["distinfo", "distdiff"]}
    for _ in range(6000 if deep else 700):
        sort = r.choice(["class", "jar", "jar", "dist", "dist"])
        w = world(r, sort)
        add(w, [request(r, x) for x in r.sample(cmds[sort], r.choice([1, 2]))])
    chk.conform("Trace_Unusable", "unusable", cases, scratch, chunk=3000, par=4, timeout_case=60)
    chk.assumptions = ["an exception that leaves a command's main function ends the process with a failing status, as the interpreter does",
                       "files whose reading is refused by the system are not among the cases (they run as root)"]
