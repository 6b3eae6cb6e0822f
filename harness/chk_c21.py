from . import common as c, clscases, signcases as sc

RAWS = ["mf-case", "sf-case", "mf-refold", "mf-order", "mf-dup", "mf-byte", "mf-byte", "mf-addattr", "mf-section", "mf-nl", "mf-split", "body", "body", "body-and-mf", "body-and-mf", "add", "add",
        "dup", "dup", "rename", "del", "sf-byte", "sf-byte", "sf-attr", "sf-del", "sf-nl", "sf-name", "sf-redo", "sf-cut", "bk-del", "bk-flip", "bk-flip", "bk-cut", "bk-junk",
        "bk-forge", "bk-name", "bk-other", "bk-empty", "bk-two", "mf-del", "order"]
FIRST = {1: [1], 2: [1, 2], 3: [2, 1]}
KEY = {1: ("rsa1", "X"), 2: ("rsa2", "YY")}
BODIES = {"1": list(b"the first content\n"), "2": list(b"another content, of a different length\n")}
OLD = b"Manifest-Version: 1.0\r\n\r\nName: b.txt\r\nExtra: 1\r\n\r\n"
NAMES = [None, "X.SF", "YY.SF", "Z.SF"]


def scenario(r, s):
    """a history of the specification, played with real jars"""
    es = [["META-INF/MANIFEST.MF", list(OLD)], ["a.txt", BODIES["1"]], ["b.txt", BODIES["2"]]]
    ops = []
    for k in FIRST[s["first"]]:
        key, a = KEY[k]
        # (written again, a signature file is the same only as another one when the same hand wrote both)
        if r.random() < .7 and not {"sfredo", "bkcopy", "sfcopy"} & {m["m"] for m in s["ms"]}:
            ops.append({"op": "sign", "how": r.choice(["lib", "cli"]), "k": key, "c": key, "a": a, "d": "SHA-256"})
        else:
            ops.append({"op": "std", "k": key, "c": key, "a": a, "mfalgs": ["SHA-256"], "algs": ["SHA-256"]})
    ops += [{"op": "move", "m": m} for m in s["ms"]]
    ops.append({"op": "want", "certs": ["rsa1", "rsa2", "rsa3"], "names": ["", "X.SF", "YY.SF", "Z.SF"], "want": s["want"]})
    for k, cert in enumerate(["rsa1", "rsa2", "rsa3"]):
        for a in range(4):
            # all that come out well, and some of the others
            if s["want"][k][a] == "" or r.random() < .35:
                ops.append({"op": "verify", "c": cert, "name": NAMES[a], "how": r.choice(["lib", "lib", "cli"])})
    ops.append({"op": "lists"})
    return {"entries": es, "bodies": BODIES, "ops": ops}


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C21")
    scen = clscases.from_spec(chk, "MC_JarSign", scratch)
    r.shuffle(scen)
    scen.sort(key=lambda s: -len(s["ms"]))
    few = [s for s in scen if len(s["ms"]) < 2]
    cases = [scenario(r, s) for s in few + scen[:5000 if deep else 260]]
    for i in range(9000 if deep else 650):
        es = sc.jar(r, many=i % 25 == 0)
        ops, signs = [], []
        for _ in range(r.choice([1, 1, 1, 2])):
            o = r.choice([sc.sign_op, sc.sign_op, sc.std_op])(r)
            ops.append(o)
            signs = [x for x in signs if x["a"].upper() != o["a"].upper()] + [o]
        for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5])):
            ops.append({"op": "raw", "m": r.choice(RAWS), "seed": r.randrange(10 ** 6)})
            if r.random() < .3:
                ops.append(sc.verify(r, signs, foreign=.1))
        for x in signs:
            ops.append({"op": "verify", "c": sc.trust_of(x), "name": sc.sf_name(x) if len(signs) > 1 or r.random() < .5 else None, "how": "lib"})
            ops.append(sc.verify(r, signs, foreign=.3))
        ops.append({"op": "lists"})
        cases.append({"entries": es, "ops": ops})
    # certificates which must not sign, and chains of them
    for c1, tr, ch in (("rsa1-badusage", "rsa1-badusage", []), ("leaf-badusage", "rsaroot", []), ("leaf-nousage", "rsaroot", []), ("rsa1-expired", "rsa1-expired", []),
                       ("leaf-expired", "rsaroot", []), ("intleaf", "rsaroot", ["rsaint"]), ("intleaf", "rsaroot", []), ("intleaf", "rsaint", []), ("fakeleaf", "rsaroot", ["rsafake"]),
                       ("fakeleaf", "rsaroot", ["rsafake", "rsaroot"]), ("intleaf", "rsa2", ["rsaint", "rsaroot"]), ("rsaleaf", "rsa1", ["rsaroot"])):
        for d in ("SHA1", "SHA-256"):
            cases.append({"entries": sc.jar(r), "ops": [{"op": "std", "k": "rsa1", "c": c1, "a": "X", "mfalgs": [d], "algs": [d], "chain": ch},
                                                       {"op": "verify", "c": tr, "name": None, "how": "lib"},
                                                       {"op": "verify", "c": tr, "name": "X.SF", "how": "cli"}, {"op": "verify", "c": "rsa2", "name": None, "how": "lib"}]})
    chk.conform("Trace_JarSign", "jarsign", cases, scratch, par=8, chunk=400, timeout_case=60)
    chk.assumptions = ["whether a block signs a signature file is decided by openssl cms; digests by hashlib",
                       "bytes appended to a signature block and entries removed together with their sections are not covered by the format",
                       "jars are well-formed zip files; where several blocks of one name exist any of them may be taken"]
