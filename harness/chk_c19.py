from . import common as c, signcases as sc

PATTERNS = ["*.txt", "c/*", "META-INF/*", "*", "f?/*", "[a-c]*", "no-such", "a.txt", "*.class", "[!a]*", "long/*"]


def ascii_only(es):
    return [e for e in es if all(ord(x) < 128 for x in e[0])]


def fits_directory(es):
    """names which can all be files of one directory"""
    seen = {}
    files = {n.rstrip("/") for n, _ in es if not n.endswith("/")}
    for n, b in es:
        parts = n.rstrip("/").split("/")
        if any("/".join(parts[:i]) in files for i in range(1, len(parts))) or (n.endswith("/") and n.rstrip("/") in files):
            continue
        if any(len(x.encode("utf-8")) > 250 for x in parts):
            continue
        seen[n] = b
    return [[n, b] for n, b in seen.items()]


def created(r, over=False):
    algs = r.sample(sc.DIGS, r.choice([1, 1, 2, 2, 3, 5]))
    how = r.choice(["lib", "jar", "jar", "dir", "dir"])
    o = {"op": "created", "how": how, "algs": algs, "nl": r.choice([None, "\r\n", "\n", "\r"]), "recurse": r.random() < .3, "given": r.random() < .85,
         "slash": r.choice(["", "", "/"]), "keep": True}
    if how == "lib":
        o["over"] = over
        o["store"] = r.choice(["jar", "stream"])
    else:
        if r.random() < .4:
            o["m"] = r.choice(["out.mf", "new/dir/out.mf"])
    return o


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C19")
    chk.model("MC_JarSign", "MC_JarSign_deep" if deep else None, scratch=scratch, timeout=3000)
    cases = []
    for i in range(9000 if deep else 800):
        es = sc.jar(r, manifest=r.random() < .6, many=i % 15 == 0)
        o = created(r, over=any(n == "META-INF/MANIFEST.MF" for n, _ in es))
        if o["how"] == "dir":
            es = fits_directory(es)
        if o["how"] != "lib" and r.random() < .3:
            es = ascii_only(es)
            o["ignore"] = [r.sample(PATTERNS, r.choice([1, 2])) for _ in range(r.choice([1, 1, 2]))]
        ops = [o, {"op": "lists", "plain": r.random() < .5}]
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            ops.append({"op": "raw", "m": r.choice(["body", "body", "add", "add", "del", "dup", "rename", "mf-split", "mf-dup", "mf-order", "mf-refold", "mf-nl",
                                                     "body-and-mf", "mf-section", "order", "mf-byte", "mf-case"]), "seed": r.randrange(10 ** 6)})
            ops.append(r.choice([{"op": "lists"}, {"op": "lists"}, {"op": "mfcli"}]))
        ops.append({"op": "lists", "plain": r.random() < .5})
        cases.append({"entries": es, "ops": ops})
    chk.conform("Trace_JarSign", "jarsign", cases, scratch, par=8, chunk=400, timeout_case=60)
    chk.assumptions = ["digest algorithms: MD5, SHA1, SHA-256, SHA-384, SHA-512; a digest by another one does not count",
                       "entries removed from the jar are not reported, as documented; signature related entries and directories are not covered by the format",
                       "manifests are UTF-8 text; names hold no line ends"]
