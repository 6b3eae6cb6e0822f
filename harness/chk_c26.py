from . import clscases, common as c, signcases as sc
from .chk_c19 import PATTERNS, ascii_only, fits_directory

KEYS = ["Name", "SHA-256-Digest", "MD5-Digest", "SHA1-Digest", "Sealed", "Content-Type", "X-None", "Manifest-Version", "Created-By", "Main-Class", "Class-Path", "name", "X-Digest", ""]
MORE = ["a.txt", "a.TXT", ".hidden", "c/.hid/x", "d.d/e", "f[1].txt", "f1.txt", "q?.x", "c/d/e/f/g", "a:b", "c:d/e:f", "b.class", "c/b.class", "x/META-INF/y", "META-INF/services/z", "sp ace/x y"]


def options(r, how):
    o = {"op": "created", "how": how, "algs": r.sample(sc.DIGS, r.choice([1, 1, 2, 2, 3, 5])), "recurse": r.random() < .5, "given": r.random() < .85,
         "slash": r.choice(["", "", "/", "//"]), "keep": True, "form": r.choice([None, "rel", "dot", "up", "."]), "decoy": how == "dir" and r.random() < .5,
         "cmd": r.choice(["c", "create", "cr"])}
    if how == "jar":
        o["slash"] = ""
    if r.random() < .5:
        o["m"] = r.choice(["out.mf", "new/dir/out.mf", "content/out.mf"] if how == "dir" else ["out.mf", "new/dir/out.mf"])
    return o


def queries(r, es):
    names = [n for n, _ in es] + ["none", "none:such", "META-INF/MANIFEST.MF"]
    qs = [r.choice([r.choice(KEYS), r.choice(names) + ":" + r.choice(KEYS), r.choice(names) + ":" + r.choice(KEYS[:4])]) for _ in range(r.choice([1, 3, 8]))]
    # (a word that starts with a dash is an option)
    return {"op": "query", "qs": qs, "cmd": r.choice(["q", "query", "que"])}


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C26")
    scen = clscases.from_spec(chk, "MC_MfCli", scratch, deep_cfg=False)
    chk.refutes("MC_MfCli", "MC_MfCli_careless", "Faithful", scratch=scratch)
    r.shuffle(scen)
    cases = []
    text = lambda x: "".join(map(chr, x))
    for s in scen if deep else scen[:260]:
        es = [[text(n), list(b"content %d" % i)] for i, n in enumerate(s["tree"])]
        o = options(r, r.choice(["jar", "dir"]))
        o["algs"], o["given"] = [sc.DIGS[a - 1] for a in s["algs"]], True
        if s["ign"]:
            o["ignore"] = [[text(x) for x in s["ign"]]] if r.random() < .5 else [[text(x)] for x in s["ign"]]
        if o.get("m", "").startswith("content"):
            o["m"] = "out.mf"
        cases.append({"entries": es, "ops": [o, {"op": "lists"}, {"op": "mfcli"}, queries(r, es)]})
    for i in range(6000 if deep else 420):
        es = sc.jar(r, manifest=r.random() < .4, many=i % 20 == 0)
        es += [[n, list(sc.body(r))] for n in r.sample(MORE, r.choice([0, 2, 5])) if n not in [e[0] for e in es]]
        how = r.choice(["jar", "dir", "dir"])
        if how == "dir":
            es = fits_directory(es)
        o = options(r, how)
        if r.random() < .5:
            es = ascii_only(es)
            o["ignore"] = [r.sample(PATTERNS + ["*.TXT", "?.txt", "f[[]1].txt", "c/*/*", "*/x", "content", "."], r.choice([1, 2, 3])) for _ in range(r.choice([1, 1, 2]))]
        if o.get("m", "").startswith("content"):
            # it is written when everything has been looked at
            o["m"] = "out.mf" if any(n == "out.mf" for n, _ in es) else o["m"]
        ops = [o, {"op": "mfcli"}, queries(r, es)]
        for _ in range(r.choice([0, 1, 2])):
            ops.append({"op": "raw", "m": r.choice(["body", "add", "del", "mf-split", "mf-dup", "mf-order", "mf-refold", "mf-nl", "mf-section", "mf-addattr", "mf-byte", "mf-case", "mf-del"]),
                        "seed": r.randrange(10 ** 6)})
            ops += [{"op": "mfcli"}, queries(r, es)]
            if r.random() < .3:
                ops.append({"op": "lists"})
        cases.append({"entries": es, "ops": ops})
    chk.conform("Trace_JarSign", "jarsign", cases, scratch, par=8, chunk=400, timeout_case=60)
    chk.assumptions = ["digest algorithms: MD5, SHA1, SHA-256, SHA-384, SHA-512; content is a jar or a directory; names hold no line ends",
                       "patterns and names they are matched with are ASCII; words given to the command do not start with a dash",
                       "signature related entries and the manifest itself are not listed"]
