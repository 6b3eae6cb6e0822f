from . import common as c, signcases as sc

NAMES = ["META-INF/", "META-INF", "META-INF/MANIFEST.MF", "META-INF/manifest.mf", "meta-inf/MANIFEST.MF", "Meta-Inf/Manifest.MF", "META-INF/MANIFEST.MF2", "META-INF/x/MANIFEST.MF",
         "MANIFEST.MF", "x/META-INF/MANIFEST.MF", "META-INF/A.SF", "META-INF/a.sf", "META-INF/A.Sf", "META-INF/.SF", "META-INF/SF", "META-INF/A.SF.SF", "META-INF/A.SFX", "META-INF/ASF",
         "META-INF/d/A.SF", "A.SF", "meta-inf/A.SF", "x/META-INF/A.SF", "META-INF/A.RSA", "META-INF/A.rsa", "META-INF/A.DSA", "META-INF/A.dSa", "META-INF/A.EC", "META-INF/a.ec",
         "META-INF/A.RSA.txt", "META-INF/ARSA", "META-INF/A.PGP", "META-INF/SIG-A", "META-INF/sig-a", "META-INF/SIG-", "META-INF/SIG-A.B", "META-INF/SIG-A/B", "META-INF/XSIG-A", "SIG-A",
         "META-INF/SIG", "META-INF/d/A.RSA", "META-INF/d/SIG-A", "meta-inf/A.RSA", "meta-inf/sig-a", "META-INFX/A.SF", "META-INF/\u00fc.SF", "META-INF/\u65e5.RSA", "a/", "META-INF/A.SF/",
         "META-INF/A b.SF", "META-INF/[A].SF", "META-INF/*.SF", "/META-INF/A.SF", "META-INF//A.SF", "", "/", "a", "META-INF/A.EC.bak", "META-INF/EC", "META-INF/.EC", "META-INF/REC"]
GROUPS = [["X", "XF", "F", "S", "SF"], ["A", "A.SF", "A.SF.SF", "SF"], ["KEY", "KEY1", "KEY12", "YEK"], ["X", "Y", "Z"], ["MYKEY", "MYKEYS", "MYKEYF", "MYKEYSF"],
          ["R", "RSA", "X.RSA", "DSA"], ["a", "b", "aB"], ["One", "oNe2", "ONE3"], ["E", "C", "EC", ".EC"], ["D.SF", "D", "DS"]]


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C23")
    chk.model("MC_JarSign", "MC_JarSign_deep" if deep else None, scratch=scratch, timeout=3000)
    cases = [{"entries": [], "ops": [{"op": "names", "names": NAMES}]}]
    for i in range(40):
        cases.append({"entries": [], "ops": [{"op": "names", "names": [
            "".join(r.choice(["META-INF", "/", "/", "x", "SIG-", ".SF", ".RSA", ".sf", "meta-inf", "A", "MANIFEST.MF", ".", ".EC", "s"]) for _ in range(r.choice([2, 3, 4]))) for _ in range(40)]}]})
    for i in range(7000 if deep else 560):
        es = sc.jar(r)
        group = r.choice(GROUPS)
        aliases = r.sample(group, min(len(group), r.choice([2, 2, 3, 3, 4])))
        ops, signs = [], []
        for a in aliases:
            o = r.choice([sc.sign_op, sc.std_op])(r, alias=a)
            if r.random() < .5:
                o["mfalgs"] = o["algs"] = ["SHA-256"] if o["op"] == "std" else []
            ops.append(o)
            signs = [x for x in signs if x["a"].upper() != a.upper()] + [o]
        # in what order they come, in which case; and what became of the others
        for _ in range(r.choice([0, 1, 1, 2])):
            ops.append({"op": "raw", "m": r.choice(["order", "order", "bk-name", "sf-name", "bk-del", "bk-junk", "bk-other", "bk-flip", "sf-byte", "sf-del", "bk-two", "sf-cut", "bk-empty",
                                                     "bk-forge"]), "seed": r.randrange(10 ** 6)})
        for x in signs:
            for how in ("lib", "cli"):
                if how == "lib" or r.random() < .4:
                    ops.append({"op": "verify", "c": sc.trust_of(x), "name": sc.sf_name(x), "how": how})
        for _ in range(2):
            ops.append(sc.verify(r, signs, foreign=.3))
        ops.append({"op": "verify", "c": sc.trust_of(signs[0]), "name": None, "how": "lib"})
        cases.append({"entries": es, "ops": ops})
    chk.conform("Trace_JarSign", "jarsign", cases, scratch, par=8, chunk=400, timeout_case=60)
    chk.assumptions = ["whether a block signs a signature file is decided by openssl cms",
                       "letters outside ASCII have no case; where several blocks of one name exist any of them may be taken"]
