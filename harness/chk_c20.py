from . import common as c, signcases as sc


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C20")
    chk.model("MC_JarSign", "MC_JarSign_deep" if deep else None, scratch=scratch, timeout=3000)
    cases = []
    for i in range(6000 if deep else 520):
        es = sc.jar(r, manifest=r.random() < .96, many=i % 12 == 0)
        ops, signs = [], []
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            o = sc.sign_op(r, alias=r.choice([x["a"] for x in signs]) if signs and r.random() < .4 else None)
            if r.random() < .25:
                o = sc.std_op(r, alias=r.choice([x["a"] for x in signs]) if signs and r.random() < .2 else None)
            ops.append(o)
            # an alias in another case is the same name
            signs = [x for x in signs if x["a"].upper() != o["a"].upper()] + [o]
            if r.random() < .5:
                ops.append(sc.verify(r, signs, foreign=.05))
            if r.random() < .1:
                # the jar is changed by its owner, to be signed again
                ops.append({"op": "raw", "m": r.choice(["body", "add", "del", "body"]), "seed": r.randrange(10 ** 6)})
        for x in signs:
            ops.append({"op": "verify", "c": sc.trust_of(x), "name": sc.sf_name(x) if len(signs) > 1 or r.random() < .5 else None, "how": r.choice(["lib", "cli"])})
        ops.append({"op": "lists"})
        cases.append({"entries": es, "ops": ops})
    chk.conform("Trace_JarSign", "jarsign", cases, scratch, par=8, timeout_case=60)
    chk.assumptions = ["keys, certificates and digests OpenSSL here signs with; trusted certificates are self-signed or the root that issued the signer's",
                       "whether a block signs a signature file is decided by openssl cms; a signer's certificate must permit signing",
                       "names hold no line ends, and aliases no slash; jars to be signed hold every name once"]
