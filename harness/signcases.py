"""jars to sign, histories of signing and altering, verifications"""

PLAIN = ["a.txt", "b.txt", "c/d.class", "c/", "META-INF/c", "META-INF/services/x.Y", "META-INF/", "d e.txt", "\u00fcml\u00e4ut.txt", "\u65e5\u672c/x",
         "long/" + "n" * 60 + ".txt", "l" * 64, "l" * 65, "l" * 66, "m/" + "\u00fc" * 40, "x:y.txt", "META-INF/X.SF.txt", "META-INF/sub/X.SF", "x.RSA", "meta-inf/q.txt",
         "MANIFEST.MF", "META-INF/LICENSE", "empty", "z" * 200, "-Digest", "Digest-SHA", "a b/c d ", "META-INF/versions/9/a.class", "i-dot-\u00e9", "S", "F", ".SF", "META-INF/maven/p.xml"]
ODD = ["META-INF/SIG-foo", "META-INF/sig-bar.txt", "META-INF/Manifest.mf", "META-INF/foo.dsa", "meta-inf/manifest.mf"]
COMBOS = [("rsa1", d) for d in ("MD5", "SHA1", "SHA-256", "SHA-384", "SHA-512")] + [("dsa1", d) for d in ("SHA1", "SHA-256")] \
    + [("ec1", d) for d in ("SHA1", "SHA-256", "SHA-384", "SHA-512")]
KINDS = {"rsa1": ["rsa1", "rsa2"], "dsa1": ["dsa1"], "ec1": ["ec1", "ec2"]}
ALIASES = ["X", "YY", "MYKEY", "F", "S", "SF", "A.SF", "x", "KEY_1", "SIGNER", "MYKEYF", "a-b", "RSA", "\u00fcser", "K" * 30, "DSA.RSA", "E.", "sIgNeR"]
DIGS = ["MD5", "SHA1", "SHA-256", "SHA-384", "SHA-512"]
TEXTS = [b"", b"x", b"hello\n", b"\0\1\2", b"content of a file\r\n" * 30, b"Manifest-Version: 1.0\r\n"]


def body(r):
    w = r.randrange(6)
    if w == 0:
        return bytes(r.randrange(256) for _ in range(r.choice([1, 7, 300])))
    return r.choice(TEXTS) + (b"%d" % r.randrange(5) if w < 4 else b"")


def jar(r, manifest=True, many=False, odd=True):
    names = r.sample(PLAIN, r.choice([0, 1, 2, 3, 3, 5, 8]))
    if many:
        names += ["f%d/%s.class" % (i % 7, "N" * (i % 90)) + str(i) for i in range(r.choice([20, 60]))]
    if odd and r.random() < .25:
        names.append(r.choice(ODD))
    es = [[n, [] if n.endswith("/") else list(body(r))] for n in names]
    if es and r.random() < .15:
        # larger than what is read at once
        e = r.choice(es)
        if not e[0].endswith("/"):
            e[1] = {"n": r.choice([16383, 16384, 16385, 32768, 40000, 70001]), "seed": r.randrange(100)}
    if manifest:
        es.insert(r.choice([0, 0, 0, len(es)]), ["META-INF/MANIFEST.MF", list(manifest_for(r, names))])
    return es


def manifest_for(r, names):
    nl = r.choice(["\r\n", "\r\n", "\n", "\n", "\r"])
    t = "Manifest-Version: " + r.choice(["1.0", "1.0", "2.0"]) + nl
    if r.random() < .5:
        t += "Created-By: 1.7 (\u00fc)" + nl
    if r.random() < .3:
        t += "Main-Class: a.b.C" + nl
    if r.random() < .3:
        t += fold("Class-Path: " + " ".join("lib/some-library-%d.jar" % i for i in range(r.choice([3, 12]))), nl, r.choice([40, 70, 72]))
    if r.random() < .1:
        t += "SHA-256-Digest-Note: x" + nl
    t += nl
    secs = []
    for n in r.sample(names, r.randrange(0, len(names) + 1)) + (["gone.txt"] if r.random() < .25 else []) + (["some/package/"] if r.random() < .25 else []):
        if n in secs:
            continue
        secs.append(n)
        t += fold("Name: " + n, nl, r.choice([50, 70, 72]))
        for _ in range(r.randrange(0, 3)):
            t += r.choice(["Sealed: true", "SHA1-Digest: AAAAAAAAAAAAAAAAAAAAAAAAAAA=", "SHA-256-Digest: wrong", "Content-Type: text/plain; q=\u00fc", "MD5-Digest: x",
                           "Digest: q", "SHA-224-Digest: AA", "X-Digest: 1"]) + nl
        t += nl
        if r.random() < .1:
            t += nl
    if r.random() < .15:
        t = t[:-len(nl)] if r.random() < .5 else t.rstrip("\r\n")
    return t.encode("utf-8")


def fold(line, nl, width):
    b = line.encode("utf-8")
    out, b = b[:width], b[width:]
    while b:
        out += nl.encode() + b" " + b[:width - 1]
        b = b[width - 1:]
    return out.decode("utf-8", "surrogateescape") + nl if ok8(out) else line[:0] + fold2(line, nl)


def ok8(b):
    try:
        b.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def fold2(line, nl):
    # not in the middle of a character here (texts cut anywhere are the harness's own, see signkit)
    out, cur = [], ""
    for ch in line:
        if len((cur + ch).encode("utf-8")) > 70:
            out.append(cur)
            cur = ""
        cur += ch
    out.append(cur)
    return (nl + " ").join(out) + nl


def sign_op(r, alias=None, who=None, how=None):
    k, d = r.choice(COMBOS)
    k = who or r.choice(KINDS[k])
    if k.startswith("dsa"):
        d = r.choice(["SHA1", "SHA-256"])
    elif k.startswith("ec"):
        d = r.choice(["SHA1", "SHA-256", "SHA-384", "SHA-512"])
    else:
        d = r.choice(DIGS)
    how = how or r.choice(["lib", "lib", "cli"])
    o = {"op": "sign", "how": how, "k": k, "c": k, "a": alias or r.choice(ALIASES), "d": d, "out": r.random() < .3}
    if r.random() < .15:
        # by default
        o["d"], o["none"] = None, how == "lib" and r.random() < .5
    if k == "rsa1" and r.random() < .3:
        o["c"] = o["trust"] = r.choice(["rsa1-codesign", "rsa1-email", "rsa1-nonrep", "rsa1-nousage"])
    if k in ("rsa1", "ec1") and r.random() < .2:
        # a certificate issued by an authority, which is what is trusted
        o["c"] = {"rsa1": "rsaleaf", "ec1": "ecleaf"}[k]
        o["trust"] = "rsaroot"
        if r.random() < .5:
            o["extra"] = ["rsaroot"]
        if k == "rsa1" and r.random() < .3:
            # which another one issued
            o["c"], o["extra"] = "intleaf", r.choice([["rsaint"], ["rsaint", "rsaroot"], ["ec2", "rsaint"]])
    elif r.random() < .15:
        o["extra"] = r.sample(["rsaroot", "ec2", "dsa1"], r.choice([1, 2]))
    return o


def std_op(r, alias=None, who=None):
    k = who or r.choice(["rsa1", "rsa2", "dsa1", "ec1", "ec2"])
    algs = r.choice([["SHA-256"], ["SHA-256"], ["SHA1"], ["SHA-512"], ["SHA1", "SHA-256"], ["SHA-384", "SHA-256"], ["MD5", "SHA-256"]])
    o = {"op": "std", "k": k, "c": k, "a": alias or r.choice(ALIASES), "mfalgs": r.choice([algs, ["SHA-256"], ["SHA1", "SHA-512"]]), "algs": algs,
         "width": r.choice([70, 72, 72]), "metadir": r.random() < .3, "attrs": r.random() < .3}
    w = r.randrange(8)
    if w == 0:
        o["omit"] = ["whole"]
    elif w == 1 and len(algs) > 1:
        o["wrong"] = algs[:1]
    elif w == 2:
        o["weird"] = True
    elif w == 3:
        o["wrongmf"] = True
    elif w == 4:
        o["later"] = True
    elif w == 5:
        o["lower"] = True
    elif w == 6:
        o["omit"] = ["main"]
    if k == "rsa1" and r.random() < .2:
        o["c"] = "rsaleaf"
        o["chain"] = ["rsaroot"]
    return o


def trust_of(o):
    return o.get("trust") or ("rsaroot" if o["c"] in ("rsaleaf", "ecleaf") else o["c"])


def sf_name(o):
    return o["a"] + (".sf" if o.get("lower") else ".SF")


def verify(r, signs, how=None, foreign=.2):
    """a verification of one of the signatures"""
    o = r.choice(signs)
    c = trust_of(o)
    name = sf_name(o)
    if r.random() < foreign:
        c = r.choice(["rsa1", "rsa2", "ec1", "dsa1", "rsaroot", "ec2", "rsa3"])
    if len({sf_name(x) for x in signs}) == 1 and r.random() < .4:
        name = None
    elif r.random() < .08:
        name = r.choice([None, "NONE.SF", name[:-3], "".join(x.swapcase() if ord(x) < 128 else x for x in name), "META-INF/" + name])
    return {"op": "verify", "c": c, "name": name, "how": how or r.choice(["lib", "lib", "cli"])}
