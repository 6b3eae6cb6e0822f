"""
Signed jars made and altered without the code under test: jars as lists
of (name, bytes), manifests as bytes, and openssl for the signatures.
"""
import base64
import hashlib
import os
import re
import subprocess
import tempfile
import zipfile

KEYS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "fixtures", "keys")
ALGS = ["MD5", "SHA1", "SHA-256", "SHA-384", "SHA-512"]
HASH = {"MD5": "md5", "SHA1": "sha1", "SHA-256": "sha256", "SHA-384": "sha384", "SHA-512": "sha512", "SHA-224": "sha224"}
EXT = {"rsa": "RSA", "dsa": "DSA", "ec": "EC"}
MF = "META-INF/MANIFEST.MF"


def key(k):
    return os.path.join(KEYS, k + ".key")


def cert(c):
    return os.path.join(KEYS, c + ".pem")


def ext_of(k):
    return EXT[re.match("[a-z]+", k).group(0)[:3].rstrip("0123456789")] if not k.startswith("ec") else "EC"


def b64(alg, data):
    return base64.b64encode(hashlib.new(HASH[alg], data).digest()).decode()


def openssl(args, data=None):
    return subprocess.run(["openssl"] + args, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE)


def scratch():
    return tempfile.mkdtemp(dir=os.environ["VERIF_WORK"])


def block(data, k, c, alg, attrs=False, chain=()):
    d = scratch()
    p = os.path.join(d, "sf")
    with open(p, "wb") as f:
        f.write(data)
    args = ["cms", "-sign", "-binary", "-in", p, "-signer", cert(c), "-inkey", key(k), "-md", HASH[alg], "-outform", "DER"]
    for x in chain:
        args += ["-certfile", cert(x)]
    if not attrs:
        args.append("-noattr")
    r = openssl(args)
    if r.returncode:
        raise RuntimeError(r.stderr)
    return r.stdout


_usage = {}


def usage(pem):
    """may the certificate sign: none (not said), sign, other"""
    if pem not in _usage:
        t = openssl(["x509", "-noout", "-ext", "keyUsage"], pem).stdout.decode()
        _usage[pem] = "none" if "Key Usage" not in t else "sign" if "Digital Signature" in t or "Non Repudiation" in t else "other"
    return _usage[pem]


_good = {}


def good(blk, sf, c):
    """(does the block hold a valid signature of sf, trusting c; what the signer's certificate is for)"""
    k = (blk, sf, c)
    if k not in _good:
        d = scratch()
        for n, x in (("b", blk), ("s", sf)):
            with open(os.path.join(d, n), "wb") as f:
                f.write(x)
        r = openssl(["cms", "-verify", "-binary", "-inform", "DER", "-in", d + "/b", "-content", d + "/s", "-CAfile", cert(c),
                     "-purpose", "any", "-out", os.devnull, "-signer", d + "/who"])
        ok = r.returncode == 0
        u = "none"
        if ok:
            with open(d + "/who", "rb") as f:
                u = usage(f.read())
        _good[k] = (ok, u)
    return _good[k]


# ---------------------------------------------------------------- manifests

def nl_of(data):
    return b"\r\n" if b"\r\n" in data else b"\r" if b"\r" in data and b"\n" not in data else b"\n"


def sections(data):
    """the sections as bytes, each with the empty line that closes it"""
    res, cur = [], b""
    for ln in data.splitlines(True):
        if ln.replace(b"\0", b"").strip(b"\r\n"):
            cur += ln
        elif cur:
            res.append(cur + ln)
            cur = b""
    if cur:
        res.append(cur)
    return res


def attrs(sec):
    """[(key, value)] of one section"""
    res = []
    for ln in sec.splitlines():
        ln = ln.replace(b"\0", b"")
        if not ln:
            continue
        if ln[:1] == b" " and res:
            res[-1] = (res[-1][0], res[-1][1] + ln[1:])
        else:
            k, _, v = ln.partition(b":")
            res.append((k, v[1:]))
    return res


def name_of(sec):
    """the last Name of the section, as every reader that keeps one value per key has it"""
    out = None
    for k, v in attrs(sec):
        if k == b"Name":
            out = v.decode("utf-8")
    return out


def line(k, v, nl, width=72):
    """one attribute, folded to lines of at most width bytes"""
    b = k.encode() + b": " + v.encode("utf-8")
    out, b = b[:width], b[width:]
    while b:
        out += nl + b" " + b[:width - 1]
        b = b[width - 1:]
    return out + nl


def closed(data, nl):
    if not data:
        return b""
    if not data.endswith((b"\n", b"\r")):
        data += nl
    if not sections(data)[-1].endswith(nl + nl):
        data += nl
    return data


def rebuild(sec, nl, width, drop=(), add=()):
    """the section without some attributes and with others at its end; the rest is kept as it is"""
    out, skip = b"", False
    for ln in sec.splitlines(True):
        bare = ln.replace(b"\0", b"").rstrip(b"\r\n")
        if not bare:
            continue
        if bare[:1] != b" ":
            skip = bare.partition(b":")[0].decode() in drop
        if not skip:
            out += ln
    if not out.endswith((b"\n", b"\r")):
        out += nl
    for k, v in add:
        out += line(k, v, nl, width)
    return out + nl


def with_digest(mf, name, algs, data, width=72, extra=()):
    """the manifest with digests for the entry, in its section or a new one"""
    nl = nl_of(mf)
    add = [(a + "-Digest", b64(a, data)) for a in algs] + list(extra)
    secs = sections(mf)
    for i, s in enumerate(secs[1:], 1):
        if name_of(s) == name:
            at = mf.rindex(s)
            return mf[:at] + rebuild(s, nl, width, [a + "-Digest" for a in algs], add) + mf[at + len(s):]
    if not mf:
        mf = line("Manifest-Version", "1.0", nl) + nl
    return closed(mf, nl) + line("Name", name, nl, width) + b"".join(line(k, v, nl, width) for k, v in add) + nl


def without(mf, name):
    for s in sections(mf)[1:]:
        if name_of(s) == name:
            mf = mf.replace(s, b"", 1)
    return mf


def merged(mf):
    """raw bytes by section name, several sections of one name together"""
    res = {}
    for s in sections(mf)[1:]:
        res[name_of(s)] = res.get(name_of(s), b"") + s
    return res


def signature_file(mf, algs, width=72, omit=(), nl=b"\r\n", created="1.8 (somebody)", wrong=(), weird=False):
    """a signature file for the manifest by the rules of the JAR specification"""
    secs = sections(mf)
    main = secs[0] if secs else b""
    val = lambda a, x: b64(a, b"wrong" + x) if a in wrong else b64(a, x)
    b = line("Signature-Version", "1.0", nl)
    if weird:
        b += line("SHA-224-Digest-Manifest", b64("SHA-224", mf), nl, width)
    for a in algs:
        if "main" not in omit:
            b += line(a + "-Digest-Manifest-Main-Attributes", val(a, main), nl, width)
    for a in algs:
        if "whole" not in omit:
            b += line(a + "-Digest-Manifest", val(a, mf), nl, width)
    b += line("Created-By", created, nl, width) + nl
    for n, raw in merged(mf).items():
        b += line("Name", n, nl, width)
        if weird:
            b += line("SHA-224-Digest", b64("SHA-224", raw), nl, width)
        for a in algs:
            b += line(a + "-Digest", val(a, raw), nl, width)
        b += nl
    return b


def reserved(n):
    u = n.upper()
    if u == MF or u.endswith("/"):
        return True
    p = u.split("/")
    return len(p) == 2 and p[0] == "META-INF" and (p[1].endswith((".SF", ".RSA", ".DSA", ".EC")) or p[1].startswith("SIG-"))


# ---------------------------------------------------------------- jars

def read(path):
    with zipfile.ZipFile(path) as z:
        return [(i.filename, z.read(i)) for i in z.infolist()]


def write(path, es, method=zipfile.ZIP_DEFLATED):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with zipfile.ZipFile(path, "w", method) as z:
            for n, b in es:
                z.writestr(zipfile.ZipInfo(n, (2001, 2, 3, 4, 5, 6)), b)


def get(es, n):
    for m, b in reversed(es):
        if m == n:
            return b
    return None


def put(es, n, b, first=False):
    """replaces the entry in place, or adds it"""
    if any(m == n for m, _ in es):
        return [(m, b if m == n else x) for m, x in es]
    return [(n, b)] + es if first else es + [(n, b)]


def drop(es, n):
    return [(m, x) for m, x in es if m != n]


def std_sign(es, p):
    """sign as another implementation does; p: parameters"""
    mf = get(es, MF)
    width = p.get("width", 72)
    if mf is None:
        mf = b"Manifest-Version: 1.0\r\nCreated-By: somebody\r\n\r\n"
    for n, b in es:
        if not reserved(n):
            mf = with_digest(mf, n, p["mfalgs"], b, width, [("SHA-224-Digest", b64("SHA-224", b))] if p.get("weird") else ())
    if p.get("wrongmf"):
        # a second digest beside the right one which is not right
        mf = sections_edit(mf, lambda s: rebuild(s, nl_of(mf), width, ["MD5-Digest"], [("MD5-Digest", "AAAAAAAAAAAAAAAAAAAAAA==")]))
    sf = signature_file(mf, p["algs"], width, p.get("omit", ()), wrong=p.get("wrong", ()), weird=p.get("weird", False))
    if p.get("later"):
        # the manifest was extended after this signature, by a later signer
        mf2 = sections_edit(mf, lambda s: s, tail=True)
        mf = mf2
    alg = p["algs"][-1] if not p.get("wrong") and not p["k"].startswith("dsa") else "SHA-256"
    blk = block(sf, p["k"], p["c"], alg, p.get("attrs", False), p.get("chain", ()))
    a = p["a"]
    ext = ext_of(p["k"])
    if p.get("lower"):
        ext = ext.lower()
    es = drop(es, MF)
    head = [(MF, mf), ("META-INF/%s.%s" % (a, "sf" if p.get("lower") else "SF"), sf), ("META-INF/%s.%s" % (a, ext), blk)]
    for n, _ in head:
        es = drop(es, n)
    # what there was by that name
    mine = [("META-INF/%s.%s" % (a, x)).upper() for x in ("SF", "RSA", "DSA", "EC")]
    es = [(n, b) for n, b in es if n.upper() not in mine]
    return ([("META-INF/", b"")] if p.get("metadir") and "META-INF/" not in [n for n, _ in es] else []) + head + es


def sections_edit(mf, f, tail=False):
    secs = sections(mf)
    if tail:
        # the sections in another order: what they say is the same
        return secs[0] + b"".join(reversed(secs[1:]))
    return secs[0] + b"".join(f(s) for s in secs[1:])
