"""jars signed, altered and verified: by the real code and by others"""
import contextlib
import io
import os
import random
import re
import shutil
import tempfile
import warnings
import zipfile

from javatools import jarutil, manifest as mfm

from . import signkit as sk

ERRS = (jarutil.VerificationError, jarutil.MissingManifestError, mfm.MalformedManifest)
OPENSSL = "M2Crypto"


def l8(s):
    return list(s.encode("utf-8"))


def content(b):
    """bytes, or {"n": how many, "seed": which}"""
    if isinstance(b, dict):
        return random.Random(b["seed"]).randbytes(b["n"])
    return bytes(b)


class Jars(object):
    """contents by number; documents as the specification reads them"""

    def __init__(self):
        self.ids, self.bodies, self.raws, self.seen = {}, [], [], set()

    def body(self, b, text):
        k = (b, text)
        if k not in self.ids:
            self.bodies.append({"t": text, "b": list(b) if text else [], "d": [l8(sk.b64(a, b)) for a in sk.ALGS]})
            self.ids[k] = len(self.bodies)
            if text:
                secs = sk.sections(b)
                parts = [b] + (secs[:1] or [b""]) + list(sk.merged(b).values()) if not bad(b) else [b]
                for x in parts:
                    if x not in self.seen:
                        self.seen.add(x)
                        self.raws.append({"b": list(x), "d": [l8(sk.b64(a, x)) for a in sk.ALGS]})
        return self.ids[k]

    def entries(self, es):
        return [{"n": l8(n), "c": self.body(b, n == sk.MF or mfm_like(n))} for n, b in es]


def mfm_like(n):
    return n.upper().startswith("META-INF/") and n.upper().endswith(".SF") and n.count("/") == 1


def bad(b):
    """no manifest at all (by what the harness knows; the specification decides)"""
    try:
        sk.merged(b)
        return False
    except Exception:
        return True


def facts(jars, es, cert):
    """which blocks sign which signature files"""
    res = []
    for n, b in es:
        if mfm_like(n) and n.startswith("META-INF/"):
            sfc = sk.get(es, n)
            for m, _ in es:
                if m.upper() in [(n[:-3] + x).upper() for x in (".RSA", ".DSA", ".EC")]:
                    blk = sk.get(es, m)
                    ok, u = sk.good(blk, sfc, cert)
                    f = {"b": jars.body(blk, False), "s": jars.body(sfc, True), "ok": ok, "u": u}
                    if f not in res:
                        res.append(f)
    return res


def other_case(t):
    """letters outside ASCII have no case"""
    return "".join(x.swapcase() if ord(x) < 128 else x for x in t)


def quiet(f):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        rc = f()
    return rc, out.getvalue()


def listing(d):
    return sorted(os.listdir(d))


class Run(object):
    def __init__(self, case):
        self.case = case
        self.jars = Jars()
        self.steps = []
        self.d = tempfile.mkdtemp(dir=os.environ["VERIF_WORK"])
        self.es = [(n, content(b)) for n, b in case["entries"]]
        self.path = os.path.join(self.d, "t.jar")
        self.bodies = {int(k): bytes(v) for k, v in case.get("bodies", {}).items()}
        self.save()

    def save(self):
        sk.write(self.path, self.es)

    def add(self, **k):
        self.steps.append(k)

    # -------------------------------------------------- signing

    def op_sign(self, o):
        before = listing(self.d)
        with open(self.path, "rb") as f:
            raw = f.read()
        out = os.path.join(self.d, "out.jar") if o.get("out") else None
        args = [self.path, sk.cert(o["c"]), sk.key(o["k"]), o["a"]]
        extra = [sk.cert(x) for x in o.get("extra", [])]
        what, rc = "", 0
        try:
            if o.get("how") == "cli":
                cmd = ["jarutil", "s"] + args
                # every second time by the long names
                word = lambda a, b: a if len(o["a"]) % 2 else b
                if o["d"]:
                    cmd += [word("-d", "--digest"), o["d"]]
                for x in extra:
                    cmd += [word("-c", "--chain"), x]
                if out:
                    cmd += [word("-o", "--output"), out]
                rc, _ = quiet(lambda: jarutil.main(cmd))
            else:
                kw = {}
                if o["d"] or o.get("none"):
                    kw["digest"] = o["d"]
                jarutil.sign(*(args + [extra or None]), output=out, **kw)
        except jarutil.MissingManifestError:
            what = "MissingManifestError"
        with open(self.path, "rb") as f:
            same = f.read() == raw
        res = out if out else self.path
        after = sorted(set(listing(self.d)) - {"out.jar"} if out else listing(self.d))
        has = os.path.exists(res)
        new = sk.read(res) if has else []
        sig = "META-INF/%s" % o["a"]
        ext = sk.ext_of(o["k"])
        ok = False
        if what == "" and rc == 0 and sk.get(new, sig + ".SF") is not None and sk.get(new, sig + "." + ext) is not None:
            ok = sk.good(sk.get(new, sig + "." + ext), sk.get(new, sig + ".SF"), o.get("trust", o["c"]))[0]
        self.add(k="signed", what=what, rc=rc, cli=o.get("how") == "cli", out=bool(out), same=same, strays=[l8(x) for x in after if x not in before],
                 old=self.jars.entries(self.es), new=self.jars.entries(new), alias=l8(o["a"]), ext=l8("." + ext),
                 alg=sk.ALGS.index(o["d"] or "SHA-256") + 1, ok=ok)
        if what == "" and rc == 0:
            self.es = new
            if out:
                os.rename(out, self.path)
        elif out and has:
            os.unlink(out)

    def op_std(self, o):
        self.es = sk.std_sign(self.es, o)
        self.save()

    # -------------------------------------------------- alterations

    def op_move(self, o):
        self.es = move(self.es, o["m"], self.bodies)
        self.save()

    def op_raw(self, o):
        try:
            self.es = raw_move(self.es, o)
        except (ValueError, TypeError, AttributeError, IndexError):
            # a manifest damaged before is not edited further
            pass
        self.save()

    # -------------------------------------------------- verifying

    def op_verify(self, o):
        es = self.jars.entries(sk.read(self.path))
        cert = sk.cert(o["c"])
        name = o.get("name")
        out, msg, rc = "", "", None
        if o.get("how") == "cli":
            rc, msg = quiet(lambda: jarutil.main(["jarutil", "v", self.path, cert] + ([name] if name is not None else [])))
            out = "?"
        else:
            try:
                jarutil.verify(cert, self.path, name)
            except ERRS as e:
                out, msg = type(e).__name__, str(e)
        known = {e[0] for e in self.es} | {sk.MF}
        if sk.get(self.es, sk.MF) is not None and not bad(sk.get(self.es, sk.MF)):
            known |= {n for n in sk.merged(sk.get(self.es, sk.MF)) if n is not None}
        named = [l8(n) for n in known if n in msg]
        self.add(k="verify", es=es, given=name is not None, name=l8(name or ""), facts=facts(self.jars, self.es, o["c"]), out=out,
                 rc=rc if rc is not None else 99, named=named)

    def op_want(self, o):
        """what the specification said of this history must be what it says of these bytes"""
        es = self.jars.entries(self.es)
        f = [facts(self.jars, self.es, c) for c in o["certs"]]
        self.add(k="want", es=es, names=[l8(n) for n in o["names"]], facts=f, want=o["want"])

    def op_lists(self, o):
        """the lists of failures themselves"""
        es = self.jars.entries(self.es)
        for strict in (True, False):
            m = mfm.Manifest()
            try:
                m.load_from_jar(self.path)
            except ERRS as e:
                self.add(k="nolist", es=es, out=type(e).__name__)
                return
            before = m.get_data("\n")
            kw = {} if strict and o.get("plain") else {"strict": strict}
            errs = m.verify_jar_checksums(self.path, **kw)
            self.add(k="entries", es=es, strict=strict, errs=[l8(x) for x in errs], same=m.get_data("\n") == before)
            for n in {n for n, _ in self.es if mfm_like(n) and n.startswith("META-INF/")}:
                s = mfm.SignatureManifest()
                sf = sk.get(self.es, n)
                try:
                    s.parse(sf)
                except mfm.MalformedManifest:
                    continue
                sb = s.get_data("\n")
                es1 = s.verify_manifest_entry_checksums(m, **kw)
                self.add(k="sections", es=es, sf=l8(n), strict=strict, errs=[l8(x) for x in es1], whole=[l8(x) for x in s.verify_manifest(m)],
                         wholeok=s.verify_manifest_main_checksum(m), mainok=s.verify_manifest_main_attributes_checksum(m),
                         same=m.get_data("\n") == before and s.get_data("\n") == sb)

    def op_names(self, o):
        self.add(k="names", names=[{"n": l8(n), "sf": bool(mfm.file_matches_sigfile(n)), "blk": bool(mfm.file_matches_sigblock(n)),
                                    "skip": bool(mfm.file_skips_verification(n))} for n in o["names"]])

    # -------------------------------------------------- checksums

    def op_created(self, o):
        """a manifest created for the jar, or for a directory with the same content"""
        es = [(n, b) for n, b in self.es if not n.endswith("/")]
        algs = o["algs"]
        if o["how"] == "lib":
            m = mfm.Manifest()
            if o.get("over"):
                m.load_from_jar(self.path)
            old = m.get_data("\r\n") if o.get("over") else b""
            for a in algs:
                m.add_jar_entries(self.path, a)
            if o.get("store") == "jar" or o.get("over"):
                data = m.get_data(o.get("nl"))
            else:
                b = io.BytesIO()
                m.store(b, o.get("nl"))
                data = b.getvalue()
            algs = algs[-1:]
        else:
            old = b""
            cmd = ["manifest", o.get("cmd", "c")]
            src = self.path
            if o["how"] == "dir":
                src = os.path.join(self.d, "content")
                os.mkdir(src)
                for n, b in self.es:
                    p = os.path.join(src, n)
                    os.makedirs(p if n.endswith("/") else os.path.dirname(p), exist_ok=True)
                    if not n.endswith("/"):
                        with open(p, "wb") as f:
                            f.write(b)
                es = [(n, sk.get(es, n)) for n in {n for n, _ in es}]
                if o.get("decoy"):
                    for x in ("content2", "decoy"):
                        os.mkdir(os.path.join(self.d, x))
                        with open(os.path.join(self.d, x, "decoy.txt"), "wb") as f:
                            f.write(b"not this")
                    os.makedirs(os.path.join(src, "an/empty/one"), exist_ok=True)
                src += o.get("slash", "")
            form = o.get("form")
            cwd = os.getcwd()
            if form:
                # how the path is spelled
                base = os.path.basename(src.rstrip("/"))
                tail = src[len(src.rstrip("/")):]
                if form == "." and o["how"] == "dir":
                    os.chdir(src)
                    src = "."
                else:
                    os.chdir(self.d)
                    src = {"rel": base, "dot": "./" + base, "up": "decoy/../" + base if o.get("decoy") and o["how"] == "dir" else base}.get(form, base) + tail
            if o.get("recurse"):
                cmd.append("-r" if len(algs) % 2 else "--recursive")
            if o.get("given", True):
                cmd += ["-d" if len(es) % 2 else "--digest", ",".join(algs)]
            else:
                algs = ["MD5", "SHA1"]
            res = None
            if o.get("m"):
                res = os.path.join(self.d, *o["m"].split("/"))
                cmd += ["-m" if len(es) % 3 else "--manifest", res]
            if o.get("late"):
                cmd.append(src)
            for g in o.get("ignore", []):
                cmd += ["-i" if len(es) % 3 else "--ignore"] + g
            if not o.get("late"):
                # a list of patterns would swallow the path
                cmd = cmd[:2] + [src] + cmd[2:]
            buf = io.BytesIO()
            txt = io.TextIOWrapper(buf, "utf-8", newline="")
            try:
                with contextlib.redirect_stdout(txt):
                    rc = mfm.main(cmd)
            finally:
                os.chdir(cwd)
            txt.flush()
            data = buf.getvalue()
            if res:
                with open(res, "rb") as f:
                    data = f.read()
            for x in ("content", "content2", "decoy"):
                shutil.rmtree(os.path.join(self.d, x), ignore_errors=True)
        self.add(k="created", es=self.jars.entries(es), old=self.jars.body(old, True), algs=[sk.ALGS.index(a) + 1 for a in algs],
                 mf=self.jars.body(data, True), ignore=[l8(x) for g in o.get("ignore", []) for x in g])
        if o.get("keep"):
            self.es = [(sk.MF, data)] + sk.drop(self.es, sk.MF)
            self.save()

    def op_mfcli(self, o):
        es = self.jars.entries(self.es)
        try:
            rc, out = quiet(lambda: mfm.main(["manifest", "v", self.path]))
        except ERRS as e:
            self.add(k="nolist", es=es, out=type(e).__name__)
            return
        self.add(k="mfcli", es=es, rc=rc or 0, named=[l8(n) for n in {e[0] for e in self.es} if n in out])

    def op_query(self, o):
        try:
            rc, out = quiet(lambda: mfm.main(["manifest", o.get("cmd", "q"), self.path] + o["qs"]))
        except ERRS as e:
            self.add(k="nolist", es=self.jars.entries(self.es), out=type(e).__name__)
            return
        self.add(k="query", es=self.jars.entries(self.es), qs=[l8(q) for q in o["qs"]], out=l8(out))


def move(es, m, bodies):
    names = ["a.txt", "b.txt", "META-INF/c"]
    alias = ["X", "YY"]
    k, n, c, a = m["m"], names[m["n"] - 1] if m["n"] else None, m["c"], alias[m["a"] - 1] if m["a"] else None
    other = alias[2 - m["a"]] if m["a"] else None
    sf, bk = "META-INF/%s.SF" % a, "META-INF/%s.RSA" % a
    mf = sk.get(es, sk.MF)
    if k == "set":
        return sk.drop(es, n) if c == 0 else sk.put(es, n, bodies[c])
    if k == "mfset":
        return sk.put(es, sk.MF, sk.with_digest(mf, n, ["SHA-256"], bodies[c]))
    if k == "mfdel":
        return sk.put(es, sk.MF, sk.without(mf, n))
    if k == "mfattr":
        return sk.put(es, sk.MF, edit(mf, lambda s: sk.rebuild(s, sk.nl_of(mf), 72, ["Created"], [("Created", "7")]) if sk.name_of(s) == n else s))
    if k == "mfmain":
        secs = sk.sections(mf)
        return sk.put(es, sk.MF, sk.rebuild(secs[0], sk.nl_of(mf), 72, ["Created"], [("Created", "7")]) + b"".join(secs[1:]))
    if k == "mfgone":
        return sk.drop(es, sk.MF)
    if k == "sfredo":
        return sk.put(es, sf, sk.signature_file(mf, ["SHA-256"]))
    if k == "sfdrop":
        s = sk.sections(sk.get(es, sf))
        return sk.put(es, sf, sk.rebuild(s[0], sk.nl_of(s[0]), 72, ["SHA-256-Digest-Manifest"]) + b"".join(s[1:]))
    if k == "sfgone":
        return sk.drop(es, sf)
    if k == "bkgone":
        return sk.drop(es, bk)
    if k == "bkjunk":
        return sk.put(es, bk, b"\x30\x03junk")
    if k == "forge":
        return sk.put(es, bk, sk.block(sk.get(es, sf), "rsa3", "rsa3", "SHA-256"))
    if k == "bkcopy":
        return sk.put(es, bk, sk.get(es, "META-INF/%s.RSA" % other))
    if k == "sfcopy":
        return sk.put(es, sf, sk.get(es, "META-INF/%s.SF" % other))
    # sign2: by the rules of the standard
    return sk.std_sign(es, {"k": "rsa2", "c": "rsa2", "a": "YY", "mfalgs": ["SHA-256"], "algs": ["SHA-256"]})


def edit(mf, f):
    secs = sk.sections(mf)
    return b"".join(secs[:1] + [f(s) for s in secs[1:]])


def raw_move(es, o):
    """alterations of the bytes"""
    r = random.Random(o["seed"])
    k = o["m"]
    mf = sk.get(es, sk.MF)
    sfs = sorted({n for n, _ in es if mfm_like(n)})
    bks = sorted({n for n, _ in es if n.startswith("META-INF/") and n.upper().endswith((".RSA", ".DSA", ".EC"))})
    plain = sorted({n for n, _ in es if not sk.reserved(n)})
    if k in ("mf-refold", "mf-order", "mf-dup", "mf-byte", "mf-addattr", "mf-section", "mf-nl", "mf-split") and mf is None:
        return es
    if k == "mf-refold":
        w = r.choice([40, 60, 70, 72])
        nl = sk.nl_of(mf)
        return sk.put(es, sk.MF, b"".join(b"".join(sk.line(a.decode(), v.decode("utf-8"), nl, w) for a, v in sk.attrs(s)) + nl for s in sk.sections(mf)))
    if k == "mf-nl":
        nl = r.choice([b"\n", b"\r\n", b"\r"])
        return sk.put(es, sk.MF, mf.replace(b"\r\n", b"\n").replace(b"\r", b"\n").replace(b"\n", nl))
    if k == "mf-order":
        s = sk.sections(mf)
        t = s[1:]
        r.shuffle(t)
        return sk.put(es, sk.MF, b"".join(s[:1] + t))
    if k == "mf-dup":
        s = sk.sections(mf)
        if len(s) < 2:
            return es
        return sk.put(es, sk.MF, sk.closed(mf, sk.nl_of(mf)) + r.choice(s[1:]))
    if k == "mf-split":
        # a section of one name in two: the later one decides
        n = r.choice(plain) if plain else "x"
        nl = sk.nl_of(mf)
        return sk.put(es, sk.MF, sk.closed(mf, nl) + sk.line("Name", n, nl) + sk.line(r.choice(["X-Note", "SHA-256-Digest", "MD5-Digest"]), "AAAA", nl) + nl)
    if k == "mf-byte":
        i = r.choice([j for j in range(len(mf)) if mf[j] < 128])
        return sk.put(es, sk.MF, mf[:i] + bytes([r.choice(b"AbZ09+/=")]) + mf[i + 1:])
    if k in ("mf-case", "sf-case"):
        # a digest in other letters is another digest
        n = sk.MF if k == "mf-case" else next((n for n, _ in es if n.upper().startswith("META-INF/") and n.upper().endswith(".SF")), None)
        if n is None:
            return es
        t = sk.get(es, n)
        at = [m for m in re.finditer(rb"-Digest[A-Za-z-]*: ([A-Za-z0-9+/]+=*)", t)]
        if not at:
            return es
        m = r.choice(at)
        v = m.group(1)
        if r.random() < .5:
            v = v.swapcase()
        else:
            j = [i for i in range(len(v)) if v[i:i + 1].isalpha()]
            i = r.choice(j)
            v = v[:i] + v[i:i + 1].swapcase() + v[i + 1:]
        return sk.put(es, n, t[:m.start(1)] + v + t[m.end(1):])
    if k == "mf-addattr":
        return sk.put(es, sk.MF, edit(mf, lambda s: sk.rebuild(s, sk.nl_of(mf), 72, [], [("X-Added", "1")]) if r.random() < .4 else s))
    if k == "mf-section":
        return sk.put(es, sk.MF, sk.with_digest(mf, r.choice(["new.txt", "META-INF/c"] + plain), [r.choice(sk.ALGS)], b"content %d" % o["seed"]))
    if k == "body":
        if not plain:
            return es
        n = r.choice(plain)
        b = sk.get(es, n)
        w = r.randrange(4)
        return sk.put(es, n, b + b"x" if w == 0 or not b else b[:-1] if w == 1 else bytes([b[0] ^ 1]) + b[1:] if w == 2 else b"")
    if k == "body-and-mf":
        if not plain or mf is None:
            return es
        n = r.choice(plain)
        b = b"changed %d" % o["seed"]
        es = sk.put(es, n, b)
        return sk.put(es, sk.MF, sk.with_digest(mf, n, [r.choice(["SHA-256", "SHA1", "MD5", "SHA-512"])], b))
    if k == "add":
        n = r.choice(["added.txt", "META-INF/added", "META-INF/x.sf.txt", "META-INF/services/a", "meta-inf/n.txt", "META-INF/sub/X.SF", "META-INF/a.rsa/b",
                      "sig-x", "x.SF", "D/"])
        return es + [(n, b"" if n.endswith("/") else b"added")]
    if k == "dup":
        if not plain:
            return es
        n = r.choice(plain)
        i = [m for m, _ in es].index(n)
        x = (n, r.choice([b"evil", sk.get(es, n)]))
        return es[:i] + [x] + es[i:] if r.random() < .5 else es + [x]
    if k == "rename":
        if not plain:
            return es
        n = r.choice(plain)
        return [(other_case(n) if m == n else m, b) for m, b in es]
    if k == "del":
        return sk.drop(es, r.choice(plain)) if plain else es
    if k in ("sf-byte", "sf-attr", "sf-del", "sf-nl", "sf-name", "sf-redo", "sf-cut") and sfs:
        n = r.choice(sfs)
        b = sk.get(es, n)
        if k == "sf-byte":
            i = r.randrange(len(b))
            return sk.put(es, n, b[:i] + bytes([b[i] ^ 1 if 0x30 <= b[i] < 0x7b and b[i] != 0x3a and b[i] != 0x3b else b[i]]) + b[i + 1:])
        if k == "sf-attr":
            return sk.put(es, n, edit(b, lambda s: sk.rebuild(s, sk.nl_of(b), 72, [], [("X-More", "1")])))
        if k == "sf-del":
            return sk.drop(es, n)
        if k == "sf-nl":
            return sk.put(es, n, b.replace(b"\r\n", b"\n") if b"\r\n" in b else b.replace(b"\n", b"\r\n"))
        if k == "sf-redo":
            return sk.put(es, n, sk.signature_file(mf, [r.choice(sk.ALGS)])) if mf is not None else es
        if k == "sf-cut":
            return sk.put(es, n, sk.sections(b)[0])
        return [(n[:9] + other_case(n[9:]) if m == n else m, x) for m, x in es]
    if k in ("bk-del", "bk-flip", "bk-cut", "bk-junk", "bk-forge", "bk-name", "bk-other", "bk-empty", "bk-two") and bks:
        n = r.choice(bks)
        b = sk.get(es, n)
        if k == "bk-del":
            return sk.drop(es, n)
        if k == "bk-flip" and b:
            # in the signature value, which is what a block ends with
            i = len(b) - 1 - r.randrange(min(16, len(b)))
            return sk.put(es, n, b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1:])
        if k == "bk-cut" and b:
            return sk.put(es, n, b[:r.randrange(len(b))])
        if k in ("bk-flip", "bk-cut"):
            return es
        if k == "bk-junk":
            return sk.put(es, n, bytes(r.randrange(256) for _ in range(r.choice([1, 5, 200]))))
        if k == "bk-empty":
            return sk.put(es, n, b"")
        if k == "bk-forge":
            sf = next((sk.get(es, m) for m in sfs if m[:-3].upper() == n.rpartition(".")[0].upper()), None)
            return es if sf is None else sk.put(es, n, sk.block(sf, "rsa3", "rsa3", "SHA-256"))
        if k == "bk-name":
            return [(n[:9] + other_case(n[9:]) if m == n else m, x) for m, x in es]
        if k == "bk-two":
            # a second block of that name, of another kind or case
            return es + [(other_case(n.rpartition(".")[0]).replace("meta-inf", "META-INF") + n[n.rindex("."):], r.choice([b"junk", b]))]
        return sk.put(es, n, sk.get(es, r.choice(bks)))
    if k == "mf-del":
        return sk.drop(es, sk.MF)
    if k == "order":
        es = list(es)
        r.shuffle(es)
        return es
    return es


def run(case):
    warnings.simplefilter("ignore")
    x = Run(case)
    for o in case["ops"]:
        getattr(x, "op_" + o["op"])(o)
    shutil.rmtree(x.d, ignore_errors=True)
    return {"steps": x.steps, "bodies": x.jars.bodies, "raws": x.jars.raws}
