"""commands on input which is missing, damaged or not of its kind"""

import base64
import contextlib
import hashlib
import io
import os
import shutil
import sys
import tempfile
import zipfile

from harness import asm, signkit as sk

from javatools import classdiff, classinfo, distdiff, distinfo, jardiff, jarinfo, jarutil, manifest

MAIN = {"classinfo": classinfo, "classdiff": classdiff, "jarinfo": jarinfo, "jardiff": jardiff,
        "distinfo": distinfo, "distdiff": distdiff, "mfq": manifest, "mfv": manifest, "mfc": manifest, "sign": jarutil}


def klass(name, state, how):
    k = {"access": 33, "this": name, "super": "java/lang/Object",
         "fields": [{"access": 1, "name": "f" if state in ("a", "da") else "g", "desc": "I", "attrs": []}],
         "methods": [{"access": 1025, "name": "m", "desc": "()La/Other;", "attrs": []}]}
    d = bytes(asm.assemble(k))
    if state in ("a", "b"):
        return d
    n = how + (state == "db")
    w = n % 6
    if w == 0:
        return d[:len(d) - 1 - n % 7]
    if w == 1:
        return b"\xca\xfe\xba\xbf" + d[4:]
    if w == 2:
        return b"not a class at all %d\n" % n
    if w == 3:
        return d[:10 + n % 12]
    if w == 4:
        return b"" if state == "da" else b"\xca\xfe"
    # a tag no constant has
    return d[:10] + b"\x63" + d[11:]


def text(state):
    return b"the text of this entry: %s\n" % state[-1].encode() * 9


def mftext(state, how, sections=()):
    if state in ("a", "b"):
        s = b"Manifest-Version: 1.0\r\nX-Of: %s\r\n\r\n" % state.encode()
        for n, data in sections:
            s += b"Name: %s\r\nSHA-256-Digest: %s\r\n\r\n" % (n.encode(), base64.b64encode(hashlib.sha256(data).digest()))
        return s
    n = how + (state == "db")
    return [b"Manifest-Version 1.0\r\n\r\n", b" continued from nowhere\r\n\r\n", b"Manifest-Version: 1.0\r\n\r\nName: x\r\nno colon\r\n\r\n"][n % 3] + (b"" if state == "da" else b"\r\n")


def zipped(path, entries):
    """entries: (name, bytes, how its bytes are damaged)"""
    with zipfile.ZipFile(path, "w", zipfile.ZIP_STORED) as z:
        for name, data, _bad in entries:
            i = zipfile.ZipInfo(name, (2001, 2, 3, 4, 5, 6))
            z.writestr(i, data)
        at = {i.filename: i.header_offset for i in z.infolist()}
    with open(path, "r+b") as f:
        for name, data, bad in entries:
            if bad:
                f.seek(at[name] + 30 + len(name.encode("utf-8")) + len(data) // 2 + bad)
                b = f.read(1)
                f.seek(-1, 1)
                f.write(bytes([b[0] ^ 0x40]))


def spoil(data, state, how):
    """what is left of an archive"""
    n = how + (state == "db")
    return [b"", b"no archive %d" % n, data[:len(data) // 2], data[:len(data) - 5], data.replace(b"PK\x01\x02" if b"PK\x01\x02" in data else b"PK\x05\x06", b"PK\x01\x09"), data[:3]][n % 6] + (b"" if state == "da" or n % 6 else b"#")


NAMES = {"class": "p/C%d.class", "text": "t/%d.txt", "jar": "lib/%d.jar"}


def build(world, side, top, d, sort, case):
    """lays one side out at d, returns its path"""
    parts = world["parts"]
    how = case["how"]
    mf = "META-INF/MANIFEST.MF" if sort == "jar" else "conf/MANIFEST.MF"
    inner = {}
    flat = []
    for i in range(len(parts), 0, -1):
        p = parts[i - 1]
        s = p[side]
        if s == "no":
            continue
        name = NAMES[p["k"]] % i if p["k"] != "manifest" else mf if p["up"] == 0 else "META-INF/MANIFEST.MF"
        bad = 0
        if p["k"] == "class":
            data = klass("p/C%d" % i, s, how + i)
        elif p["k"] == "text":
            data = text(s)
            bad = {"da": 1, "db": 2}.get(s, 0)
        elif p["k"] == "manifest":
            data = mftext(s, how)
        else:
            j = d + ".inner"
            zipped(j, list(reversed(inner.get(i, []))))
            with open(j, "rb") as f:
                data = f.read()
            os.unlink(j)
            if s in ("da", "db"):
                data = spoil(data, s, how + i)
        (inner.setdefault(p["up"], []) if p["up"] else flat).append((name, data, bad))
    flat.reverse()
    if case.get("badname"):
        flat.insert(how % (len(flat) + 1), (["x\r\nSHA-256-Digest: x", "t/\n", "a\rb", "p/q\nName: z", "c\n d"][how % 5], b"bytes", 0))
    if case.get("sections"):
        # a manifest that vouches for what is meant to be there
        secs = [(n, b) for n, b, _x in flat if n != mf]
        flat = [(n, mftext(parts[k]["l"], how, secs) if n == mf and parts[k]["l"] in ("a", "b") else b, x)
                for (n, b, x) in flat for k in [next((k for k, p in enumerate(parts) if p["k"] == "manifest"), None)]]
    if top == "missing":
        return d + "-none"
    if sort == "class":
        data = flat[0][1] if flat else klass("p/C1", "a", 0)
        if top == "wrong":
            os.mkdir(d)
            return d
        data = {"good": data, "empty": b"", "junk": b"\x00" * 40, "cut": data[:len(data) // 2 + how % 9]}[top]
        with open(d, "wb") as f:
            f.write(data)
        return d
    if top == "wrong":
        with open(d, "wb") as f:
            f.write(klass("p/C1", "a", 0))
        return d
    if top != "good":
        zipped(d, flat or [("x", b"y" * 50, 0)])
        with open(d, "rb") as f:
            data = f.read()
        with open(d, "wb") as f:
            f.write({"empty": b"", "junk": b"\x00" * 99, "cut": data[:len(data) // 2]}[top])
        return d
    if case.get("zipped", sort == "jar"):
        zipped(d, flat)
        return d
    os.mkdir(d)
    for name, data, bad in flat:
        p = os.path.join(d, name)
        if not os.path.isdir(os.path.dirname(p)):
            os.makedirs(os.path.dirname(p))
        with open(p, "wb") as f:
            f.write(data)
    return d


def run(case):
    d = tempfile.mkdtemp(dir=os.environ["VERIF_WORK"])
    old = os.getcwd()
    steps = []
    try:
        w = case["w"]
        for n, st in enumerate(case["ops"]):
            q = st["q"]
            sort = "class" if q["cmd"].startswith("class") else "dist" if q["cmd"].startswith("dist") else "jar"
            sub = dict(case, zipped=st.get("zipped", sort == "jar"), sections=q["cmd"] == "mfv", badname="badname" in q["ask"])
            left = build(w, "l", w["lt"], os.path.join(d, "l%d" % n), sort, sub)
            args = [st.get("pre", [])] and list(st.get("pre", [])) + [left]
            if q["cmd"] in ("classdiff", "jardiff", "distdiff"):
                args.append(build(w, "r", w["rt"], os.path.join(d, "r%d" % n), sort, sub))
            args += st.get("post", [])
            if st.get("report"):
                args = ["--report", st["report"], "--report-dir", os.path.join(d, "rep%d" % n)] + args
            if q["cmd"] == "mfc":
                args = ["-m", os.path.join(d, "out%d" % n)] + args
            if q["cmd"] == "sign":
                k, x = os.path.join(d, "key"), os.path.join(d, "cert")
                shutil.copy(sk.key("ec1"), k)
                shutil.copy(sk.cert("ec1"), x)
                if "badkey" in q["ask"]:
                    p = [k, k, x][case["how"] % 3]
                    with open(p, "rb") as f:
                        data = f.read()
                    with open(p, "wb") as f:
                        f.write([b"", b"nothing of a key\n", data[:len(data) // 2], data.replace(b"M", b"N")][case["how"] % 4])
                args = ["s", "-o", os.path.join(d, "out%d" % n)] + args + [x, k, "NAME"]
            if q["cmd"].startswith("mf"):
                args.insert(0, q["cmd"][2])
            if "badargs" in q["ask"]:
                args = spoilt(q["cmd"], args, case["how"])
            steps.append({"q": q, "verdict": verdict(MAIN[q["cmd"]], q["cmd"], args)})
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
    return {"w": case["w"], "steps": steps}


def spoilt(cmd, args, how):
    """words which make no request"""
    sub = cmd == "sign" or cmd.startswith("mf")
    w = how % 5
    if w == 0:
        return []
    if w == 1:
        # the commands' own names are known by their beginnings
        return [["x", "createx", "v v", "-q"][how % 4]] + args[1:] if sub else ["--no-such-option"] + args
    if w == 2:
        return args[:1] if sub else ["--json"] if cmd.endswith("info") else args[-1:]
    if w == 3:
        return args[:1] + ["--no-such-option"] + args[1:] if cmd not in ("mfq", "mfv") else args[:1]
    return args + ["none", "more", "still more", "and more"] if cmd in ("classdiff", "jardiff", "distdiff", "mfv", "sign") else args[:1] if sub else []


class Out(io.StringIO):
    def __init__(self):
        io.StringIO.__init__(self)
        self.buffer = io.BytesIO()


def verdict(mod, word, args):
    # the command's way to end: a status, or an exception that ends the
    # process with one
    with contextlib.redirect_stdout(Out()), contextlib.redirect_stderr(Out()):
        try:
            rc = mod.main([word] + args)
        except SystemExit as e:
            rc = e.code
        except Exception:
            rc = "raised"
    return "succeeds" if rc is None or rc == 0 else "fails"
