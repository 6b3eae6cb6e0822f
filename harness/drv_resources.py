"""
Jars and distributions of the real code in use: asked, closed, asked again,
with a fault at one of their operations on files now and then.  After each
step what the process still holds is looked at.
"""
import contextlib
import ctypes
import errno
import gc
import hashlib
import io
import json
import os
import shutil
import tempfile
import zipfile

from javatools import distdiff, distinfo, jardiff, jarinfo

lib = ctypes.CDLL(os.environ["VERIF_FAULTS"])
lib.faults_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int]
lib.faults_disarm.restype = ctypes.c_long


def canon(x):
    if isinstance(x, dict):
        return sorted([canon(k), canon(v)] for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(canon(v) for v in x)
    return x if isinstance(x, (int, str)) or x is None else repr(x)


def facts(info):
    return [info.pretty_this(), info.pretty_super(), sorted(info.get_provides(private=True)), sorted(info.get_requires())]


def manifest(m):
    return [sorted(m.items()), sorted((k, sorted(v.items())) for k, v in m.sub_sections.items())]


class Site(object):

    def __init__(self, case):
        self.d = os.path.realpath(tempfile.mkdtemp(dir=os.environ["VERIF_WORK"]))
        self.tmp = os.path.join(self.d, "tmp")
        os.mkdir(self.tmp)
        self.data = os.path.join(self.d, "data")
        os.mkdir(self.data)
        for n, a in sorted(case["archives"].items(), key=lambda x: x[1].get("level", 0)):
            es = []
            for e in a["es"]:
                if len(e) > 2:
                    with open(os.path.join(self.data, e[2] + ".jar"), "rb") as f:
                        es.append((e[0], f.read()))
                else:
                    es.append((e[0], bytes(e[1])))
            # (a distribution's zip is written where a jar's would be)
            path = os.path.join(self.data, n + (".jar" if a["kind"] == "jar" else ".zip"))
            with zipfile.ZipFile(path, "w", zipfile.ZIP_STORED) as z:
                for k, b in es:
                    z.writestr(k, b)
            if a.get("crc"):
                # one entry does not match its checksum
                with zipfile.ZipFile(path) as z:
                    i = z.getinfo(a["crc"])
                    at = i.header_offset + 30 + len(i.orig_filename.encode("utf-8"))
                with open(path, "r+b") as f:
                    f.seek(at)
                    b = f.read(1)
                    f.seek(at)
                    f.write(bytes([b[0] ^ 1]))
            base = os.path.join(self.data, n)
            os.mkdir(base)
            for k, b in es:
                p = os.path.join(base, k)
                if k.endswith("/"):
                    os.makedirs(p, exist_ok=True)
                    continue
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(b)

    def path(self, kind, name):
        return os.path.join(self.data, name + ("" if kind.endswith("dir") else ".jar" if kind == "jar-zip" else ".zip"))

    def held(self):
        n = 0
        for fd in os.listdir("/proc/self/fd"):
            try:
                t = os.readlink("/proc/self/fd/" + fd)
            except OSError:
                continue
            n += t.startswith((self.data + "/", self.tmp + "/")) or t.startswith(self.data + " ")
        return {"files": n, "dirs": len(os.listdir(self.tmp))}


def ask(site, obj, kind, name, q):
    word, _, arg = q.partition(" ")
    path = site.path(kind, name)
    if word in ("jardiff", "distdiff"):
        args = [word] + json.loads(arg)
        args = [site.path(kind, a[1:]) if a.startswith("@") else a for a in args]
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                rc = (jardiff if word == "jardiff" else distdiff).main(args)
            except SystemExit as e:
                rc = ["exit", e.code]
        return [rc, out.getvalue().replace(site.d, "")]
    if word == "cli":
        args = json.loads(arg)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            rc = (jarinfo if kind.startswith("jar") else distinfo).main(["info"] + args + [path])
        return [rc, out.getvalue().replace(site.d, "")]
    if word == "with":
        # an exception passes through it
        try:
            with jarinfo.JarInfo(filename=path) as ji:
                list(ji.get_classes())
                raise KeyError("mine")
        except KeyError:
            return "passed on"
        return "held back"
    if word in ("provides", "requires"):
        f = obj.get_provides if word == "provides" else obj.get_requires
        return f(tuple(json.loads(arg))) if arg else f()
    if word == "class":
        return facts(obj.get_classinfo(arg))
    if word == "classes":
        return sorted(obj.get_classes())
    if kind.startswith("jar"):
        if word == "manifest":
            return manifest(obj.get_manifest())
        if word == "entries":
            return sorted(obj.get_zipfile().namelist())
        if word == "read":
            with obj.open(arg) as f:
                return hashlib.sha256(f.read()).hexdigest()
    else:
        if word == "contents":
            return sorted(obj.get_contents())
        if word == "jars":
            return sorted(obj.get_jars())
        if word == "jar":
            with obj.get_jarinfo(arg) as ji:
                return [canon(ji.get_provides()), canon(ji.get_requires()), sorted(ji.get_classes())]
        if word == "lent":
            # still good when the distribution is asked other things, until it is given back
            ji = obj.get_jarinfo(arg)
            try:
                a = canon(ji.get_provides())
                list(obj.get_contents())
                return [a, sorted(ji.get_zipfile().namelist())]
            finally:
                ji.close()
    return "nothing"


OWN = ("cli", "jardiff", "distdiff", "with")


def run(case):
    gc.collect()
    site = Site(case)
    was = os.environ.get("TMPDIR")
    os.environ["TMPDIR"] = site.tmp
    tempfile.tempdir = None
    steps, seen, counts = [], set(), {}
    objs = [None] * len(case["objs"])
    make = lambda o: (jarinfo.JarInfo(filename=site.path(*o)) if o[0].startswith("jar") else distinfo.DistInfo(site.path(*o)))
    armed, kept = False, []

    def outcome(f):
        """the answer, whether it is an exception, and the exception itself"""
        exc = None
        try:
            a = json.dumps(canon(f()), sort_keys=True)
            return a if len(a) < 40 else hashlib.sha256(a.encode()).hexdigest()[:16], None
        except Exception as e:
            tb, inside = e.__traceback__, False
            while tb:
                inside |= "/javatools/" in tb.tb_frame.f_code.co_filename
                tb = tb.tb_next
            if not inside and not isinstance(e, (OSError, KeyError, zipfile.BadZipFile)):
                raise
            exc = e
            return "error", exc
    try:
        for op in case["ops"]:
            o = case["objs"][op["o"]]
            q = op.get("q")
            key = (o[0], o[1], q)
            if op["k"] == "ask" and key not in seen:
                # what a new one answers, undisturbed
                seen.add(key)
                obj = make(o)
                lib.faults_arm(site.d.encode(), -1, -1, 0, 0)
                a, exc = outcome(lambda: ask(site, obj, o[0], o[1], q))
                counts[key] = lib.faults_disarm()
                if q.split(" ")[0] in OWN:
                    exc = None
                    gc.collect()
                obj.close()
                steps.append(dict(site.held(), k="known", q=q + "@" + o[1] + " " + o[0], a=a))
                obj = exc = None
                gc.collect()
            if objs[op["o"]] is None:
                objs[op["o"]] = make(o)
            obj = objs[op["o"]]
            step = {"k": op["k"], "o": op["o"] + 1, "fault": False, "error": False, "a": "", "q": ""}
            if "fault" in op and op["k"] != "drop":
                n = counts[key] if op["k"] == "ask" else 12
                armed = True
                lib.faults_arm(site.d.encode(), -1, int(op["fault"] * (n + 1)), getattr(errno, op["err"]), 1)
                step["fault"] = True
            if op["k"] == "ask":
                step["a"], exc = outcome(lambda: ask(site, obj, o[0], o[1], q))
                step["q"] = q + "@" + o[1] + " " + o[0]
            elif op["k"] == "close":
                step["a"], exc = outcome(obj.close)
                step["a"] = "error" if exc else ""
            else:
                exc = None
                objs[op["o"]] = obj = None
                kept = []
                gc.collect()
            if armed:
                lib.faults_disarm()
                armed = False
            step["error"] = exc is not None
            if op["k"] == "ask" and q.split(" ")[0] in OWN:
                exc = None
                gc.collect()
            step.update(site.held())
            if op["k"] != "close" or not step["error"]:
                steps.append(step)
            elif not step["fault"]:
                steps.append(step)
            else:
                # once more
                step["a"] = "" if outcome(obj.close)[1] is None else "error"
                step["fault"] = False
                step.update(site.held())
                steps.append(step)
            # (an exception may be kept until everything is closed)
            kept = [] if op["k"] != "ask" else kept + [exc]
            exc = None
        kept = []
        for i, o in enumerate(objs):
            if o is not None:
                o.close()
                steps.append(dict(site.held(), k="close", o=i + 1, fault=False, error=False, a="", q=""))
        return {"steps": steps, "objs": [o[0] for o in case["objs"]]}
    finally:
        if armed:
            lib.faults_disarm()
        objs = obj = exc = kept = None
        gc.collect()
        tempfile.tempdir = None
        if was is None:
            os.environ.pop("TMPDIR", None)
        else:
            os.environ["TMPDIR"] = was
        shutil.rmtree(site.d)
