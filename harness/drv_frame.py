"""what lies in the directories around a command before and after it"""

import contextlib
import hashlib
import importlib
import io
import os
import shutil
import stat
import sys
import tempfile
import zipfile

from harness import signkit as sk
from harness.drv_archivediff import build

AREAS = ["in", "own", "out", "cwd", "tmp", "keep"]


def listing(top):
    res = {}

    def put(area, name, p):
        s = os.lstat(p)
        if stat.S_ISLNK(s.st_mode):
            w = "link " + os.readlink(p)
        elif stat.S_ISDIR(s.st_mode):
            w = "directory"
        else:
            with open(p, "rb") as f:
                w = "file %d %s" % (s.st_size, hashlib.md5(f.read()).hexdigest())
        if area == "tmp" and not name:
            return
        res[area, name] = "%s %o %d" % (w, s.st_mode, s.st_mtime_ns)
    for a in os.listdir(top):
        if a not in AREAS:
            put("keep", "../" + a, os.path.join(top, a))
    for a in AREAS:
        base = os.path.join(top, a)
        put(a, "", base)
        for r, ds, fs in os.walk(base):
            for n in ds + fs:
                p = os.path.join(r, n)
                put(a, os.path.relpath(p, base), p)
    return res


class Out(io.StringIO):
    def __init__(self):
        io.StringIO.__init__(self)
        self.buffer = io.BytesIO()


class Stopper(object):
    """the user's interrupt, at the n-th line of the library"""

    def __init__(self, n):
        self.n = n
        self.hit = False

    def trace(self, frame, event, arg):
        if "/javatools/" not in frame.f_code.co_filename:
            return None
        if event == "line":
            self.n -= 1
            if self.n == 0:
                self.hit = True
                sys.settrace(None)
                raise KeyboardInterrupt()
        return self.trace


def ended(main, args, n):
    stop = Stopper(n)
    mod = importlib.import_module("javatools." + main)
    with contextlib.redirect_stdout(Out()), contextlib.redirect_stderr(Out()):
        try:
            if n:
                sys.settrace(stop.trace)
            rc = mod.main([main] + args)
        except SystemExit as e:
            rc = e.code
        except KeyboardInterrupt:
            rc = "stopped"
        except Exception:
            rc = "raised"
        finally:
            sys.settrace(None)
    return "stopped" if stop.hit else "succeeded" if rc in (None, 0) else "failed"


def packed(path, hostile, top):
    """the directory at path as an archive, with entries under names nobody should give"""
    with zipfile.ZipFile(path + ".zip", "w") as z:
        for r, ds, fs in os.walk(path):
            for f in fs:
                p = os.path.join(r, f)
                z.write(p, os.path.relpath(p, path))
        for i, n in enumerate(hostile):
            z.writestr(zipfile.ZipInfo(n.replace("@TOP@", top), (2001, 1, 1, 1, 1, 1)), b"hostile %d" % i)
    shutil.rmtree(path)
    return path + ".zip"


def torn(path, where):
    """a bit changed in the data of an entry"""
    with open(path, "r+b") as f:
        with zipfile.ZipFile(f) as z:
            es = [i for i in z.infolist() if i.compress_size]
        if es:
            i = es[where % len(es)]
            f.seek(i.header_offset + 26)
            n = f.read(4)
            f.seek(i.header_offset + 30 + n[0] + n[1] * 256 + n[2] + n[3] * 256 + i.compress_size // 2)
            b = f.read(1)
            f.seek(-1, 1)
            f.write(bytes([b[0] ^ 4]))


def run(case):
    top = tempfile.mkdtemp(dir=os.environ["VERIF_WORK"])
    steps = []
    old = tempfile.tempdir
    try:
        for a in AREAS:
            os.mkdir(os.path.join(top, a))
        for n in ("a.txt", "A.class", "MANIFEST.MF", "l.jar", "up.txt"):
            for a in ("cwd", "keep"):
                with open(os.path.join(top, a, n), "w") as f:
                    f.write("precious " + n)
        if case["kind"] == "class":
            paths = {}
            for s in "lr":
                paths[s] = os.path.join(top, "in", s + ".class")
                with open(paths[s], "wb") as f:
                    f.write(bytes(case[s]))
        else:
            paths = build(case, os.path.join(top, "in"))
            for s in "lr":
                if os.path.isdir(paths[s]):
                    if case.get("links"):
                        os.symlink(os.path.join(top, "keep"), os.path.join(paths[s], "linked"))
                        os.symlink(os.path.join(top, "keep", "a.txt"), os.path.join(paths[s], "linked.txt"))
                    if case.get("packed"):
                        paths[s] = packed(paths[s], case["packed"], top)
                if case.get("cut") and os.path.isfile(paths[s]):
                    os.truncate(paths[s], os.path.getsize(paths[s]) * case["cut"] // 100)
                if "flip" in case and os.path.isfile(paths[s]):
                    torn(paths[s], case["flip"])
        if os.path.isfile(paths["l"]):
            shutil.copy(paths["l"], os.path.join(top, "own", "j"))
        tempfile.tempdir = os.path.join(top, "tmp")
        os.environ["TMPDIR"] = tempfile.tempdir
        os.chdir(os.path.join(top, "cwd"))
        for p in [os.path.join(r, f) for r, ds, fs in os.walk(top) for f in fs + ds]:
            if not os.path.islink(p):
                os.utime(p, (1e9, 1e9))
        was = listing(top)
        before = [[a, n, w] for (a, n), w in sorted(was.items())]
        for i, q in enumerate(case["asks"]):
            out = os.path.join(top, "out", "o%d" % i)
            args = []
            for x in q["args"]:
                x = paths[x] if x in ("l", "r") else out if x == "OUT" else os.path.join(top, "out", "none", "x") if x == "NODIR" else os.path.join(top, "own", "j") if x == "OWN" else os.path.join(top, "in") if x == "IN" else x
                if x.startswith("cert:"):
                    x = sk.cert(x[5:])
                elif x.startswith("key:"):
                    x = sk.key(x[4:])
                elif q.get("rel") and x.startswith(top):
                    x = os.path.relpath(x)
                args.append(x)
            how = ended(q["main"], args, q.get("stop"))
            now = listing(top)
            ch = [[a, n, now.get((a, n), "")] for (a, n) in sorted(set(was) | set(now)) if was.get((a, n)) != now.get((a, n))]
            steps.append({"q": {"writes": q["writes"], "words": q["main"] + " " + " ".join(q["args"])}, "ended": how, "changes": ch})
            was = now
            if how == "stopped":
                # what it had no time to remove
                shutil.rmtree(tempfile.tempdir, ignore_errors=True)
                os.mkdir(tempfile.tempdir)
                now = listing(top)
                ch = [[a, n, ""] for (a, n) in sorted(was) if (a, n) not in now]
                steps.append({"q": {"writes": ["tmp", "keep"], "words": "(cleared)"}, "ended": "failed", "changes": ch})
                was = {k: v for k, v in was.items() if k in now}
    finally:
        tempfile.tempdir = old
        os.environ["TMPDIR"] = os.environ["VERIF_WORK"]
        os.chdir(os.environ["VERIF_WORK"])
        shutil.rmtree(top, ignore_errors=True)
    return {"before": before, "steps": steps}
