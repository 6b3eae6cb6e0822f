"""
Jars made by the real code out of files in a directory of their own.
"""
import os
import resource
import shutil
import subprocess
import tempfile
import zipfile

from javatools import jarutil

codes = lambda t: [ord(x) for x in t]
parts = lambda p: [codes(x) for x in p.split("/") if x]


def snapshot(root):
    """everything beneath the root, as [path, is it a directory, content]"""
    got = {root: None}
    for d, ds, fs in os.walk(root):
        for x in ds:
            got[os.path.join(d, x)] = None
        for x in fs:
            with open(os.path.join(d, x), "rb") as f:
                got[os.path.join(d, x)] = f.read()
    return got


def run(case):
    root = os.path.realpath(tempfile.mkdtemp(dir=os.environ["VERIF_WORK"]))
    back = os.getcwd()
    bodies, steps = {}, []
    number = lambda b: bodies.setdefault(b, len(bodies) + 1)
    hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 23, hard))
    try:
        for p, body in case["tree"]:
            at = os.path.join(root, p)
            if body is None:
                os.makedirs(at, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(at), exist_ok=True)
                with open(at, "wb") as f:
                    f.write(bytes(body))
        for op in case["ops"]:
            cwd = os.path.join(root, op["cwd"]) if op["cwd"] else root
            absolute = lambda a: root + a if a.startswith("/") else a
            args = [absolute(a) for a in op["args"]]
            jar = absolute(op["jar"])
            os.chdir(cwd)
            where = os.path.join(os.path.realpath(os.path.dirname(jar) or "."), os.path.basename(jar))
            before = snapshot(root)
            if op["how"] == "api":
                rc = jarutil.create_jar(jar, args, op["main"]) if op["main"] else jarutil.create_jar(jar, args)
                rc = 0 if rc is None else 1
            else:
                opts = [op["flag"], op["main"]] if op["main"] else []
                line = {0: opts + [jar] + args, 1: [jar] + opts + args, 2: [jar] + args + opts}[op["at"]]
                rc = jarutil.cli_create_jar(line) if op["how"] == "cli" else jarutil.main(["jarutil", op["cmd"]] + line)
            after = snapshot(root)
            kept = dict(before)
            kept.pop(where, None)
            now = dict(after)
            now.pop(where, None)
            os.chdir(back)
            with zipfile.ZipFile(where) as z:
                es = [{"n": codes(i.filename), "c": number(None) if i.filename.endswith("/") and not z.read(i) else number(z.read(i))} for i in z.infolist()]
                mf = z.read("META-INF/MANIFEST.MF") if "META-INF/MANIFEST.MF" in z.namelist() else b""
            fs = dict(kept)
            fs[where] = b""
            steps.append({"k": "created", "rc": rc if isinstance(rc, int) else 99, "kept": kept == now, "cwd": parts(os.path.realpath(cwd)), "jar": parts(where),
                          "args": [codes(a) for a in args], "main": [[codes("Main-Class"), list(op["main"].encode("utf-8"))]] if op["main"] else [],
                          "fs": [{"p": parts(p), "dir": b is None, "c": number(b)} for p, b in sorted(fs.items())],
                          "es": es, "mf": list(mf)})
        return {"steps": steps, "bodies": len(bodies)}
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
        os.chdir(back)
        shutil.rmtree(root)
