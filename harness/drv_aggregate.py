"""
What jars and distributions provide and require, asked of the real code
through its interface and its commands.
"""
import contextlib
import io
import json
import os
import shutil
import tempfile
import zipfile

from javatools import distinfo, jarinfo

from .proj import text


def lay(base, es):
    os.mkdir(base)
    for n, b in es:
        p = os.path.join(base, n)
        if n.endswith("/"):
            os.makedirs(p, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(b)


def pack(path, es, method):
    with zipfile.ZipFile(path, "w", method) as z:
        for n, b in es:
            z.writestr(n, b)


def classes(q):
    return [t[1] for t in q]


def by(data, on):
    """attributions: (kind, entry) of a class, (kind, entry, reasons) of a jar"""
    out = []
    for t in data:
        kind = t[0].split(".")[0]
        out.append({"k": kind, "e": text(t[1]), "in": [text(x[1]) for x in t[2]] if kind == "jar" else []})
    return out


def spoken(main, args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        rc = main(args)
    if rc != 0:
        raise RuntimeError("the command answers %r" % rc)
    return out.getvalue()


def run(case):
    d = os.path.realpath(tempfile.mkdtemp(dir=os.environ["VERIF_WORK"]))
    bodies = [bytes(b) for b in case["bodies"]]
    get = lambda b: bodies[b] if b >= 0 else (b"nothing in particular" if b == -1 else b"")
    method = zipfile.ZIP_STORED if case.get("stored") else zipfile.ZIP_DEFLATED
    held, steps = {}, []
    try:
        files, js = [], []
        for i, j in enumerate(case["jars"]):
            es = [(n, get(b)) for n, b in j["es"]]
            pack(os.path.join(d, "j%d.jar" % i), es, method)
            lay(os.path.join(d, "j%d" % i), es)
            with open(os.path.join(d, "j%d.jar" % i), "rb") as f:
                files.append((j["e"], f.read()))
            js.append({"e": text(j["e"]), "cs": [{"e": text(n), "b": b + 1} for n, b in j["es"] if b >= 0 and n.endswith(".class")]})
        files += [(n, get(b)) for n, b in case["loose"]]
        loose = [{"e": text(n), "b": b + 1} for n, b in case["loose"] if b >= 0 and n.endswith(".class")]
        order = case.get("order") or list(range(len(files)))
        pack(os.path.join(d, "dist.zip"), [files[k] for k in order], method)
        lay(os.path.join(d, "dist"), files)

        for op in case["ops"]:
            jar = op["on"] == "jar"
            name = ("j%d" % op["j"] if jar else "dist") + ("" if op["form"] == "dir" else ".jar" if jar else ".zip")
            path = os.path.join(d, name)
            mod = jarinfo if jar else distinfo
            step = {"k": "asked", "on": op["on"], "what": op["what"], "ign": [text(x) for x in op["ign"]], "full": op["how"] != "text", "exc": "",
                    "cs": js[op["j"]]["cs"] if jar else loose, "js": [] if jar else js, "got": []}
            try:
                if op["how"] == "api":
                    info = held.get(name)
                    if info is None:
                        info = held[name] = jarinfo.JarInfo(filename=path) if jar else distinfo.DistInfo(path)
                    f = info.get_provides if op["what"] == "provides" else info.get_requires
                    got = f(ignored=tuple(op["ign"])) if op["ign"] else f()
                    got = sorted(got.items())
                    if op.get("close"):
                        info.close()
                else:
                    args = [op["on"] + "info", "--%s-%s" % (op["on"], op["what"])]
                    for x in op["ign"]:
                        args += ["--api-ignore", x]
                    out = spoken(mod.main, args + (["--json"] if op["how"] == "json" else []) + [path])
                    if op["how"] == "json":
                        got = sorted(json.loads(out)["%s.%s" % (op["on"], op["what"])].items())
                    else:
                        lines = out.split("\n")
                        head = "%s %s:" % ("jar" if jar else "distribution", op["what"])
                        if lines[0] != head or lines[-2:] != ["", ""] or any(x[:2] != "  " for x in lines[1:-2]):
                            raise RuntimeError("unexpected text: %r" % out[:300])
                        got = [(x[2:], []) for x in lines[1:-2]]
                step["got"] = [{"s": text(s), "by": by(v, op["on"])} for s, v in got]
            except Exception as e:
                step["exc"] = "%s: %s" % (type(e).__name__, str(e).replace(d, "")[:200])
            steps.append(step)
        return {"steps": steps, "bodies": case["bodies"]}
    finally:
        for x in held.values():
            x.close()
        shutil.rmtree(d)
