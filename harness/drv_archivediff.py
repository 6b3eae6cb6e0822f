"""compares real jars and distributions and records the trees of changes"""
import contextlib
import io
import json
import os
import shutil
import tempfile
import traceback

from javatools import classdiff as cd, distdiff as dd, jardiff as jd, manifest as mf, change as ch

from .drv_compare import un, cp, write_zip, METHODS
from .drv_classdiff import where

HERE = ("/javatools/",)


def tok(text):
    return "<<" + ", ".join(str(x) for x in text) + ">>"


def name(c, infos):
    def entry(kinds, added, removed):
        kind = "other"
        for k, ts in kinds:
            if isinstance(c, ts):
                kind = k
        how = "added" if isinstance(c, ch.Addition) else "removed" if isinstance(c, ch.Removal) else "both"
        return how + " " + kind + " " + tok(cp(c.entry))
    if isinstance(c, jd.JarContentChange):
        return entry((("class", (jd.JarClassChange, jd.JarClassAdded, jd.JarClassRemoved)), ("manifest", jd.JarManifestChange),
                      ("sigfile", (jd.JarSignatureFileChange, jd.JarSignatureFileAdded, jd.JarSignatureFileRemoved)),
                      ("sigblock", (jd.JarSignatureBlockFileChange, jd.JarSignatureBlockFileAdded, jd.JarSignatureBlockFileRemoved))),
                     0, 0)
    if isinstance(c, dd.DistContentChange):
        return entry((("class", (dd.DistClassChange, dd.DistClassAdded, dd.DistClassRemoved)), ("manifest", dd.DistManifestChange),
                      ("jar", (dd.DistJarChange, dd.DistJarAdded, dd.DistJarRemoved)), ("text", dd.DistTextChange)), 0, 0)
    for t, n in ((jd.JarChange, "jar"), (jd.JarTypeChange, "type"), (jd.JarContentsChange, "contents"), (dd.DistChange, "dist"),
                 (mf.ManifestChange, "manifest"), (mf.ManifestMainChange, "main")):
        if isinstance(c, t):
            return n
    if isinstance(c, mf.ManifestSectionChange):
        m = c.ldata if c.ldata is not None else c.rdata
        t = tok(m.primary().encode("utf-8"))
        return ("section added " if isinstance(c, mf.ManifestSectionAdded) else
                "section removed " if isinstance(c, mf.ManifestSectionRemoved) else "section ") + t
    if infos:
        l, r = infos
        for word, ls, rs in (("Field", l.fields, r.fields), ("Method", l.methods, r.methods)):
            if isinstance(c, getattr(cd, word + "Added")):
                return "%sAdded:%d" % (word, where(rs, c.rdata))
            if isinstance(c, getattr(cd, word + "Removed")):
                return "%sRemoved:%d" % (word, where(ls, c.ldata))
            if isinstance(c, getattr(cd, word + "Change")):
                return "%sChange:%d:%d" % (word, where(ls, c.ldata), where(rs, c.rdata))
        return type(c).__name__
    return "data"


def rows(top, opts):
    out = []

    def walk(c, pre, infos):
        if isinstance(c, cd.JavaClassChange):
            infos = (c.ldata, c.rdata)
        p = pre + [name(c, infos)]
        changed = bool(c.is_change())
        out.append([p, changed, changed and bool(c.is_ignored(opts))])
        if changed:
            for k in c.collect():
                walk(k, p, infos)
    walk(top, [], None)
    return out


def flags(call):
    ws = [w.replace("_", "-") for w in call["words"]]
    f = call["form"]
    if f == 0:
        a = ["--ignore-" + w for w in ws]
    else:
        a = ["--ignore=" + (",".join(ws) if f == 1 else " , ".join(ws))] if ws else []
    a += ["--ignore-jar-entry=" + un(p) for p in call["entries"]]
    a += ["--ignore-filenames=" + un(p) for p in call["files"]]
    a += ["--ignore-manifest-key=" + bytes(k).decode("utf-8") for k in call["keys"]]
    if call["shallow"]:
        a.append("--shallow")
    return a


MODE = {"quiet": ["--quiet"], "json": ["--json"], "text": [], "verbose": ["-v"], "jsonv": ["--json", "-v"],
        "jsonq": ["--json", "-q"], "showign": ["--show-ignored"], "showunch": ["--show-unchanged"]}


def build(case, d):
    """the bodies as files, then the two sides"""
    bodies = case["bodies"]
    datas = [None] * len(bodies)

    def data(i):
        b = bodies[i]
        if datas[i] is None:
            if b["a"] or b.get("jar"):
                for e in b["a"]:
                    if e["c"]:
                        data(e["c"] - 1)
                buf = io.BytesIO()
                how = dict(b["how"], comment="archive %d" % i)
                write_zip(buf, b["a"], [x.hex() if x is not None else "" for x in datas], how)
                datas[i] = buf.getvalue()
            else:
                datas[i] = bytes(b["b"])
    for i in range(len(bodies)):
        data(i)
    paths = {}
    for side in "lr":
        p = paths[side] = os.path.join(d, side)
        if case["kind"] == "jar" and case[side + "f"] == "zip":
            p = paths[side] = p + ".jar"
            with open(p, "wb") as f:
                write_zip(f, case[side], [x.hex() for x in datas], case["how_" + side])
            continue
        os.makedirs(p)
        for e in case[side]:
            q = os.path.join(p, un(e["n" if case["kind"] == "jar" else "p"]))
            if e["c"] == 0:
                os.makedirs(q, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(q, "wb") as f:
                    f.write(datas[e["c"] - 1])
                if case.get("stamp"):
                    os.utime(q, (case["stamp"], case["stamp"]))
    return paths


def run(case):
    steps = []
    row = {"steps": steps, "kind": case["kind"], "l": case["l"], "r": case["r"], "lf": case.get("lf", ""), "rf": case.get("rf", ""),
           "bodies": [{"b": b["b"], "a": b["a"]} for b in case["bodies"]]}
    d = tempfile.mkdtemp(dir=os.environ["VERIF_WORK"])
    mod = jd if case["kind"] == "jar" else dd
    trees = {}
    try:
        paths = build(case, d)
        for call in case["calls"]:
            base = {k: call[k] for k in ("dir", "words", "entries", "files", "keys", "shallow")}
            ps = [paths["l"], paths["r"]] if call["dir"] == "lr" else [paths["r"], paths["l"]]
            if call.get("slash"):
                ps = [p + "/" if os.path.isdir(p) else p for p in ps]
            try:
                if call["mode"] == "api":
                    opts = mod.create_optparser("x").parse_args(flags(call) + ps)
                    key = (call["dir"], call["shallow"])
                    if key not in trees:
                        c = jd.JarChange(*ps) if mod is jd else dd.DistChange(ps[0], ps[1], call["shallow"])
                        c.check()
                        trees[key] = c
                    steps.append(dict(base, k="tree", rows=rows(trees[key], opts)))
                else:
                    out = io.StringIO()
                    args = ["x"] + flags(call) + MODE[call["mode"]] + ps
                    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                        status = mod.main(args)
                    verdict = []
                    if "json" in call["mode"] and call["mode"] != "jsonq":
                        rep = json.loads(out.getvalue())["report"]
                        verdict = [rep["is_change"], rep["is_change"] and rep["is_ignored"]]
                    elif call["mode"] in ("quiet", "jsonq") and out.getvalue():
                        raise ValueError("output in quiet mode /javatools/")
                    steps.append(dict(base, k="cli", mode=call["mode"], status=int(status or 0), verdict=verdict))
            except (Exception, SystemExit) as e:
                tb = traceback.format_exc()
                if "/javatools/" not in tb and not isinstance(e, SystemExit):
                    raise
                steps.append({"k": "raised", "exc": tb[-600:]})
        for t in trees.values():
            t.clear()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return row
