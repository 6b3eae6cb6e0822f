"""compares pairs of classes with the real code and records the trees"""
import contextlib
import io
import json
import os
import shutil
import tempfile
import traceback
from types import SimpleNamespace

from javatools import unpack_class
from javatools import classdiff as cd

OPTS = ["version_up", "version_down", "platform_up", "platform_down", "absolute_lines", "relative_lines",
        "deprecated", "added", "pool"]


def options(words):
    o = {"ignore_" + k: False for k in OPTS}
    for w in words:
        w = w.replace("-", "_")
        for x in {"lines": ["absolute_lines", "relative_lines"], "version": ["version_up", "version_down"],
                  "platform": ["platform_up", "platform_down"]}.get(w, [w]):
            o["ignore_" + x] = True
    return SimpleNamespace(show_ignored=True, show_unchanged=True, **o)


def where(seq, x):
    for i, y in enumerate(seq):
        if y is x:
            return i + 1
    return 0


def rows(ch, opts, l, r):
    out = []

    def name(c):
        n = type(c).__name__
        for word, ls, rs in (("Field", l.fields, r.fields), ("Method", l.methods, r.methods)):
            if isinstance(c, getattr(cd, word + "Added")):
                return "%sAdded:%d" % (word, where(rs, c.rdata))
            if isinstance(c, getattr(cd, word + "Removed")):
                return "%sRemoved:%d" % (word, where(ls, c.ldata))
            if isinstance(c, getattr(cd, word + "Change")):
                return "%sChange:%d:%d" % (word, where(ls, c.ldata), where(rs, c.rdata))
        return n

    def walk(c, pre):
        p = pre + [name(c)]
        ischange = bool(c.is_change())
        out.append([p, ischange, ischange and bool(c.is_ignored(opts))])
        for k in c.collect():
            walk(k, p)
    walk(ch, [])
    return out


def flags(words, form):
    if form == 0:
        return ["--ignore-" + w.replace("_", "-") for w in words]
    if form == 1:
        return ["--ignore", ",".join(w.replace("_", "-") for w in words)] if words else []
    return ["--ignore=" + " , ".join(w for w in words)] if words else []


def cli(paths, words, mode, form):
    args = ["classdiff"] + paths + flags(words, form) + {
        "quiet": ["-q"], "json": ["--json"], "text": [], "verbose": ["-v"], "jsonv": ["--json", "-v"],
        "jsonq": ["--json", "-q"], "showign": ["--show-ignored"], "showunch": ["--show-unchanged"],
        "output": ["-o", paths[0] + ".txt"], "jsonoutput": ["--json", "-o", paths[0] + ".json"]}[mode]
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
        try:
            status = cd.main(args)
        except SystemExit as e:
            status = e.code
    status = int(status or 0)
    verdict = []
    if mode in ("json", "jsonv", "jsonoutput"):
        txt = buf.getvalue()
        if mode == "jsonoutput":
            with open(paths[0] + ".json") as f:
                txt = f.read()
        d = json.loads(txt)["report"]
        verdict = [d["is_change"], d["is_change"] and d["is_ignored"]]
    elif mode in ("quiet", "jsonq") and buf.getvalue():
        raise ValueError("output in quiet mode")
    return status, verdict


def run(case):
    steps = []
    lb, rb = bytes(case["l"]), bytes(case["r"])

    def step(f):
        try:
            steps.append(f())
        except Exception as e:
            steps.append({"k": "raised", "exc": (type(e).__name__ + ": " + str(e) + " @ " + traceback.format_exc()[-250:])})

    def trees(d):
        a, b = (lb, rb) if d == "lr" else (rb, lb)
        l, r = unpack_class(a), unpack_class(b)
        ch = cd.JavaClassChange(l, r)
        ch.check()
        for words in case["opts"]:
            step(lambda: {"k": "tree", "dir": d, "opts": words, "rows": rows(ch, options(words), l, r)})
        if case.get("again"):
            ch.simplify(options(case["opts"][0]))
            ch.check()
            step(lambda: {"k": "tree", "dir": d, "opts": case["opts"][0],
                          "rows": rows(ch, options(case["opts"][0]), l, r)})
    for d in case["dirs"]:
        try:
            trees(d)
        except Exception as e:
            steps.append({"k": "raised", "exc": (type(e).__name__ + ": " + str(e) + " @ " + traceback.format_exc()[-250:])})
    if case.get("cli"):
        tmp = tempfile.mkdtemp()
        try:
            ps = [os.path.join(tmp, "L.class"), os.path.join(tmp, "R.class")]
            for p, b in zip(ps, (lb, rb)):
                with open(p, "wb") as f:
                    f.write(b)
            for d, words, mode, form in case["cli"]:
                def one():
                    st, v = cli(ps if d == "lr" else ps[::-1], words, mode, form)
                    return {"k": "cli", "dir": d, "opts": words, "mode": mode, "status": st, "verdict": v}
                step(one)
        finally:
            shutil.rmtree(tmp)
    return {"l": case["l"], "r": case["r"], "steps": steps}
