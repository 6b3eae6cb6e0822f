"""the same requests made again in other processes: with other hashes,
directories listed in other orders, other things done before, and other
numbers of helpers"""

import atexit
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

from harness.drv_archivediff import build

RUNS = int(os.environ.get("VERIF_RUNS", "3"))
_KIDS = []


def kids():
    if not _KIDS:
        for i in range(RUNS):
            e = dict(os.environ, PYTHONHASHSEED=str(1 + i * 7919 + int(os.environ.get("VERIF_SEED", "1")) * 104729), VERIF_KID=str(i))
            _KIDS.append(subprocess.Popen([sys.executable, "-B", "-m", "harness.repeatkid"], env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                          stderr=subprocess.DEVNULL))
        atexit.register(over)
    return _KIDS


def over():
    for p in _KIDS:
        p.kill()
        p.wait()
    del _KIDS[:]


def ask(p, req):
    try:
        p.stdin.write(json.dumps(req).encode() + b"\n")
        p.stdin.flush()
        a = p.stdout.readline()
        return json.loads(a)
    except (BrokenPipeError, ValueError):
        over()
        return {"rc": "died", "out": []}


def swap(paths):
    os.rename(paths["l"], paths["l"] + "~")
    os.rename(paths["r"], paths["l"])
    os.rename(paths["l"] + "~", paths["r"])


def request(a, paths, out, i, j):
    shutil.rmtree(out, ignore_errors=True)
    if os.path.exists(out):
        os.unlink(out)
    args = [paths[x] if x in ("l", "r") else out if x == "OUT" else x for x in a["args"]]
    if "forks" in a:
        args.insert(0, "--processes=%d" % a["forks"][i % len(a["forks"])])
    return {"main": a["main"], "args": [a["main"]] + args, "out": out, "report": bool(a.get("report")), "shuffle": i * 1000 + j}


def run(case):
    top = tempfile.mkdtemp(dir=os.environ["VERIF_WORK"])
    steps = []
    try:
        os.mkdir(os.path.join(top, "in"))
        if case["kind"] == "class":
            paths = {}
            for s in "lr":
                paths[s] = os.path.join(top, "in", s + ".class")
                with open(paths[s], "wb") as f:
                    f.write(bytes(case[s]))
        else:
            paths = build(case, os.path.join(top, "in"))
        first = {}
        for i in range(RUNS):
            if i % 3 == 1 and os.path.isdir(paths["l"]) == os.path.isdir(paths["r"]):
                # this one was asked of another input before, of the same name
                swap(paths)
                for a in case["asks"]:
                    ask(kids()[i], request(a, paths, os.path.join(top, "out"), i, 77))
                swap(paths)
            for j in case["orders"][i % len(case["orders"])]:
                a = case["asks"][j]
                out = os.path.join(top, "out")
                got = ask(kids()[i], request(a, paths, out, i, j))
                shutil.rmtree(out, ignore_errors=True)
                if os.path.exists(out):
                    os.unlink(out)
                lines = [x.replace(top, "TOP") for x in got["out"]]
                if "forks" in a:
                    # the report tells the options it was made with
                    lines = [re.sub(r'^ *"processes": \d+,?$', "", x) for x in lines]
                old = first.setdefault(j, lines)
                where = next((x[:150] + " | " + y[:150] for x, y in zip(old + ["(end)"], lines + ["(end)"]) if x != y), "")
                steps.append({"q": "%d %s %s" % (j, a["main"], " ".join(a["args"])), "rc": str(got["rc"]),
                              "out": hashlib.sha256("\n".join(lines).encode("utf-8", "surrogatepass")).hexdigest()[:24], "where": where.encode("ascii", "replace").decode()})
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return {"steps": steps}
