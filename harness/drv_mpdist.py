"""runs distdiff sequentially and in parallel: under given schedules with
stand-ins for processes and queues, and with real processes"""
import contextlib
import io
import json
import multiprocessing
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from javatools import distdiff as dd, change as ch

from .baton import Context, Stuck
from .drv_archivediff import build, flags, name, tok
from .drv_compare import cp

LOG = None          # where examinations are recorded
DEPTH = {}
VICTIM = [None, 0]  # entry whose helper dies, pid of the parent
LAST = [None]


def subclasses(c):
    res = [c]
    for s in c.__subclasses__():
        res += subclasses(s)
    return res


def install():
    # entries inherit check from a common base: that they are entries is
    # decided where it is called
    seen = set()
    for c in subclasses(dd.DistContentChange):
        for b in c.mro():
            if "check" in b.__dict__ and b not in seen and b is not object:
                seen.add(b)
                wrap_entry(b)
    top = dd.DistReport.__dict__.get("check")
    if top:
        def check(self, *a, **k):
            LAST[0] = self
            return top(self, *a, **k)
        dd.DistReport.check = check


def wrap_entry(cls):
    orig = cls.__dict__["check"]

    def check(self, *a, **k):
        if not isinstance(self, dd.DistContentChange) or id(self) in DEPTH:
            return orig(self, *a, **k)
        DEPTH[id(self)] = 1
        try:
            LOG(self.entry)
            if VICTIM[0] == self.entry and os.getpid() != VICTIM[1]:
                os.kill(os.getpid(), signal.SIGKILL)
            return orig(self, *a, **k)
        finally:
            DEPTH.pop(id(self), None)
    cls.check = check


def sqname(c):
    if isinstance(c, ch.SquashedChange):
        t = c.origclass
        kind = "jar" if issubclass(t, (dd.DistJarChange,)) else "class" if issubclass(t, dd.DistClassChange) else t.__name__
        how = "added" if isinstance(c, ch.Addition) else "removed" if isinstance(c, ch.Removal) else "both"
        return "%s %s %s" % (how, kind, tok(cp(c.entry)))
    return name(c, None)


def files(d, pool):
    out = []
    for base, _ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(base, f)
            with open(p, "rb") as fh:
                data = fh.read()
            if f.endswith(".json"):
                data = json.dumps(json.loads(data.decode("utf-8"))["report"], sort_keys=True).encode()
            out.append([cp(os.path.relpath(p, d)), pool.setdefault(data.hex(), len(pool) + 1)])
    return out


def invoke(run, paths, rdir):
    """the command in this process"""
    call = run["call"]
    args = ["x"] + flags(call) + ["--report=" + ",".join(run["formats"]), "--report-dir=" + rdir,
                                   "--processes=%d" % run["processes"], "--json", paths["l"], paths["r"]]
    out = io.StringIO()
    LAST[0] = None
    res = {"outcome": "ok", "status": 0, "rows": [], "verdict": [], "top": []}
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            res["status"] = int(dd.main(args) or 0)
    except Stuck:
        raise
    except (Exception, SystemExit) as e:
        if isinstance(e, SystemExit) and e.code in (0, None):
            return res
        if isinstance(e, SystemExit) and isinstance(e.code, int):
            res["status"] = e.code
        res["outcome"] = "error"
        res["exc"] = traceback.format_exc()[-400:]
        return res
    rep = json.loads(out.getvalue())["report"]
    res["verdict"] = [rep["is_change"], rep["is_change"] and rep["is_ignored"]]
    delta = LAST[0]
    if delta is not None:
        opts = dd.create_optparser("x").parse_args(args[1:])
        res["rows"] = [[sqname(k), bool(k.is_change()), bool(k.is_change() and k.is_ignored(opts))] for k in delta.collect()]
        res["top"] = [bool(delta.is_change()), bool(delta.is_change() and delta.is_ignored(opts))]
    return res


def real(path):
    """entry point of a process of its own"""
    with open(path) as f:
        job = json.load(f)
    log = os.open(path + ".log", os.O_CREAT | os.O_APPEND | os.O_WRONLY)
    global LOG

    def LOG(e):
        os.write(log, (json.dumps(e) + "\n").encode())
    install()
    if job["run"].get("victim"):
        VICTIM[:] = ["".join(chr(x) for x in job["run"]["victim"]), os.getpid()]
    res = invoke(job["run"], job["paths"], job["rdir"])
    with open(path + ".out", "w") as f:
        json.dump(res, f)


def run_real(run, paths, rdir, d):
    path = os.path.join(d, "job")
    for x in ("", ".log", ".out"):
        if os.path.exists(path + x):
            os.remove(path + x)
    with open(path, "w") as f:
        json.dump({"run": run, "paths": paths, "rdir": rdir}, f)
    p = subprocess.Popen([sys.executable, "-B", "-c", "import sys; from harness import drv_mpdist as m; m.real(sys.argv[1])", path],
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, start_new_session=True)
    stuck = False
    err = b""
    try:
        # (a helper which is left keeps the pipe open)
        err = p.communicate(timeout=run.get("patience", 40))[1]
    except subprocess.TimeoutExpired:
        stuck = True
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    p.wait()
    log = []
    if os.path.exists(path + ".log"):
        with open(path + ".log") as f:
            log = [json.loads(x) for x in f]
    if stuck:
        return {"outcome": "stuck", "status": 0, "rows": [], "verdict": [], "top": [], "exc": "still running"}, log
    if not os.path.exists(path + ".out"):
        if b"/javatools/" not in err:
            raise RuntimeError("no result: %r" % err[-800:])
        return {"outcome": "error", "status": 0, "rows": [], "verdict": [], "top": [], "exc": err[-300:].decode("utf-8", "replace")}, log
    with open(path + ".out") as f:
        return json.load(f), log


def run_words(run, paths, rdir):
    """in this process, under a schedule"""
    ctx = Context(run["word"], random.Random(run["seed"]))
    keep = multiprocessing.Process, multiprocessing.Queue
    multiprocessing.Process, multiprocessing.Queue = ctx.Process, ctx.Queue
    try:
        try:
            res = invoke(run, paths, rdir)
        except Stuck as e:
            res = {"outcome": "stuck", "status": 0, "rows": [], "verdict": [], "top": [], "exc": str(e)}
        if not ctx.s.finish() and res["outcome"] != "stuck":
            res["exc"] = "%s, but then: %s" % (res["outcome"], ctx.s.stuck)
            res["outcome"] = "stuck"
    finally:
        multiprocessing.Process, multiprocessing.Queue = keep
    return res, ctx


def run(case):
    global LOG
    if not getattr(run, "installed", False):
        install()
        run.installed = True
    steps = []
    row = {"steps": steps, "l": case["l"], "r": case["r"], "bodies": [{"b": b["b"], "a": b["a"], "bad": b.get("bad", False)} for b in case["bodies"]]}
    d = tempfile.mkdtemp(dir=os.environ["VERIF_WORK"])
    pool = {}
    try:
        paths = build(case, d)
        for i, rn in enumerate(case["runs"]):
            rdir = os.path.join(d, "report%d" % i)
            log = []

            def LOG(e):
                log.append(e)
            died = False
            used = True
            if rn["how"] == "real":
                res, log = run_real(rn, paths, rdir, d)
                died = bool(rn.get("victim"))
            elif rn["processes"]:
                res, ctx = run_words(rn, paths, rdir)
                died = ctx.s.deaths > 0
                used = ctx.s.used > 0
            else:
                res = invoke(rn, paths, rdir)
            DEPTH.clear()
            base = {k: rn["call"][k] for k in ("words", "entries", "files", "keys")}
            steps.append(dict(base, k="begin", how=rn["how"], processes=rn["processes"], died=died, observed=bool(log)))
            for e in log:
                steps.append({"k": "examine", "e": cp(e)})
            steps.append({"k": "end", "outcome": res["outcome"], "status": res["status"], "verdict": res["verdict"], "top": res["top"],
                          "rows": res["rows"], "files": files(rdir, pool) if os.path.isdir(rdir) and res["outcome"] == "ok" else [],
                          "exc": res.get("exc", "")})
            shutil.rmtree(rdir, ignore_errors=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return row
