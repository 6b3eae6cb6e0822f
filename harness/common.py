"""
Shared machinery of the checks: running TLC, running the drivers that
exercise the real code in child processes, collecting verdicts, writing
evidence and replay files.

Nothing in here knows an expected value of the code under test: expected
values are computed by the TLA+ specification only.
"""

import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
EVIDENCE = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known_findings.jsonl")
PY = "/opt/venv/bin/python"
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
CMJAR = "/opt/veriftools/tla/CommunityModules-deps.jar"

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
NPROC = min(8, os.cpu_count() or 1)


class Machinery(Exception):
    """the check itself is broken (exit 2), not the code under test"""


def rng(*salt):
    return random.Random("%s/%s" % (SEED, "/".join(str(s) for s in salt)))


class Scratch(object):
    """a scratch directory removed on exit"""

    def __init__(self, tag="verif"):
        self.tag = tag

    def __enter__(self):
        base = os.environ.get("TMPDIR") or "/tmp"
        self.path = tempfile.mkdtemp(prefix="%s-" % self.tag, dir=base)
        return self.path

    def __exit__(self, *a):
        # restore permissions a test may have removed, then delete
        for d, _ds, _fs in os.walk(self.path):
            try:
                os.chmod(d, 0o700)
            except OSError:
                pass
        shutil.rmtree(self.path, ignore_errors=True)


# ---------------------------------------------------------------- TLC

class TLCResult(object):
    def __init__(self, out, rc, wall):
        self.out = out
        self.rc = rc
        self.wall = wall
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        if m:
            self.generated = int(m[-1][0].replace(",", ""))
            self.distinct = int(m[-1][1].replace(",", ""))
        else:
            self.generated = self.distinct = 0
        self.finished = "Model checking completed. No error has been found." in out \
            or "Finished in" in out
        self.clean = "Model checking completed. No error has been found." in out

    def prints(self, tag):
        """values printed by PrintT(<<tag, ...>>); returned as raw text"""
        return re.findall(r'^<<"%s", (.*)>>$' % re.escape(tag), self.out, re.M)


def tlc(module, cfg=None, env=None, workers=NPROC, timeout=400, heap="8g",
        extra=(), scratch=None, stack="64m"):
    cfg = cfg or module
    own = None
    if scratch is None:
        own = Scratch("tlc")
        scratch = own.__enter__()
    try:
        meta = tempfile.mkdtemp(prefix="meta-", dir=scratch)
        cmd = ["java", "-Xss%s" % stack, "-Xmx%s" % heap,
               "-XX:+UseParallelGC",
               "-Djava.io.tmpdir=%s" % scratch,
               "-cp", TLAJAR + ":" + CMJAR, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", meta,
               "-workers", str(workers),
               "-config", os.path.join(SPEC, cfg + ".cfg")]
        cmd += list(extra)
        cmd += [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        t0 = time.time()
        try:
            pr = subprocess.run(cmd, cwd=scratch, env=e, timeout=timeout,
                                stdout=subprocess.PIPE,
                                stderr=subprocess.STDOUT)
        except subprocess.TimeoutExpired as te:
            raise Machinery("TLC timed out on %s after %ss: %s" % (
                module, timeout, (te.output or b"")[-2000:]))
        out = pr.stdout.decode("utf-8", "replace")
        return TLCResult(out, pr.returncode, time.time() - t0)
    finally:
        if own is not None:
            own.__exit__()


def model_check(module, cfg=None, **kw):
    """an exhaustive run that must come out clean: the design satisfies
    its invariants. An unclean run is a defect of the specification."""
    r = tlc(module, cfg, **kw)
    if not r.clean:
        raise Machinery("model checking %s/%s did not complete cleanly:\n%s"
                        % (module, cfg or module, r.out[-4000:]))
    return r


# ------------------------------------------------- trace validation

class Verdicts(object):
    def __init__(self):
        self.rejected = []      # (case index, clause text)
        self.accepted = 0
        self.generated = 0
        self.distinct = 0
        self.wall = 0.0


def _plain(x):
    """TLC reads no null, no fraction and no integer beyond 32 bits: where
    the specification has a value of its own for them the driver wrote that
    one, and anywhere else they are outside its domain"""
    t = type(x)
    if t is int:
        return x if -0x80000000 <= x <= 0x7fffffff else "(integer) %d" % x
    if t is str or t is bool:
        return x
    if t is list or t is tuple:
        return [_plain(y) for y in x]
    if t is dict:
        return {k: _plain(v) for k, v in x.items()}
    return "(%s) %r" % (t.__name__, x)


def _write_nd(path, rows, plain=lambda x: x):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(plain(r), ensure_ascii=True, separators=(",", ":")))
            f.write("\n")


def validate(module, traces, scratch, cfg=None, timeout=600, chunk=None,
             env=None, workers=None, heap="8g", max_domain_errors=5, par=1):
    """
    Checks each recorded trace against the trace specification. The
    trace specification prints <<"DONE", i>> when trace i was accepted
    and <<"REJECT", i, step, clause>> when it was not; every trace must
    get exactly one of the two.

    An evaluation error of TLC inside trace i means the observation is
    outside the domain the specification defines for it (a wrong type of
    value, a missing component): it is a rejection of that trace, and
    the remaining traces are validated without it.
    """
    todo = list(range(len(traces)))
    par = max(1, min(par, len(todo)))
    if par > 1:
        # groups of about equal weight, each by a TLC of its own
        todo.sort(key=lambda i: -len(json.dumps(traces[i])))
        n = max(par, -(-len(todo) // chunk)) if chunk else par
        groups = [sorted(todo[i::n]) for i in range(n)]
        workers, heap = max(1, NPROC // par), "3g"
    else:
        groups = [todo[i:i + chunk] for i in range(0, len(todo), chunk)] if chunk else [todo]
    def one(x):
        try:
            return _validate_group(module, traces, x[1], "%s-%d" % (module, x[0]), scratch, cfg, timeout, env, workers, heap, max_domain_errors)
        except Machinery as e:
            return e

    v = Verdicts()
    failed = None
    t0 = time.time()
    with concurrent.futures.ThreadPoolExecutor(par) as ex:
        for w in ex.map(one, list(enumerate(groups))):
            if isinstance(w, Machinery):
                failed = w
                continue
            v.generated += w.generated
            v.distinct += w.distinct
            v.accepted += w.accepted
            v.rejected += w.rejected
    v.wall = time.time() - t0
    if failed is not None and not v.rejected:
        raise failed
    v.rejected.sort(key=lambda x: x[0])
    return v


def _validate_group(module, traces, pending, name, scratch, cfg, timeout, env, workers, heap, max_domain_errors):
    v = Verdicts()
    domain_errors = 0
    while pending:
        path = os.path.join(scratch, "trace-%s.ndjson" % name)
        _write_nd(path, [traces[i] for i in pending], _plain)
        e = {"TRACE": path}
        e.update(env or {})
        r = tlc(module, cfg, env=e, scratch=scratch, timeout=timeout,
                workers=workers or NPROC, heap=heap)
        v.generated += r.generated
        v.distinct += r.distinct
        done, rej = set(), {}
        flat = _unwrap(r.out)
        for m in re.finditer(r'<<\s*"DONE",\s*(\d+)\s*>>', flat):
            done.add(int(m.group(1)))
        for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),(.*?)>>@END', flat, re.S):
            rej.setdefault(int(m.group(1)), re.sub(r"\s+", " ", m.group(2)).strip())
        if r.clean:
            missing = [k for k in range(1, len(pending) + 1)
                       if k not in done and k not in rej]
            if missing:
                raise Machinery("no verdict for %d traces of %s (first %s):\n%s"
                                % (len(missing), module, missing[0], r.out[-3000:]))
            for k in sorted(rej):
                v.rejected.append((pending[k - 1], rej[k]))
            v.accepted += len([k for k in done if k not in rej])
            break
        # find which case the evaluation error occurred in
        m = re.findall(r"^\s*(?:/\\ )?ci = (\d+)", r.out, re.M)
        domain_errors += 1
        if not m and not any(x in r.out for x in ("Parsing or semantic analysis failed", "OutOfMemory")) \
           and "Error:" in r.out and domain_errors <= max_domain_errors:
            # it does not say which: look for one of them
            if len(pending) == 1:
                v.rejected.append((pending[0], "observation outside the specification's domain: "
                                   + " | ".join(ln for ln in r.out.splitlines() if ln.startswith("Error:"))[:600]))
                return v
            for half in (pending[:len(pending) // 2], pending[len(pending) // 2:]):
                w = _validate_group(module, traces, list(half), name, scratch, cfg, timeout, env, workers, heap, max_domain_errors)
                v.generated += w.generated
                v.distinct += w.distinct
                v.accepted += w.accepted
                v.rejected += w.rejected
                if v.rejected:
                    break
            return v
        if not m or "Parsing or semantic analysis failed" in r.out \
           or domain_errors > max_domain_errors \
           or "OutOfMemory" in r.out or "StackOverflow" in r.out:
            if v.rejected:
                return v
            raise Machinery("TLC failed on %s:\n%s" % (module, r.out[-5000:]))
        k = int(m[-1])
        why = [ln for ln in r.out.splitlines()
               if ln.startswith("Error:") or "Attempted" in ln or "exception" in ln]
        v.rejected.append((pending[k - 1],
                           "observation outside the specification's domain: "
                           + " | ".join(why[:4])[:600]))
        del pending[k - 1]
    return v


def _unwrap(out):
    """TLC pretty-prints long tuples over several lines; mark ends of
    top-level printed tuples so that they can be matched"""
    res = []
    cur = None
    depth = 0
    for ln in out.splitlines():
        if cur is None:
            if ln.startswith("<<"):
                cur = []
                depth = 0
            else:
                res.append(ln)
                continue
        cur.append(ln)
        # brackets inside strings are not counted: clauses hold no << >>
        depth += ln.count("<<") - ln.count(">>")
        if depth <= 0:
            res.append(" ".join(cur) + "@END")
            cur = None
    if cur is not None:
        res.extend(cur)
    return "\n".join(res)


# ------------------------------------------------- running drivers

def run_driver(name, cases, scratch, timeout_case=20, env=None, nproc=None,
               python=PY, pythonpath=None, faketime=None):
    """
    Runs harness/driver.py NAME over the cases in several child
    processes. Returns one trace per case. A case during which the child
    dies or hangs yields {"id", "crash": text} in place of a trace; the
    rest of its shard is resumed in a new child.
    """
    nproc = nproc or NPROC
    n = len(cases)
    nproc = max(1, min(nproc, n))
    shards = [list(range(i, n, nproc)) for i in range(nproc)]
    results = [None] * n
    procs = []

    def start(shard_no, todo):
        d = tempfile.mkdtemp(prefix="drv%d-" % shard_no, dir=scratch)
        inp = os.path.join(d, "in.ndjson")
        outp = os.path.join(d, "out.ndjson")
        _write_nd(inp, [cases[i] for i in todo])
        e = dict(os.environ)
        e["PYTHONPATH"] = (pythonpath or REPO) + ":" + VERIF
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        e["PYTHONHASHSEED"] = "0"
        e["PYTHONWARNINGS"] = "ignore"
        e["TZ"] = "UTC"
        e["LC_ALL"] = "C.UTF-8"
        e["VERIF_CASE_TIMEOUT"] = str(timeout_case)
        if not THOROUGH:
            # many times what the cases take
            e["VERIF_DRIVER_LIMIT"] = "420"
        work = os.path.join(d, "work")
        os.mkdir(work)
        e["TMPDIR"] = work
        e["VERIF_WORK"] = work
        e.update(env or {})
        with open(os.path.join(d, "err"), "wb") as err:
            p = subprocess.Popen(
                [python, "-B", "-m", "harness.driver", name, inp, outp],
                cwd=work, env=e, stdin=subprocess.DEVNULL,
                stdout=err, stderr=err, start_new_session=True)
        return {"p": p, "todo": todo, "out": outp, "d": d, "no": shard_no,
                "seen": 0, "last": time.time(), "size": 0}

    def kill(pr):
        try:
            os.killpg(pr["p"].pid, 9)
        except OSError:
            pass
        pr["p"].wait()

    def collect(pr):
        rows = []
        if os.path.exists(pr["out"]):
            with open(pr["out"], "rb") as f:
                for ln in f.read().split(b"\n"):
                    if not ln:
                        continue
                    try:
                        rows.append(json.loads(ln.decode("utf-8")))
                    except ValueError:
                        break
        return rows

    procs = [start(i, s) for i, s in enumerate(shards) if s]
    crashes = 0
    try:
        while procs:
            time.sleep(0.02)
            for pr in list(procs):
                rc = pr["p"].poll()
                size = os.path.getsize(pr["out"]) if os.path.exists(pr["out"]) else 0
                if size != pr["size"]:
                    pr["size"] = size
                    pr["last"] = time.time()
                hung = rc is None and time.time() - pr["last"] > timeout_case * 2 + 40
                if rc is None and not hung:
                    continue
                if hung:
                    kill(pr)
                else:
                    # anything the case left running
                    try:
                        os.killpg(pr["p"].pid, 9)
                    except OSError:
                        pass
                rows = collect(pr)
                procs.remove(pr)
                for i, row in zip(pr["todo"], rows):
                    results[i] = row
                if len(rows) < len(pr["todo"]):
                    with open(os.path.join(pr["d"], "err"), "rb") as f:
                        err = f.read()[-1500:].decode("utf-8", "replace")
                    if rc == 3 or "VERIF-MACHINERY" in err:
                        raise Machinery("driver %s: %s" % (name, err))
                    i = pr["todo"][len(rows)]
                    results[i] = {"id": cases[i].get("id", i),
                                  "crash": ("hung" if hung else "died rc=%s" % rc) + " " + err[-400:]}
                    crashes += 1
                    rest = pr["todo"][len(rows) + 1:]
                    if rest:
                        if crashes > 6:
                            for j in rest:
                                results[j] = {"id": cases[j].get("id", j), "skipped": True}
                        else:
                            procs.append(start(pr["no"] + 100 * crashes, rest))
                shutil.rmtree(pr["d"], ignore_errors=True)
    finally:
        for pr in procs:
            kill(pr)
    return results


# ------------------------------------------------- results

class Check(object):
    """one run of one property's check"""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.level = "model_checking"
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.violations = []      # dicts
        self.findings_hit = []
        self.mc = []

    def model(self, module, cfg=None, **kw):
        r = model_check(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.mc.append({"module": module, "cfg": cfg or module,
                        "distinct_states": r.distinct,
                        "states_generated": r.generated,
                        "wall_s": round(r.wall, 2)})
        return r

    def refutes(self, module, cfg, invariant, **kw):
        """a run that must find the invariant violated: it has teeth"""
        r = tlc(module, cfg, **kw)
        if "Invariant %s is violated" % invariant not in r.out:
            raise Machinery("%s/%s should violate %s:\n%s" % (module, cfg, invariant, r.out[-3000:]))
        self.mc.append({"module": module, "cfg": cfg, "refuted_as_expected": invariant, "wall_s": round(r.wall, 2)})

    def conform(self, module, driver, cases, scratch, trace_of=None, kind=None,
                timeout_case=20, env=None, pythonpath=None, tlc_env=None, cfg=None,
                chunk=None, timeout=600, nproc=None, heap="8g", post=None, par=1):
        """drives the real code through the cases and validates"""
        for i, c in enumerate(cases):
            c.setdefault("id", i)
        if not cases:
            raise Machinery("no cases for %s" % module)
        rows = run_driver(driver, cases, scratch, timeout_case=timeout_case,
                          env=env, pythonpath=pythonpath, nproc=nproc)
        good, owner = [], []
        for i, row in enumerate(rows):
            if row is None:
                raise Machinery("driver %s gave no row for case %d" % (driver, i))
            if "machinery" in row:
                raise Machinery("driver %s case %d: %s" % (driver, i, row["machinery"]))
            if "skipped" in row:
                self.cov["cases_skipped"] = self.cov.get("cases_skipped", 0) + 1
                continue
            if "crash" in row:
                self.violation(kind or driver, cases[i], row, "the code under test crashed or hung: " + row["crash"])
                continue
            if post:
                row = post(cases[i], row)
            good.append(row)
            owner.append(i)
        self.cov["cases_" + (kind or driver)] = len(cases)
        if good:
            v = validate(module, good, scratch, env=tlc_env, cfg=cfg, chunk=chunk,
                         timeout=timeout, heap=heap, par=par)
            self.states += v.distinct
            self.transitions += v.generated
            self.validated += v.accepted + len(v.rejected)
            self.mc.append({"module": module, "traces": len(good),
                            "distinct_states": v.distinct, "wall_s": round(v.wall, 2)})
            for k, clause in v.rejected:
                if '"MACHINERY' in clause:
                    raise Machinery("%s case %d: %s: %s" % (driver, owner[k], clause, json.dumps(cases[owner[k]])[:1500]))
                self.violation(kind or driver, cases[owner[k]], good[k], clause)
            if len(self.samples) < 6:
                s = json.dumps(good[0])
                self.samples.append(s if len(s) < 1500 else s[:1500] + "...")
        return rows

    def violation(self, kind, case, trace, clause):
        f = self._known(kind, case, trace, clause)
        if f is not None:
            self.findings_hit.append(f)
            return
        self.violations.append({"property": self.prop, "kind": kind,
                                "clause": clause, "case": case, "trace": trace})

    def _known(self, kind, case, trace, clause):
        for f in load_findings():
            if f.get("status") == "known" and f["property"] == self.prop \
               and f.get("kind", kind) == kind \
               and f.get("case_tag") and f["case_tag"] == (case or {}).get("tag"):
                return f
        return None

    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated,
               "samples": self.samples or ["(none)"],
               "runs": self.mc}
        cov.update(self.cov)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED,
              "level": self.level, "coverage": cov,
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        tmp = os.path.join(EVIDENCE, ".%s.tmp" % self.prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVIDENCE, self.prop + ".json"))
        seen = set()
        for f in load_findings():
            if f.get("status") == "known" and f["property"] == self.prop:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        if self.violations:
            os.makedirs(OUT, exist_ok=True)
            for n, v in enumerate(self.violations[:5]):
                path = os.path.join(OUT, "%s-%d.json" % (self.prop, n))
                with open(path, "w") as f:
                    json.dump(v, f, indent=1)
                key = (v["kind"], v["clause"][:200])
                if key in seen:
                    continue
                seen.add(key)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  [%s] %s" % (v["kind"], v["clause"][:700]))
            if len(self.violations) > 5:
                print("  (%d violating cases in all)" % len(self.violations))
            return 1
        print("OK property=%s states=%d traces=%d wall=%.1fs" % (
            self.prop, self.states, self.validated, time.time() - self.t0))
        return 0


_findings = None


def load_findings():
    global _findings
    if _findings is None:
        _findings = []
        if os.path.exists(FINDINGS):
            with open(FINDINGS) as f:
                for ln in f:
                    ln = ln.strip()
                    if ln and not ln.startswith("#"):
                        _findings.append(json.loads(ln))
    return _findings
