"""
The information commands of the real code, run with many options on
classes, jars and distributions. The facts about each class are those
of the library's interface; about archives, those of the zip module
and of the directory.
"""
import contextlib
import io
import json
import os
import shutil
import tempfile
import zipfile

from javatools import classinfo, distinfo, jarinfo, opcodes, unpack_class
from javatools import platform_from_version
from javatools.manifest import Manifest

from .drv_aggregate import lay, pack


def opt(x):
    return [] if x is None else [str(x)]


def leaf(v):
    if v is None:
        return "null"
    if v is True or v is False:
        return "true" if v else "false"
    if isinstance(v, str):
        return "s:" + v
    if isinstance(v, int):
        return "i:%d" % v
    return "f:%d" % round(v * 10)


def leaves(v, path=""):
    if isinstance(v, dict):
        if not v and path:
            return [[path, "{}"]]
        return [x for k, w in v.items() for x in leaves(w, path + "/" + k)]
    if isinstance(v, (list, tuple)):
        return [[path + "/#", str(len(v))]] + [x for i, w in enumerate(v) for x in leaves(w, "%s/%d" % (path, i))]
    return [[path, leaf(v)]]


def member(m, method):
    cp = m.cpool
    f = {"name": m.get_name(), "type": str(m.pretty_type()), "words": list(m.pretty_access_flags()), "argtypes": list(m.pretty_arg_types()) if method else [],
         "flags": m.access_flags, "desc": m.pretty_descriptor(), "sig": opt(m.get_signature()), "annos": [a.pretty_annotation() for a in m.get_annotations()],
         "value": [], "deprecated": bool(m.is_deprecated()), "synthetic": bool(m.is_synthetic()), "has": False, "stack": 0, "locals": 0, "args": 0, "code": [], "handlers": [],
         "linenos": [], "vars": [], "vartypes": [], "throws": []}
    if not method:
        r = m.get_constantvalue()
        if r is not None:
            t, v = cp.pretty_const(r)
            if t:
                f["value"] = [[t, str(v), leaf(v)]]
        return f
    f["throws"] = list(m.pretty_exceptions())
    f["args"] = len(m.get_arg_type_descriptors())
    code = m.get_code()
    if code:
        f.update(has=True, stack=code.max_stack, locals=code.max_locals,
                 code=[{"at": x[0], "op": opcodes.get_opname_by_code(x[1]), "args": [str(a) for a in x[2] or ()]} for x in code.disassemble()],
                 handlers=[{"from": e.start_pc, "to": e.end_pc, "at": e.handler_pc, "type": e.pretty_catch_type()} for e in code.exceptions],
                 linenos=[list(x) for x in code.get_linenumbertable() or ()],
                 vars=[var(cp, x) for x in code.get_localvariabletable() or ()], vartypes=[var(cp, x) for x in code.get_localvariabletypetable() or ()])
    return f


def var(cp, x):
    at, n, name, type_, slot = x
    return {"at": at, "len": n, "slot": slot, "name": str(cp.deref_const(name)), "type": str(cp.deref_const(type_))}


def facts(i):
    v = i.get_version()
    consts = [[k] + list(i.cpool.pretty_const(k)) for k in range(1, len(i.cpool.consts))]
    return {"name": i.pretty_this(), "super": opt(i.pretty_super()), "ifaces": list(i.pretty_interfaces()), "source": opt(i.get_sourcefile()),
            "sig": opt(i.get_signature()), "encl": opt(i.get_enclosingmethod()), "annos": [a.pretty_annotation() for a in i.get_annotations()],
            "desc": i.pretty_descriptor(), "major": v[0], "minor": v[1], "platform": opt(platform_from_version(*v)),
            "consts": [{"i": k, "t": t, "v": str(w), "j": leaf(w)} for k, t, w in consts if t],
            "prov": [], "req": [], "fields": [member(m, False) for m in i.fields], "methods": [member(m, True) for m in i.methods]}


SHOW = {"--header": 0, "--public": 1, "--package": 3, "--private": 7}
FLAGS = {"-l": "lines", "-o": "locals", "-c": "code", "-s": "sigs", "-p": "consts", "--verbose": "verbose", "--class-provides": "cprov", "--class-requires": "creq",
         "--zip": "zip", "--manifest": "manifest", "--jar-provides": "jprov", "--jar-requires": "jreq", "--jar-classes": "classes",
         "--dist-provides": "dprov", "--dist-requires": "dreq"}


def options(words):
    o = dict.fromkeys(FLAGS.values(), False)
    o["show"] = 1
    for w in words:
        if w in SHOW:
            o["show"] = SHOW[w]
        else:
            o[FLAGS[w]] = True
    return o


def attrs(s):
    return [[str(k), str(v)] for k, v in sorted(s.items())]


def jarfacts(path, exploded, bodies, infos, ign):
    j = {"files": 0, "dirs": 0, "size": 0, "comp": 0, "type": "ExplodedZipFile" if exploded else "ZipFile", "hasmf": False, "main": [], "subs": [], "classes": []}
    mf, names = None, []
    if exploded:
        for r, ds, fs in os.walk(path):
            j["dirs"] += len(ds)
            for f in fs:
                with open(os.path.join(r, f), "rb") as fd:
                    b = fd.read()
                j["files"] += 1
                j["size"] += len(b)
                j["comp"] += len(b)
                n = os.path.relpath(os.path.join(r, f), path)
                names.append((n, b))
        names.sort(key=lambda x: x[0])
    else:
        with zipfile.ZipFile(path) as z:
            for x in z.infolist():
                if x.filename.endswith("/"):
                    j["dirs"] += 1
                    continue
                j["files"] += 1
                j["size"] += x.file_size
                j["comp"] += x.compress_size
                names.append((x.filename, z.read(x)))
    for n, b in names:
        if n == "META-INF/MANIFEST.MF":
            mf = Manifest()
            mf.parse(b)
            j["hasmf"], j["main"], j["subs"] = True, attrs(mf), [attrs(s) for _n, s in sorted(mf.sub_sections.items())]
        elif n.endswith(".class"):
            k = bodies.index(b)
            j["classes"].append(dict(asked(infos[k], ign), e=n, c=k + 1))
    with jarinfo.JarInfo(filename=path) as ji:
        j["prov"], j["req"] = sorted(ji.get_provides(ign)), sorted(ji.get_requires(ign))
    return j


def asked(info, ign):
    return {"prov": sorted(info.get_provides(ign)), "req": sorted(info.get_requires(ign))}


def documents(out):
    d, got, at = json.JSONDecoder(), [], 0
    while at < len(out):
        doc, at = d.raw_decode(out, at)
        # sorted: neither the order nor the reasons are of this specification
        for k in ("class_provides", "class_requires", "jar.provides", "jar.requires", "dist.provides", "dist.requires"):
            if k in doc:
                doc[k] = sorted(doc[k])
        got.append(leaves(doc))
    return got


def run(case):
    d = os.path.realpath(tempfile.mkdtemp(dir=os.environ["VERIF_WORK"]))
    bodies = [bytes(b) for b in case["bodies"]]
    infos = [unpack_class(b) for b in bodies]
    steps = []
    try:
        def content(es):
            return [(n, bodies[b] if isinstance(b, int) and b >= 0 else b"" if isinstance(b, int) else bytes(b)) for n, b in es]
        for i, b in enumerate(bodies):
            with open(os.path.join(d, "c%d.class" % i), "wb") as f:
                f.write(b)
        for i, j in enumerate(case["jars"]):
            pack(os.path.join(d, "j%d.jar" % i), content(j["es"]), zipfile.ZIP_STORED if j.get("stored") else zipfile.ZIP_DEFLATED)
            lay(os.path.join(d, "j%d" % i), content(j["es"]))
        os.mkdir(os.path.join(d, "dist"))
        for i, j in enumerate(case["jars"]):
            shutil.copy(os.path.join(d, "j%d.jar" % i), os.path.join(d, "dist"))
        for i in case.get("loose", ()):
            shutil.copy(os.path.join(d, "c%d.class" % i), os.path.join(d, "dist"))
        for op in case["ops"]:
            ign = tuple(op["ign"])
            step = {"k": "said", "on": op["on"], "o": options(op["words"]), "json": op["json"], "exc": "", "out": "", "trees": [], "xs": []}
            if op["on"] == "class":
                mod, paths = classinfo, ["c%d.class" % i for i in op["of"]]
                step["xs"] = [dict(asked(infos[i], ign), c=i + 1) for i in op["of"]]
            elif op["on"] == "jar":
                mod, paths = jarinfo, ["j%d%s" % (i, "" if e else ".jar") for i, e in op["of"]]
                step["xs"] = [jarfacts(os.path.join(d, p), e, bodies, infos, ign) for p, (i, e) in zip(paths, op["of"])]
            else:
                mod, paths = distinfo, ["dist"]
                di = distinfo.DistInfo(os.path.join(d, "dist"))
                step["xs"] = [asked(di, ign)]
                di.close()
            args = [op["on"] + "info"] + list(op["words"]) + (["--json"] if op["json"] else [])
            for x in ign:
                args += ["--api-ignore", x]
            out = io.StringIO()
            try:
                with contextlib.redirect_stdout(out):
                    rc = mod.main(args + [os.path.join(d, p) for p in paths])
                if rc != 0:
                    raise RuntimeError("the command answers %r" % rc)
                if op["json"]:
                    step["trees"] = documents(out.getvalue())
                else:
                    step["out"] = out.getvalue()
            except Exception as e:
                step["exc"] = "%s: %s" % (type(e).__name__, str(e).replace(d, "")[:200])
            steps.append(step)
        return {"steps": steps, "classes": [facts(i) for i in infos]}
    finally:
        shutil.rmtree(d)
