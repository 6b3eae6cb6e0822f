"""drives class file decoding and everything derived from one class"""
import io
import os
import tempfile

import javatools
from javatools import unpack_class, unpack_classfile, is_class, is_class_file

from .proj import num, text, opt, tree, Odd


def load(data, src):
    if src == "bytes":
        return unpack_class(data)
    if src == "memoryview":
        return unpack_class(memoryview(data))
    if src == "stream":
        return unpack_class(io.BytesIO(data))
    if src == "magicstream":
        f = io.BytesIO(data)
        m = f.read(4)
        return unpack_class(f, magic=tuple(bytearray(m)))
    if src == "magicbytes":
        f = io.BytesIO(data)
        m = f.read(4)
        return unpack_class(f, magic=m)
    if src == "file":
        fd, fn = tempfile.mkstemp(suffix=".class")
        try:
            os.write(fd, data)
            os.close(fd)
            return unpack_classfile(fn)
        finally:
            os.unlink(fn)
    raise RuntimeError(src)


FLOATS = {4: False, 6: True}


def consts(info):
    cp = info.cpool
    rows = []
    n = len(cp.consts)
    for i in range(1, n):
        t, v = cp.get_const(i)
        if t is None:
            pt, pv = cp.pretty_const(i)
            rows.append({"tag": 0, "raw": [], "val": ["undef"], "ptype": "" if pt is None else pt,
                         "pval": ["none"] if pv is None else ["odd"],
                         "pretty": ["txt", text(cp.pretty_deref_const(i))]})
            continue
        if isinstance(v, tuple):
            raw = list(v)
        elif isinstance(v, int) and t not in (3, 5):
            raw = [v]
        else:
            raw = []
        val = tree(cp.deref_const(i), FLOATS.get(t))
        pd = cp.pretty_deref_const(i)
        if isinstance(pd, str):
            pretty = ["txt", text(pd)]
        else:
            pretty = ["num", tree(pd, FLOATS.get(t))]
        pt, pv = cp.pretty_const(i)
        pval = ["txt", text(pv)] if isinstance(pv, str) else ["num", tree(pv)]
        rows.append({"tag": t, "raw": raw, "val": val, "ptype": pt, "pval": pval, "pretty": pretty})
    listing = [[i, t] for i, t, _v in cp.constants()]
    listvals = [tree(v, FLOATS.get(t)) for i, t, v in cp.constants()]
    plist = [[i, t] for i, t, _v in cp.pretty_constants()]
    zero = 0
    try:
        cp.deref_const(0)
        zero = 1
    except Exception:
        pass
    return {"rows": rows, "listing": listing, "listvals": listvals, "plist": plist, "zero": zero}


def elemval(tag, data, info):
    d = info.deref_const
    cp = info.cpool

    def ft(i):
        return tree(d(i), FLOATS.get(cp.get_const(i)[0]))
    if tag in "BCDFIJSZsc":
        return ["const", ord(tag), ft(data)]
    if tag == "e":
        return ["enum", ft(data[0]), ft(data[1])]
    if tag == "@":
        return ["anno", anno(data, info)]
    if tag == "[":
        return ["array", [elemval(t, x, info) for t, x in data]]
    return ["odd", tag]


def anno(a, info):
    return [text(info.deref_const(a.type_ref)),
            [[text(k), elemval(v[0], v[1], info)] for k, v in a.items()]]


def annos(l, info):
    return [anno(a, info) for a in l]


def code_view(c):
    if c is None:
        return ["none"]
    return ["some", {
        "stack": c.max_stack, "locals": c.max_locals, "code": list(bytes(c.code)),
        "handlers": [[e.start_pc, e.end_pc, e.handler_pc, opt(e.get_catch_type())] for e in c.exceptions],
        "infos": [[i[0], i[1], i[2], opt(i[3])] for i in (e.info() for e in c.exceptions)],
        "pcatch": [text(e.pretty_catch_type()) for e in c.exceptions],
        "lines": [list(x) for x in c.get_linenumbertable()],
        "rellines": [list(x) for x in c.get_relativelinenumbertable()],
        "vars": [list(x) for x in c.get_localvariabletable()],
        "vartypes": [list(x) for x in c.get_localvariabletypetable()],
        "attrs": rawattrs(c)}]


def rawattrs(x):
    return [[text(k), list(bytes(v))] for k, v in sorted(x.attribs.items())]


def member_view(m, info):
    v = {"access": m.access_flags, "name": text(m.get_name()), "desc": text(m.get_descriptor()),
         "attrs": rawattrs(m), "module": opt(m.get_module()), "signature": opt(m.get_signature()),
         "deprecated": bool(m.is_deprecated()), "synthetic": bool(m.is_synthetic()),
         "constref": opt(m.get_constantvalue(), lambda x: x),
         "exceptions": [text(e) for e in m.get_exceptions()],
         "annos": annos(m.get_annotations(), info), "iannos": annos(m.get_invisible_annotations(), info),
         "pannos": [annos(l, info) for l in m.get_parameter_annotations()],
         "ipannos": [annos(l, info) for l in m.get_invisible_parameter_annotations()],
         "adefault": opt(m.get_annotationdefault(), lambda x: elemval(x[0], x[1], info)),
         "code": code_view(m.get_code())}
    ad = m.get_annotationdefault()
    if ad is not None:
        # the dereferenced default: that of an annotation or an array is the
        # value itself
        dv = m.deref_annotationdefault()
    if ad is not None and ad[0] not in "BCDFIJSZsce":
        v["adeferred"] = elemval(ad[0], dv, info)
    elif ad is not None:
        v["adeferred"] = (["enum", tree(dv[0]), tree(dv[1])] if ad[0] == "e"
                          else ["const", ord(ad[0]), tree(dv, FLOATS.get(info.cpool.get_const(ad[1])[0]))])
    else:
        v["adeferred"] = ["none"]
    cr = m.get_constantvalue()
    if cr is None:
        v["constval"] = ["none"]
    else:
        v["constval"] = ["some", tree(m.deref_constantvalue(), FLOATS.get(info.cpool.get_const(cr)[0]))]
    return v


def class_view(info):
    return {"version": list(info.get_version()), "access": info.access_flags,
            "this": text(info.get_this()), "super": text(info.get_super()),
            "ifaces": [text(i) for i in info.get_interfaces()],
            "fields": [member_view(m, info) for m in info.fields],
            "methods": [member_view(m, info) for m in info.methods],
            "attrs": rawattrs(info), "sourcefile": opt(info.get_sourcefile()),
            "signature": opt(info.get_signature()), "deprecated": bool(info.is_deprecated()),
            "inner": [[i.inner_info_ref, i.outer_info_ref, i.name_ref, i.access_flags, opt(i.get_name())]
                      for i in info.get_innerclasses()],
            "enclosing": opt(info.get_enclosingmethod()),
            "annos": annos(info.get_annotations(), info),
            "iannos": annos(info.get_invisible_annotations(), info),
            "debugext": opt(info.get_source_debug_extension()), "platform": info.get_platform() or "unknown"}


def words(s):
    return [text(w) for w in s.split(" ") if w]


MFLAGS = [("public", 1), ("private", 2), ("protected", 4), ("static", 8), ("final", 16), ("synchronized", 32),
          ("bridge", 64), ("volatile", 64), ("varargs", 128), ("transient", 128), ("native", 256),
          ("abstract", 1024), ("strict", 2048), ("enum", 16384), ("module", 32768)]
CFLAGS = [("public", 1), ("final", 16), ("super", 32), ("interface", 512), ("abstract", 1024),
          ("annotation", 8192), ("enum", 16384)]


def member_names(m):
    return {"ret": text(m.get_type_descriptor()), "args": [text(a) for a in m.get_arg_type_descriptors()],
            "pret": text(m.pretty_type()), "pargs": [text(a) for a in m.pretty_arg_types()],
            "flags": [text(w) for w in m.pretty_access_flags()],
            "allflags": [text(w) for w in m.pretty_access_flags(True)],
            "words": words(m.pretty_descriptor()), "ident": text(m.get_identifier()),
            "pident": text(m.pretty_identifier()),
            "pexc": [text(e) for e in m.pretty_exceptions()],
            "psig": opt(m.pretty_signature()),
            "is": [[b, bool(getattr(m, "is_" + n)())] for n, b in MFLAGS]}


def index_of(seq, x):
    for i, y in enumerate(seq):
        if y is x:
            return i + 1
    return -1


def names(info):
    out = {"cwords": words(info.pretty_descriptor()), "pthis": text(info.pretty_this()),
           "psuper": text(info.pretty_super()), "pifaces": [text(t) for t in info.pretty_interfaces()],
           "cflags": [text(w) for w in info.pretty_access_flags()],
           "cis": [[b, bool(getattr(info, "is_" + n)())] for n, b in CFLAGS],
           "fields": [member_names(m) for m in info.fields],
           "methods": [member_names(m) for m in info.methods], "lookups": []}
    for m in list(info.fields) + list(info.methods):
        out["lookups"].append(["field", text(m.get_name()), [],
                               [0 if f is None else index_of(info.fields, f)
                                for f in [info.get_field_by_name(m.get_name())]]])
    for m in info.methods:
        n = m.get_name()
        out["lookups"].append(["named", text(n), [], [index_of(info.methods, x) for x in info.get_methods_by_name(n)]])
        own = m.get_arg_type_descriptors()
        for args in [own, (), ("I",), list(own), "".join(own), ("".join(own),), own + ("",), ("",) + own,
                     own[::-1], own[:-1], own[1:], own + own[-1:], tuple(a.lstrip("[") for a in own),
                     tuple(a.swapcase() for a in own)]:
            got = info.get_method(n, args)
            out["lookups"].append(["method", text(n), [text(a) for a in args],
                                   [0 if got is None else index_of(info.methods, got)]])
            out["lookups"].append(["bridges", text(n), [text(a) for a in args],
                                   [index_of(info.methods, x) for x in info.get_method_bridges(n, args)]])
    for m in info.methods[:2]:
        n, own = m.get_name(), m.get_arg_type_descriptors()
        for x in (n.upper(), n + n, n[:-1], n[1:], n + " ", ""):
            got = info.get_method(x, own)
            out["lookups"].append(["method", text(x), [text(a) for a in own],
                                   [0 if got is None else index_of(info.methods, got)]])
            out["lookups"].append(["named", text(x), [], [index_of(info.methods, y) for y in info.get_methods_by_name(x)]])
            got = info.get_field_by_name(x)
            out["lookups"].append(["field", text(x), [], [0 if got is None else index_of(info.fields, got)]])
    out["lookups"].append(["method", text("nosuch"), [], [0 if info.get_method("nosuch") is None else -1]])
    return out


def provreq(info, queries):
    out = []
    for kind, ign in queries:
        if kind == "provides":
            got = info.get_provides(ignored=tuple(ign))
        elif kind == "private":
            got = info.get_provides(ignored=tuple(ign), private=True)
        else:
            got = info.get_requires(ignored=tuple(ign))
        got = list(got)
        out.append({"q": kind, "ign": [text(i) for i in ign], "got": sorted(text(g) for g in got)})
    return out


def disasm(info):
    from javatools.opcodes import get_opname_by_code, has_const_arg
    ms = []
    for m in info.methods:
        c = m.get_code()
        if c is None:
            ms.append([])
            continue
        rows = []
        for off, op, args in c.disassemble():
            rows.append([off, op, get_opname_by_code(op), bool(has_const_arg(op)), flat(args)])
        ends = len(bytes(c.code))
        lines = [[o, c.get_line_for_offset(o)] for o in sorted({r[0] for r in rows} | {0, 1, ends, ends + 3})]
        groups = [[a, r, [x[0] for x in ins]] for a, r, ins in c.iter_code_by_lines()] if c.get_linenumbertable() else []
        ms.append([{"rows": rows, "lines": lines, "groups": groups}])
    return ms


def flat(a):
    # the offsets of a tableswitch are given as one-element tuples
    a = [x[0] if isinstance(x, tuple) and len(x) == 1 else x for x in a]
    return [flat(x) if isinstance(x, (list, tuple)) else num(x) for x in a]


def run(case):
    data = bytes(case["data"])
    want = case["want"]
    steps = []
    info = None
    try:
        info = load(data, case.get("src", "bytes"))
        steps.append({"k": "load", "ok": True})
    except Exception as e:
        steps.append({"k": "load", "ok": False, "exc": type(e).__name__ + ": " + str(e)[:100]})
    if info is not None:
        for w in want:
            f = {"consts": lambda: consts(info), "view": lambda: class_view(info), "names": lambda: names(info),
                 "provreq": lambda: provreq(info, case["queries"]), "disasm": lambda: disasm(info)}.get(w)
            if f is None:
                continue
            try:
                steps.append({"k": w, "o": f()})
            except Odd as o:
                steps.append({"k": w, "o": {}, "exc": "not text: %r" % (o.args,)})
            except Exception as e:
                import traceback
                steps.append({"k": "raised", "what": w, "exc": (type(e).__name__ + ": " + str(e) + " @ " + traceback.format_exc()[-300:])[:500]})
    if "prefixes" in want:
        acc = []
        rej = []
        for n in case["cuts"]:
            for src in ("bytes", "stream"):
                try:
                    load(data[:n], src)
                    acc.append(n)
                except Exception:
                    rej.append(n)
        steps.append({"k": "prefixes", "accepted": sorted(set(acc)), "rejected": sorted(set(rej))})
    if "mutants" in want:
        for mut in case["mutants"]:
            d = bytearray(data)
            for pos, b in mut:
                d[pos] = b
            try:
                load(bytes(d), "bytes")
                ok = True
            except Exception:
                ok = False
            ic = bool(is_class(bytes(d))), bool(is_class(io.BytesIO(bytes(d))))
            with tempfile.NamedTemporaryFile() as tf:
                tf.write(bytes(d))
                tf.flush()
                icf = bool(is_class_file(tf.name))
            steps.append({"k": "mutant", "mut": mut, "ok": ok, "isclass": [ic[0], ic[1], icf]})
    return {"data": list(data), "steps": steps}
