"""manifests written and read by the real code"""
import io
import os
import tempfile
import traceback
import zipfile

from javatools import manifest as mf


def u(b):
    return bytes(b).decode("utf-8")


def l8(s):
    return list(s.encode("utf-8"))


def pairs(sec):
    return [[l8(k), l8(v)] for k, v in sec.items()]


def doc(m):
    return {"ok": True, "main": pairs(m), "subs": [[l8(n), pairs(s)] for n, s in m.sub_sections.items()]}


NONE = {"ok": False, "main": [], "subs": []}
BAD = (mf.MalformedManifest, mf.ManifestKeyException)


def fresh(prim):
    return mf.SignatureManifest() if prim == "sf" else mf.Manifest()


def read(data, prim, how):
    m = fresh(prim)
    try:
        if how == "parse":
            m.parse(data)
        elif how == "file":
            with tempfile.NamedTemporaryFile(dir=os.environ["VERIF_WORK"]) as f:
                f.write(data)
                f.flush()
                m.parse_file(f.name)
        else:
            with tempfile.NamedTemporaryFile(dir=os.environ["VERIF_WORK"], suffix=".jar") as f:
                with zipfile.ZipFile(f, "w") as z:
                    z.writestr("META-INF/MANIFEST.MF", data)
                f.flush()
                m.load_from_jar(f.name)
    except BAD:
        return None
    return m


def write(m, nl, how):
    if how == "get":
        return m.get_data(nl)
    if how == "store":
        b = io.BytesIO()
        m.store(b, nl)
        return b.getvalue()
    if how == "text":
        # a text stream with a binary one beneath, as standard output
        b = io.BytesIO()
        t = io.TextIOWrapper(b, "utf-8", newline="")
        m.store(t, nl)
        t.flush()
        return b.getvalue()
    with tempfile.TemporaryFile(dir=os.environ["VERIF_WORK"]) as f:
        m.store(f, nl)
        f.seek(0)
        return f.read()


NLS = {"crlf": "\r\n", "lf": "\n", "cr": "\r", "": None}


def default_nl(m, nl):
    return nl or m.linesep or os.linesep


def run(case):
    steps = []
    prim = case.get("prim", "mf")
    row = {"steps": steps, "prim": prim, "doc": case.get("doc", NONE)}

    def cycle(m, of, nl, how, rhow):
        data = write(m, nl, how)
        eff = default_nl(m, nl)
        steps.append({"k": "write", "api": of is None, "of": of or [], "nl": l8(eff), "data": list(data)})
        again = read(data, prim, rhow)
        steps.append({"k": "read", "data": list(data), "out": NONE if again is None else doc(again)})
        parts = [list(m.get_main_section(nl))] + [list(s.get_data(eff)) for s in m.sub_sections.values()]
        steps.append({"k": "parts", "whole": list(data), "parts": parts})
        return again, data
    try:
        if "doc" in case:
            d = case["doc"]
            m = fresh(prim)
            nl = NLS[case["nl"]]
            try:
                for k, v in d["main"]:
                    m[u(k)] = u(v)
                for n, ps in d["subs"]:
                    s = m.create_section(u(n))
                    for k, v in ps:
                        s[u(k)] = u(v)
                m2, data = cycle(m, None, nl, case["how"], case["rhow"])
            except BAD:
                steps.append({"k": "refused"})
                return row
            if m2 is not None:
                cycle(m2, list(data), NLS[case["nl2"]], case["how2"], case["rhow"])
        else:
            data = bytes(case["data"])
            m = read(data, prim, case["rhow"])
            steps.append({"k": "read", "data": case["data"], "out": NONE if m is None else doc(m)})
            if m is not None:
                cycle(m, case["data"], NLS[case["nl2"]], case["how2"], case["rhow"])
    except Exception:
        tb = traceback.format_exc()
        if "/javatools/" not in tb:
            raise
        steps.append({"k": "raised", "exc": tb[-500:]})
    return row
