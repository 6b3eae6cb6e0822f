"""comparisons of real archives and directory trees"""
import io
import os
import shutil
import tempfile
import traceback
import zipfile
from zlib import crc32

from javatools import dirutils, ziputils


def cp(s):
    return [ord(x) for x in s]


def un(s):
    return "".join(chr(x) for x in s)


def body(rec):
    if isinstance(rec, str):
        return bytes.fromhex(rec)
    size, fill, pts = rec
    b = bytearray([fill]) * size
    for p, v in pts:
        b[p] = v
    return bytes(b)


class Unseekable(io.RawIOBase):
    def __init__(self, f):
        self.f = f

    def writable(self):
        return True

    def write(self, b):
        return self.f.write(b)


METHODS = {"stored": zipfile.ZIP_STORED, "deflated": zipfile.ZIP_DEFLATED, "bzip2": zipfile.ZIP_BZIP2, "lzma": zipfile.ZIP_LZMA}


def write_zip(out, entries, bodies, how):
    """how: method, prefix bytes, comment, year, streamed"""
    if how.get("prefix"):
        out.write(b"#!/bin/sh\nexit 1\n")
    dst = Unseekable(out) if how.get("streamed") else out
    with zipfile.ZipFile(dst, "w" if not how.get("prefix") or how.get("streamed") else "a", METHODS[how["method"]]) as z:
        for e in entries:
            n = un(e["n"])
            zi = zipfile.ZipInfo(n, (how["year"], 1, 2, 3, 4, 6))
            zi.compress_type = METHODS[how["method"]] if e["c"] else zipfile.ZIP_STORED
            zi.extra = b""
            z.writestr(zi, body(bodies[e["c"] - 1]) if e["c"] else b"")
        z.comment = how.get("comment", "").encode()


def write_tree(root, nodes, bodies, stamp=None, key="p"):
    os.makedirs(root, exist_ok=True)
    for e in nodes:
        n = un(e[key])
        p = os.path.join(root, n)
        if e["c"] == 0:
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(body(bodies[e["c"] - 1]))
            if stamp:
                os.utime(p, (stamp, stamp))


def identify(data, bodies):
    for i, b in enumerate(bodies):
        if body(b) == data:
            return i + 1
    return -1


def events(gen):
    return [[e, cp(n)] for e, n in gen]


def collected(t, skip=""):
    keys = ("added", "removed", "altered", "same")
    return dict({k: [cp(n) for n in v] for k, v in zip(keys, t)}, skip=skip)


def read_entries(zf, bodies, chunk):
    rows = []
    for n in zf.namelist():
        i = zf.getinfo(n)
        if n.endswith("/"):
            rows.append([cp(n), 0, i.file_size, True])
            continue
        data = zf.read(n)
        with ziputils.open_zip_entry(zf, n) as f:
            again = f.read()
        parts = list(ziputils.chunk_zip_entry(zf, n, chunk))
        ok = (again == data and b"".join(parts) == data and all(0 < len(p) <= chunk for p in parts)
              and isinstance(data, bytes) and i.filename == n)
        rows.append([cp(n), identify(data, bodies) if ok else -2, i.file_size, (i.CRC & 0xffffffff) == (crc32(data) & 0xffffffff)])
    return rows


def archive(case, d, steps):
    bodies = case["bodies"]
    paths = {}
    for side in "lr":
        f = case[side + "f"]
        p = os.path.join(d, side + ("dir" if f == "dir" else ".zip"))
        if f == "dir":
            write_tree(p, case[side], bodies, case.get("stamp"), "n")
        else:
            with open(p, "wb") as out:
                write_zip(out, case[side], bodies, case["how_" + side])
        paths[side] = p

    def opened(side):
        if case[side + "f"] == "stream":
            with open(paths[side], "rb") as f:
                return zipfile.ZipFile(io.BytesIO(f.read()))
        return ziputils.open_zip(paths[side])
    forms = {"lf": case["lf"], "rf": case["rf"]}
    stream = "stream" in forms.values()
    if not stream:
        steps.append(dict(forms, k="events", out=events(ziputils.compare(paths["l"], paths["r"]))))
        steps.append(dict(forms, k="collect", **collected(ziputils.collect_compare(paths["l"], paths["r"]))))
    with opened("l") as lz, opened("r") as rz:
        steps.append(dict(forms, k="events", out=events(ziputils.compare_zips(lz, rz))))
        steps.append(dict(forms, k="collect", **collected(ziputils.collect_compare_zips(lz, rz))))
        for miss in case.get("none", ()):
            slots = [None if k == miss else [] for k in ("added", "removed", "altered", "same")]
            res = ziputils.collect_compare_zips_into(lz, rz, *slots)
            steps.append(dict(forms, k="collect", **collected([x or [] for x in res], miss)))
        if case.get("entries"):
            for side, z in (("l", lz), ("r", rz)):
                steps.append({"k": "entries", "side": side, "form": case[side + "f"],
                              "rows": read_entries(z, bodies, case["chunk"]),
                              "rollup": list(ziputils.zip_entry_rollup(z))})


def tree(case, d, steps):
    bodies = case["bodies"]
    l, r = os.path.join(d, "l"), os.path.join(d, "r")
    write_tree(l, case["l"], bodies, case.get("stamp"))
    write_tree(r, case["r"], bodies, case.get("stamp"))
    tail = case.get("tail", "")
    forms = {"lf": "tree", "rf": "tree"}
    cwd = os.getcwd()
    if case.get("rel"):
        os.chdir(d)
        l, r = "l", "r"
    try:
        steps.append(dict(forms, k="events", out=events(dirutils.compare(l + tail, r + tail))))
        steps.append(dict(forms, k="collect", **collected(dirutils.collect_compare(l + tail, r + tail))))
        for miss in case.get("none", ()):
            slots = [None if k == miss else [] for k in ("added", "removed", "altered", "same")]
            res = dirutils.collect_compare_into(l, r, *slots)
            steps.append(dict(forms, k="collect", **collected([x or [] for x in res], miss)))
        if case.get("copy"):
            pairs = dirutils.copydir(l, r)
            copied = []
            for a, b in pairs:
                x, y = os.path.relpath(a, l), os.path.relpath(b, r)
                copied.append(cp(x) if x == y else [-1])
            files, dirs = [], []
            for root, ds, fs in os.walk(r):
                for f in fs:
                    p = os.path.join(root, f)
                    with open(p, "rb") as fd:
                        files.append([cp(os.path.relpath(p, r)), identify(fd.read(), bodies)])
                for x in ds:
                    dirs.append(cp(os.path.relpath(os.path.join(root, x), r)))
            steps.append({"k": "copy", "copied": copied, "files": files, "dirs": dirs})
    finally:
        os.chdir(cwd)


def stream(case, d, steps):
    """data which is or is not an archive, as bytes and as streams"""
    buf = io.BytesIO()
    if case["data"] == "zip":
        write_zip(buf, case["l"], case["bodies"], case["how_l"])
        data = buf.getvalue()
    elif case["data"] == "cut":
        write_zip(buf, case["l"], case["bodies"], case["how_l"])
        data = buf.getvalue()[:-case["cut"]]
    else:
        data = bytes.fromhex(case["hex"])
    for as_, v in (("bytes", data), ("bytearray", bytearray(data)), ("memoryview", memoryview(data))):
        steps.append({"k": "stream", "as": as_, "out": ziputils.is_zipstream(v), "before": 0, "after": 0})
    p = os.path.join(d, "x")
    with open(p, "wb") as f:
        f.write(data)
    for at in case["at"]:
        for as_, s in (("BytesIO", io.BytesIO(data)), ("file", open(p, "rb")), ("raw", open(p, "rb", 0))):
            with s:
                s.seek(min(at, len(data)))
                b = s.tell()
                got = ziputils.is_zipstream(s)
                steps.append({"k": "stream", "as": as_, "out": got, "before": b, "after": s.tell()})
    try:
        with ziputils.open_zip(p) as z:
            kind = "zip" if isinstance(z, zipfile.ZipFile) else "exploded"
    except Exception:
        kind = "refused"
    steps.append({"k": "opened", "kind": kind})


def run(case):
    steps = []
    row = {"steps": steps}
    for k in ("kind", "l", "r", "zip", "opens", "pats", "name"):
        if k in case:
            row[k] = case[k]
    if "bodies" in case:
        row["sizes"] = [len(body(b)) for b in case["bodies"]]
    d = tempfile.mkdtemp(dir=os.environ["VERIF_WORK"])
    try:
        if case["kind"] == "match":
            steps.append({"k": "match", "out": bool(dirutils.fnmatches(un(case["name"]), *[un(p) for p in case["pats"]]))})
        else:
            {"archive": archive, "tree": tree, "stream": stream}[case["kind"]](case, d, steps)
    except Exception:
        tb = traceback.format_exc()
        if "/javatools/" not in tb:
            raise
        steps.append({"k": "raised", "exc": tb[-500:]})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return row
