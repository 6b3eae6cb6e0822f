"""drives javatools.pack"""
import io
import os
import tempfile

from javatools.pack import unpack, compile_struct, UnpackException, BufferUnpacker, StreamUnpacker


def enc_int(v):
    neg = 1 if v < 0 else 0
    m = abs(v)
    return ["i", neg, list(m.to_bytes((m.bit_length() + 7) // 8, "big"))]


def enc(v):
    if isinstance(v, bool):
        return ["bool", v]
    if isinstance(v, int):
        return enc_int(v)
    if isinstance(v, (bytes, bytearray, memoryview)):
        return ["s", list(bytes(v))]
    return ["other", type(v).__name__]


def fmt_str(fmt):
    out = ">"
    for c in fmt:
        out += ("%d%s" % (c[1], c[0])) if len(c) > 1 else c[0]
    return out


def run(case):
    data = bytes(case["data"])
    kind = case["kind"]
    src = None
    if kind == "buffer":
        flavour = case.get("flavour", "bytes")
        if flavour == "memoryview":
            up = unpack(memoryview(data))
        elif flavour == "offset":
            up = BufferUnpacker(data, case["pos"])
        else:
            up = unpack(data)
    else:
        if case.get("flavour") == "file":
            src = tempfile.TemporaryFile()
            src.write(data)
            src.seek(0)
        else:
            src = io.BytesIO(data)
        up = unpack(src) if case.get("flavour") != "class" else StreamUnpacker(src)
    steps = []
    for op in case["ops"]:
        try:
            k = op[0]
            if k == "read":
                out = ["ok", ["s", list(bytes(up.read(op[1])))]]
            elif k == "unpack":
                out = ["ok", [enc(v) for v in up.unpack(fmt_str(op[1]))]]
            elif k == "struct":
                out = ["ok", [enc(v) for v in up.unpack_struct(compile_struct(fmt_str(op[1])))]]
            elif k == "array":
                out = ["ok", [[enc(v) for v in t] for t in up.unpack_array(fmt_str(op[1]))]]
            elif k == "sarray":
                out = ["ok", [[enc(v) for v in t] for t in
                              up.unpack_struct_array(compile_struct(fmt_str(op[1])))]]
            elif k == "objects":
                fs = fmt_str(op[1])

                class Obj(object):
                    def __init__(self, mark):
                        self.mark = mark

                    def unpack(self, u):
                        self.v = u.unpack(fs)
                out = ["ok", [[enc(v) for v in o.v] for o in up.unpack_objects(Obj, 7)
                              if o.mark == 7]]
            elif k == "close":
                up.close()
                out = ["ok", "closed"]
            elif k == "within":
                out = None
                with up as u2:
                    out = ["ok", ["s", list(bytes(u2.read(op[1])))]]
                if out is None:
                    out = ["error", "passed over"]
            elif k == "exit":
                with up as u2:
                    if u2 is not up:
                        out = ["error", "enter"]
                out = ["ok", "closed"]
            else:
                raise RuntimeError("unknown op %r" % (op,))
        except UnpackException as ue:
            out = ["short", ue.bytes_wanted, ue.bytes_present]
        except RuntimeError:
            raise
        except Exception as e:
            out = ["error", type(e).__name__]
        steps.append({"op": op, "out": out,
                      "srcopen": (src is not None and not src.closed)})
    if src is not None:
        src.close()
    return {"kind": kind, "data": list(data), "pos": case["pos"], "steps": steps}
