"""projections of public values of the code under test into JSON"""
import struct


def num(v):
    v = int(v)
    m = abs(v)
    return ["i", 1 if v < 0 else 0, list(m.to_bytes((m.bit_length() + 7) // 8, "big"))]


def text(s):
    if isinstance(s, (bytes, bytearray)):
        return list(s)
    if not isinstance(s, str):
        raise Odd(s)
    return [ord(c) for c in s]


class Odd(Exception):
    pass


def opt(v, f=text):
    return ["none"] if v is None else ["some", f(v)]


def tree(v, wide=None):
    """a dereferenced constant; wide says whether a float is a double"""
    if isinstance(v, bool):
        return ["odd", "bool"]
    if isinstance(v, int):
        return num(v)
    if isinstance(v, float):
        try:
            if wide is False:
                return ["f4", list(struct.pack(">f", v))]
            return ["f8", list(struct.pack(">d", v))]
        except OverflowError:
            return ["odd", "overflow"]
    if isinstance(v, str):
        return ["u", text(v)]
    if isinstance(v, (tuple, list)):
        return ["t", [tree(x, wide) for x in v]]
    return ["odd", type(v).__name__]


def attempt(f, *a, **k):
    """value or the name of the exception raised"""
    try:
        return ["val", f(*a, **k)]
    except Exception as e:
        return ["exc", type(e).__name__]
