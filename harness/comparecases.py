"""inputs for the archive and tree comparison checks: names, contents
(with their sizes, boundaries and checksum collisions) and layouts"""
from zlib import crc32


def cp(s):
    return [ord(x) for x in s]


# ------------------------------------------------ contents

_TAB = []
for _i in range(256):
    _x = _i
    for _ in range(8):
        _x = (_x >> 1) ^ (0xEDB88320 if _x & 1 else 0)
    _TAB.append(_x)
_REV = {t >> 24: i for i, t in enumerate(_TAB)}


def forge(data, want):
    """data followed by four bytes which give it the checksum want"""
    cur = crc32(data) ^ 0xffffffff
    target = want ^ 0xffffffff
    idx = []
    for _ in range(4):
        i = _REV[target >> 24]
        idx.append(i)
        target = ((target ^ _TAB[i]) << 8) & 0xffffffff
    out = bytearray()
    for i in reversed(idx):
        b = (cur ^ i) & 0xff
        out.append(b)
        cur = (cur >> 8) ^ _TAB[(cur ^ b) & 0xff]
    res = data + bytes(out)
    assert crc32(res) == want
    return res


def contents(r, n):
    """n contents, all different; ones of the same size, with the same
    checksum, and differing in one byte near a read boundary included"""
    res, seen = [], set()

    def add(b, rec=None):
        if b not in seen and len(res) < n:
            seen.add(b)
            res.append(rec if rec is not None else b.hex())

    def big(size, fill, pts):
        b = bytearray([fill]) * size
        for p, v in pts:
            b[p] = v
        add(bytes(b), [size, fill, pts])
    K = 2 ** 14
    while len(res) < n:
        w = r.randrange(9)
        if w == 0:
            add(b"")
        elif w == 1:
            a = bytes(r.randrange(256) for _ in range(r.randrange(1, 9)))
            add(a)
            add(bytes([a[0] ^ 1]) + a[1:])
        elif w == 2:
            a = bytes(r.randrange(256) for _ in range(r.randrange(5, 12)))
            add(a)
            add(forge(bytes(r.randrange(256) for _ in range(len(a) - 4)), crc32(a)))
        elif w == 3:
            size = r.choice([K - 1, K, K + 1, 2 * K, 2 * K + 1])
            fill = r.randrange(4)
            big(size, fill, [])
            big(size, fill, [[size - 1, 9]])
        elif w == 4:
            size = r.choice([K, K + 1, 2 * K, 3 * K])
            at = r.choice([0, K - 1, size - 1] + ([K] if size > K else []))
            big(size, 0, [])
            big(size, 0, [[at, 7]])
        elif w == 5:
            # the same checksum and size, differing before and behind a boundary
            size = r.choice([K + 2, K + 4, 2 * K])
            base = bytes(size)
            alt = bytearray(size - 4)
            alt[r.choice([0, K - 8, size - 5])] ^= 1
            f = forge(bytes(alt), crc32(base))
            big(size, 0, [])
            big(size, 0, [[i, x] for i, x in enumerate(f) if x])
        elif w == 6:
            a = b"line one\nline two\n"
            add(a)
            add(a.replace(b"\n", b"\r\n"))
            add(a + b"\n")
        elif w == 7:
            size = r.choice([K, 2 * K])
            big(size, 0, [])
            big(size + 1, 0, [])        # a prefix of the other
        else:
            add(bytes(r.randrange(256) for _ in range(r.randrange(0, 40))))
    return res


# ------------------------------------------------ names

WORDS = ["a", "b", "ab", "META-INF", "MANIFEST.MF", "x.class", "X.class", "lib", "src", ".hidden", "sp ace", "ü", "日本", "a.b", "-", "a-b",
         "~", "x#y", "p%q", "&amp;", "CVS", "RCS", ".svn", "tags", "core", "__pycache__", "d", "..x", "c,v", "\U0001f600"]


def filename(r, depth=4):
    return "/".join(r.choice(WORDS) for _ in range(r.randrange(1, depth + 1)))


def free_of_conflicts(names):
    """no name is also a directory above another"""
    res = []
    for n in names:
        if all(not n.startswith(m + "/") and not m.startswith(n + "/") and n != m for m in res):
            res.append(n)
    return res


def pattern(r, name):
    """a pattern which often matches, now and then nearly"""
    out = ""
    i = 0
    while i < len(name):
        w = r.randrange(10)
        x = name[i]
        if w == 0:
            out += "?"
        elif w == 1:
            i += r.randrange(0, 4)
            out += "*"
            continue
        elif w == 2 and x not in "]![^-":
            out += "[" + x + r.choice("qz") + "]"
        elif w == 3 and x not in "]![^-":
            out += "[!" + r.choice("qz0") + "]"
        elif w == 4 and "b" <= x <= "y":
            out += "[" + chr(ord(x) - r.randrange(0, 2)) + "-" + chr(ord(x) + 1) + "]"
        elif x in "[":
            out += "[[]"
        else:
            out += x
        i += 1
    w = r.randrange(12)
    if w == 0:
        out += "*"
    elif w == 1:
        out = "*" + out
    elif w == 2:
        out = out[:-1]
    elif w == 3:
        out += "x"
    elif w == 4:
        out = out.upper()
    return out
