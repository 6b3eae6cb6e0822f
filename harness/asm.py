"""
A small class file assembler for scenario generation: turns a symbolic
class into bytes under a chosen constant pool layout. It never tells
what the code under test should answer.

constants: ("utf8", s) ("int", n) ("float", [4 bytes]) ("long", n)
 ("double", [8 bytes]) ("class", n) ("string", s) ("field"|"method"|
 "imethod", cls, name, desc) ("nt", n, d) ("handle", kind, const)
 ("mtype", d) ("indy"|"dynamic", bsm, n, d) ("module", n)
 ("package", n) ("moduleid", a, b)
"""
import random
import struct

TAG = {"utf8": 1, "int": 3, "float": 4, "long": 5, "double": 6, "class": 7,
       "string": 8, "field": 9, "method": 10, "imethod": 11, "nt": 12,
       "moduleid": 13, "handle": 15, "mtype": 16, "dynamic": 17, "indy": 18,
       "module": 19, "package": 20}


def mutf8(s):
    out = bytearray()
    for ch in s:
        n = ord(ch)
        units = [n] if n < 0x10000 else [0xD800 + ((n - 0x10000) >> 10), 0xDC00 + ((n - 0x10000) & 0x3FF)]
        for u in units:
            if 0 < u < 0x80:
                out.append(u)
            elif u < 0x800:
                out += bytes([0xC0 | (u >> 6), 0x80 | (u & 0x3F)])
            else:
                out += bytes([0xE0 | (u >> 12), 0x80 | ((u >> 6) & 0x3F), 0x80 | (u & 0x3F)])
    return bytes(out)


def tup(x):
    return tuple(tup(i) for i in x) if isinstance(x, (list, tuple)) else x


# operand shapes by opcode; opcodes not listed take none
SHAPE = {}
for _o in (0x19, 0x3a, 0x18, 0x39, 0x17, 0x38, 0x15, 0x36, 0x16, 0x37, 0xa9):
    SHAPE[_o] = "B"
SHAPE[0xbc] = "T"
SHAPE[0x10] = "b"
SHAPE[0x11] = "h"
SHAPE[0x12] = "c1"
for _o in (0x13, 0x14, 0xb2, 0xb3, 0xb4, 0xb5, 0xb6, 0xb7, 0xb8, 0xbb, 0xbd, 0xc0, 0xc1):
    SHAPE[_o] = "c2"
SHAPE[0xb9] = "c2n0"
SHAPE[0xba] = "c200"
SHAPE[0xc5] = "c2B"
for _o in list(range(0x99, 0xa9)) + [0xc6, 0xc7]:
    SHAPE[_o] = "h"
SHAPE[0xc8] = SHAPE[0xc9] = "i"
SHAPE[0x84] = "Bb"
SHAPE[0xaa] = "table"
SHAPE[0xab] = "lookup"
SHAPE[0xc4] = "wide"
OPCODES = list(range(0x00, 0xca))
WIDE_OK = [0x15, 0x16, 0x17, 0x18, 0x19, 0x36, 0x37, 0x38, 0x39, 0x3a, 0xa9, 0x84]


class Pool(object):
    def __init__(self, r=None, shuffle=False, dup=0.0, pad=0):
        self.r = r or random.Random(0)
        self.shuffle = shuffle
        self.dup = dup
        self.pad = pad
        self.order = []        # keys in first-use order
        self.seen = set()
        self.first = []        # keys that need one-byte indices
        self.index = None
        self.bump = None       # (k, n): the k-th attribute claims n bytes
        self.nested = 0

    def use(self, key, low=False):
        key = tup(key)
        if self.index is None:
            for sub in self.parts(key):
                self.use(sub)
            if key not in self.seen:
                self.seen.add(key)
                self.order.append(key)
            if low and key not in self.first:
                self.first.append(key)
            return 0
        c = self.index[key]
        if low:
            c = [i for i in c if i < 256] or c
        return c[0] if len(c) == 1 else self.r.choice(c)

    @staticmethod
    def parts(key):
        t = key[0]
        if t in ("class", "string", "mtype", "module", "package"):
            return [("utf8", key[1])]
        if t in ("field", "method", "imethod"):
            return [("class", key[1]), ("nt", key[2], key[3])]
        if t == "nt":
            return [("utf8", key[1]), ("utf8", key[2])]
        if t == "handle":
            return [key[2]]
        if t in ("indy", "dynamic"):
            return [("nt", key[2], key[3])]
        if t == "moduleid":
            return [("utf8", key[1]), ("utf8", key[2])]
        return []

    def freeze(self):
        keys = list(self.order)
        entries = list(keys)
        if self.dup:
            for k in keys:
                if self.r.random() < self.dup:
                    entries.append(k)
        for i in range(self.pad):
            entries.append(self.r.choice([("utf8", "pad%d" % i), ("int", i * 77777),
                                          ("long", i), ("double", (0, 0, 0, 0, 0, 0, 0, i & 255))]))
        if self.shuffle:
            self.r.shuffle(entries)
            low = [e for e in entries if e in self.first]
            entries = low + [e for e in entries if e not in self.first]
        else:
            entries = [e for e in entries if e in self.first] + \
                      [e for e in entries if e not in self.first]
        idx = {}
        n = 1
        for e in entries:
            idx.setdefault(e, []).append(n)
            n += 2 if e[0] in ("long", "double") else 1
        self.entries = entries
        self.count = n
        self.index = idx

    def emit(self):
        out = [struct.pack(">H", self.count)]
        for e in self.entries:
            t = e[0]
            out.append(bytes([TAG[t]]))
            if t == "utf8":
                b = mutf8(e[1])
                out.append(struct.pack(">H", len(b)) + b)
            elif t == "int":
                out.append(struct.pack(">i", e[1]))
            elif t == "long":
                out.append(struct.pack(">q", e[1]))
            elif t in ("float", "double"):
                out.append(bytes(e[1]))
            elif t == "handle":
                out.append(struct.pack(">BH", e[1], self.use(e[2])))
            elif t in ("indy", "dynamic"):
                out.append(struct.pack(">HH", e[1], self.use(("nt", e[2], e[3]))))
            else:
                out.append(struct.pack(">" + "H" * len(self.parts(e)),
                                       *[self.use(x) for x in self.parts(e)]))
        return b"".join(out)


def elem(v, P):
    t = v[0]
    if t == "e":
        return b"e" + struct.pack(">HH", P.use(("utf8", v[1])), P.use(("utf8", v[2])))
    if t in ("c", "s"):
        return t.encode() + struct.pack(">H", P.use(("utf8", v[1])))
    if t == "@":
        return b"@" + anno(v[1], P)
    if t == "[":
        return b"[" + struct.pack(">H", len(v[1])) + b"".join(elem(x, P) for x in v[1])
    return t.encode() + struct.pack(">H", P.use(v[1]))


def anno(a, P):
    return struct.pack(">HH", P.use(("utf8", a[0])), len(a[1])) + \
        b"".join(struct.pack(">H", P.use(("utf8", k))) + elem(v, P) for k, v in a[1])


def annos(l, P):
    return struct.pack(">H", len(l)) + b"".join(anno(a, P) for a in l)


def encode_code(ins, P):
    """ins: list of [op, operands...]"""
    out = bytearray()
    for i in ins:
        op = i[0]
        out.append(op)
        sh = SHAPE.get(op)
        if sh is None:
            continue
        if sh in ("B", "T"):
            out += struct.pack(">B", i[1])
        elif sh in ("b", "h", "i"):
            out += struct.pack(">" + sh, i[1])
        elif sh == "c1":
            out += struct.pack(">B", P.use(i[1], low=True))
        elif sh == "c2":
            out += struct.pack(">H", P.use(i[1]))
        elif sh == "c2n0":
            out += struct.pack(">HBB", P.use(i[1]), i[2], 0)
        elif sh == "c200":
            out += struct.pack(">HBB", P.use(i[1]), 0, 0)
        elif sh == "c2B":
            out += struct.pack(">HB", P.use(i[1]), i[2])
        elif sh == "Bb":
            out += struct.pack(">Bb", i[1], i[2])
        elif sh == "table":
            while len(out) % 4:
                out.append(0)
            out += struct.pack(">iii", i[1], i[2], i[3])
            for j in i[4]:
                out += struct.pack(">i", j)
        elif sh == "lookup":
            while len(out) % 4:
                out.append(0)
            out += struct.pack(">ii", i[1], len(i[2]))
            for a, b in i[2]:
                out += struct.pack(">ii", a, b)
        elif sh == "wide":
            out.append(i[1])
            out += struct.pack(">H", i[2])
            if i[1] == 0x84:
                out += struct.pack(">h", i[3])
    return bytes(out)


def encode_attr(a, P):
    k = a[0]
    name = k
    u = P.use
    if k == "ConstantValue":
        d = struct.pack(">H", u(a[1]))
    elif k == "Code":
        c = a[1]
        code = encode_code(c["ins"], P) if "ins" in c else bytes(c["raw"])
        d = struct.pack(">HHI", c["stack"], c["locals"], len(code)) + code
        d += struct.pack(">H", len(c.get("handlers", ())))
        for h in c.get("handlers", ()):
            d += struct.pack(">HHHH", h[0], h[1], h[2], u(("class", h[3])) if h[3] else 0)
        P.nested += 1
        d += encode_attrs(c.get("attrs", ()), P)
        P.nested -= 1
    elif k == "Exceptions":
        d = struct.pack(">H", len(a[1])) + b"".join(struct.pack(">H", u(("class", x))) for x in a[1])
    elif k in ("Signature", "SourceFile"):
        d = struct.pack(">H", u(("utf8", a[1])))
    elif k == "Module":
        # its name, flags, no version, and what it requires, exports, opens, uses and provides
        d = struct.pack(">HHH5H", u(("module", a[1])), a[2], 0, 0, 0, 0, 0, 0)
    elif k in ("Deprecated", "Synthetic"):
        d = b""
    elif k == "InnerClasses":
        d = struct.pack(">H", len(a[1]))
        for i, o, n, f in a[1]:
            d += struct.pack(">HHHH", u(("class", i)), u(("class", o)) if o else 0,
                             u(("utf8", n)) if n else 0, f)
    elif k == "EnclosingMethod":
        d = struct.pack(">HH", u(("class", a[1])), u(("nt", a[2][0], a[2][1])) if a[2] else 0)
    elif k == "LineNumberTable":
        d = struct.pack(">H", len(a[1])) + b"".join(struct.pack(">HH", *x) for x in a[1])
    elif k in ("LocalVariableTable", "LocalVariableTypeTable"):
        d = struct.pack(">H", len(a[1]))
        for s, l, n, t, i in a[1]:
            d += struct.pack(">HHHHH", s, l, u(("utf8", n)), u(("utf8", t)), i)
    elif k in ("RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations"):
        d = annos(a[1], P)
    elif k in ("RuntimeVisibleParameterAnnotations", "RuntimeInvisibleParameterAnnotations"):
        d = bytes([len(a[1])]) + b"".join(annos(x, P) for x in a[1])
    elif k == "SourceDebugExtension":
        d = mutf8(a[1])
    elif k == "AnnotationDefault":
        d = elem(a[1], P)
    elif k == "Raw":
        name = a[1]
        d = bytes(a[2])
    else:
        raise ValueError(k)
    n = len(d)
    if P.bump is not None and not P.nested:
        if P.bump[0] == 0:
            n = P.bump[1]
        P.bump = (P.bump[0] - 1, P.bump[1])
    return struct.pack(">HI", u(("utf8", name)), n) + d


def encode_attrs(attrs, P):
    return struct.pack(">H", len(attrs)) + b"".join(encode_attr(a, P) for a in attrs)


def encode_member(m, P):
    return struct.pack(">HHH", m["access"], P.use(("utf8", m["name"])),
                       P.use(("utf8", m["desc"]))) + encode_attrs(m.get("attrs", ()), P)


def body(c, P):
    out = [struct.pack(">HHH", c["access"], P.use(("class", c["this"])),
                       P.use(("class", c["super"])) if c.get("super") else 0)]
    out.append(struct.pack(">H", len(c.get("ifaces", ()))))
    for i in c.get("ifaces", ()):
        out.append(struct.pack(">H", P.use(("class", i))))
    for part in ("fields", "methods"):
        ms = c.get(part, ())
        out.append(struct.pack(">H", len(ms)))
        for m in ms:
            out.append(encode_member(m, P))
    out.append(encode_attrs(c.get("attrs", ()), P))
    return b"".join(out)


def assemble(c, pool=None, **layout):
    P = pool or Pool(**layout)
    for k in c.get("extra", ()):
        P.use(k)
    body(c, P)
    P.freeze()
    b = body(c, P)
    return b"\xca\xfe\xba\xbe" + struct.pack(">HH", c.get("minor", 0), c.get("major", 52)) + P.emit() + b


def overlong(c, n, layout_seed):
    """the class, and each variant in which one attribute of the class or
    of a member claims n bytes, as lists of changed bytes"""
    def one(bump):
        P = Pool(random.Random(layout_seed), shuffle=True)
        for k in c.get("extra", ()):
            P.use(k)
        body(c, P)
        P.freeze()
        P.bump = bump
        b = body(c, P)
        done = bump is not None and P.bump[0] >= 0
        return b"\xca\xfe\xba\xbe" + struct.pack(">HH", c.get("minor", 0), c.get("major", 52)) + P.emit() + b, done
    base, _ = one(None)
    muts = []
    k = 0
    while True:
        x, done = one((k, n))
        if done:
            return base, muts
        muts.append([[i, x[i]] for i in range(len(base)) if x[i] != base[i]])
        k += 1
