"""random symbolic classes"""
from . import asm

PRIMS = "BCDFIJSZ"
PKG = ["java/lang", "com/example/app", "a", "x/y", ""]
NAMES = ["Foo", "Bar", "Baz$Inner", "Outer$1", "Qux", "L", "\u00e9t\u00e9", "V", "Z9_"]
IDENT = ["a", "b", "value", "get", "set", "run", "x1", "na\u00efve", "$s", "L", "V", "toString", "I", "long_name_here"]
TEXTS = ["", "hello", "a b", "\x00", "q\x00z", "\u00e9\u4e2d", "\U0001f600", "x\U0001f600y\x00", "100%", "tab\there", "quote'\"", "{}", "%s %d",
         "'", '"', "'x'", '"x"', 'say "x"', "it's", "x'", "'\"both\"'", "\\", "a\\", "\\n", "\\x41\\u0041", "u'x'", "unused",
         " lead", "trail ", "\n", "\r\nx", "\u2028", "\ud7ff", "\u00ad", "<b>&amp;</b>"]


def cname(r):
    p = r.choice(PKG)
    n = r.choice(NAMES)
    return (p + "/" + n) if p else n


def ftype(r, arr=0.3):
    d = ""
    while r.random() < arr and len(d) < 4:
        d += "["
    if r.random() < .5:
        return d + r.choice(PRIMS)
    return d + "L" + cname(r) + ";"


def mdesc(r):
    n = r.choice([0, 0, 1, 1, 2, 3, 5])
    return "(" + "".join(ftype(r) for _ in range(n)) + ")" + (ftype(r) if r.random() < .6 else "V")


FBITS = [[0, 0, 0, 0], [0x80, 0, 0, 0], [0x3f, 0x80, 0, 0], [0x7f, 0x80, 0, 0], [0xff, 0x80, 0, 0],
         [0x7f, 0xc0, 0, 0], [0, 0, 0, 1], [0x7f, 0x7f, 0xff, 0xff], [0x40, 0x49, 0x0f, 0xdb]]
DBITS = [[0] * 8, [0x80] + [0] * 7, [0x3f, 0xf0] + [0] * 6, [0x7f, 0xf0] + [0] * 6, [0xff, 0xf0] + [0] * 6,
         [0x7f, 0xf8] + [0] * 6, [0] * 7 + [1], [0x7f, 0xef] + [255] * 6, [0x40, 9, 0x21, 0xfb, 0x54, 0x44, 0x2d, 0x18]]
INTS = [0, 1, -1, 127, 128, -128, 255, 256, 32767, -32768, 65535, 65536, 2 ** 31 - 1, -2 ** 31, 123456789]
LONGS = INTS + [2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 63 - 1, -2 ** 63, -2 ** 40]


def lit(r, kinds="ifldsc", nan=True):
    k = r.choice(kinds)
    if k == "i":
        return ("int", r.choice(INTS))
    if k == "f":
        return ("float", r.choice(FBITS if nan else FBITS[2:5] + FBITS[6:]))
    if k == "l":
        return ("long", r.choice(LONGS))
    if k == "d":
        return ("double", r.choice(DBITS if nan else DBITS[2:5] + DBITS[6:]))
    if k == "s":
        return ("string", r.choice(TEXTS))
    return ("class", cname(r))


def anyconst(r, depth=0):
    k = r.choice(list(asm.TAG))
    if k in ("int", "float", "long", "double", "string"):
        return lit(r, {"int": "i", "float": "f", "long": "l", "double": "d", "string": "s"}[k])
    if k == "utf8":
        return ("utf8", r.choice(TEXTS))
    if k == "class":
        return ("class", r.choice([cname(r), "[" + ftype(r)]))
    if k == "field":
        return ("field", cname(r), r.choice(IDENT), ftype(r))
    if k in ("method", "imethod"):
        return (k, r.choice([cname(r), cname(r), "[" + ftype(r)]), r.choice(IDENT + ["<init>"]), mdesc(r))
    if k == "nt":
        return ("nt", r.choice(IDENT), r.choice([ftype(r), mdesc(r)]))
    if k == "handle":
        kind = r.randrange(1, 10)
        if kind <= 4:
            ref = ("field", cname(r), r.choice(IDENT), ftype(r))
        else:
            ref = ("imethod" if kind == 9 else "method", cname(r), r.choice(IDENT), mdesc(r))
        return ("handle", kind, ref)
    if k == "mtype":
        return ("mtype", mdesc(r))
    if k == "indy":
        return (k, r.randrange(0, 5), r.choice(IDENT), mdesc(r))
    if k == "dynamic":
        return (k, r.randrange(0, 5), r.choice(IDENT), ftype(r))
    if k == "moduleid":
        return (k, "mod", "1.0")
    if k == "module":
        return (k, "java.base")
    return ("package", "java/lang")


def element(r, depth=0):
    k = r.choice("BCDFIJSZsec@[" if depth < 2 else "BIJDFsec")
    if k in "BCISZ":
        return (k, ("int", r.choice([0, 1, 65, 127])))
    if k == "D":
        return (k, ("double", r.choice(DBITS[2:5])))
    if k == "F":
        return (k, ("float", r.choice(FBITS[2:5])))
    if k == "J":
        return (k, ("long", r.choice(LONGS)))
    if k == "s":
        return (k, r.choice(TEXTS))
    if k == "e":
        return (k, "L" + cname(r) + ";", r.choice(IDENT))
    if k == "c":
        return (k, ftype(r))
    if k == "@":
        return (k, annotation(r, depth + 1))
    return (k, [element(r, depth + 1) for _ in range(r.choice([0, 1, 2, 3]))])


def annotation(r, depth=0):
    keys = r.sample(IDENT, r.choice([0, 1, 1, 2, 3]))
    return ("L" + cname(r) + ";", [(k, element(r, depth)) for k in keys])


def annolist(r, n=3):
    return [annotation(r) for _ in range(r.randrange(1, n + 1))]


def operand(r, op, n, pc, nan=True):
    sh = asm.SHAPE.get(op)
    if sh is None:
        return [op]
    if sh == "B":
        return [op, r.choice([0, 1, 4, 127, 128, 200, 255])]
    if sh == "T":
        return [op, r.choice(range(4, 12))]
    if sh == "b":
        return [op, r.choice([0, 1, -1, 127, -128, 100, -100])]
    if sh == "h":
        return [op, r.choice([0, 3, -3, 127, 128, 255, 256, 32767, -32768, -1])]
    if sh == "i":
        return [op, r.choice([0, 5, -5, 65536, 2 ** 31 - 1, -2 ** 31, -70000])]
    if sh == "Bb":
        return [op, r.choice([0, 5, 255]), r.choice([1, -1, 127, -128])]
    if sh == "c1" or op == 0x13:
        return [op, r.choice([lit(r, "ifsc", nan), ("string", "k%d" % r.randrange(3))])]
    if op == 0x14:
        return [op, lit(r, "ld", nan)]
    if sh == "c2":
        if op in (0xb2, 0xb3, 0xb4, 0xb5):
            return [op, ("field", cname(r), r.choice(IDENT), ftype(r))]
        if op in (0xb6, 0xb7, 0xb8):
            return [op, ("method", r.choice([cname(r), "[" + ftype(r)]) if op == 0xb6 else cname(r),
                         r.choice(IDENT), mdesc(r))]
        return [op, ("class", r.choice([cname(r), "[" + ftype(r)]) if op != 0xbb else cname(r))]
    if sh == "c2n0":
        return [op, ("imethod", cname(r), r.choice(IDENT), mdesc(r)), r.randrange(1, 5)]
    if sh == "c200":
        return [op, ("indy", r.randrange(3), r.choice(IDENT), mdesc(r))]
    if sh == "c2B":
        return [op, ("class", "[[" + ftype(r)), r.randrange(1, 3)]
    if sh == "table":
        lo = r.choice([0, -1, 5, -2 ** 31, 2 ** 31 - 3, 100])
        k = r.choice([1, 1, 2, 3])
        return [op, r.choice([0, -8, 70000]), lo, lo + k - 1, [r.choice([0, 4, -4, 99999]) for _ in range(k)]]
    if sh == "lookup":
        ks = sorted(r.sample([-2 ** 31, -5, 0, 1, 7, 1000, 2 ** 31 - 1], r.choice([0, 1, 2, 3])))
        return [op, r.choice([0, 12, -70000]), [[k, r.choice([0, 4, -4])] for k in ks]]
    if sh == "wide":
        w = r.choice(asm.WIDE_OK)
        return [op, w, r.choice([0, 255, 256, 65535])] + ([r.choice([0, 1, -1, 32767, -32768])] if w == 0x84 else [])
    raise ValueError(op)


def instructions(r, n=None, ops=None, nan=True):
    n = n or r.choice([1, 1, 2, 3, 4, 6, 9, 15])
    ops = ops or asm.OPCODES
    out = []
    for _ in range(n):
        op = r.choice(ops if r.random() < .6 else
                      [o for o in (0xaa, 0xab, 0xc4, 0x84, 0x10, 0x11, 0x12, 0xc5, 0xb9, 0xba, 0xc8, 0xb6, 0xb2, 0xa7) if o in ops] or ops)
        out.append(operand(r, op, n, 0, nan))
    return out


def code(r, ops=None, nan=True, lines=True):
    ins = instructions(r, ops=ops, nan=nan)
    c = {"stack": r.choice([0, 1, 2, 255, 300]), "locals": r.choice([0, 1, 5, 65535]), "ins": ins,
         "handlers": [], "attrs": []}
    n = r.choice([0, 0, 1, 2, 3])
    for _ in range(n):
        a = r.randrange(0, 10)
        c["handlers"].append((a, a + r.randrange(1, 10), r.randrange(0, 20), r.choice([None, cname(r)])))
    pool = []
    if lines:
        if r.random() < .7:
            k = r.choice([0, 1, 2, 3, 6])
            offs = sorted(r.sample(range(0, 30), k))
            if offs and r.random() < .7:
                offs[0] = 0
            if r.random() < .25:
                # the entries may be in any order
                r.shuffle(offs)
            pool.append(("LineNumberTable", [(o, r.choice([1, 2, 10, 300, 65535])) for o in offs]))
        if r.random() < .4:
            pool.append(("LocalVariableTable", [(r.randrange(9), r.randrange(9), r.choice(IDENT), ftype(r), r.randrange(5))
                                                for _ in range(r.randrange(0, 3))]))
        if r.random() < .3:
            pool.append(("LocalVariableTypeTable", [(0, 3, "x", "TT;", 1)]))
    if r.random() < .2:
        pool.append(("Raw", "StackMapTable", [0, 0]))
    if r.random() < .1:
        pool.append(("Raw", "com.x.Unknown", [r.randrange(256) for _ in range(r.randrange(6))]))
    r.shuffle(pool)
    c["attrs"] = pool
    return c


def raw_attr(r):
    return ("Raw", r.choice(["X", "org.foo.Attr", "Custom\u00e9"]), [r.randrange(256) for _ in range(r.choice([0, 1, 5, 40]))])


def member_attrs(r, field, abstract=False, nan=True, rich=1.0, ops=None):
    out = []

    def w(p):
        return r.random() < p * rich
    if field:
        if w(.4):
            out.append(("ConstantValue", lit(r, "ifslds", nan)))
    else:
        if not abstract:
            out.append(("Code", code(r, nan=nan, ops=ops)))
        if w(.3):
            out.append(("Exceptions", [cname(r) for _ in range(r.choice([0, 1, 2, 3]))]))
        if w(.2):
            out.append(("AnnotationDefault", element(r)))
        if w(.15):
            out.append(("RuntimeVisibleParameterAnnotations", [annolist(r) if r.random() < .6 else [] for _ in range(r.randrange(0, 4))]))
        if w(.15):
            out.append(("RuntimeInvisibleParameterAnnotations", [annolist(r) if r.random() < .6 else [] for _ in range(r.randrange(0, 3))]))
    if w(.25):
        out.append(("Signature", r.choice(["TT;", "Ljava/util/List<TT;>;", "<T:Ljava/lang/Object;>(TT;)V"])))
    if w(.2):
        out.append(("Deprecated",))
    if w(.2):
        out.append(("Synthetic",))
    if w(.1):
        out.append(("Module", r.choice(["java.base", "m", "a.b.\u00e9"]), r.choice([0, 0x20, 0x1000])))
    if w(.25):
        out.append(("RuntimeVisibleAnnotations", annolist(r)))
    if w(.15):
        out.append(("RuntimeInvisibleAnnotations", annolist(r)))
    if w(.15):
        out.append(raw_attr(r))
    r.shuffle(out)
    return out


def klass(r, nf=None, nm=None, nan=True, rich=1.0, dupnames=True, ops=None):
    nf = r.choice([0, 1, 2, 3]) if nf is None else nf
    nm = r.choice([0, 1, 2, 3]) if nm is None else nm
    access = sum(b for b in (1, 0x10, 0x20, 0x200, 0x400, 0x1000, 0x2000, 0x4000) if r.random() < .3)
    c = {"minor": r.choice([0, 0, 3, 4, 65535]), "major": r.choice([45, 46, 49, 50, 51, 52, 52, 53, 61]),
         "access": access, "this": cname(r), "super": r.choice(["java/lang/Object", cname(r), None]),
         "ifaces": [cname(r) for _ in range(r.choice([0, 0, 1, 2, 3]))], "fields": [], "methods": [], "attrs": [],
         "extra": []}
    seen = set()
    for _ in range(nf):
        n = r.choice(IDENT)
        d = ftype(r)
        if (n, d) in seen or (not dupnames and n in [x[0] for x in seen]):
            continue
        seen.add((n, d))
        c["fields"].append({"access": sum(b for b in (1, 2, 4, 8, 0x10, 0x40, 0x80, 0x1000, 0x4000) if r.random() < .25),
                            "name": n, "desc": d, "attrs": member_attrs(r, True, nan=nan, rich=rich)})
    seen = set()
    for _ in range(nm):
        n = r.choice(IDENT + ["<init>", "<clinit>"])
        d = mdesc(r)
        if n == "<clinit>":
            d = "()V"
        elif n == "<init>":
            d = d[:d.index(")") + 1] + "V"
        key = (n, d) if dupnames else (n, d[:d.index(")")])
        if key in seen:
            continue
        seen.add(key)
        ab = r.random() < .2
        acc = sum(b for b in (1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0x100, 0x800, 0x1000) if r.random() < .25)
        if not dupnames:
            acc &= ~0x40
        c["methods"].append({"access": acc | (0x400 if ab else 0), "name": n, "desc": d,
                             "attrs": member_attrs(r, False, abstract=ab, nan=nan, rich=rich, ops=ops)})

    def w(p):
        return r.random() < p * rich
    a = c["attrs"]
    if w(.5):
        a.append(("SourceFile", r.choice(["Foo.java", "B\u00e9.java"])))
    if w(.15):
        a.append(("Module", r.choice(["java.base", "m", "a.b.\u00e9"]), r.choice([0, 0x20, 0x1000])))
    if w(.2):
        a.append(("SourceDebugExtension", r.choice(TEXTS)))
    if w(.3):
        a.append(("Signature", "<T:Ljava/lang/Object;>Ljava/lang/Object;"))
    if w(.2):
        a.append(("Deprecated",))
    if w(.3):
        a.append(("InnerClasses", [(cname(r), r.choice([None, cname(r)]), r.choice([None, "Inner"]), r.choice([0, 1, 8, 25]))
                                   for _ in range(r.randrange(0, 3))]))
    if w(.2):
        a.append(("EnclosingMethod", cname(r), r.choice([None, (r.choice(IDENT), mdesc(r))])))
    if w(.3):
        a.append(("RuntimeVisibleAnnotations", annolist(r)))
    if w(.2):
        a.append(("RuntimeInvisibleAnnotations", annolist(r)))
    if w(.3):
        a.append(raw_attr(r))
    r.shuffle(a)
    for _ in range(r.choice([0, 0, 1, 3])):
        c["extra"].append(anyconst(r))
    return c
