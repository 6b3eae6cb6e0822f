from . import common as c, asm, gencls, clscases


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C03")
    cases = []

    def add(data, want=("view",), src=None, **kw):
        cases.append(dict({"data": list(data), "src": src or r.choice(clscases.SRCS), "want": list(want)}, **kw))
    for sc in clscases.from_spec(chk, "MC_ClassFile", scratch):
        n = len(sc["data"])
        add(sc["data"], ["view", "prefixes"],
            cuts=list(range(n)) if deep else sorted(r.sample(range(n), 12)) + [n - 1, n - 2])
    for n, b in clscases.samples(60000 if deep else 8000):
        for src in clscases.SRCS if deep else ["bytes", "file"]:
            add(b, src=src)
        cuts = range(len(b)) if deep and len(b) < 4000 else sorted(r.sample(range(len(b)), 40))
        add(b, ["prefixes"], cuts=list(cuts))
    for i in range(4000 if deep else 400):
        add(clscases.build(r))
    # attributes and tables longer than the small numbers of ordinary classes
    big = {"access": 33, "this": "a/B", "super": "java/lang/Object"}
    for i, n in enumerate([255, 256, 300, 32767, 32768, 65535, 65536, 70000, 131073]):
        raw = [r.randrange(1, 128) for _ in range(40)] * (n // 40 + 1)
        rest = [gencls.raw_attr(r), ("SourceFile", "After.java")]
        add(asm.assemble(dict(big, attrs=[("Raw", "Long", raw[:n])] + rest)))
        add(asm.assemble(dict(big, attrs=[("SourceDebugExtension", "".join(map(chr, raw[:n])))] + rest)))
        if n < 65536:
            add(asm.assemble(dict(big, fields=[{"access": 2, "name": "f", "desc": "I",
                                                "attrs": [("Raw", "Long", raw[:n]), ("ConstantValue", ("int", i))]}])))
            add(asm.assemble(dict(big, methods=[{"access": 2, "name": "m", "desc": "()V", "attrs": [
                ("Code", {"stack": 65535, "locals": 32768, "ins": [[0]] * (n - 1) + [[0xb1]], "attrs": [("Raw", "X", [1, 2])],
                          "handlers": [(n // 2, n, n - 1, None), (0, n, 1, "x/Y")]})]}])))
    for n in (255, 256, 700) if not deep else (255, 256, 700, 32768, 40000):
        add(asm.assemble(dict(big, ifaces=["i/I%d" % i for i in range(n)])))
        add(asm.assemble(dict(big, methods=[{"access": 1, "name": "m", "desc": "()V", "attrs": [
            ("Exceptions", ["e/E%d" % (i % 300) for i in range(n)]),
            ("Code", {"stack": 1, "locals": 1, "ins": [[0xb1]], "handlers": [(i, i + 1, 2, None) for i in range(n)],
                      "attrs": [("LineNumberTable", [(i, 65535 - i) for i in range(n)]),
                                ("LocalVariableTable", [(i, 1, "v%d" % (i % 50), "I", i) for i in range(n)])]})]}])))
    for n in (255, 256, 300):
        add(asm.assemble(dict(big, fields=[{"access": 1, "name": "f%d" % i, "desc": "I"} for i in range(n)],
                              methods=[{"access": 1, "name": "m%d" % i, "desc": "()V"} for i in range(n)],
                              attrs=[("Raw", "A%d" % i, [i % 256]) for i in range(n)])))
    # all sources on the same class
    for i in range(40 if deep else 6):
        b = clscases.build(r)
        for src in clscases.SRCS:
            add(b, src=src)
    # every cut of some classes
    for i in range(60 if deep else 8):
        b = clscases.build(r, nf=1, nm=1)
        add(b, ["prefixes"], cuts=list(range(len(b))))
    # damage
    for i in range(80 if deep else 12):
        k = gencls.klass(r, nf=1, nm=1)
        b, muts = asm.overlong(k, r.choice([0x00ffffff, 0x7fffffff, 0xffffffff, 70000]), i)
        for p in range(4):
            muts.append([[p, (b[p] + r.choice([1, 2, 128])) % 256]])
        muts.append([[0, 0], [1, 0]])
        muts.append([])
        add(b, ["mutants"], mutants=muts)
    # trailing bytes after a class do not make it another class
    for i in range(20):
        add(clscases.build(r) + b"\x00\x01\xca\xfe", src="bytes")
    for magic in (b"\xca\xfe\xba\xbf", b"PK\x03\x04", b"", b"\xca\xfe", b"\xbe\xba\xfe\xca", b"\xca\xfe\xd0\x0d"):
        for src in ("bytes", "stream", "file", "magicstream", "magicbytes"):
            if len(magic) < 4 and src.startswith("magic"):
                continue
            add(magic + clscases.build(r)[4:] if len(magic) == 4 else magic, src=src)
    chk.conform("Trace_Class", "class", cases, scratch, chunk=4000, par=6)
    chk.assumptions = ["attributes of one element have distinct names",
                       "nested attributes of Code are decoded on demand; only class and member attributes are checked for overrun at load"]
