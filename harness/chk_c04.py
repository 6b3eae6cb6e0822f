from . import common as c, asm, gencls, clscases


def holder(codes, r):
    ms = []
    for k, cd in enumerate(codes):
        a = {"stack": 2, "locals": 3, "attrs": [], "handlers": []}
        a.update(cd)
        ms.append({"access": 1, "name": "m%d" % k, "desc": "()V", "attrs": [("Code", a)]})
    return {"access": 33, "this": "a/B", "super": "java/lang/Object", "methods": ms,
            "extra": [("class", "K"), ("field", "K", "f", "I"), ("long", 7), ("string", "s")]}


def boundary(r):
    """every opcode with each boundary operand, behind 0 to 3 nops"""
    out = []
    for op in asm.OPCODES:
        reps = 1 if op not in asm.SHAPE else 6
        for i in range(reps):
            out.append({"ins": [[0]] * (i % 4) + [gencls.operand(r, op, 1, 0)] + [[177]]})
    for op in (0xaa, 0xab):
        for pad in range(8):
            for _ in range(6):
                out.append({"ins": [[0]] * pad + [gencls.operand(r, op, 1, 0)] +
                            [[0]] * r.randrange(3) + [gencls.operand(r, r.choice([0xaa, 0xab]), 1, 0)] + [[177]]})
    for w in asm.WIDE_OK:
        for v in (0, 1, 255, 256, 65535):
            out.append({"ins": [[0xc4, w, v] + ([r.choice([-1, 1, 32767, -32768])] if w == 0x84 else []), [0]]})
    for v in range(-128, 128):
        out.append({"ins": [[0x10, v], [0x84, v & 255, v]]})
    for v in (-32768, -129, -128, -1, 0, 1, 127, 128, 255, 256, 32767):
        out.append({"ins": [[0x11, v], [0xa7, v], [0x99, v], [0xc6, v]]})
    # a table larger than a byte can count
    out.append({"ins": [[0xaa, 0, 0, 299, list(range(300))], [177]]})
    out.append({"ins": [[0xab, 0, [[i, i] for i in range(300)]], [177]]})
    out.append({"ins": [[0]] * 700 + [[0xaa, 3, 1, 2, [5, 6]], [177]]})
    return out


def lines(r, n):
    k = r.choice([0, 1, 2, 3, 5])
    offs = sorted(r.sample(range(0, max(n, k) + 4), k))
    if offs and r.random() < .6:
        offs[0] = 0
    if r.random() < .3:
        r.shuffle(offs)
    return [("LineNumberTable", [(o, r.choice([1, 2, 3, 10, 300])) for o in offs])]


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C04")
    cases = []

    def add(data, want=("disasm",), src="bytes"):
        cases.append({"data": list(data), "src": src, "want": list(want)})
    codes = [{"raw": s["code"]} for s in clscases.from_spec(chk, "MC_Disasm", scratch)] + boundary(r)
    for _ in range(20000 if deep else 1200):
        ins = gencls.instructions(r, n=r.choice([1, 2, 3, 5, 8, 14, 30]))
        codes.append({"ins": ins, "attrs": lines(r, 3 * len(ins))})
    for i in range(0, len(codes), 24):
        P = asm.Pool(r)
        for x in gencls.INTS:
            pass
        add(asm.assemble(holder(codes[i:i + 24], r), pool=P))
    for n, b in clscases.samples(60000 if deep else 12000):
        add(b)
    for _ in range(1500 if deep else 150):
        add(clscases.build(r, nm=3), want=["disasm", "view"])
    chk.cov["code_arrays"] = len(codes)
    chk.conform("Trace_Class", "class", cases, scratch, chunk=3000, par=6)
    chk.assumptions = ["no two entries of a line table start at the same offset"]
