from . import common as c, asm, gencls, clscases

GLOBS = ["*", "java.*", "java.lang.*", "*.B", "a.B", "a.?", "*(*", "*:void", "c.D*", "[ac].*", "*.[!x]*", "*$*", "zz*",
         "com.example.app.*", "*[[]]*", "x.*", "?*?", "*.get*", "*int*"]


def queries(r, n=4):
    out = [["provides", []], ["private", []], ["requires", []]]
    for _ in range(n):
        out.append([r.choice(["provides", "private", "requires"]), r.sample(GLOBS, r.choice([1, 1, 2, 3]))])
    return out


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C06")
    cases = []

    def add(data, n=4):
        cases.append({"data": list(data), "src": "bytes", "want": ["provreq"], "queries": queries(r, n)})
    for sc in clscases.from_spec(chk, "MC_ProvReq", scratch):
        add(sc["data"])
    for n, b in clscases.samples(60000 if deep else 12000):
        add(b, 8)
    for _ in range(4000 if deep else 400):
        add(clscases.build(r))
    # references through arrays of every depth and element
    for d in range(1, 9):
        for e in ("I", "Z", "V"[:0] + "J", "La/B;", "Lc/D;", "Ljava/lang/Object;", "L;"[:0] + "LX;"):
            k = {"access": 1, "this": "a/B", "super": "java/lang/Object",
                 "extra": [("class", "[" * d + e), ("method", "[" * d + e, "clone", "()Ljava/lang/Object;")]}
            add(asm.assemble(k), 2)
    # own members of every visibility, referenced or not
    for i in range(400 if deep else 60):
        ms = [{"access": r.choice([0, 1, 2, 4, 8, 9, 0x1001, 0x40, 0x1041, r.randrange(65536)]), "name": r.choice(["m", "g", "<init>"]), "desc": d}
              for d in r.sample(["()V", "(I)V", "()I", "([La/B;)La/B;"], r.randrange(0, 4))]
        fs = [{"access": r.choice([0, 1, 2, 4, 9]), "name": n, "desc": r.choice(["I", "[J", "La/B;"])} for n in r.sample("xyz", r.randrange(0, 3))]
        own = r.choice(["a/B", "B", "p/q/R$1"])
        ex = []
        for m in ms:
            if r.random() < .5:
                ex.append((r.choice(["method", "imethod"]), own, m["name"], m["desc"]))
        for f in fs:
            if r.random() < .5:
                ex.append(("field", own, f["name"], f["desc"]))
        ex += [gencls.anyconst(r) for _ in range(3)]
        if r.random() < .3:
            ex.append(("method", own, "inherited", "()V"))
        add(asm.assemble({"access": r.choice([1, r.randrange(65536), 0x601, 0x2601, 0x4031, 0]),
                          "major": r.choice([45, 49, 52, 61]), "this": own, "super": r.choice(["java/lang/Object", "a/S", None]),
                          "ifaces": r.sample(["I", "x/J", own], r.randrange(0, 3)), "fields": fs, "methods": ms, "extra": ex},
                         r=r, shuffle=True, dup=.3))
    chk.conform("Trace_Class", "class", cases, scratch, chunk=4000)
    chk.assumptions = ["ignore patterns are shell patterns over the dotted symbol"]
