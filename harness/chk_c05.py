from . import common as c, asm, gencls, clscases


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C05")
    cases = []

    def add(data, src="bytes"):
        cases.append({"data": list(data), "src": src, "want": ["names"]})
    descs = clscases.from_spec(chk, "MC_Descriptor", scratch)
    fs = ["".join(map(chr, d["d"])) for d in descs if d["k"] == "f"]
    ms = ["".join(map(chr, d["d"])) for d in descs if d["k"] == "m"]
    r.shuffle(ms)

    def holder(fds, mds, **kw):
        k = {"access": 33, "this": "a/B", "super": "java/lang/Object",
             "fields": [{"access": r.choice([0, 1, 2, 4, 8, 0x50]), "name": "f%d" % i, "desc": d} for i, d in enumerate(fds)],
             "methods": [{"access": r.choice([0, 1, 2, 4, 8, 0x41, 0x1041]), "name": r.choice(["m%d" % i, "same"]), "desc": d} for i, d in enumerate(mds)]}
        k.update(kw)
        return asm.assemble(k)
    for i in range(0, len(fs), 30):
        add(holder(fs[i:i + 30], []))
    for i in range(0, len(ms), 30):
        add(holder([], ms[i:i + 30]))
    # every flag bit and combination, on classes, fields and methods
    for b in range(16):
        for other in (0, 1, 0x200, 0x2000, 0x2200):
            acc = (1 << b) | other
            add(asm.assemble({"access": acc, "this": "a/B", "super": "java/lang/Object", "ifaces": ["I", "x/J"],
                              "fields": [{"access": acc, "name": "f", "desc": "I"}],
                              "methods": [{"access": acc, "name": "m", "desc": "(I)V"}]}))
    for i in range(200 if deep else 40):
        add(asm.assemble({"access": r.randrange(65536), "this": gencls.cname(r), "super": r.choice([None, "a/S"]),
                          "fields": [{"access": r.randrange(65536), "name": "f%d" % j, "desc": gencls.ftype(r)} for j in range(4)],
                          "methods": [{"access": r.randrange(65536), "name": "m%d" % j, "desc": gencls.mdesc(r)} for j in range(4)]}))
    # lookups among overloads, bridges, equal names of fields and methods
    pool = ["(I)V", "(I)I", "()V", "()I", "(Ljava/lang/Object;)V", "(La/C;)V", "([I)V", "(II)V", "(J)V", "(La/C;)Ljava/lang/Object;"]
    for i in range(600 if deep else 80):
        m = []
        for d in r.sample(pool, r.randrange(2, 8)):
            m.append({"access": r.choice([1, 1, 1, 2, 0x1041, 0x41, 9]), "name": r.choice(["get", "get", "compareTo", "<init>", "<clinit>"]), "desc": d,
                      "attrs": [("Exceptions", [gencls.cname(r)])] if r.random() < .3 else []})
        f = [{"access": 1, "name": r.choice(["get", "x"]), "desc": d} for d in r.sample(["I", "J", "La/C;", "[I"], r.randrange(0, 3))]
        add(asm.assemble({"access": 33, "this": "a/B", "super": "a/S", "fields": f, "methods": m}))
    for n, b in clscases.samples(60000 if deep else 8000):
        add(b)
    for _ in range(3000 if deep else 250):
        add(clscases.build(r, nm=3))
    # many parameters
    add(holder([], ["(" + "J" * 127 + ")V", "(" + "[[La/B;" * 100 + ")[[[I", "(" + "ID" * 80 + ")D"]))
    chk.conform("Trace_Class", "class", cases, scratch, chunk=4000, par=6)
    chk.assumptions = ["class and member names do not contain spaces"]
