from . import common as c, asm, gencls, clscases


def const_class(r, k):
    consts = [gencls.anyconst(r) for _ in range(k)]
    return {"access": 33, "this": "a/B", "super": "java/lang/Object", "extra": consts}


def fixed():
    """one class per kind of constant and boundary value"""
    g = gencls
    out = []
    vals = [("int", i) for i in g.INTS] + [("long", i) for i in g.LONGS] + \
        [("float", tuple(b)) for b in g.FBITS] + [("double", tuple(b)) for b in g.DBITS] + \
        [("utf8", t) for t in g.TEXTS] + [("string", t) for t in g.TEXTS] + \
        [("utf8", ch) for ch in "\x00\x01\x7f\x80\u07ff\u0800\uffff\U00010000\U0010ffff\ud7ff\ue000"] + \
        [("class", t) for t in ("A", "a/b/C", "[I", "[[La/B;", "[[[D")] + \
        [("mtype", "(I[J)La/B;"), ("module", "java.base"), ("package", "java/lang"),
         ("indy", 0, "run", "()V"), ("indy", 65535, "run", "()V"), ("dynamic", 3, "x", "I"),
         ("moduleid", "m", "1.2"), ("nt", "a", "I"), ("nt", "b", "()V"),
         ("field", "a/B", "x", "[[La/C;"), ("method", "a/B", "x", "(ILa/C;[J)V"),
         ("imethod", "a/B", "x", "()La/C;")] + \
        [("handle", k, ("field", "a/B", "f", "I")) for k in (1, 2, 3, 4)] + \
        [("handle", k, ("method", "a/B", "m", "()V")) for k in (5, 6, 7, 8)] + \
        [("handle", 9, ("imethod", "a/B", "m", "()V"))]
    for v in vals:
        for extra in ([v], [("long", 5), v, ("double", (0,) * 8), ("utf8", "after")]):
            out.append({"access": 33, "this": "a/B", "super": "java/lang/Object", "extra": extra})
    out.append({"access": 33, "this": "a/B", "super": "java/lang/Object",
                "extra": [("utf8", "x" * 65535)]})
    out.append({"access": 33, "this": "a/B", "super": "java/lang/Object",
                "extra": [("string", "\u4e2d\x00" * 200), ("utf8", "\U0001f600" * 300)]})
    return out


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C02")
    cases = []

    def add(data, tag=None):
        cases.append({"data": list(data), "src": r.choice(clscases.SRCS), "want": ["consts"], "tag": tag})
    for sc in clscases.from_spec(chk, "MC_ClassFile", scratch):
        add(sc["data"])
    for k in fixed():
        add(asm.assemble(k, r=r, shuffle=r.random() < .5))
    for n, b in clscases.samples(60000 if deep else 6000):
        add(b)
    for _ in range(6000 if deep else 500):
        add(asm.assemble(const_class(r, r.choice([1, 2, 3, 6, 12])), r=r, shuffle=True,
                         dup=r.choice([0, .3]), pad=r.choice([0, 3])))
    for _ in range(1500 if deep else 80):
        add(clscases.build(r))
    # more than 255 entries, so that indices need both bytes
    add(asm.assemble(const_class(r, 200), r=r, shuffle=True, dup=.5, pad=200))
    chk.conform("Trace_Class", "class", cases, scratch, chunk=4000, par=6)
    chk.assumptions = ["modified UTF-8 text is well formed (no lone surrogates)",
                       "NaN constants are compared as NaN, not by payload"]
