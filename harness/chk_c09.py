from . import common as c, clscases, diffcases as dc


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C09")
    cases = []
    for s in clscases.from_spec(chk, "MC_ClassDiff", scratch):
        cases.append(dc.case(s["l"], s["r"], [()]))
    for i in range(5000 if deep else 450):
        a, b = dc.pair(r, r.choice([1, 1, 1, 2, 3, 6]), rich=r.choice([.5, 1, 1.5]), nf=r.choice([0, 1, 2, 3]), nm=r.choice([1, 1, 2, 3]))
        cases.append(dc.case(a, b, [()], again=i % 7 == 0))
    for i in range(8 if deep else 1):
        for a, b in dc.genmut.near_annotations(r) + dc.genmut.near_code(r) + dc.genmut.near_code(r):
            cases.append(dc.case(dc.asm.assemble(a, **dc.lay(r)), dc.asm.assemble(b, **dc.lay(r)), [()], dirs=["lr"]))
    for n in (200, 33000, 60000):
        for i in range(20 if deep else 3):
            k = dc.long_class(r, n)
            a, b = dc.relaid(r, k)
            cases.append(dc.case(a, b, [()]))
            cases.append(dc.case(a, dc.asm.assemble(dc.genmut.edited(r, k, r.choice([1, 2, 4])), **dc.lay(r)), [()]))
    sm = clscases.samples(20000 if deep else 4000)
    for i in range(200 if deep else 20):
        x, y = r.choice(sm)[1], r.choice(sm)[1]
        cases.append(dc.case(x, y, [()]))
    chk.conform("Trace_ClassDiff", "classdiff", cases, scratch, chunk=2500, par=6)
    chk.assumptions = ["parameter annotations, annotation defaults, bootstrap methods and inner class tables are outside the comparison's facets",
                       "a NaN constant is equal to any other NaN of its type"]
