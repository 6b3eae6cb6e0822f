from . import common as c, gencls, clscases, diffcases as dc


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C08")
    cases = []
    quiet = [(), ("pool",)]
    for n in (200, 33000, 60000):
        for i in range(20 if deep else 2):
            a, b = dc.relaid(r, dc.long_class(r, n), reorder=i % 2 == 0)
            cases.append(dc.case(a, b, quiet))
    for s in clscases.from_spec(chk, "MC_ClassDiff", scratch):
        if not set(s["edits"]) - {"ifaceorder", "forder", "morder"}:
            cases.append(dc.case(s["l"], s["r"], quiet, cli=[("lr", ["pool"], "quiet", 0), ("rl", ["pool"], "json", 1)]))
    for n, b in clscases.samples(60000 if deep else 6000):
        cases.append(dc.case(b, b, quiet, dirs=["lr"], cli=[("lr", [], "quiet", 0)]))
    for i in range(4000 if deep else 350):
        k = gencls.klass(r, rich=r.choice([.5, 1, 2]))
        a, b = dc.relaid(r, k, reorder=r.random() < .4)
        if r.random() < .1:
            b = a
        cases.append(dc.case(a, b, quiet, again=i % 5 == 0,
                             cli=[("lr", ["pool"], r.choice(dc.MODES), i % 3), ("rl", [], r.choice(dc.MODES), 0)] if i % 6 == 0 else []))
    chk.conform("Trace_ClassDiff", "classdiff", cases, scratch, chunk=2500, par=6)
    chk.assumptions = ["a relaid class keeps the width of its ldc instructions"]
