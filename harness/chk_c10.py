from . import common as c, clscases, diffcases as dc


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C10")
    cases = []
    scen = clscases.from_spec(chk, "MC_ClassDiff", scratch)
    for n, s in enumerate(scen):
        if s["lay"] not in ("plain", "padded") and not deep:
            continue
        opts = [[], ["pool"]] + [[w] for w in dc.WORDS] if n % 3 == 0 else [[]] + [dc.words(r) + ["pool"] for _ in range(3)]
        w = dc.words(r)
        cases.append(dc.case(s["l"], s["r"], opts, dirs=["lr", "rl"],
                             cli=[(r.choice(["lr", "rl"]), x, m, i % 3) for i, (x, m) in enumerate(
                                 [([], "quiet"), (w, "quiet"), (w, r.choice(dc.MODES)), (["pool"] + dc.words(r), r.choice(dc.MODES)),
                                  (dc.WORDS, r.choice(dc.MODES))])]))
    for i in range(3000 if deep else 200):
        a, b = dc.pair(r, r.choice([1, 1, 2, 3]), rich=.5, nf=r.choice([0, 1, 2]), nm=r.choice([1, 2]))
        ws = [dc.words(r) for _ in range(3)]
        cases.append(dc.case(a, b, [[]] + ws,
                             cli=[(r.choice(["lr", "rl"]), x, r.choice(dc.MODES), r.randrange(3)) for x in ws + [["pool"]]]))
    chk.conform("Trace_ClassDiff", "classdiff", cases, scratch, chunk=2500, par=6, timeout_case=60)
    chk.assumptions = ["the command is driven through its main() in process"]
