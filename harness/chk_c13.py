from . import common as c, clscases, comparecases as cc


def tree(r, nb, names):
    res = []
    for n in cc.free_of_conflicts(names):
        res.append({"p": cc.cp(n), "c": 1 + r.randrange(nb)})
    for _ in range(r.choice([0, 0, 1, 2])):
        d = cc.filename(r, 3)
        if len(cc.free_of_conflicts([e for e in names] + [d])) == len(cc.free_of_conflicts(names)) + 1:
            res.append({"p": cc.cp(d), "c": 0})
    r.shuffle(res)
    return res


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C13")
    cases = []

    def more(case):
        case.update(stamp=r.choice([None, 1e9, 1e9]), rel=r.random() < .3, tail=r.choice(["", "", "/"]),
                    none=r.sample(["added", "removed", "altered", "same"], r.choice([0, 0, 1])))
        cases.append(case)
    scen = clscases.from_spec(chk, "MC_Compare", scratch)
    r.shuffle(scen)
    for s in scen[:8000 if deep else 700]:
        sd = [[{"p": cc.cp("/".join(x["p"])), "c": x["c"]} for x in s[k]] for k in "lr"]
        more({"kind": "tree", "l": sd[0], "r": sd[1], "bodies": cc.contents(r, 3), "copy": False})
    for i in range(9000 if deep else 900):
        b = cc.contents(r, r.choice([1, 2, 2, 3]))
        pool = list({cc.filename(r, 5) for _ in range(r.randrange(1, 10))})
        copy = r.random() < .4
        if copy:
            pool = cc.free_of_conflicts(pool)
        sd = []
        for _ in "lr":
            mine = [n for n in pool if r.random() < .8]
            r.shuffle(mine)
            sd.append(tree(r, len(b), mine))
        if copy:
            # nothing in the way at the destination
            lf = {tuple(e["p"]): e["c"] for e in sd[0]}
            keep = []
            for e in sd[1]:
                t = "".join(map(chr, e["p"]))
                bad = any(("".join(map(chr, p)) == t and (q == 0) != (e["c"] == 0)) or
                          (q and t.startswith("".join(map(chr, p)) + "/")) or
                          (e["c"] and "".join(map(chr, p)).startswith(t + "/")) for p, q in lf.items())
                if not bad:
                    keep.append(e)
            sd[1] = keep
            if r.random() < .4:
                sd[1] = []
        elif r.random() < .4:
            by = {tuple(e["p"]): e["c"] for e in sd[0]}
            for e in sd[1]:
                if e["c"] and r.random() < .8:
                    e["c"] = by.get(tuple(e["p"]), e["c"]) or e["c"]
        more({"kind": "tree", "l": sd[0], "r": sd[1], "bodies": b, "copy": copy})
    for i in range(4000 if deep else 500):
        n = cc.filename(r)
        ps = [cc.pattern(r, n if r.random() < .8 else cc.filename(r)) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        if r.random() < .1:
            ps.append("")
        cases.append({"kind": "match", "name": cc.cp(n), "pats": [cc.cp(p) for p in ps]})
    chk.conform("Trace_Compare", "compare", cases, scratch, chunk=2500)
    chk.assumptions = ["directory trees hold regular files and directories only (no links or devices)"]
