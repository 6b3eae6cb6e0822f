from . import common as c, clscases, comparecases as cc


def how(r):
    return {"method": r.choice(["stored", "deflated", "deflated", "bzip2", "lzma"]), "prefix": r.random() < .1,
            "year": r.choice([1980, 2001, 2024]), "streamed": r.random() < .25,
            "comment": r.choice(["", "", "a comment"])}


def sides(r, nb, dup, exploded):
    """two archives sharing most of their names"""
    pool = list({cc.filename(r) for _ in range(r.randrange(1, 9))})
    if exploded or r.random() < .7:
        pool = cc.free_of_conflicts(pool)
    res = []
    for side in "lr":
        mine = [n for n in pool if r.random() < .8]
        ents = [{"n": cc.cp(n), "c": 1 + r.randrange(nb)} for n in mine]
        if r.random() < .5:
            ds = sorted({"/".join(n.split("/")[:k]) + "/" for n in mine for k in range(1, n.count("/") + 1)})
            ents += [{"n": cc.cp(x), "c": 0} for x in ds if r.random() < .7]
        if r.random() < .3:
            x = "empty%d/" % r.randrange(2)
            ents.append({"n": cc.cp(x), "c": 0})
        if dup and not exploded and ents and r.random() < .5:
            e = dict(r.choice(ents))
            if e["c"]:
                e["c"] = 1 + r.randrange(nb)
            ents.append(e)
        r.shuffle(ents)
        res.append(ents)
    if r.random() < .35:
        # mostly the same bytes
        by = {tuple(e["n"]): e["c"] for e in res[0]}
        for e in res[1]:
            if e["c"] and r.random() < .9:
                e["c"] = by.get(tuple(e["n"]), e["c"]) or e["c"]
    return res


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C12")
    cases = []
    scen = clscases.from_spec(chk, "MC_Compare", scratch)
    r.shuffle(scen)
    for s in scen[:6000 if deep else 500]:
        f = r.choice([("zip", "zip"), ("zip", "dir"), ("dir", "zip"), ("dir", "dir"), ("stream", "zip"), ("dir", "stream")])
        sd = [[{"n": cc.cp("/".join(x["p"]) + ("" if x["c"] else "/")), "c": x["c"]} for x in s[k]] for k in "lr"]
        for x in sd:
            r.shuffle(x)
        b = cc.contents(r, 3)
        cases.append({"kind": "archive", "l": sd[0], "r": sd[1], "lf": f[0], "rf": f[1], "bodies": b, "how_l": how(r), "how_r": how(r),
                      "stamp": r.choice([None, 1e9]), "entries": r.random() < .3, "chunk": r.choice([1, 3, 16384]), "none": []})
    for i in range(9000 if deep else 900):
        f = r.choice([("zip", "zip"), ("zip", "zip"), ("zip", "dir"), ("dir", "zip"), ("dir", "dir"), ("stream", "zip"), ("dir", "stream"), ("stream", "stream")])
        b = cc.contents(r, r.choice([2, 2, 3, 4]))
        l, rr = sides(r, len(b), r.random() < .2, "dir" in f)
        cases.append({"kind": "archive", "l": l, "r": rr, "lf": f[0], "rf": f[1], "bodies": b, "how_l": how(r), "how_r": how(r),
                      "stamp": r.choice([None, 1e9]), "entries": r.random() < .5, "chunk": r.choice([1, 7, 1000, 16384, 40000]) if sum(
                          (x[0] if isinstance(x, list) else 0) for x in b) == 0 else r.choice([1000, 16384, 40000]),
                      "none": r.sample(["added", "removed", "altered", "same"], r.choice([0, 0, 1]))})
    for i in range(800 if deep else 120):
        b = cc.contents(r, 2)
        l, _ = sides(r, 2, False, False)
        what = r.choice(["zip", "zip", "cut", "other"])
        case = {"kind": "stream", "data": what, "l": l, "bodies": b, "how_l": how(r), "at": [0, 1, r.randrange(0, 400)], "zip": what == "zip",
                "opens": "zip" if what == "zip" else "refused"}
        if what == "cut":
            # the end of central directory record is at the very end
            case["how_l"]["comment"] = ""
            case["cut"] = r.randrange(1, 22)
        if what == "other":
            case["hex"] = r.choice([b"", b"P", b"PK\x03\x04", b"PK\x05\x06", b"plain text\n" * r.randrange(1, 5), b"PK\x03\x04" + bytes(40),
                                    bytes.fromhex("cafebabe00000034")]).hex()
        cases.append(case)
    chk.conform("Trace_Compare", "compare", cases, scratch, chunk=1500)
    chk.assumptions = ["archives are read with the zipfile module of the standard library", "exploded directories hold regular files and directories only"]
