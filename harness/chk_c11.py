from . import common as c, clscases


def tree(r, depth=0):
    k = r.choice(["leaf", "leaf", "leaf", "add", "rem", "super", "super"]) if depth else "super"
    if depth > 3 and k == "super":
        k = "leaf"
    n = {"k": k, "label": r.choice(["Alpha", "Beta", "Gamma", "Some label"]), "l": "", "r": "", "entry": r.choice(["", "", "a/b.class", "x y"]),
         "mask": r.choice([[], [], ["p"], ["q"], ["p", "q"]]), "kids": []}
    if k == "leaf":
        n["l"], n["r"] = r.choice("ab"), r.choice("ab")
    if k == "super":
        n["kids"] = [tree(r, depth + 1) for _ in range(r.choice([0, 1, 2, 3, 4]))]
        n["mask"] = []
    return n


def paths(n, p=()):
    yield list(p)
    for i, k in enumerate(n["kids"]):
        for x in paths(k, p + (i + 1,)):
            yield x


def opt(r):
    return {"ign": r.choice([[], ["p"], ["q"], ["p", "q"]]), "si": r.random() < .5, "su": r.random() < .5}


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C11")
    cases = []
    scen = clscases.from_spec(chk, "MC_ChangeTree", scratch)
    r.shuffle(scen)
    for s in scen if deep else scen[:1200]:
        o = s["ops"][-1][2] if len(s["ops"][-1]) == 3 else r.choice([x[2] for x in s["ops"] if len(x) == 3])
        cases.append({"t": s["t"], "ops": s["ops"], "o": o})
    for i in range(12000 if deep else 900):
        t = tree(r)
        ps = list(paths(t))
        ops = []
        if r.random() < .4:
            ops.append([r.choice(["collect", "simplify"]), r.choice(ps)])
        ops.append(["check", []])
        o = opt(r)
        for _ in range(r.randrange(1, 7)):
            k = r.choice(["check", "collect", "simplify", "squash", "squash", "replace"])
            p = r.choice(ps)
            if k in ("squash", "replace", "simplify"):
                ops.append([k, p, opt(r) if r.random() < .3 else o])
            else:
                ops.append([k, p])
        ops = [op + [opt(r)] if op[0] == "simplify" and len(op) == 2 else op for op in ops]
        cases.append({"t": t, "ops": ops, "o": o})
    for i in range(3000 if deep else 300):
        objs = [[r.choice(["A", "B", "C", "D", "B2"]), j] for j in range(r.randrange(0, 9))]
        types = r.sample(["A", "B", "C", "D", "B2", "E"], r.randrange(0, 5))
        cases.append({"group": {"objs": objs, "types": types, "how": i % 2}})
    chk.conform("Trace_ChangeTree", "changetree", cases, scratch, chunk=6000)
    chk.assumptions = ["squashing is asked for with the options in force, and for verdicts already reached"]
