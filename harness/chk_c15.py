from . import common as c, clscases, archivecases as ac


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C15")
    cases = []
    scen = clscases.from_spec(chk, "MC_ArchiveDiff", scratch)
    bodies = [s["bodies"] for s in scen if s["kind"] == "bodies"][0]
    todo = [s for s in scen if s["kind"] == "dist"]
    jars = [s for s in scen if s["kind"] == "jar"]
    r.shuffle(todo)
    for s in todo[:3000 if deep else 300]:
        # the jar of the model's distribution
        j = r.choice(jars)
        jar = [{"b": [], "a": j[k], "jar": True, "how": ac.how(r)} for k in "lr"]
        n = len(bodies)
        same = r.random() < .3
        path = ac.cp("lib/a.jar")
        l = s["l"] + [{"p": path, "c": n + 1}]
        rr = s["r"] + [{"p": path, "c": n + 1 if same else n + 2}]
        used = {e["c"] for e in l + rr} | {e["c"] for x in jar for e in x["a"]}
        bs = ac.Bodies(r)
        bs.list = [{"b": b, "a": []} if i + 1 in used else {"b": [], "a": []} for i, b in enumerate(bodies)] + jar
        case = {"kind": "dist", "l": l, "r": rr, "bodies": bs.list, "stamp": r.choice([None, 1e9])}
        case["calls"] = ac.calls(r, case, bs, 2) + [ac.plain("quiet", shallow=True)]
        cases.append(case)
    for i in range(8000 if deep else 900):
        case, bs = ac.dist_case(r)
        case["calls"] = ac.calls(r, case, bs, r.choice([1, 2, 3])) + [ac.plain(r.choice(["api", "quiet"]), shallow=True)]
        cases.append(case)
    chk.conform("Trace_ArchiveDiff", "archivediff", cases, scratch, chunk=800, par=6, timeout_case=60)
    chk.assumptions = ["files named as classes, jars and manifests hold what their names say",
                       "attribute order within a manifest section counts as part of it"]
