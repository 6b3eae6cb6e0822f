from . import common as c, clscases, archivecases as ac


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C14")
    cases = []
    scen = clscases.from_spec(chk, "MC_ArchiveDiff", scratch)
    bodies = [s["bodies"] for s in scen if s["kind"] == "bodies"][0]
    todo = [s for s in scen if s["kind"] == "jar"]
    r.shuffle(todo)
    for s in todo[:6000 if deep else 500]:
        case, bs = ac.jar_case(r, s["l"], s["r"], bodies)
        used = sorted({e["c"] for k in "lr" for e in case[k] if e["c"]})
        case["bodies"] = [dict(b) if i + 1 in used else {"b": [], "a": []} for i, b in enumerate(case["bodies"])]
        case["calls"] = ac.calls(r, case, bs, 2)
        cases.append(case)
    for i in range(8000 if deep else 900):
        case, bs = ac.jar_case(r)
        case["calls"] = ac.calls(r, case, bs, r.choice([1, 2, 3]))
        cases.append(case)
    chk.conform("Trace_ArchiveDiff", "archivediff", cases, scratch, chunk=800, par=6, timeout_case=60)
    chk.assumptions = ["entries named as classes, manifests and signature files hold what their names say",
                       "attribute order within a manifest section counts as part of it"]
