from . import common as c


def rand_fmt(r):
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.choice("BbHhIiQqsx")
        out.append([k, r.choice([1, 2, 5, 9])] if k in "sx" else [k])
    return out


def rand_case(r):
    n = r.choice([0, 1, 2, 3, 5, 8, 13, 30, 60, 300])
    mode = r.random()
    if mode < 0.5:
        data = [r.randrange(256) for _ in range(n)]
    else:
        data = [r.choice([0, 0, 0, 1, 2, 127, 128, 255]) for _ in range(n)]
    ops = []
    for _ in range(r.randrange(1, 9)):
        k = r.choice(["read", "read", "unpack", "struct", "array", "sarray", "objects", "unpack", "close", "exit", "within", "within"]
                     if r.random() < .3 else
                     ["read", "unpack", "struct", "array", "sarray", "objects"])
        if k in ("read", "within"):
            ops.append([k, r.choice([0, 1, 2, 3, 4, 7, n, n + 1])])
        elif k in ("close", "exit"):
            ops.append([k])
        else:
            ops.append([k, rand_fmt(r)])
    return {"data": data, "ops": ops}


def variants(sc, r, allv=False):
    n = len(sc["data"])
    vs = [dict(sc, kind="buffer", flavour="bytes", pos=0),
          dict(sc, kind="stream", flavour="bytesio", pos=0)]
    more = [dict(sc, kind="buffer", flavour="memoryview", pos=0),
            dict(sc, kind="buffer", flavour="offset", pos=r.randrange(n + 1)),
            dict(sc, kind="stream", flavour="file", pos=0),
            dict(sc, kind="stream", flavour="class", pos=0)]
    if allv:
        return vs + more
    vs.append(r.choice(more))
    return vs


def run(chk, scratch):
    import json
    import os
    deep = c.THOROUGH
    scen = os.path.join(scratch, "scen.ndjson")
    chk.model("MC_Unpacker", "MC_Unpacker_deep" if deep else "MC_Unpacker",
              env={"SCEN": scen} if not deep else {}, scratch=scratch)
    if deep:
        chk.model("MC_Unpacker", env={"SCEN": scen}, scratch=scratch)
    r = c.rng("C01")
    cases = []
    with open(scen) as f:
        spec_sc = [json.loads(x) for x in f]
    chk.cov["scenarios_from_specification"] = len(spec_sc)
    if not deep:
        r.shuffle(spec_sc)
        spec_sc = spec_sc[:6000]
    for sc in spec_sc:
        if deep:
            cases += variants(sc, r, True)[:2]
        else:
            cases.append(r.choice(variants(sc, r)))
    for _ in range(20000 if deep else 1500):
        cases += variants(rand_case(r), r, True)
    # counted arrays larger than a byte's worth of items
    for cnt in (255, 256, 257, 300):
        data = [cnt >> 8, cnt & 255] + [i % 256 for i in range(cnt)] + [9]
        for short in (0, 1, 2):
            sc = {"data": data[:len(data) - short],
                  "ops": [["array", [["B"]]], ["read", 1], ["read", 1]]}
            cases += variants(sc, r, True)
    for cs in cases:
        cs["ops"] = cs["ops"]
    chk.conform("Trace_Unpacker", "unpacker", cases, scratch, chunk=20000)
    chk.assumptions = [
        "a stream's read(n) returns n bytes unless its end is reached",
        "formats are big-endian sequences of B b H h I i Q q Ns Nx"]
