from . import asm, clscases, common as c, gencls
from .chk_c06 import GLOBS

OWN = ["a/A", "b/B", "c/C", "a/A$1", "D"]


def model_class(k):
    """the classes of MC_Aggregate"""
    pub, priv = 1, 2
    T = [dict(own=0, ms=[(1, pub), (2, priv)], refs=[(1, 1)]), dict(own=1, ms=[(1, pub), (2, priv)], refs=[(0, 2), (4, 0)]),
         dict(own=2, ms=[], refs=[(0, 1), (1, 0), (1, 2), (4, 0)]), dict(own=0, ms=[(3, priv)], refs=[(2, 0), (4, 1)]), dict(own=3, ms=[], refs=[(0, 3)])][k]
    return asm.assemble({"access": 1, "this": OWN[T["own"]], "super": "java/lang/Object",
                         "methods": [{"access": v, "name": "m%d" % m, "desc": "()V"} for m, v in T["ms"]],
                         "extra": [("method", OWN[o], "m%d" % m, "()V") if m else ("class", OWN[o]) for o, m in T["refs"]]})


def pooled(r):
    """classes that know of each other"""
    own = r.choice(OWN)
    vis = [1, 1, 1, 9, 2, 4, 0, 0x1001]
    ms = [{"access": r.choice(vis), "name": n, "desc": d} for n, d in r.sample([(n, d) for n in "mn" for d in ("()V", "(La/A;)I", "([J)Lb/B;")], r.randrange(0, 4))]
    fs = [{"access": r.choice(vis), "name": n, "desc": r.choice(["I", "[La/A;"])} for n in r.sample("xy", r.randrange(0, 3))]
    ex = []
    for _ in range(r.randrange(0, 7)):
        o = r.choice(OWN)
        ex.append(r.choice([("class", o), ("class", "[L%s;" % o), ("method", o, r.choice("mn"), r.choice(["()V", "(La/A;)I", "([J)Lb/B;"])),
                            ("imethod", o, r.choice("mn"), "()V"), ("field", o, r.choice("xy"), r.choice(["I", "[La/A;"]))]))
    return asm.assemble({"access": r.choice([1, 1, 0, 0x601, 0x21]), "this": own, "super": r.choice(["java/lang/Object"] + OWN[:3]),
                         "ifaces": r.sample(["b/B", "java/io/Serializable"], r.choice([0, 0, 1])), "methods": ms, "fields": fs, "extra": ex})


JARNAMES = ["a.jar", "lib/b.jar", "lib/c.war", "x.ear", "deep/er/d.rar", "e.sar", "é.jar", "f g.jar", ".jar", "lib/.h.jar"]
DIRS = ["", "a/", "b/c/", "META-INF/", "WEB-INF/classes/", "é/", "x y/", "p.jar/"]


def entries(r, bs, deepest=6):
    es, seen = [], set()
    for _ in range(r.choice([0, 1, 2, 3, 4, deepest])):
        # (a distribution's directories may look like jars)
        n = r.choice(DIRS[:-1]) + r.choice(["A", "B", "C", "A$1", "é", "a.b", "", "-x"]) + r.choice([".class"] * 6 + [".txt", ".CLASS", ".classes", "class"])
        if n not in seen and not n.endswith("/"):
            seen.add(n)
            es.append([n, r.randrange(len(bs)) if n.endswith(".class") or r.random() < .5 else -1])
    if r.random() < .4:
        es.append(["META-INF/MANIFEST.MF", -1])
    if r.random() < .3:
        es.append(["empty.d/", -2])
    if r.random() < .1:
        es.append(["odd.class/", -2])
    r.shuffle(es)
    return es


def ops(r, case, n, plain):
    out = []
    for _ in range(n):
        on = r.choice(["jar", "dist"]) if case["jars"] else "dist"
        how = r.choice(["api", "api", "api", "json"] + (["text"] if plain else []))
        ign = r.sample(GLOBS + ["a.*", "*.m*", "b.B", "a.A*"], r.choice([0, 0, 1, 2]))
        out.append({"on": on, "j": r.randrange(len(case["jars"])) if on == "jar" else 0, "form": r.choice(["zip", "dir"]), "what": r.choice(["provides", "requires"]),
                    "how": how, "ign": ign, "close": r.random() < .3})
    return out


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C07")
    scen = clscases.from_spec(chk, "MC_Aggregate", scratch, deep_cfg=True)
    chk.refutes("MC_Aggregate", "MC_Aggregate_careless", "Exact", scratch=scratch)
    r.shuffle(scen)
    pool = [list(model_class(k)) for k in range(5)]
    cases = []
    for s in scen if deep else scen[:240]:
        case = {"bodies": pool, "jars": [{"e": n, "es": []} for n in ("a.jar", "lib/b.jar")], "loose": []}
        for i, (w, k) in enumerate(zip(s["place"], s["kind"])):
            (case["loose"] if w == 0 else case["jars"][w - 1]["es"]).append(["%s%d.class" % (r.choice(["", "p/"]), i), k - 1])
        case["ops"] = [{"on": "dist", "j": 0, "form": f, "what": w, "how": r.choice(["api", "json", "text"]), "ign": []} for f in ("zip", "dir") for w in ("provides", "requires")]
        case["ops"] += ops(r, case, 3, True)
        cases.append(case)
    for i in range(5000 if deep else 420):
        plain = r.random() < .7
        bs = [list(pooled(r) if plain or r.random() < .5 else clscases.build(r)) for _ in range(r.choice([1, 2, 4, 6]))]
        case = {"bodies": bs, "jars": [], "loose": entries(r, bs), "stored": r.random() < .3}
        for n in r.sample(JARNAMES, r.choice([0, 1, 1, 2, 3])):
            case["jars"].append({"e": n, "es": entries(r, bs)})
        if r.random() < .2:
            case["loose"].append(["p.jar/Q.class", r.randrange(len(bs))])
        case["order"] = list(range(len(case["jars"]) + len(case["loose"])))
        r.shuffle(case["order"])
        case["ops"] = ops(r, case, r.choice([2, 4, 7]), plain)
        cases.append(case)
    chk.conform("Trace_Aggregate", "aggregate", cases, scratch, par=8, chunk=200, timeout_case=60)
    chk.assumptions = ["classes are valid; no name is twice in a jar or distribution", "ignore patterns are shell patterns over the dotted symbol"]
