from . import common as c, clscases, mfcases as mc

NL = {"crlf": b"\r\n", "lf": b"\n", "cr": b"\r"}


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C18")
    cases = []
    rest = lambda: {"rhow": r.choice(["parse", "parse", "file", "jar"]), "nl2": r.choice(["", "crlf", "lf", "cr"]),
                    "how2": r.choice(["get", "store", "file", "text"])}
    scen = clscases.from_spec(chk, "MC_Manifest", scratch)
    chk.refutes("MC_Manifest", "MC_Manifest_any", "ReadsBack", scratch=scratch)
    r.shuffle(scen)
    for s in scen[:30000 if deep else 1500]:
        cases.append(dict(rest(), data=s["b"]))
    for i in range(12000 if deep else 900):
        prim = r.choice(["mf", "mf", "sf"])
        cases.append(dict(rest(), prim=prim, doc=mc.document(r, prim), nl=r.choice(["", "crlf", "lf", "cr"]),
                          how=r.choice(["get", "store", "file", "text"])))
    # documents which hold, mostly at one place, what a text cannot
    for i in range(4000 if deep else 400):
        prim = r.choice(["mf", "mf", "sf"])
        cases.append(dict(rest(), prim=prim, doc=mc.unfit(r, mc.document(r, prim)), nl=r.choice(["", "crlf", "lf", "cr"]), how=r.choice(["get", "store", "file", "text"])))
    for i in range(8000 if deep else 600):
        prim = r.choice(["mf", "mf", "sf"])
        d = mc.document(r, prim)
        nl = NL[r.choice(["crlf", "lf", "cr"])]
        b = mc.text(r, d, nl, r.choice(["byte", "char"]), r.choice([0, 0, 0, 1, 2]))
        if i % 3 == 0:
            b = mc.damage(r, b, nl)
        cases.append(dict(rest(), prim=prim, data=list(b)))
    for b in (b"", b"\n", b"\r\n\r\n", b"Manifest-Version: 1.0", b"Manifest-Version: 1.0\r", b" x\n", b"Name: a\n"):
        cases.append(dict(rest(), data=list(b)))
    chk.conform("Trace_Manifest", "manifest", cases, scratch, chunk=2000, par=6)
    chk.assumptions = ["attribute names are ASCII; what the format cannot express (line ends and NUL, names with a colon, too long or empty) must be refused",
                       "texts are UTF-8 once unfolded; a main section without a version is taken to be of version 1.0"]
