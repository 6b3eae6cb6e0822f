from . import clscases, common as c

NAMES = ["a", "b", "c.class", "d", "META-INF", "MANIFEST.MF", "x y", ".hidden", "-dash", "é", "日本", "a.jar", "..x", "x..", "A", "B.txt", "a:b", "a\\b", "%41", "manifest.mf", "meta-inf"]
MAINS = ["x.Y", "Main", "a.very.long.name." * 8 + "Main", "日本.Main", "é" * 40, "a: b", "x "]


def tree(r):
    dirs, got = [""], {}
    for _ in range(r.choice([1, 2, 5, 9, 14])):
        p = (r.choice(dirs) + "/" + r.choice(NAMES)).lstrip("/")
        if p in got:
            continue
        if r.random() < .4:
            got[p] = None
            dirs.append(p)
        else:
            got[p] = list(r.choice([b"", b"x", b"content of " + p.encode("utf-8"), bytes(r.randrange(256) for _ in range(40)), b"\r\n" * 9, b"z" * 70000]) if r.random() < .9
                          else bytes(r.randrange(256) for _ in range(3000)))
    return got


def spelled(r, p):
    """the same path, written in another way"""
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        p = r.choice([lambda x: "./" + x if not x.startswith("/") else x, lambda x: x.replace("/", "//") if not x.startswith("/") else x,
                      lambda x: x.replace("/", "/./") if not x.startswith("/") else x])(p)
    return p


def argument(r, got, cwd):
    p = r.choice(list(got) + [""])
    isdir = p == "" or got[p] is None
    k = r.random()
    if k < .15:
        a = "/" + p
    elif not cwd:
        a = p or "."
    elif p == cwd:
        a = r.choice([".", "../" * len(cwd.split("/")) + p])
    elif p.startswith(cwd + "/") and k < .7:
        a = p[len(cwd) + 1:]
    else:
        a = "../" * len(cwd.split("/")) + p
    a = spelled(r, a)
    if isdir and r.random() < .3:
        a = a.rstrip("/") + r.choice(["/", "//", "/.", "/./"])
    if isdir and p and r.random() < .1 and not a.startswith("/"):
        # and back
        a = a.rstrip("/") + "/../" + p.split("/")[-1]
    return a if not a.startswith("-") else "./" + a


def op(r, got, last=None):
    dirs = [p for p in got if got[p] is None]
    cwd = r.choice(dirs + ["", ""]) if dirs else ""
    up = "../" * len(cwd.split("/")) if cwd else ""
    jar = r.choice([lambda: "out.jar", lambda: "/out.jar", lambda: up + r.choice(dirs + [""]) + "/new.jar" if dirs else "new.jar", lambda: "./out.jar", lambda: "/zzz.jar"])()
    if jar.startswith("/") and up == "" and not jar.startswith(("/out.jar", "/zzz.jar")):
        jar = jar.lstrip("/") or "new.jar"
    if last and r.random() < .5:
        jar = last
    args = [argument(r, got, cwd) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
    if args and r.random() < .25:
        args.append(r.choice(args))
    return {"cwd": cwd, "jar": jar if not jar.startswith("-") else "./" + jar, "args": args, "main": r.choice(MAINS) if r.random() < .4 else None,
            "how": r.choice(["api", "cli", "main"]), "flag": r.choice(["-m", "--main-class"]), "at": r.randrange(3), "cmd": r.choice(["c", "create", "cre"])}


MODEL = [["a/b", [98]], ["a/c/d", [100, 13, 10]], ["META-INF/MANIFEST.MF", [1]], ["META-INF/x", [120]], ["b", []]]


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C24")
    scen = clscases.from_spec(chk, "MC_JarCreate", scratch, deep_cfg=True)
    chk.refutes("MC_JarCreate", "MC_JarCreate_careless", "Right", scratch=scratch)
    r.shuffle(scen)
    text = lambda x: "".join(map(chr, x))
    cases = []
    for s in scen if deep else scen[:330]:
        cases.append({"tree": MODEL, "ops": [{"cwd": "/".join(map(text, s["cwd"])), "args": [text(a) for a in s["args"]], "jar": "/" + "/".join(map(text, s["jar"])),
                                             "main": r.choice([None, "x.Y"]), "how": r.choice(["api", "cli", "main"]), "flag": "-m", "at": r.randrange(3), "cmd": "c"}]})
    for _ in range(8000 if deep else 900):
        got = tree(r)
        ops = []
        for _ in range(r.choice([1, 1, 2, 3])):
            ops.append(op(r, got, ops[-1]["jar"] if ops and ops[-1]["jar"].startswith("/") else None))
        # a jar in the place of a directory, or of a file that is given, is another matter
        cases.append({"tree": [[p, b] for p, b in got.items()], "ops": ops})
    chk.conform("Trace_JarCreate", "jarcreate", cases, scratch, par=8, chunk=400, timeout_case=60)
    chk.assumptions = ["files and directories exist and can be read; no links to directories; nothing else writes to them meanwhile",
                       "words given to the command do not start with a dash", "two different files that have the same name in the jar: either may be in it"]
