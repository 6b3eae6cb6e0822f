"""pairs of jars and of distributions whose entries differ in all ways"""
import copy

from . import asm, comparecases as cc, diffcases as dc, gencls, genmut, mfcases as mc

cp = cc.cp
JARWORDS = ["jar_signature", "manifest", "manifest_subsections"]
MODES = ["quiet", "json", "text", "verbose", "jsonv", "jsonq", "showign", "showunch"]

CLASSNAMES = ["A.class", "p/B.class", "p/q/C.class", "META-INF/D.class", "p/B$1.class", "x/.class", "ü/Ä.class"]
MANIFESTS = ["META-INF/MANIFEST.MF"]
SIGFILES = ["META-INF/A.SF", "META-INF/b.sf", "META-INF/SIG-A.SF", "META-INF/.SF"]
BLOCKS = ["META-INF/A.RSA", "META-INF/b.dsa", "META-INF/C.EC", "META-INF/SIG-X", "META-INF/sig-y.txt", "META-INF/B.EC"]
OTHERS = ["META-INF/sub/A.SF", "A.SF", "meta-inf/A.SF", "META-INF/A.SF.txt", "META-INF/A.XRSA", "META-INF/XSIG-A", "a.CLASS", "a.class.txt", "class",
          "META-INF/INDEX.LIST", "META-INF/manifest.mf", "x/META-INF/MANIFEST.MF", "MANIFEST.MF", "res/a.txt", "res/b.bin", "META-INF/sub/B.RSA", "lib/in.jar"]


def changed(r, v):
    """another value"""
    w = v
    while w == v:
        w = mc.value(r)
    return w


def e8(s):
    return list(s.encode("utf-8"))


def mf_edit(r, d):
    """one edit of a document"""
    d = copy.deepcopy(d)
    secs = [d["main"]] + [s[1] for s in d["subs"]]
    i = r.randrange(len(secs))
    s = secs[i]
    first = 1
    w = r.randrange(8)
    if w == 0 and len(s) > first:
        p = r.choice(s[first:])
        p[1] = e8(changed(r, bytes(p[1]).decode()))
    elif w == 1:
        k = e8("N-" + mc.key(r)[:30])
        if k not in [p[0] for p in s]:
            s.append([k, e8(mc.value(r))])
    elif w == 2 and len(s) > first:
        s.remove(r.choice(s[first:]))
    elif w == 3:
        for i in range(r.choice([1, 1, 2, 5])):
            n = e8("new%d" % (r.randrange(3) + 3 * i))
            if n not in [x[0] for x in d["subs"]]:
                d["subs"].append([n, [[e8("Name"), n], [e8("A"), e8("1")]]])
    elif w == 4 and d["subs"]:
        d["subs"].remove(r.choice(d["subs"]))
    elif w == 5 and len(s) > first:
        p = r.choice(s[first:])
        k = e8(bytes(p[0]).decode().swapcase())
        if k not in [x[0] for x in s]:
            p[0] = k
    elif w == 6:
        r.shuffle(d["subs"])
    return d


class Bodies:
    def __init__(self, r):
        self.r = r
        self.list = []
        self.seen = {}

    def add(self, data, **kw):
        data = bytes(data)
        if data not in self.seen:
            self.list.append(dict({"b": list(data), "a": []}, **kw))
            self.seen[data] = len(self.list)
        return self.seen[data]

    def jar(self, entries):
        self.list.append({"b": [], "a": entries, "jar": True, "how": how(self.r)})
        return len(self.list)


def how(r):
    return {"method": r.choice(["stored", "deflated"]), "year": r.choice([1980, 2020]), "prefix": False, "streamed": False}


def klass_pair(r):
    k = gencls.klass(r, nf=r.choice([0, 1]), nm=r.choice([0, 1]), rich=.2)
    w = r.randrange(4)
    if w == 0:
        e = copy.deepcopy(k)
        e["major"] = {45: 46, 61: 60}.get(k["major"], k["major"] + 1)
        return asm.assemble(k), asm.assemble(e)
    if w == 1:
        return dc.relaid(r, k)
    return asm.assemble(k, **dc.lay(r)), asm.assemble(genmut.edited(r, k, 1), **dc.lay(r))


def content_pair(r, kind, bs):
    """two bodies of a kind, often the same"""
    if kind == "class":
        a, b = klass_pair(r)
    elif kind in ("manifest", "sigfile"):
        d = mc.document(r, "sf" if kind == "sigfile" else "mf")
        e = d
        for _ in range(r.choice([0, 0, 1, 1, 1, 2])):
            e = mf_edit(r, e)
        nl = r.choice([b"\n", b"\r\n"])
        a = mc.text(r, d, nl, "byte", r.choice([0, 0, 1]))
        b = mc.text(r, e, r.choice([nl, b"\n", b"\r"]), "byte", r.choice([0, 0, 1]))
    elif kind == "text":
        ls = [r.choice([b"", b"one", b"two words", b"\xff\xfe", "ü".encode(), b"  lead"]) for _ in range(r.randrange(0, 5))]
        m = list(ls)
        w = r.randrange(8)
        if w == 0 and m:
            m[r.randrange(len(m))] += b"x"
        elif w == 3 and m:
            i = r.randrange(len(m))
            m[i] = r.choice([b" ", b"\t", b"\n"]) + m[i]
        elif w == 4 and m:
            i = r.randrange(len(m))
            m[i] = m[i].replace(b" ", r.choice([b"", b"  ", b"\t"]), 1)
        elif w == 5 and m:
            i = r.randrange(len(m))
            m[i] = m[i].swapcase()
        elif w == 1:
            m.append(r.choice([b"more", b""]))
        elif w == 2 and m:
            del m[r.randrange(len(m))]

        def put(ls):
            nl = r.choice([b"\n", b"\n", b"\r\n", b"\r"])
            return nl.join(x + r.choice([b"", b"", b" ", b"\t", b" \t \x0b\x0c"]) for x in ls) + r.choice([nl, b"", nl * 2, nl + b" "])
        a, b = put(ls), put(m)
    else:
        a = bytes(r.randrange(256) for _ in range(r.randrange(0, 6)))
        b = bytes(r.randrange(256) for _ in range(r.randrange(0, 6)))
    x = bs.add(a)
    y = bs.add(b)
    return (x, x) if r.random() < .35 else (x, y)


def jar_kind(n):
    return "class" if n.endswith(".class") else "manifest" if n in MANIFESTS else "sigfile" if n in SIGFILES else "bin"


def entries(r, bs, most=6):
    names = ["META-INF/MANIFEST.MF"] if r.random() < .8 else []
    for pool, n in ((CLASSNAMES, 2), (SIGFILES, 1), (BLOCKS, 2), (OTHERS, 3)):
        names += r.sample(pool, r.randrange(0, n + 1))
    if r.random() < .4:
        names.append(cc.filename(r))
    names = [n for n in cc.free_of_conflicts(names)]
    r.shuffle(names)
    names = names[:most]
    res = [[], []]
    for n in names:
        p = content_pair(r, jar_kind(n), bs)
        side = r.choice([0, 1]) if r.random() < .2 else None
        for i in (0, 1):
            if side is None or side == i:
                res[i].append({"n": cp(n), "c": p[i]})
    for i in (0, 1):
        if r.random() < .3:
            res[i].append({"n": cp(r.choice(["META-INF/", "p/", "empty/"])), "c": 0})
        r.shuffle(res[i])
    return res


def files(r, bs, most=7):
    names = []
    for pool, n in ((["a.class", "cls/p/B.class"], 2), (["lib/a.jar", "w.war", "x.ear", "y.sar", "z.rar"], 2),
                    (["conf.txt", "bin/run.sh", "a.properties", "x.xml", "c/d.cfg", "i.ini", "t.text", "b.bat", "h.html", "e.cert", "q.conf", "d.dtd"], 3),
                    (["META-INF/MANIFEST.MF", "x/META-INF/MANIFEST.MF", "MANIFEST.MF", "xMANIFEST.MF", "META-INF/manifest.mf"], 2),
                    (["a.bin", "README", "jar", "x.jar.bak", "a.TXT", "lib/x.JAR", "META-INF/A.SF"], 3)):
        names += r.sample(pool, r.randrange(0, n + 1))
    if r.random() < .3:
        names.append(cc.filename(r))
    names = cc.free_of_conflicts(names)
    r.shuffle(names)
    names = names[:most]
    res = [[], []]
    for n in names:
        if n.rsplit(".", 1)[-1] in ("jar", "war", "ear", "sar", "rar"):
            es = entries(r, bs, 3)
            x = bs.jar(es[0])
            p = (x, x) if r.random() < .3 else (x, bs.jar(es[0] if r.random() < .25 else es[1]))
        else:
            kind = ("class" if n.endswith(".class") else "manifest" if n.endswith("MANIFEST.MF") else
                    "text" if n.rsplit(".", 1)[-1] in ("txt", "sh", "properties", "xml", "cfg", "ini", "text", "bat", "html", "cert", "conf", "dtd") else "bin")
            p = content_pair(r, kind, bs)
        side = r.choice([0, 1]) if r.random() < .2 else None
        for i in (0, 1):
            if side is None or side == i:
                res[i].append({"p": cp(n), "c": p[i]})
                if side is not None and r.random() < .2:
                    # a directory with content of that name on the other side
                    res[1 - i].append({"p": cp(n + "/" + "in.bin"), "c": bs.add(b"in")})
    for i in (0, 1):
        if r.random() < .2:
            res[i].append({"p": cp("emptydir"), "c": 0})
    return res


def keys_of(bs):
    ks = set()
    for b in bs.list:
        data = bytes(b["b"])
        if data[:4] == b"\xca\xfe\xba\xbe" or b["a"]:
            continue
        for line in data.replace(b"\r", b"\n").split(b"\n"):
            if b": " in line and not line.startswith(b" "):
                k = line.split(b":")[0]
                try:
                    if k.decode("ascii").replace("-", "").replace("_", "").isalnum():
                        ks.add(k)
                except UnicodeDecodeError:
                    pass
    return sorted(ks)


def call(r, case, bs, mode, more=1):
    """one way to run the comparison"""
    dist = case["kind"] == "dist"
    names = [cc_name(e, "p" if dist else "n") for s in "lr" for e in case[s]]
    inner = ["".join(chr(x) for x in e["n"]) for b in case["bodies"] for e in b["a"]] if dist else names
    w = r.randrange(6)
    words = []
    if w >= 1:
        words = r.sample(dc.WORDS + JARWORDS * 2, r.choice([0, 1, 2, 4]))
    if w == 5:
        words = dc.WORDS + JARWORDS
    if dist and r.random() < .3:
        words.append("trailing_whitespace")
    words = sorted(set(words))

    def pats(ns, p):
        ns = [n for n in ns if n]
        if not ns or r.random() > p:
            return []
        if r.random() < .15:
            return [cp("*")]
        k = r.choice([1, 1, 2, len(ns)])
        return [cp(x.replace("[", "[[]") if r.random() < .6 else cc.pattern(r, x)) for x in r.sample(ns, min(k, len(ns)))]
    ks = keys_of(bs)
    keys = []
    if ks and r.random() < .4:
        keys = [list(r.choice([k, k.lower(), k.upper()])) for k in r.sample(ks, min(len(ks), r.choice([1, 2, 9])))]
    return {"dir": r.choice(["lr", "lr", "rl"]), "words": words, "entries": pats(inner, .4), "files": pats(names, .4) if dist else [],
            "keys": keys, "shallow": dist and r.random() < .15, "mode": mode, "form": r.randrange(3), "slash": r.random() < .1}


def cc_name(e, k):
    return "".join(chr(x) for x in e[k])


def plain(mode, dir="lr", shallow=False):
    return {"dir": dir, "words": [], "entries": [], "files": [], "keys": [], "shallow": shallow, "mode": mode, "form": 0, "slash": False}


def jar_case(r, l=None, rr=None, bodies=None):
    bs = Bodies(r)
    if l is None:
        l, rr = entries(r, bs)
    else:
        for b in bodies:
            bs.add(b)
    f = r.choice([("zip", "zip")] * 6 + [("dir", "dir"), ("dir", "zip"), ("zip", "dir")])
    return {"kind": "jar", "l": l, "r": rr, "lf": f[0], "rf": f[1], "bodies": bs.list, "how_l": how(r), "how_r": how(r)}, bs


def dist_case(r, l=None, rr=None, bodies=None):
    bs = Bodies(r)
    if l is None:
        l, rr = files(r, bs)
    else:
        for b in bodies:
            bs.add(b)
    return {"kind": "dist", "l": l, "r": rr, "bodies": bs.list, "stamp": r.choice([None, 1e9])}, bs


def calls(r, case, bs, n):
    res = [plain("api", r.choice(["lr", "rl"]))] + [call(r, case, bs, "api") for _ in range(2)]
    res += [plain(r.choice(["quiet", "json", "verbose"]))]
    res += [call(r, case, bs, r.choice(MODES)) for _ in range(n)]
    return res


def put(case, side, path, content):
    """a further file in a directory tree, unless the tree has something in
    its way"""
    p = list(cp(path))
    for e in case[side]:
        q = list(e["p"])
        if p[:len(q)] == q and (len(p) == len(q) or e["c"] and p[len(q)] == 47) or q[:len(p)] == p and q[len(p)] == 47:
            return False
    case[side].append({"p": cp(path), "c": content})
    return True
