"""random edits of a symbolic class (see gencls); the specification tells
what they mean"""
import copy

from . import gencls as g


def attr(m, name):
    for a in m["attrs"]:
        if a[0] == name:
            return a
    return None


def put(m, name, a):
    m["attrs"] = [x for x in m["attrs"] if x[0] != name] + ([a] if a else [])


def pick_code(r, c):
    ms = [m for m in c["methods"] if attr(m, "Code")]
    return r.choice(ms) if ms else None


def e_name(r, c):
    c["this"] = g.cname(r)


def e_super(r, c):
    c["super"] = r.choice([None, g.cname(r)])


def e_iface(r, c):
    l = c["ifaces"]
    k = r.randrange(3)
    if k == 0 or not l:
        l.append(g.cname(r))
    elif k == 1:
        l.pop(r.randrange(len(l)))
    else:
        r.shuffle(l)


def e_access(r, c):
    c["access"] ^= 1 << r.randrange(16)


def e_version(r, c):
    c[r.choice(["major", "minor"])] = r.choice([45, 46, 49, 50, 51, 52, 53, 3, 4, 0])
    if c["major"] < 45:
        c["major"] = 45


def e_flag(r, c):
    x = r.choice([c] + c["fields"] + c["methods"])
    n = r.choice(["Deprecated", "Synthetic"])
    put(x, n, None if attr(x, n) else (n,))


def e_sig(r, c):
    x = r.choice([c] + c["fields"] + c["methods"])
    put(x, "Signature", r.choice([None, ("Signature", "TX;"), ("Signature", "TT;")]))


def near_element(r, e):
    """an element value which differs from this one in a single place"""
    k = e[0]
    if k in "BCISZ":
        if r.random() < .5:
            return (r.choice([x for x in "BCISZ" if x != k]), e[1])      # same constant, another tag
        return (k, ("int", e[1][1] + 1))
    if k in "DFJ":
        return (k, g.lit(r, {"D": "d", "F": "f", "J": "l"}[k]))
    if k == "s":
        return r.choice([(k, e[1] + "x"), ("s", "x" + e[1])])
    if k == "e":
        if r.random() < .5:
            return (k, "La/Near%d;" % r.randrange(9), e[2])              # the type only
        return (k, e[1], e[2] + "x")                                     # the constant only
    if k == "c":
        return (k, "[" + e[1])
    if k == "@":
        t, els = e[1]
        els = list(els)
        w = r.randrange(3)
        if w == 0 and els:
            i = r.randrange(len(els))
            els[i] = (els[i][0], near_element(r, els[i][1]))
        elif w == 1 and els:
            i = r.randrange(len(els))
            els[i] = (els[i][0] + "z", els[i][1])
        else:
            t = "La/Near;"
        return (k, (t, els))
    l = list(e[1])
    w = r.randrange(4)
    if w == 0 and l:
        l.pop(r.randrange(len(l)))
    elif w == 1 and len(l) > 1:
        l = l[1:] + l[:1]                    # the order of an array matters
    elif w == 2 and l:
        i = r.randrange(len(l))
        l[i] = near_element(r, l[i])
    else:
        l.append(g.element(r, 2))
    return (k, l)


def e_anno(r, c):
    x = r.choice([c] + c["fields"] + c["methods"])
    n = r.choice(["RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations"])
    a = attr(x, n)
    if a is None:
        put(x, n, (n, g.annolist(r)))
    elif r.random() < .3:
        put(x, n, None)
    else:
        l = copy.deepcopy(a[1])
        k = r.randrange(len(l)) if l else None
        if k is None or r.random() < .4:
            l.append(g.annotation(r))
        else:
            t, els = l[k]
            els = list(els)
            w = r.randrange(8)
            if w == 0 and els:
                els.reverse()                # the order does not matter
            elif w >= 4 and els:
                i = r.randrange(len(els))
                els[i] = (els[i][0], near_element(r, els[i][1]))
            elif w == 1 and els:
                i = r.randrange(len(els))
                els[i] = (els[i][0], g.element(r))
            elif w == 2 and els:
                els.pop()
            else:
                t = "L" + g.cname(r) + ";"
            l[k] = (t, els)
        put(x, n, (n, l))


def e_attrorder(r, c):
    for x in [c] + c["fields"] + c["methods"]:
        r.shuffle(x["attrs"])


def e_unknown(r, c):
    r.choice([c] + c["fields"] + c["methods"])["attrs"].append(("Raw", "Unk%d" % r.randrange(9999), [1, 2, 3]))


def e_member(r, c):
    l = c[r.choice(["fields", "methods"])]
    k = r.randrange(4)
    other = g.klass(r, nf=2, nm=2)
    if k == 0 and l:
        l.pop(r.randrange(len(l)))
    elif k == 1:
        r.shuffle(l)
    else:
        src = other["fields"] if l is c["fields"] else other["methods"]
        names = {(m["name"], m["desc"]) for m in l}
        for m in src:
            if (m["name"], m["desc"]) not in names:
                l.insert(r.randrange(len(l) + 1), m)
                names.add((m["name"], m["desc"]))


def e_mdesc(r, c):
    l = c[r.choice(["fields", "methods"])]
    if not l:
        return
    m = r.choice(l)
    k = r.randrange(3)
    if k == 0:
        m["access"] ^= 1 << r.randrange(13)
        return
    old = (m["name"], m["desc"])
    if k == 1:
        if "(" in m["desc"]:
            if m["name"] not in ("<init>", "<clinit>"):
                m["desc"] = m["desc"][:m["desc"].index(")") + 1] + r.choice(["V", g.ftype(r)])
        else:
            m["desc"] = g.ftype(r)
    elif m["name"] not in ("<init>", "<clinit>"):
        m["name"] = r.choice(g.IDENT)
    if sum((x["name"], x["desc"]) == (m["name"], m["desc"]) for x in l) > 1:
        m["name"], m["desc"] = old


def e_const(r, c):
    fs = [f for f in c["fields"] if attr(f, "ConstantValue")]
    if not fs:
        return
    f = r.choice(fs)
    a = attr(f, "ConstantValue")[1]
    opts = [g.lit(r, "ifslds")]
    if a[0] == "int":
        opts += [("long", a[1]), ("float", g.FBITS[0]), ("int", -a[1] if -a[1] < 2 ** 31 else 1)]
    if a[0] in ("float", "double"):
        b = list(a[1])
        b[0] ^= 0x80
        opts += [(a[0], b)] * 2
    if a[0] == "string":
        opts += [("class", a[1])]
    put(f, "ConstantValue", r.choice([None] + [("ConstantValue", o) for o in opts]))


def e_exc(r, c):
    if not c["methods"]:
        return
    m = r.choice(c["methods"])
    a = attr(m, "Exceptions")
    l = list(a[1]) if a else []
    k = r.randrange(3)
    if k == 0:
        l.append(g.cname(r))
    elif k == 1:
        l.reverse()
    else:
        l = l[1:]
    put(m, "Exceptions", ("Exceptions", l))


def e_abs(r, c):
    if not c["methods"]:
        return
    m = r.choice(c["methods"])
    put(m, "Code", None if attr(m, "Code") else ("Code", g.code(r)))


def near_const(r, k):
    """a constant which differs from this one in a single place"""
    k = list(k)
    kind = k[0]
    if kind in ("int", "long"):
        k[1] = k[1] ^ (1 if r.random() < .6 else 1 << 24)
    elif kind in ("float", "double"):
        b = list(k[1])
        b[r.choice([0, -1])] ^= r.choice([1, 0x80])
        k[1] = b
    elif kind in ("string", "utf8"):
        k[1] = r.choice([k[1] + "x", "x" + k[1], k[1] + " "])
    elif kind == "class":
        k[1] = r.choice([k[1] + "x", "[L" + k[1] + ";"]) if not k[1].startswith("[") else "[" + k[1]
    elif kind in ("field", "method", "imethod"):
        w = r.randrange(4)
        if w == 0:
            k[1] = k[1] + "x" if not k[1].startswith("[") else "[" + k[1]
        elif w == 1:
            k[2] = k[2] + "x" if k[2] != "<init>" else "init"
        elif w == 2:
            k[3] = "[" + k[3] if kind == "field" else k[3].replace("(", "(I", 1)
        elif kind == "field":
            k[3] = "J" if k[3] != "J" else "I"
        else:
            k[3] = k[3][:k[3].index(")") + 1] + ("J" if not k[3].endswith("J") else "D")
    elif kind in ("indy", "dynamic"):
        if r.random() < .5:
            k[1] += 1
        else:
            k[2] += "x"
    elif kind == "mtype":
        k[1] = k[1].replace("(", "(I", 1)
    elif kind == "handle":
        k[2] = near_const(r, k[2])
    return tuple(k)


def near_ins(r, ins):
    """an instruction which differs from this one in a single operand"""
    ins = copy.deepcopy(ins)
    if len(ins) < 2:
        return ins
    i = r.randrange(1, len(ins))
    v = ins[i]
    if isinstance(v, tuple):
        ins[i] = near_const(r, v)
    elif isinstance(v, list):
        if v:
            j = r.randrange(len(v))
            if isinstance(v[j], (list, tuple)):
                w = list(v[j])
                w[-1] += 1
                v[j] = w
            else:
                v[j] += 1
    elif ins[0] == 0xc4 and i == 1 or ins[0] in (0xaa, 0xab) and i > 1 or ins[0] in (0xb9, 0xba) and i > 1:
        return ins                      # the modified opcode, bounds of a table, fixed bytes
    elif ins[0] == 0xbc:
        ins[i] = v + 1 if v < 11 else 4
    else:
        ins[i] = v - 1 if v > 0 else v + 1
    return ins


def e_operand(r, c):
    m = pick_code(r, c)
    if m is None:
        return
    k = attr(m, "Code")[1]
    idx = [i for i, x in enumerate(k["ins"]) if len(x) > 1]
    if idx:
        i = r.choice(idx)
        k["ins"][i] = near_ins(r, k["ins"][i])


def e_code(r, c):
    m = pick_code(r, c)
    if m is None:
        return
    k = attr(m, "Code")[1]
    w = r.randrange(8)
    if w == 0:
        k["stack"] ^= 1
    elif w == 1:
        k["locals"] ^= 1
    elif w == 2:
        hs = [list(h) for h in k["handlers"]]
        if hs and r.random() < .7:
            h = r.choice(hs)
            i = r.randrange(4)
            h[i] = r.choice([None, g.cname(r)]) if i == 3 else h[i] + 1
        elif hs and r.random() < .5:
            hs.reverse()
        else:
            hs.append([0, 1, 1, None])
        k["handlers"] = hs
    elif w == 3:
        for i, a in enumerate(k["attrs"]):
            if a[0] == "LineNumberTable":
                rows = [list(x) for x in a[1]]
                if not rows:
                    return
                if r.random() < .5:
                    for x in rows:
                        x[1] = (x[1] + 7) % 65536
                else:
                    r.choice(rows)[1] ^= 1
                k["attrs"][i] = (a[0], rows)
                return
    elif w == 4:
        i = r.randrange(len(k["ins"]))
        old = k["ins"][i]
        k["ins"][i] = g.operand(r, old[0], 4, 0)
    elif w == 5:
        k["ins"].insert(r.randrange(len(k["ins"]) + 1), [r.choice([0, 1, 87])])
    elif w == 6:
        i = r.randrange(len(k["ins"]))
        simple = [j for j in range(len(k["ins"])) if len(k["ins"][j]) == 1]
        if simple:
            k["ins"][r.choice(simple)] = [r.choice([0, 3, 4, 87, 89])]
        else:
            k["ins"].pop(i)
            k["ins"].append([177])
    else:
        i, j = r.randrange(len(k["ins"])), r.randrange(len(k["ins"]))
        k["ins"][i], k["ins"][j] = k["ins"][j], k["ins"][i]


def e_extra(r, c):
    c["extra"].append(g.anyconst(r))


EDITS = [e_name, e_super, e_iface, e_access, e_version, e_flag, e_sig, e_anno, e_attrorder, e_unknown, e_member,
         e_member, e_mdesc, e_mdesc, e_const, e_const, e_exc, e_abs, e_operand, e_operand, e_code, e_code, e_code, e_code, e_extra]
NEUTRAL = [e_attrorder, e_unknown, e_extra]


def near_annotations(r, g_kinds="BCDFIJSZsec@["):
    """pairs of small classes which differ in one place of one annotation"""
    out = []
    for kind in g_kinds:
        for place in range(3):
            for n in ("RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations"):
                a = g.klass(r, rich=.3, nf=1, nm=1)
                while True:
                    e = g.element(r)
                    if e[0] == kind:
                        break
                an = g.annotation(r)
                an = (an[0], an[1] + [("near", e)])
                b = copy.deepcopy(a)
                for k, el in ((a, e), (b, near_element(r, e))):
                    x = [k] + k["fields"] + k["methods"]
                    put(x[place % len(x)], n, (n, [(an[0], an[1][:-1] + [("near", el)])]))
                out.append((a, b))
    return out


def near_code(r):
    """pairs of small classes which differ in one operand of one instruction"""
    out = []
    for op in range(256):
        try:
            ins = g.operand(r, op, 4, 0)
        except Exception:
            continue
        if not ins or len(ins) < 2:
            continue
        a = g.klass(r, rich=0, nf=0, nm=1)
        cd = {"stack": 1, "locals": 1, "ins": [ins, [0xb1]], "handlers": [], "attrs": []}
        a["methods"] = [{"access": 9, "name": "near", "desc": "()V", "attrs": [("Code", cd)]}]
        b = copy.deepcopy(a)
        attr(b["methods"][0], "Code")[1]["ins"][0] = near_ins(r, ins)
        out.append((a, b))
    return out


def edited(r, c, n):
    c = copy.deepcopy(c)
    for _ in range(n):
        r.choice(EDITS)(r, c)
    return c
