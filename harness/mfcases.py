"""manifest texts and documents"""

CHARS = ["a", "b", "Z", "0", " ", " ", ":", "-", "_", "ü", "é", "日", "\U0001f600", "\u2028", "\u2029", "\x85", "\x0b", "\x0c", "\x1c", "\x1d", "\x1e",
         "\t", "\xa0", "=", ",", ";", "\"", "\ufeff", "/", "."]
KEYS = ["Created-By", "Main-Class", "Class-Path", "A", "SHA-256-Digest", "x_y-z", "K" * 68, "L" * 67, "Sealed", "X-Comment", "Magic", "Manifest", "1"]
LENS = [0, 1, 2, 5, 20, 40, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 100, 137, 138, 139, 140, 200, 300]


def value(r, maxlen=None):
    n = r.choice(LENS)
    if maxlen is not None:
        n = min(n, maxlen)
    w = r.randrange(4)
    if w == 0:
        return "x" * n
    if w == 1:
        return "".join(r.choice("abc:/. -") for _ in range(n))
    if w == 2:
        return r.choice(["ü", "日", "\U0001f600"]) * (n // 3 + 1)
    return "".join(r.choice(CHARS) for _ in range(n))


def key(r, name=None):
    k = r.choice(KEYS + ["".join(r.choice("abcXYZ019-_") for _ in range(r.randrange(1, 20)))])
    return k.lstrip("-_") or "k"


def l8(s):
    return list(s.encode("utf-8"))


def document(r, prim="mf"):
    ver = "Signature-Version" if prim == "sf" else "Manifest-Version"
    main = [[ver, r.choice(["1.0", "1.0", "2", value(r)])]]
    seen = {ver}
    for _ in range(r.randrange(0, 4)):
        k = key(r)
        if k not in seen and k != "Name":
            seen.add(k)
            main.append([k, value(r)])
    subs, names = [], set()
    for _ in range(r.choice([0, 1, 1, 2, 3, 6])):
        n = r.choice([value(r), "a/b/%d.class" % r.randrange(50), "d/"])
        if n in names:
            continue
        names.add(n)
        ps, ks = [["Name", n]], {"Name"}
        for _ in range(r.randrange(0, 4)):
            k = key(r)
            if k not in ks:
                ks.add(k)
                ps.append([k, value(r)])
        subs.append([n, ps])
    e = lambda ps: [[l8(a), l8(b)] for a, b in ps]
    return {"ok": True, "main": e(main), "subs": [[l8(n), e(ps)] for n, ps in subs]}


def unfit(r, d):
    """something a text cannot hold put at a place of the document (or something that just fits)"""
    secs = [d["main"]] + [ps for _n, ps in d["subs"]]
    i = r.randrange(len(secs))
    ps = secs[i]
    if r.random() < .5:
        j = r.randrange(len(ps))
        v = list(ps[j][1])
        at = r.randrange(len(v) + 1)
        while at < len(v) and v[at] & 0xc0 == 0x80:
            at += 1
        v[at:at] = r.choice([[10], [13], [13, 10], [0], [13, 10, 32], list(b"\r\nX: y"), list(b"\n\nName: z"), [9], [32], [58, 32]])
        ps[j][1] = v
        if i and ps[j][0] == l8("Name"):
            d["subs"][i - 1][0] = v
    else:
        k = list(key(r).encode())
        k = r.choice([[], k + [58], [58], k + [58, 32] + k, [32] + k, k + [10], [10] + k, k + [13], k + [0], k + [13, 10], [75] * r.choice([67, 68, 69, 70, 71, 72, 80]), k + [32], k + [9], k + [32] + k])
        if all(k != p[0] for p in ps):
            ps.insert(r.randrange(1, len(ps) + 1), [k, l8(value(r))])
    return d


def text(r, d, nl, cut="byte", last=0):
    """a text for the document, folded at any places"""
    def pair(k, v):
        b = bytes(k) + b": "
        out = bytearray(b)
        col = len(b)
        width = r.choice([72, 72, 70, 71, 40])
        chars = [bytes([x]) for x in v] if cut == "byte" else [ch.encode() for ch in bytes(v).decode().replace("", "")]
        for ch in chars:
            if col + len(ch) > width or (r.random() < .03 and col > 1):
                out += nl + b" "
                col = 1
                if col + len(ch) > width:
                    pass
            out += ch
            col += len(ch)
        if r.random() < .05:
            out += nl + b" "
        return bytes(out) + nl
    subs = list(d["subs"])
    r.shuffle(subs)
    b = b"".join(pair(k, v) for k, v in d["main"]) + nl
    for n, ps in subs:
        b += b"".join(pair(k, v) for k, v in ps) + nl * r.choice([1, 1, 1, 2, 3])
    # the last line ends may be missing
    for _ in range(last):
        if b.endswith(nl):
            b = b[:-len(nl)]
    return b


def damage(r, b, nl):
    """mostly no manifest any more"""
    lines = b.split(nl)
    i = r.randrange(len(lines))
    w = r.randrange(7)
    if w == 0:
        lines[i] = b" " + lines[i]
    elif w == 1:
        lines[i] = lines[i].replace(b":", b"", 1)
    elif w == 2:
        lines[i] = lines[i].replace(b": ", b":", 1)
    elif w == 3:
        lines.insert(i, b"")
    elif w == 4:
        lines[i] = lines[i].replace(b"Name", b"Nome")
    elif w == 5:
        lines.insert(i, b"K" * r.choice([67, 68, 69, 70]) + b": v")
    else:
        lines.insert(i, lines[r.randrange(len(lines))])
    res = nl.join(lines)
    try:
        for sep in (b"\r\n ", b"\r ", b"\n "):
            if sep[:-1] == nl:
                res.replace(sep, b"").decode("utf-8")
    except UnicodeDecodeError:
        return b            # no text at all
    return res
