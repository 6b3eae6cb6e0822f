"""runs the comparison commands with reports, and reads the reports back"""
import contextlib
import io
import json
import os
import re
import shutil
import tempfile
import traceback
from html.parser import HTMLParser
from urllib.parse import unquote, urlsplit

from javatools.opcodes import get_opname_by_code, has_const_arg
from javatools import change as ch, classdiff as cd, distdiff as dd, jardiff as jd, manifest as mf, unpack_classfile

from .drv_archivediff import build, flags
from .drv_compare import un, cp

KINDS = {"class": cd, "jar": jd, "dist": dd}
NAMES = ("DistReport", "JarReport", "JavaClassReport")
PLAIN = re.compile(r"[A-Za-z0-9_$-][A-Za-z0-9_$.-]*\Z")


def enc(s):
    return s.encode("ascii", "backslashreplace").decode("ascii")


def norm(s):
    """as found in a web page: white space collapsed; what is no character can't be shown"""
    s = re.sub("[\ud800-\udfff]", "\ufffd", s)
    return " ".join(enc(s).split())


def plain(entry):
    return all(PLAIN.match(p) and not p.startswith(NAMES) for p in entry.split("/"))


# ------------------------------------------------ what the changes are

def canonical(v):
    def seq(o):
        if isinstance(o, (set, frozenset)):
            return sorted(o)
        return tuple(o)
    return json.dumps(json.loads(json.dumps(v, default=seq)), sort_keys=True)


def joined(x):
    return ", ".join(x)


def texts(c):
    """[old, new, is there an old one] as the tables of a page show them"""
    n = type(c).__name__
    l, r = ["" if x is None else x for x in (c.pretty_ldata(), c.pretty_rdata())]
    if n.endswith("AccessflagsChange"):
        l = "0x%04x: %s" % (c.get_ldata(), " ".join(l))
        r = "0x%04x: %s" % (c.get_rdata(), " ".join(r))
    elif n == "ClassVersionChange":
        l, r = ("Major: %i, Minor: %i" % x for x in (c.get_ldata(), c.get_rdata()))
    elif n == "ClassInterfacesChange":
        l, r = joined(l) or "(None)", joined(r) or "(None)"
    elif n in ("MethodParametersChange", "MethodExceptionsChange"):
        l, r = "(%s)" % joined(l), "(%s)" % joined(r)
    elif n.endswith("SignatureChange"):
        l, r = l or "(None)", r or "(None)"
    return [norm(str(l)), norm(str(r)), bool(c.get_ldata())]


def pool(p):
    res = []
    for i in range(1, len(p.consts)):
        t, v = p.pretty_const(i)
        res.append(["" if t is None else norm(str(t)), "" if v is None else norm(str(v)), "" if t is None and v is None else enc(repr((t, v)))])
    return res


def member(m):
    return {"name": norm(m.get_name()), "type": norm(m.pretty_type()), "args": norm("(%s)" % joined(m.pretty_arg_types())),
            "flags": norm("0x%04x: %s" % (m.access_flags, " ".join(m.pretty_access_flags()))), "sig": norm(m.get_signature() or ""),
            "exc": norm(joined(m.pretty_exceptions())), "abs": not m.get_code(), "dep": bool(m.is_deprecated())}


def code(c):
    """the instructions and their lines as a page shows them"""
    if c is None:
        return []
    rows = []
    for off, op, args in c.disassemble():
        if has_const_arg(op):
            a = "#%s" % args[0]
        else:
            a = ", ".join(str(x) for x in args)
        rows.append([c.get_line_for_offset(off), str(off), get_opname_by_code(op), norm(a)])
    lnt = c.get_linenumbertable()
    return [{"ins": rows, "base": lnt[0][1] if lnt else 0, "num": bool(lnt)}]


def fact(c, o):
    n = {"cls": type(c).__name__, "label": enc(c.label), "desc": enc(c.get_description()), "ch": bool(c.is_change()),
         "ig": bool(c.is_ignored(o)), "add": isinstance(c, ch.Addition), "rem": isinstance(c, ch.Removal),
         "entry": enc(c.entry or ""), "plain": plain(c.entry or ""), "od": "", "nd": "", "kids": [],
         "h": {"lb": norm(c.label), "ds": norm(c.get_description()), "en": norm(c.entry or ""), "nm": ""},
         "tx": [], "m": [], "pool": [], "an": [], "code": {"l": [], "r": [], "diff": False}, "mf": isinstance(c, mf.ManifestChange)}
    if isinstance(c, ch.GenericChange):
        for k, v in (("od", c.pretty_ldata()), ("nd", c.pretty_rdata())):
            if v is not None:
                n[k] = canonical(v)
    if isinstance(c, ch.SuperChange):
        n["kids"] = [fact(k, o) for k in c.collect()]
    if isinstance(c, cd.FieldChange):
        n["h"]["nm"] = norm(c.get_ldata().get_name())
    elif isinstance(c, (cd.MethodChange, cd.MethodAdded, cd.MethodRemoved)):
        m = c.get_rdata() if isinstance(c, cd.MethodAdded) else c.get_ldata()
        n["h"]["nm"] = norm("%s(%s):%s" % (m.get_name(), joined(m.pretty_arg_types()), m.pretty_type()))
        if not isinstance(c, cd.MethodChange):
            n["m"] = [member(m)]
    elif isinstance(c, cd.JavaClassChange):
        n["h"]["nm"] = norm(c.get_ldata().pretty_this().split(".")[-1])
    elif isinstance(c, cd.AnnotationsChange):
        n["an"] = [[norm(a.pretty_annotation()) for a in side] for side in (c.get_ldata(), c.get_rdata())]
    elif isinstance(c, cd.MethodCodeChange):
        l, r = c.get_ldata(), c.get_rdata()
        n["code"] = {"l": code(l), "r": code(r), "diff": (l.code if l else b"") != (r.code if r else b"")}
    elif isinstance(c, cd.ClassConstantPoolChange):
        n["pool"] = [pool(c.get_ldata()), pool(c.get_rdata())]
    if isinstance(c, ch.GenericChange) and re.match("(Class|Field|Method)(Name|Accessflags|Superclass|Interfaces|Version|Platform|Signature|Deprecation"
                                                    "|Type|Constvalue|Parameters|Exceptions|Abstract)Change$", n["cls"]):
        n["tx"] = texts(c)
    return n


def facts(kind, l, r, o):
    if kind == "class":
        c = cd.JavaClassChange(unpack_classfile(l), unpack_classfile(r))
    elif kind == "jar":
        c = jd.JarChange(l, r)
    else:
        c = dd.DistChange(l, r, o.shallow)
    c.check()
    n = fact(c, o)
    c.clear()
    return n


# ------------------------------------------------ what the reports say

KNOWN = {"class": "cls", "is_change": "ch", "description": "desc", "label": "label", "is_ignored": "ig", "is_addition": "add",
         "is_removal": "rem", "entry": "entry", "old_data": "od", "new_data": "nd", "original_class": "oc", "children": "kids"}


def jnode(d):
    n = {"cls": "", "label": "", "desc": "", "ch": False, "ig": False, "add": False, "rem": False, "entry": "", "od": "", "nd": "", "oc": "",
         "kids": [], "x": []}
    for k, v in d.items():
        t = KNOWN.get(k)
        if t is None:
            n["x"].append(enc(k))
        elif t in ("od", "nd"):
            n[t] = canonical(v)
        elif t == "kids":
            n[t] = [jnode(x) for x in v]
        elif isinstance(n[t], bool):
            if not isinstance(v, bool):
                n["x"].append(enc(k))
            n[t] = bool(v)
        else:
            n[t] = enc(v)
    return n


def bad_constant(x):
    raise ValueError("no JSON: " + x)


def jdoc(data):
    try:
        d = json.loads(data.decode("utf-8"), parse_constant=bad_constant)
        return {"bad": "", "doc": jnode(d["report"])}
    except (ValueError, KeyError, TypeError, AttributeError) as e:
        return {"bad": enc(repr(e))[:200], "doc": jnode({})}


TAGS = set("html head title link script body div ul li a h1 h2 h3 span table thead tr th td".split())
VOID = {"link"}


class Page(HTMLParser):
    def __init__(self):
        HTMLParser.__init__(self, convert_charrefs=True)
        self.stack = []         # open elements: (tag, role)
        self.root = {"kids": [], "t": [], "under": ""}
        self.nodes = [self.root]
        self.bad = []
        self.links = []         # style sheets and scripts
        self.sheets, self.scripts = [], []
        self.crumbs = []
        self.h1, self.title, self.cat = [], [], []
        self.row = None

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag not in TAGS:
            self.bad.append("<%s>" % tag)
            return
        if tag == "link":
            self.links.append(a.get("href", ""))
            self.sheets.append(a.get("href", ""))
            return
        role = ""
        cls = (a.get("class") or "").split()
        if tag == "script" and "src" in a:
            self.links.append(a["src"])
            self.scripts.append(a["src"])
        elif tag == "div" and cls[:1] == ["Change"]:
            role = "change"
            n = {"cls": [c for c in cls[1:] if not c.startswith("is_")], "flags": sorted(c for c in cls if c.startswith("is_")), "t": [],
                 "under": " ".join("".join(self.cat).split()), "link": [], "rows": [], "kids": []}
            self.nodes[-1]["kids"].append(n)
            self.nodes.append(n)
        elif tag == "div" and "details" in cls:
            role = "details"
        elif tag == "div" and "change-category" in cls:
            role = "category"
            self.cat = []
        elif tag == "h2" and self.stack and self.stack[-1][1] == "category":
            role = "heading"
        elif tag == "ul" and "breadcrumbs" in cls:
            role = "crumbs"
        elif tag == "a" and len(self.nodes) > 1:
            self.nodes[-1]["link"].append(a.get("href", ""))
        elif tag == "a":
            role = "crumb"
            self.crumbs.append(["", a.get("href", "")])
        elif tag == "tr":
            if len(self.nodes) > 1:
                self.nodes[-1]["rows"].append([])
        elif tag in ("th", "td"):
            role = "cell"
            if len(self.nodes) > 1:
                if not self.nodes[-1]["rows"]:
                    self.bad.append("a cell outside of a row")
                else:
                    self.nodes[-1]["rows"][-1].append("")
        self.stack.append((tag, role))

    def handle_startendtag(self, tag, attrs):
        if tag not in VOID:
            self.bad.append("<%s/>" % tag)
        else:
            self.handle_starttag(tag, attrs)

    def handle_endtag(self, tag):
        if not self.stack or self.stack[-1][0] != tag:
            self.bad.append("</%s> in %s" % (tag, self.stack[-1:]))
            return
        _, role = self.stack.pop()
        if role == "change":
            self.nodes.pop()
        elif role == "category":
            self.cat = []

    def handle_data(self, data):
        roles = [r for _, r in self.stack]
        tags = [t for t, _ in self.stack]
        if "script" in tags:
            return
        last = max([i for i, r in enumerate(roles) if r == "change"] or [-1])
        inner = roles[last + 1:]
        if last >= 0:
            if "cell" in inner:
                if self.nodes[-1]["rows"] and self.nodes[-1]["rows"][-1]:
                    self.nodes[-1]["rows"][-1][-1] += data
            elif "details" in inner:
                if data.strip():
                    self.bad.append("text in details")
            else:
                self.nodes[-1]["t"].append(data)
        elif "heading" in roles:
            self.cat.append(data)
        elif "crumb" in roles:
            self.crumbs[-1][0] += data
        elif "crumbs" in roles:
            pass
        elif "h1" in tags:
            self.h1.append(data)
        elif "title" in tags:
            self.title.append(data)
        elif data.strip():
            self.bad.append("text " + data.strip()[:40])

    def unknown_decl(self, data):
        self.bad.append("<![" + data)


def resolve(uri, base, rep):
    """where a link leads: the path beneath the report directory, or what is wrong with it"""
    u = urlsplit(uri)
    if u.scheme or u.netloc:
        return "!remote"
    if u.query or u.fragment:
        return "!" + enc(uri)
    p = os.path.normpath(os.path.join(base, os.fsdecode(unquote(u.path, errors="surrogateescape").encode("utf-8", "surrogateescape"))))
    if not os.path.isfile(p):
        return "!missing " + enc(uri)
    r = os.path.relpath(p, rep)
    return "!outside " + enc(uri) if r == ".." or r.startswith("../") else enc(r)


def hnode(n, base, rep):
    links = [resolve(u, base, rep) for u in n["link"]]
    return {"cls": [enc(x) for x in n["cls"]], "flags": n["flags"], "text": norm("".join(n["t"])), "under": norm(n["under"]),
            "link": links, "rows": [[norm(x) for x in row] for row in n["rows"]], "kids": [hnode(k, base, rep) for k in n["kids"]]}


def hdoc(data, path, rep, media):
    bad = []
    try:
        s = data.decode("utf-8")
    except UnicodeDecodeError:
        s = data.decode("utf-8", "replace")
        bad = ["no UTF-8"]
    p = Page()
    p.feed(s)
    p.close()
    if p.stack:
        bad.append("not closed: %s" % p.stack[-1][0])
    base = os.path.dirname(path)
    return {"h1": norm("".join(p.h1)), "title": norm("".join(p.title)), "bad": [enc(x) for x in bad + p.bad][:5],
            "crumbs": [[norm(t), resolve(u, base, rep)] for t, u in p.crumbs],
            "links": [x for x in (other(u, base, media) for u in p.links) if x],
            "sheets": [lead(u, base, media) for u in p.sheets], "scripts": [lead(u, base, media) for u in p.scripts],
            "kids": [hnode(k, base, rep) for k in p.root["kids"]]}


def lead(uri, base, media):
    """where a link to a style sheet or script leads"""
    if urlsplit(uri).scheme or media["given"].get(uri) == "gone":
        return enc(uri)
    return enc(os.path.realpath(os.path.join(base, unquote(urlsplit(uri).path, errors="surrogateescape"))))


def other(uri, base, media):
    """what is wrong with a link to a style sheet or script"""
    if media["given"].get(uri) == "gone":
        return ""
    u = urlsplit(uri)
    if u.scheme:
        return "" if u.scheme in ("http", "https") else "bad " + enc(uri)
    return "" if os.path.isfile(os.path.join(base, unquote(u.path, errors="surrogateescape"))) else "missing " + enc(uri)


# ------------------------------------------------ runs

def tree(top, skip):
    res = {}
    for d, ds, fs in os.walk(top):
        ds[:] = [x for x in ds if os.path.join(d, x) not in skip]
        for f in fs:
            p = os.path.join(d, f)
            s = os.lstat(p)
            res[p] = (s.st_size, s.st_mtime_ns)
        for x in ds:
            res[os.path.join(d, x)] = "dir"
    return res


def stem(path, rep):
    return enc(os.path.splitext(os.path.relpath(path, rep))[0])


def command(kind, call, paths, work):
    mod = KINDS[kind]
    l, r = (paths[s] for s in call["dir"])
    args = [kind + "diff"] + flags(call)
    rep = os.path.join(work, *call["rep"]) if call["rep"] else work
    args += ["--report", ",".join(call["formats"])]
    if call["rep"]:
        args += ["--report-dir", rep if call["abs"] else os.path.join(*call["rep"])]
    data = None
    if call["data"]:
        data = os.path.join(work, *call["data"])
        args += ["--html-copy-data", data if call["abs"] else os.path.join(*call["data"])]
    if kind == "dist":
        args += ["--processes", str(call["processes"])]
    media = {"given": {}, "sheets": [], "scripts": []}
    for what, opt in (("sheets", "--html-stylesheet"), ("scripts", "--html-javascript")):
        for how, name in call.get(what, []):
            p = os.path.join(os.path.dirname(work), "media", name)
            word = {"rel": os.path.relpath(p, work), "abs": p, "url": "https://example.org/a?b=" + name, "gone": "gone/" + name}[how]
            if how in ("rel", "abs"):
                if not os.path.isdir(os.path.dirname(p)):
                    os.makedirs(os.path.dirname(p))
                with open(p, "w"):
                    pass
            media["given"][word] = how
            media[what].append(enc(os.path.realpath(p) if how in ("rel", "abs") else word))
            args.append("%s=%s" % (opt, word))
    if call.get("indent") is not None:
        args.append("--json-indent=%d" % call["indent"])
    args += {"quiet": ["-q"], "json": ["--json"], "text": [], "output": ["-o", "out.txt"]}[call["out"]]
    args += (["--show-ignored"] if call["si"] else []) + (["--show-unchanged"] if call["su"] else [])
    args += [l, r]
    return mod, args, rep, data, l, r, media


def do(case, call, paths, top, steps):
    work = tempfile.mkdtemp(dir=os.path.join(top, "w", "o", "r", "k"))
    mod, args, rep, data, l, r, media = command(case["kind"], call, paths, work)
    o = mod.create_optparser(args[0]).parse_args(args[1:])
    f = facts(case["kind"], l, r, o)
    skip = {rep} if rep != work else set()
    before = tree(top, skip)
    buf = io.StringIO()
    os.chdir(work)
    exc, rc = "", -1
    try:
        if call.get("again"):
            # over the reports of an earlier run, which showed everything
            with contextlib.redirect_stdout(io.StringIO()):
                mod.main(args[:1] + ["--show-ignored", "--show-unchanged"] + args[1:])
        with contextlib.redirect_stdout(buf):
            rc = mod.main(args)
    except Exception:
        exc = traceback.format_exc()[-300:]
    finally:
        os.chdir(top)
    docs = {"json": [], "text": [], "html": []}
    extra = []
    for d, _, fs in os.walk(rep):
        for n in sorted(fs):
            p = os.path.join(d, n)
            b, e = os.path.splitext(n)
            if data and os.path.commonpath([data, p]) == data:
                continue
            if rep == work and n == "out.txt":
                continue
            if b not in NAMES or e[1:] not in docs:
                extra.append(enc(os.path.relpath(p, rep)))
                continue
            with open(p, "rb") as fd:
                s = fd.read()
            row = {"at": stem(p, rep)}
            if e == ".json":
                row.update(jdoc(s))
            elif e == ".text":
                row["text"] = s.decode("ascii", "backslashreplace")
            else:
                row.update(hdoc(s, p, rep, media))
            docs[e[1:]].append(row)
    if data is not None:
        datafiles = sum(len(fs) for _, _, fs in os.walk(data))
    copied = [enc(os.path.realpath(os.path.join(a, x))) for a, _, fs in os.walk(data) for x in fs] if data else []
    after = tree(top, skip)
    fine = set() if rep == work else {os.path.join(work, *call["rep"][:i]) for i in range(len(call["rep"]))}
    if data:
        fine |= {os.path.join(work, *call["data"][:i]) for i in range(len(call["data"]) + 1)}
    stray = []
    for p in sorted(set(before) | set(after)):
        if before.get(p) == after.get(p) or p in fine or p == os.path.join(work, "out.txt"):
            continue
        if data and p.startswith(data + "/") or rep == work and p.startswith(work + "/"):
            continue
        stray.append(enc(os.path.relpath(p, top)))
    out = buf.getvalue()
    if call["out"] == "output" and not exc:
        with open(os.path.join(work, "out.txt"), newline="") as fd:
            out = fd.read()
    st = {"exc": enc(exc), "kind": case["kind"], "facts": f, "o": {"si": call["si"], "su": call["su"]}, "formats": sorted(set(call["formats"])),
          "rc": rc if isinstance(rc, int) else -1, "outk": call["out"], "out": jdoc(out.encode("utf-8")) if call["out"] == "json" else {"text": enc(out)},
          "media": {"sheets": media["sheets"], "scripts": media["scripts"], "copied": copied}, "docs": docs, "extra": extra, "stray": stray, "data": bool(data) and "html" in call["formats"] and not datafiles}
    steps.append(dict(st, k="run"))
    shutil.rmtree(work, ignore_errors=True)


def put(e, name, root):
    s = un(e[name]).replace("@ABS@", root)
    return dict(e, **{name: cp(s)})


def run(case):
    steps = []
    top = tempfile.mkdtemp(dir=os.environ["VERIF_WORK"])
    os.makedirs(os.path.join(top, "w", "o", "r", "k"))
    os.makedirs(os.path.join(top, "in"))
    try:
        if case["kind"] == "class":
            paths = {}
            for s in "lr":
                paths[s] = os.path.join(top, "in", s + ".class")
                with open(paths[s], "wb") as f:
                    f.write(bytes(case[s]))
        else:
            c = dict(case)
            key = "n" if case["kind"] == "jar" else "p"
            for s in "lr":
                c[s] = [put(e, key, top) for e in case[s]]
            c["bodies"] = [dict(b, a=[put(e, "n", top) for e in b["a"]]) for b in case["bodies"]]
            paths = build(c, os.path.join(top, "in"))
        for call in case["calls"]:
            do(case, call, paths, top, steps)
    finally:
        os.chdir(os.environ["VERIF_WORK"])
        shutil.rmtree(top, ignore_errors=True)
    return {"steps": steps}
