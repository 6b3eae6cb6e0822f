"""histories of operations on real change trees"""
import io
import json
import traceback
from types import SimpleNamespace

from javatools import change as ch
from javatools import report


def options(o):
    return SimpleNamespace(ign=list(o["ign"]), show_ignored=o["si"], show_unchanged=o["su"])


def masked(self, o):
    return any(m in o.ign for m in self.mask)


class Leaf(ch.GenericChange):
    mask = ()
    is_ignored = masked


class Add(ch.Addition):
    mask = ()
    is_ignored = masked


class Rem(ch.Removal):
    mask = ()
    is_ignored = masked


class Sup(ch.SuperChange):
    items = ()

    def collect_impl(self):
        return iter(self.items)


def build(n):
    k = n["k"]
    if k == "leaf":
        c = Leaf(n["l"], n["r"])
    elif k == "add":
        c = Add(None, n["r"])
    elif k == "rem":
        c = Rem(n["l"], None)
    else:
        c = Sup(n["l"], n["r"])
        c.items = [build(x) for x in n["kids"]]
    c.label = n["label"]
    c.mask = n["mask"]
    if n["entry"]:
        c.entry = n["entry"]
    return c


def view(c, o):
    chg = bool(c.is_change())
    return [c.label, chg, chg and bool(c.is_ignored(o)), c.get_description(), c.entry or "",
            isinstance(c, ch.Addition), isinstance(c, ch.Removal), [view(k, o) for k in c.collect()]]


def simple(c, o):
    d = c.simplify(o) if hasattr(c, "simplify") else c
    chg = bool(d["is_change"])
    data = [d["old_data"], d["new_data"]] if "old_data" in d or "new_data" in d else []
    return [d["label"], chg, chg and bool(d["is_ignored"]), d["description"], d.get("entry", ""),
            bool(d.get("is_addition", False)), bool(d.get("is_removal", False)), data,
            [simple(k, o) for k in d.get("children", ())]]


def text(c, o):
    buf = io.StringIO()
    report.TextReportFormat("", o).run(c, None, buf)
    out = []
    for ln in buf.getvalue().split("\n"):
        if not ln:
            continue
        n = len(ln) - len(ln.lstrip(" "))
        body = ln[n:]
        ig = body.endswith(" [IGNORED]")
        out.append([n // 2, body[:-10] if ig else body, ig])
    return out


def jsonform(c, o):
    buf = io.StringIO()
    report.JSONReportFormat("", o).run(c, None, buf)
    return simple(json.loads(buf.getvalue())["report"], o)


def run(case):
    steps = []
    if "group" in case:
        g = case["group"]
        kinds = {}

        class Obj(object):
            def __init__(self, i):
                self.i = i
        for t in "ABCDE":
            kinds[t] = type(t, (Obj,), {})
        kinds["B2"] = type("B", (kinds["B"],), {})      # same name, other type
        kinds["C"] = type("C", (kinds["A"],), {})       # subclass of a listed one
        names = {v: k for k, v in kinds.items()}
        objs = [kinds[t](i) for t, i in g["objs"]]
        types = [kinds[t] for t in g["types"]]
        try:
            if g["how"]:
                out = list(ch.iterate_by_type(iter(objs), types))
            else:
                out = list(ch.yield_sorted_by_type(*types)(lambda: iter(objs))())
            steps.append({"k": "group", "objs": g["objs"], "types": g["types"], "out": [[names[type(x)], x.i] for x in out]})
        except Exception as e:
            steps.append({"k": "raised", "exc": traceback.format_exc()[-300:]})
        return {"t": [], "steps": steps}
    root = build(case["t"])

    def at(path):
        n = root
        for i in path:
            if not isinstance(n, Sup) or i > len(n.collect()):
                return None
            n = n.collect()[i - 1]
        return n
    for op in case["ops"]:
        o = options(op[2] if len(op) == 3 else case["o"])
        try:
            n = at(op[1])
            if n is not None:
                if op[0] == "check":
                    n.check()
                elif op[0] == "collect":
                    tuple(n.collect())
                elif op[0] == "simplify":
                    n.simplify(o)
                elif op[0] == "squash" and isinstance(n, Sup):
                    n.squash_children(o)
                    n.items = list(n.collect())
                elif op[0] == "replace":
                    new = ch.squash(n, options=o)
                    if not op[1]:
                        root = new
                    else:
                        par = at(op[1][:-1])
                        par.items = list(par.collect())
                        par.items[op[1][-1] - 1] = new
                        par.collect(force=True)
            o = options(case["o"])
            steps.append({"k": "op", "op": op, "o": case["o"], "view": view(root, o), "simple": simple(root, o),
                          "json": jsonform(root, o), "text": text(root, o)})
        except Exception:
            steps.append({"k": "raised", "exc": traceback.format_exc()[-300:]})
            break
    return {"t": case["t"], "steps": steps}
