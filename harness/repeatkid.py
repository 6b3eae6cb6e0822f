"""makes the requests drv_repeat asks for, one per line"""

import contextlib
import importlib
import io
import json
import os
import random
import sys

_scandir, _listdir = os.scandir, os.listdir
_order = random.Random(0)


class Scan(object):
    def __init__(self, *path):
        with _scandir(*path) as it:
            self.found = sorted(it, key=lambda e: e.name)
        _order.shuffle(self.found)
        self.it = iter(self.found)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *_x):
        pass

    def close(self):
        pass


def listdir(*path):
    n = sorted(_listdir(*path))
    _order.shuffle(n)
    return n


class Out(io.TextIOWrapper):
    def __init__(self):
        io.TextIOWrapper.__init__(self, io.BytesIO(), encoding="utf-8", errors="surrogateescape", write_through=True)

    def text(self):
        self.flush()
        return self.buffer.getvalue().decode("utf-8", "surrogateescape")


def files(top):
    res = []
    if os.path.isfile(top):
        with open(top, "rb") as f:
            return f.read().decode("latin-1").split("\n")
    for r, ds, fs in os.walk(top):
        ds.sort()
        for f in sorted(fs):
            with open(os.path.join(r, f), "rb") as fd:
                b = fd.read()
            res.append("FILE " + os.path.relpath(os.path.join(r, f), top))
            res += b.decode("utf-8", "replace").split("\n")
    return res


def main():
    talk = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    os.scandir, os.listdir = Scan, listdir
    for line in sys.stdin:
        req = json.loads(line)
        _order.seed(req["shuffle"])
        out = Out()
        with contextlib.redirect_stdout(out):
            try:
                rc = importlib.import_module("javatools." + req["main"]).main(req["args"])
            except SystemExit as e:
                rc = e.code
            except Exception as e:
                rc = "raised " + type(e).__name__
        res = out.text().split("\n")
        if str(rc).startswith("raised"):
            # what came before it stopped is no answer
            res = []
        elif os.path.exists(req["out"]):
            res += files(req["out"])
        talk.write(json.dumps({"rc": rc, "out": res}) + "\n")
        talk.flush()


if __name__ == "__main__":
    main()
