"""scenario generation shared by the class file checks"""
import glob
import json
import os

from . import asm, common as c, gencls

SRCS = ["bytes", "stream", "magicstream", "magicbytes", "file"]


def samples(limit=20000):
    """compiled classes that ship with the repository"""
    out = []
    for fn in sorted(glob.glob(os.path.join(c.REPO, "tests", "**", "*.class"), recursive=True)):
        with open(fn, "rb") as f:
            b = f.read()
        if len(b) <= limit:
            out.append((os.path.basename(fn), b))
    return out


def build(r, **kw):
    lay = {"r": r, "shuffle": r.random() < .7, "dup": r.choice([0, 0, .2]), "pad": r.choice([0, 0, 2, 5])}
    return asm.assemble(gencls.klass(r, **kw), **lay)


def from_spec(chk, module, scratch, deep_cfg=True):
    """model checks the module exhaustively and returns the scenarios it
    emits"""
    scen = os.path.join(scratch, module + ".scen")
    if c.THOROUGH and deep_cfg:
        chk.model(module, module + "_deep", scratch=scratch, timeout=3000)
    chk.model(module, env={"SCEN": scen}, scratch=scratch)
    with open(scen) as f:
        out = [json.loads(x) for x in f]
    chk.cov["scenarios_from_" + module] = len(out)
    return out
