"""pairs of classes for the comparison checks"""
from . import common as c, asm, gencls, genmut, clscases

WORDS = ["version_up", "version_down", "platform_up", "platform_down", "absolute_lines", "relative_lines",
         "deprecated", "added", "pool", "lines", "version", "platform"]
MODES = ["quiet", "json", "text", "verbose", "jsonv", "jsonq", "showign", "showunch", "output", "jsonoutput"]


def lay(r):
    return {"r": r, "shuffle": r.random() < .7, "dup": r.choice([0, 0, .3]), "pad": r.choice([0, 0, 2, 5])}


def case(l, r_, opts=((),), dirs=("lr", "rl"), cli=(), again=False, **kw):
    k = {"l": list(l), "r": list(r_), "opts": [list(o) for o in opts], "dirs": list(dirs),
         "cli": [list(x) for x in cli], "again": again}
    k.update(kw)
    return k


def pair(r, n, **kw):
    """a random class and an edited copy, each with its own layout"""
    k = gencls.klass(r, **kw)
    return asm.assemble(k, **lay(r)), asm.assemble(genmut.edited(r, k, n), **lay(r))


def long_class(r, n):
    """a class with a method of n bytes, n more than the short integers hold"""
    k = gencls.klass(r, nf=1, nm=1, dupnames=False)
    ins = gencls.instructions(r, 4)
    cd = gencls.code(r)
    t = (n // 4) - 10
    cd["ins"] = [[0xaa, 4, 0, t - 1, [r.randrange(100) for _ in range(t)]], [0x13, ("string", r.choice("abc"))]] + ins + [[0xb1]]
    k["methods"].append({"access": 9, "name": "long", "desc": "()V", "attrs": [("Code", cd)]})
    return k


def relaid(r, k, reorder=False):
    import copy
    x = copy.deepcopy(k)
    if reorder:
        for p in ("fields", "methods", "ifaces"):
            r.shuffle(x[p])
    if r.random() < .5:
        genmut.e_attrorder(r, x)
    return asm.assemble(k, **lay(r)), asm.assemble(x, **lay(r))


def words(r):
    n = r.choice([0, 1, 1, 2, 3, 5, 9])
    return r.sample(WORDS, n)
