import os
import subprocess

from . import clscases, common as c

HERE = os.path.dirname(os.path.abspath(__file__))
PLACES = {"inplace": ["inplace", "link", "hard"], "fresh": ["fresh"], "over": ["over", "over-longer", "outlink"], "same": ["same", "outlink-in"]}
ERRS = ["ENOSPC", "EIO", "EACCES", "EDQUOT", "EROFS", "EMFILE"]
HURT = ["key", "nokey", "nocert", "cert", "extra", "noextra", "entry", "entry-last", "entry-method", "trailer", "nojar", "digest", "nomf", "badmf"]


def entries(r, manifest=True):
    # kept as they are in the archive
    es = [["META-INF/MANIFEST.MF", list(b"Manifest-Version: 1.0\r\n\r\nName: a.txt\r\nX: y\r\n\r\n")]] if manifest else []
    for i in range(r.choice([1, 2, 4])):
        es.append(["e%d.txt" % i, list(b"PLEASE-READ-ME-ONCE-MORE %d" % i + bytes(r.randrange(256) for _ in range(r.choice([0, 10, 3000]))))])
    return es


def run(chk, scratch):
    deep = c.THOROUGH
    r = c.rng("C22")
    so = os.path.join(scratch, "faults.so")
    p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, os.path.join(HERE, "native", "faults.c"), "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise c.Machinery("gcc: %r" % p.stdout[-2000:])
    scen = clscases.from_spec(chk, "MC_Signing", scratch)
    chk.refutes("MC_Signing", "MC_Signing_direct", "TargetWhole", scratch=scratch)
    cases = []

    def base(place):
        k, d = r.choice([("rsa1", "SHA-256"), ("rsa1", "SHA1"), ("ec1", "SHA-256"), ("dsa1", "SHA-256"), ("rsa1", None)])
        return {"place": place, "k": k, "c": k, "d": d, "a": r.choice(["X", "SIGNER", "A.B"]), "how": r.choice(["lib", "lib", "cli"]), "entries": entries(r), "stored": r.random() < .5}
    for s in scen:
        for place in PLACES[s["place"]]:
            modes = [s["mode"]] + ({"once": ["intr"], "full": ["short"], "crash": ["halfcrash"]}.get(s["mode"], []))
            for m in modes:
                errs = ["ENOSPC"] if m == "full" else ERRS if m in ("once", "onwards") else ["EIO"]
                for e in errs if deep else [r.choice(errs)]:
                    cases.append(dict(base(place), faults=[{"mode": m, "err": e}]))
    # what makes signing impossible without a fault
    for h in HURT:
        for place in ["inplace", "fresh", "over"]:
            x = base(place)
            x["stored"] = True
            if h == "digest":
                x["d"], x["how"] = "SHA-3", "lib"
            elif h == "nomf":
                x["entries"] = entries(r, False)
            elif h == "badmf":
                x["entries"][0][1] = list(r.choice([b"no manifest at all\r\n\r\n", b"Manifest-Version: 1.0\r\n\r\nX: no name\r\n\r\n"]))
            else:
                x["hurt"] = h
            cases.append(x)
    for k, cert in (("rsa1", "rsa2"), ("rsa1", "ec1"), ("ec2", "ec1"), ("dsa1", "rsa1")):
        for place in ("inplace", "fresh"):
            cases.append(dict(base(place), k=k, c=cert))
    # what may not be written, for someone who is not the superuser
    for place in ("readonly", "rodir", "outrodir", "nodir", "isdir", "inplace", "fresh"):
        for how in ("lib", "cli"):
            cases.append(dict(base(place), nobody=True, how=how))
    chk.conform("Trace_Signing", "signing", cases, scratch, par=6, timeout_case=600, env={"LD_PRELOAD": so, "VERIF_FAULTS": so})
    chk.assumptions = ["faults are injected at the C library's calls on files beneath the scratch directory (open, read, write, sendfile, copy_file_range, rename, unlink, chmod, close, truncate, link); "
                       "crashes are of the process, not of the machine (no fsync is asked for)",
                       "a leftover temporary file is excused when the call that removes it is the one that fails, or at a crash or interrupt"]
