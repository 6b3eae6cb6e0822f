"""setup_cmd: checks that the tools are there and every module parses."""
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from harness import common as c  # noqa: E402


def main():
    for p in (c.PY, c.TLAJAR, c.CMJAR):
        if not os.path.exists(p):
            print("missing", p)
            return 1
    r = subprocess.run(["java", "-version"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        print(r.stdout)
        return 1
    bad = 0
    with c.Scratch("setup") as d:
        mods = sorted(f for f in os.listdir(c.SPEC) if f.endswith(".tla"))
        for f in mods:
            r = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-cp", c.TLAJAR + ":" + c.CMJAR, "tla2sany.SANY",
                                f], cwd=c.SPEC,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                bad += 1
                print(f, r.stdout.decode()[-1500:])
        print("%d specification modules parsed, %d failed" % (len(mods), bad))
    os.makedirs(c.EVIDENCE, exist_ok=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
