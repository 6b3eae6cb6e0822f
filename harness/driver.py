"""
Child process: executes the cases of one driver against the real code
and writes one trace per case, flushed case by case.

usage: python -m harness.driver NAME IN.ndjson OUT.ndjson
"""

import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback
import zipfile


# what reading an outcome raises when the code under test did not produce
# what it is to produce (output that is no JSON, a file that is missing, a
# result with fewer parts); the drivers raise none of these on their own
UNREADABLE = (ValueError, LookupError, TypeError, AssertionError, zipfile.BadZipFile,
              FileNotFoundError, NotADirectoryError, IsADirectoryError)


class CaseTimeout(BaseException):
    pass


def _alarm(_s, _f):
    raise CaseTimeout()


def main():
    name, inp, outp = sys.argv[1:4]
    mod, _, fn = name.partition(":")
    try:
        m = importlib.import_module("harness.drv_" + mod)
    except Exception:
        tb = traceback.format_exc()
        # an import failure inside the code under test is its failure
        if "/javatools/" in tb:
            m = None
            broken = tb
        else:
            sys.stderr.write("VERIF-MACHINERY " + tb)
            sys.exit(3)
    limit = int(float(os.environ.get("VERIF_CASE_TIMEOUT", "20")))
    signal.signal(signal.SIGALRM, _alarm)
    sys.setrecursionlimit(5000)
    # nothing that is tried here writes a file that big
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))
    # and nothing needs that much memory
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    ends = time.time() + float(os.environ.get("VERIF_DRIVER_LIMIT", "1e9"))
    hung = 0
    with open(inp) as f, open(outp, "w") as out:
        for ln in f:
            case = json.loads(ln)
            if hung > 2 or time.time() > ends:
                # what is left would take as long
                row = {"id": case.get("id"), "skipped": True}
            elif m is None:
                row = {"id": case.get("id"), "crash": "import failed: " + broken[-600:]}
            else:
                signal.alarm(limit)
                try:
                    row = getattr(m, fn or "run")(case)
                    signal.alarm(0)
                except CaseTimeout:
                    hung += 1
                    row = {"id": case.get("id"), "crash": "case timed out after %ds" % limit}
                except BaseException as ex:
                    signal.alarm(0)
                    tb = traceback.format_exc()
                    if in_repo(sys.exc_info()[2]):
                        row = {"id": case.get("id"), "crash": "unexpected exception: " + tb[-700:]}
                    elif isinstance(ex, UNREADABLE):
                        row = {"id": case.get("id"), "crash": "the outcome is not of the form it has: " + tb[-700:]}
                    else:
                        row = {"id": case.get("id"), "machinery": tb[-1500:]}
                finally:
                    signal.alarm(0)
                row.setdefault("id", case.get("id"))
            out.write(json.dumps(row, separators=(",", ":")) + "\n")
            out.flush()


def in_repo(tb):
    """did the exception come out of the code under test"""
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/javatools/" in fn:
            return True
        tb = tb.tb_next
    return False


if __name__ == "__main__":
    main()
