import argparse
import ctypes
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

from . import core


def arguments():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--worker")
    ap.add_argument("--selftest", action="store_true", help="can everything be imported?")
    return ap.parse_args()


def main(a):
    # the whole run is bounded: a stuck harness is an error, never a verdict
    try:
        if a.selftest:
            import hypothesis
            import anthunder
            print("hypothesis", hypothesis.__version__, "anthunder", anthunder.__file__)
            return 0
        if a.replay:
            return core.replay(a.replay)
        module = core.load(a.pid)
        chk = core.Check(a.pid, module, a.tier, a.seed, a.worker)
        if a.tier == "thorough" and not a.worker and int(os.environ.get("VERIF_WORKERS", "6")) > 1:
            return thorough(a, chk)
        return chk.run()
    except core.HarnessError as e:
        sys.stderr.write("HARNESS ERROR\n%s\n" % e)
        return 2
    except BaseException:
        import traceback
        traceback.print_exc()
        return 2


def guarded(a):
    """runs everything in a process of its own: code under test that ends the process has broken the property"""
    with tempfile.TemporaryFile() as fh:
        core.CURRENT = fh.fileno()
        pid = os.fork()
        if pid == 0:
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # ends with its parent
            rc = main(a)
            core.note(None, None)
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(rc)   # do not wait for threads of the code under test
        code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        core.CURRENT = None
        fh.seek(0)
        cur = fh.read()
        if not cur and code in (0, 1, 2):
            return code
        if not cur or -code in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT):
            sys.stderr.write("HARNESS ERROR: ended with %s\n" % code)
            return 2
        cur = json.loads(cur)
        what = "the process was ended ({}) while this was tried".format(signal.Signals(-code).name if code < 0 else
                                                                       "exit code %d" % code)
        if a.replay:
            print("violated: " + what)
            with open(a.replay) as f:
                print("VIOLATION property={} replay={}".format(json.load(f)["property"], a.replay))
            return 1
        module = core.load(a.pid)
        chk = core.Check(a.pid, module, a.tier, a.seed, a.worker)
        facet = {f.name: f for f in module.FACETS}[cur["facet"]]
        case = core.dec(cur["case"])
        chk.facet_stats(facet)["evaluations"] += 1
        chk.fail(facet, case, core.Violation(what))
        chk.finish()
        return 1


def thorough(a, chk):
    """several processes with different seeds, results merged"""
    n = int(os.environ.get("VERIF_WORKERS", "6"))
    with tempfile.TemporaryDirectory() as tmp:
        procs = []
        for i in range(n):
            out = os.path.join(tmp, "%d.json" % i)
            procs.append((out, subprocess.Popen(
                [sys.executable, "-X", "pycache_prefix=/nonexistent", "-m", "pbt.main", a.pid, "--tier", a.tier,
                 "--seed", str(a.seed * 1000 + i), "--worker", out])))
        codes = [p.wait() for _, p in procs]
        outs = []
        for out, _ in procs:
            if os.path.exists(out):
                with open(out) as fh:
                    outs.append(json.load(fh))
    cov = None
    for o in outs:
        for k, v in o["known"].items():
            chk.known_hits[k] += v
        if o["violation"] and not chk.violation:
            chk.violation = tuple(o["violation"])
        c = o["coverage"]
        if cov is None:
            cov = c
            continue
        cov["evaluations"] += c["evaluations"]
        # the workers use different seeds; cases that two of them share are counted twice
        cov["distinct_nontrivial"] += c["distinct_nontrivial"]
        for name, f in c["facets"].items():
            if name not in cov["facets"]:
                cov["facets"][name] = f
                continue
            g = cov["facets"][name]
            for k in ("evaluations", "distinct_nontrivial", "known_finding_cases"):
                g[k] += f[k]
            for l, x in f["labels"].items():
                g["labels"][l] = g["labels"].get(l, 0) + x
    if cov is None or (not chk.violation and any(c not in (0, 1) for c in codes)):
        sys.stderr.write("HARNESS ERROR: worker exit codes %s\n" % codes)
        return 2
    cov["workers"] = n
    chk.finish(cov=cov)
    return 1 if chk.violation else 0


if __name__ == "__main__":
    args = arguments()
    rc = guarded(args)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
