"""Runner: drives the facets of a property with Hypothesis, shrinks, records evidence, writes replay files.

A facet is (strategy of plain JSON-able cases, run(case)).  run() executes the case against the real code
and its oracle, raises Violation when the property is broken, and returns (nontrivial, labels).
A case is plain data, so a saved case replays without Hypothesis.
"""
import base64
import collections
import hashlib
import json
import os
import random
import re
import sys
import threading
import time
import traceback

from . import REPO, VERIF


class Violation(Exception):
    """The property does not hold on this case. `key` names the failure for the known-findings file."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class HarnessError(BaseException):
    """Something in the harness itself went wrong; never a violation (exit 2)."""


class _Stop(BaseException):
    """Ends a Hypothesis run early (time for shrinking used up)."""


def check(cond, msg, *args, key=None):
    if not cond:
        raise Violation(msg.format(*args) if args else msg, key)


class Facet:
    """one generated check of a property

    :param quick: cases in the quick tier
    :param thorough: cases per worker in the thorough tier (time budget permitting)
    :param hang_s: a single case that runs longer than this is a non-terminating call of the code under test
    :param examples: cases that are always executed, before the generated ones: where a case has a dimension with few
        values, each of which may be treated differently, all of them (the generator may miss some in the quick tier)
    :param retries: how often a replay repeats the case (for cases that depend on thread timing)
    """

    def __init__(self, name, strategy, run, quick=500, thorough=20000, hang_s=90, retries=1, rule="",
                 setup=None, teardown=None, batch=None, shrink_s=60, examples=()):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.hang_s, self.retries = quick, thorough, hang_s, retries
        self.rule, self.setup, self.teardown = rule, setup, teardown
        self.batch = batch or 500
        self.shrink_s = shrink_s
        self.examples = examples


# ---------------------------------------------------------------------------------------------- case (de)serialising
def enc(o):
    if isinstance(o, (bytes, bytearray)):
        return {"$b": base64.b64encode(bytes(o)).decode()}
    if isinstance(o, dict):
        if all(isinstance(k, str) for k in o) and "$b" not in o and "$d" not in o:
            return {k: enc(v) for k, v in o.items()}
        return {"$d": [[enc(k), enc(v)] for k, v in o.items()]}
    if isinstance(o, (list, tuple)):
        return [enc(x) for x in o]
    if isinstance(o, str):
        try:
            o.encode("utf-8")
        except UnicodeEncodeError:
            return {"$s": [ord(c) for c in o]}
        return o
    if o is None or isinstance(o, (bool, int, float)):
        return o
    raise TypeError("case holds %r" % type(o))


def dec(o):
    if isinstance(o, dict):
        if "$b" in o:
            return base64.b64decode(o["$b"])
        if "$d" in o:
            return {dec(k): dec(v) for k, v in o["$d"]}
        if "$s" in o:
            return "".join(map(chr, o["$s"]))
        return {k: dec(v) for k, v in o.items()}
    if isinstance(o, list):
        return [dec(x) for x in o]
    return o


def norm(case):
    """the case as a replay would see it (tuples become lists)"""
    return dec(enc(case))


def dumps(case):
    return json.dumps(enc(case), sort_keys=True)


# ---------------------------------------------------------------------------------------------- executing one case
def _from_repo(tb):
    return any(f.filename.startswith(REPO + "/") for f in traceback.extract_tb(tb))


def execute(facet, case):
    try:
        r = facet.run(case)
        return r if r is not None else (True, ())
    except Violation:
        raise
    except (Exception, SystemExit) as e:
        if _from_repo(e.__traceback__):
            last = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(REPO + "/")][-1]
            raise Violation("unexpected {}: {} (from {}:{})".format(
                type(e).__name__, e, os.path.relpath(last.filename, REPO), last.name)) from e
        if isinstance(e, (ArithmeticError, AssertionError, AttributeError, LookupError, TypeError, ValueError)):
            # what the code under test returned is not even of the expected shape
            raise Violation("cannot be examined, {!r} at {}".format(e, traceback.extract_tb(e.__traceback__)[-1])) from e
        if isinstance(e, ConnectionError):
            raise Violation("a connection was refused or lost: {!r} at {}".format(
                e, traceback.extract_tb(e.__traceback__)[-1])) from e
        raise HarnessError("".join(traceback.format_exception(e)))


CURRENT = None      # descriptor of the file that holds the case that is being tried, for guard() in main


def note(facet, case):
    """the process may be ended by what is tried"""
    if CURRENT is not None:
        b = json.dumps(dict(facet=facet.name, case=enc(case))).encode() if facet else b""
        os.ftruncate(CURRENT, 0)
        os.pwrite(CURRENT, b, 0)


def set_up(facet):
    """an exception that comes out of /repo while the facet is prepared is a violation (of every case)"""
    if not facet.setup:
        return
    try:
        facet.setup()
    except Violation:
        raise
    except Exception as e:
        if _from_repo(e.__traceback__):
            raise Violation("nothing can be tried, preparing it fails: {!r}".format(e)) from e
        raise


class Watchdog(threading.Thread):
    """reports a case that does not terminate"""

    def __init__(self, on_hang):
        super().__init__(daemon=True)
        self.on_hang, self.cur = on_hang, None
        self.start()

    def run(self):
        while True:
            time.sleep(1)
            cur = self.cur
            if cur and time.monotonic() - cur[0] > cur[1].hang_s:
                self.on_hang(cur[1], cur[2])


class Check:
    def __init__(self, pid, module, tier, seed, worker=None):
        self.pid, self.module, self.tier, self.seed, self.worker = pid, module, tier, seed, worker
        self.level = "exploration"
        self.t0 = time.monotonic()
        self.stats = collections.OrderedDict()
        self.known = load_known(pid)
        self.known_hits = collections.Counter()
        self.violation = None
        self.watchdog = Watchdog(self._hang)

    # ---- budget
    def budget(self):
        if self.tier == "quick":
            return float(os.environ.get("VERIF_QUICK_S", "150"))
        return float(os.environ.get("VERIF_THOROUGH_S", "600"))

    def left(self):
        return self.budget() - (time.monotonic() - self.t0)

    # ---- one facet
    def facet_stats(self, facet):
        return self.stats.setdefault(facet.name, dict(
            evaluations=0, nontrivial=0, labels=collections.Counter(), seen=set(), samples=[], facet=facet,
            excluded=0, seconds=0.0))

    def _one(self, facet, case):
        st = self.facet_stats(facet)
        st["evaluations"] += 1
        note(facet, case)
        self.watchdog.cur = (time.monotonic(), facet, case)
        try:
            nontrivial, labels = execute(facet, case)
        except Violation as v:
            if v.key is not None and v.key in self.known:
                self.known_hits[v.key] += 1
                st["excluded"] += 1
                return
            raise
        finally:
            self.watchdog.cur = None
        for l in labels:
            st["labels"][l] += 1
        if nontrivial:
            h = hashlib.blake2b(dumps(case).encode(), digest_size=8).digest()
            if h not in st["seen"]:
                st["seen"].add(h)
                if len(st["samples"]) < 3 and (len(st["seen"]) in (1, 20, 100)):
                    st["samples"].append(case)

    def run_corpus(self):
        facets = {f.name: f for f in self.module.FACETS}
        cases = collections.OrderedDict()
        for path in ("corpus/%s.jsonl", "corpus/cover/%s.jsonl"):
            path = os.path.join(VERIF, path % self.pid)
            if not os.path.exists(path):
                continue
            with open(path) as fh:
                for line in fh:
                    if line.strip():
                        d = json.loads(line)
                        cases.setdefault(d["facet"], []).append(dec(d["case"]))
        for name, facet in facets.items():
            if facet.examples:
                cases.setdefault(name, []).extend(norm(x) for x in facet.examples)
        for name, cs in cases.items():
            facet = facets[name]
            try:
                set_up(facet)
            except Violation as v:
                self.fail(facet, cs[0], v)
                return
            try:
                for case in cs:
                    try:
                        self._one(facet, case)
                    except Violation as v:
                        self.fail(facet, case, v)
                        return
            finally:
                if facet.teardown:
                    facet.teardown()

    def run_facet(self, facet):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        total = facet.quick if self.tier == "quick" else facet.thorough
        if self.tier == "quick" and "VERIF_SCALE" in os.environ:
            total = max(1, int(total * float(os.environ["VERIF_SCALE"])))
        st = self.facet_stats(facet)
        strategy = facet.strategy(self.tier) if callable(facet.strategy) else facet.strategy
        done, batch_no = 0, 0
        t_facet = time.monotonic()
        try:
            set_up(facet)
        except Violation as v:
            self.fail(facet, {}, v)
            return
        try:
            while done < total and self.left() > 0:
                n = min(facet.batch, total - done)
                failure = {}

                def body(case):
                    case = norm(case)
                    now = time.monotonic()
                    if failure and now - failure["t0"] > facet.shrink_s:
                        raise _Stop()
                    if not failure and self.left() < -60:
                        raise _Stop()   # out of time: inconclusive for the rest of the batch
                    try:
                        self._one(facet, case)
                    except Violation as v:
                        failure.setdefault("t0", now)
                        if "case" not in failure or len(dumps(case)) <= len(dumps(failure["case"])):
                            failure["case"], failure["v"] = case, v
                        raise

                s = int.from_bytes(hashlib.blake2b(
                    "{}/{}/{}/{}".format(self.seed, self.pid, facet.name, batch_no).encode(),
                    digest_size=8).digest(), "big")
                t = given(strategy)(body)
                t = settings(max_examples=n, deadline=None, database=None, print_blob=False,
                             report_multiple_bugs=False,
                             phases=[Phase.generate, Phase.target, Phase.shrink],
                             suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                                    HealthCheck.large_base_example])(t)
                t = hypothesis.seed(s)(t)
                try:
                    t()
                except HarnessError:
                    raise
                except BaseException as e:
                    if failure:
                        self.fail(facet, failure["case"], failure["v"])
                        return
                    if isinstance(e, _Stop):
                        return
                    raise
                done += n
                batch_no += 1
        finally:
            st["seconds"] += time.monotonic() - t_facet
            if facet.teardown:
                facet.teardown()

    # ---- outcomes
    def fail(self, facet, case, v):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        tag = hashlib.blake2b((facet.name + dumps(case)).encode(), digest_size=5).hexdigest()
        path = os.path.join(d, "{}-{}-{}.json".format(self.pid, facet.name, tag))
        with open(path, "w") as fh:
            json.dump(dict(property=self.pid, facet=facet.name, seed=self.seed, message=str(v), case=enc(case)), fh,
                      indent=1)
        self.violation = (path, str(v))

    def _hang(self, facet, case):
        self.fail(facet, case, Violation("the call did not terminate within {} s".format(facet.hang_s)))
        self.finish(hard=True)

    def coverage(self):
        cov = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[], facets={})
        rules = []
        for name, st in self.stats.items():
            cov["evaluations"] += st["evaluations"]
            cov["distinct_nontrivial"] += len(st["seen"])
            cov["samples"] += [dict(facet=name, case=short(enc(c))) for c in st["samples"][:2]]
            rules.append("[{}] {}".format(name, st["facet"].rule))
            cov["facets"][name] = dict(evaluations=st["evaluations"], distinct_nontrivial=len(st["seen"]),
                                       labels=dict(sorted(st["labels"].items())), seconds=round(st["seconds"], 2),
                                       known_finding_cases=st["excluded"])
        cov["rule"] = " ".join(rules)
        return cov

    def finish(self, hard=False, cov=None):
        if self.worker is not None:
            out = dict(coverage=self.coverage(), known=dict(self.known_hits), violation=self.violation)
            with open(self.worker, "w") as fh:
                json.dump(out, fh)
        else:
            ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                      coverage=cov or self.coverage(),
                      assumptions=list(getattr(self.module, "ASSUMPTIONS", [])),
                      wall_s=round(time.monotonic() - self.t0, 2), violations=1 if self.violation else 0)
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
                json.dump(ev, fh, indent=1)
            for key in self.known:
                if self.known_hits[key]:
                    print("KNOWN-FINDING: property={} {}".format(self.pid, self.known[key]))
            if self.violation:
                print("violated: " + self.violation[1].replace("\n", " ")[:2000])
                print("VIOLATION property={} replay={}".format(self.pid, self.violation[0]))
            else:
                c = ev["coverage"]
                print("property={} held on {} cases ({} distinct non-trivial), {:.1f} s".format(
                    self.pid, c["evaluations"], c["distinct_nontrivial"], ev["wall_s"]))
        sys.stdout.flush()
        note(None, None)
        if hard:
            os._exit(1)

    def run(self):
        """:return: exit code"""
        self.run_corpus()
        for facet in self.module.FACETS:
            if self.violation:
                break
            self.run_facet(facet)
        self.finish()
        return 1 if self.violation else 0


def short(o, n=1500):
    s = json.dumps(o)
    return o if len(s) <= n else s[:n] + "..."


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    known = collections.OrderedDict()
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                line = line.strip()
                if line and not line.startswith("#"):
                    d = json.loads(line)
                    if d["property"] == pid and d.get("status") == "known":
                        known[d["key"]] = d["what"]
    return known


def replay(path):
    try:
        return _replay(path)
    finally:
        note(None, None)


def _replay(path):
    with open(path) as fh:
        d = json.load(fh)
    module = load(d["property"])
    facet = {f.name: f for f in module.FACETS}[d["facet"]]
    case = dec(d["case"])
    known = load_known(d["property"])

    def _hang(f, c):
        print("violated: the call did not terminate\nVIOLATION property={} replay={}".format(d["property"], path))
        sys.stdout.flush()
        note(None, None)
        os._exit(1)

    wd = Watchdog(_hang)
    try:
        set_up(facet)
    except Violation as v:
        print("violated: " + str(v))
        print("VIOLATION property={} replay={}".format(d["property"], path))
        return 1
    for _ in range(facet.retries):
        note(facet, case)
        wd.cur = (time.monotonic(), facet, case)
        try:
            execute(facet, case)
        except Violation as v:
            if v.key in known and v.key is not None:
                print("KNOWN-FINDING: property={} {}".format(d["property"], known[v.key]))
                return 0
            print("violated: " + str(v))
            print("VIOLATION property={} replay={}".format(d["property"], path))
            return 1
        finally:
            wd.cur = None
    print("property={} holds on this case".format(d["property"]))
    return 0


def load(pid):
    import importlib
    d = os.path.join(VERIF, "pbt", "checks")
    for fn in os.listdir(d):
        if re.match(pid.lower() + r"_.*\.py$", fn):
            return importlib.import_module("pbt.checks." + fn[:-3])
    raise HarnessError("no check for " + pid)
