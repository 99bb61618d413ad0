"""Thread schedules: threads pause at random places inside the library, also in the middle of a line.

Without this the interpreter hardly ever switches threads between two neighbouring statements (a check and the action
that relies on it, say), whatever its switch interval.
"""
import os
import random
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor, wait

from . import REPO


class Jitter:
    """
    with Jitter(rate, seed): threads started inside pause at a fraction `rate` of the lines of the library they execute
    (with opcodes=True: of the byte codes)
    :param where: only modules whose path contains this
    """

    def __init__(self, rate=0, seed=0, opcodes=False, where=os.sep, interval=1e-6):
        self.rate, self.seed, self.opcodes, self.where, self.interval = rate, seed, opcodes, where, interval
        self.dirs = tuple(os.path.join(REPO, d) + os.sep for d in ("anthunder", "mysockpool", "mytracer"))
        self.n = 0
        self.pauses = 0
        self.local = threading.local()
        self.mine = {}

    def _call(self, frame, event, arg):
        if event != "call":
            return None
        code = frame.f_code
        mine = self.mine.get(code)
        if mine is None:
            f = code.co_filename
            mine = self.mine[code] = f.startswith(self.dirs) and self.where in f
        if not mine:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._step

    def _step(self, frame, event, arg):
        if event == "line" or event == "opcode":
            r = getattr(self.local, "rng", None)
            if r is None:
                self.n += 1
                r = self.local.rng = random.Random("%s/%s" % (self.seed, self.n))
            if r.random() < self.rate:
                self.pauses += 1
                time.sleep(r.choice((0, 0.00002, 0.0002)))
        return self._step

    def __enter__(self):
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(self.interval)
        if self.rate:
            threading.settrace(self._call)
        return self

    def __exit__(self, *a):
        if self.rate:
            threading.settrace(None)
        sys.setswitchinterval(self.old)
        self.rate = 0       # threads that live on are left alone


class Phases(Jitter):
    """pauses for as long as a facet lasts, its threads change between hurrying and dawdling"""
    RATES = (0, 0, 0.02, 0.1, 0.5)
    PHASE = 150     # lines
    AT_ONCE = 0.005

    def __init__(self, **kw):
        super().__init__(rate=1, **kw)

    def __enter__(self):
        """besides, every other job of a thread pool is over (when it takes no longer than AT_ONCE) before submit() returns"""
        self.submit, coin = ThreadPoolExecutor.submit, random.Random("%s/submit" % self.seed)

        def submit(pool, *a, **kw):
            f = self.submit(pool, *a, **kw)
            if coin.random() < 0.5:
                wait([f], self.AT_ONCE)
            return f
        ThreadPoolExecutor.submit = submit
        return super().__enter__()

    def __exit__(self, *a):
        ThreadPoolExecutor.submit = self.submit
        return super().__exit__(*a)

    def _step(self, frame, event, arg):
        if self.rate and (event == "line" or event == "opcode"):
            loc = self.local
            r = getattr(loc, "rng", None)
            if r is None:
                self.n += 1
                r = loc.rng = random.Random("%s/%s" % (self.seed, self.n))
                loc.left = 0
            if loc.left <= 0:
                loc.rate, loc.left = r.choice(self.RATES), r.randrange(1, self.PHASE)
            loc.left -= 1
            if loc.rate and r.random() < loc.rate:
                self.pauses += 1
                time.sleep(r.choice((0, 0.00002, 0.0002)))
        return self._step


def schedules(setup, teardown, where=os.sep):
    """setup and teardown of a facet that is executed under pausing threads (its listeners and clients start inside)"""
    box = []

    def _setup():
        j = Phases(seed=os.environ.get("VERIF_SEED", "1"), where=where)
        j.__enter__()
        box.append(j)
        if setup:
            setup()

    def _teardown():
        try:
            if teardown:
                teardown()
        finally:
            box.pop().__exit__()
    return dict(setup=_setup, teardown=_teardown)
