"""mkcover.py [Cxx ...]: writes corpus/cover/Cxx.jsonl.

The generators produce some values of a small set (a status, a kind of failure, an exception) seldom: a quick run may
miss one altogether. This tool generates a large pool of cases without executing them and picks small ones that
together contain every value of every small set, and as many pairs of values of neighbouring fields as fit a quarter of
the quick budget. Checks execute these cases first. To be run again whenever a generator changes.
"""
import collections
import glob
import importlib
import itertools
import json
import os
import random
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import pbt  # noqa
import pbt.core as core  # noqa
from hypothesis import HealthCheck, Phase, given, seed, settings  # noqa

SMALL, PAIR = 40, 16


def pool(facet, n):
    strat = facet.strategy("quick") if callable(facet.strategy) else facet.strategy
    out = {}
    for k in range(max(1, n // 300)):
        @seed(1000 + k)
        @settings(max_examples=300, database=None, deadline=None, phases=[Phase.generate],
                  suppress_health_check=list(HealthCheck))
        @given(strat)
        def t(c):
            c = core.norm(c)
            d = core.dumps(c)
            if len(d) < 4000:
                out.setdefault(d, c)
        t()
    return out


def fields(o, path=""):
    """(path, value) of each scalar, grouped by the object they are in"""
    if isinstance(o, dict):
        here = [(path + "." + str(k), repr(v)) for k, v in o.items() if isinstance(v, (str, bool, int, type(None), float))]
        if here:
            yield here
        for k, v in o.items():
            yield from fields(v, path + "." + str(k))
    elif isinstance(o, (list, tuple)):
        for v in o:
            if isinstance(v, (str, bool, int, type(None), float)):
                yield [(path + "[]", repr(v))]
            else:
                yield from fields(v, path + "[]")


def cover(facet):
    cases = pool(facet, max(3000, 8 * facet.quick))
    vals = collections.defaultdict(collections.Counter)
    for d, c in cases.items():
        for g in fields(c):
            for p, v in g:
                vals[p][v] += 1
    small = {p for p in vals if 2 <= len(vals[p]) <= SMALL}
    pair = {p for p in small if len(vals[p]) <= PAIR}
    feats = {}
    for d, c in cases.items():
        s = set()
        for g in fields(c):
            s.update((x,) for x in g if x[0] in small)
            s.update(itertools.combinations(sorted(x for x in g if x[0] in pair), 2))
        feats[d] = s
    left = set().union(*feats.values()) if feats else set()
    single = {x for x in left if len(x) == 1}
    chosen = []
    rng = random.Random(5)
    names = list(cases)
    rng.shuffle(names)
    for goal, limit in ((single, facet.quick // 2), (left, facet.quick // 4)):
        todo = set(goal)
        for d in chosen:
            todo -= feats[d]
        while todo and len(chosen) < limit:
            best = max(names, key=lambda d: len(feats[d] & todo) / (len(d) + 60.0))
            gain = feats[best] & todo
            if not gain:
                break
            chosen.append(best)
            todo -= gain
    total = len(left)
    for d in chosen:
        left -= feats[d]
    print(facet.name, "pool", len(cases), "features", total, "covered", total - len(left), "by", len(chosen), "of", facet.quick,
          "values left", sum(len(x) == 1 for x in left))
    return [json.dumps(dict(facet=facet.name, case=core.enc(cases[d]))) for d in chosen]


def main(ids):
    os.makedirs(os.path.join(VERIF, "corpus", "cover"), exist_ok=True)
    for path in sorted(glob.glob(os.path.join(VERIF, "pbt", "checks", "c*.py"))):
        name = os.path.basename(path)[:-3]
        pid = name[:3].upper()
        if ids and pid not in ids:
            continue
        print(pid)
        lines = []
        for facet in importlib.import_module("pbt.checks." + name).FACETS:
            if facet.quick >= 40:
                lines += cover(facet)
        with open(os.path.join(VERIF, "corpus", "cover", pid + ".jsonl"), "w") as fh:
            fh.write("".join(x + "\n" for x in lines))


main(sys.argv[1:])
