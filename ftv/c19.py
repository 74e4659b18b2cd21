"""C19: intersection and merge cost models count what the hardware idiom would do."""
from .core import HYP, Sub, Violation, check, check_eq  # noqa
from hypothesis import strategies as st
import itertools

from . import gens, nest, raw
from .raw import F, M, P, T

PROP = "C19"
RULE = ("random coordinate lists for any number of consecutive fibers under up to two outer "
        "loops, traced by the library or written down directly, fed in random batches; oracle: "
        "direct merges of the raw lists. Swaps: random trees, radices and latencies against a "
        "direct count. Non-trivial: some fiber has at least two comparison steps; a merge of at "
        "least two lists.")
ASSUMPTIONS = [
    "a batch holds whole fibers; fibers of one run differ in the iteration of an outer loop",
    "radix at least two; integer coordinates; every stored sub-fiber stores an element",
]

INF = float("inf")


# ---------------------------------------------------------------- oracle

def merge(a, b):
    """(two-finger steps, skip-ahead steps, presented of a, presented of b)"""
    a, b = list(a), list(b)
    steps = ""
    while a and b:
        if a[0] == b[0]:
            steps += "="
            a.pop(0), b.pop(0)
        elif a[0] < b[0]:
            steps += "<"
            a.pop(0)
        else:
            steps += ">"
            b.pop(0)
    runs = sum(1 if k == "=" else 0 for k in steps) + \
        sum(1 for k, _ in itertools.groupby(steps) if k != "=")
    return len(steps), runs, steps.count("=") + steps.count("<") + bool(a), \
        steps.count("=") + steps.count(">") + bool(b)


# ---------------------------------------------------------------- intersections

@st.composite
def lists(draw, n):
    kind = draw(st.integers(0, 11))
    full = gens.coordset(n)
    a, b = draw(full), draw(full)
    if kind == 0:
        b = list(a)
    elif kind == 1:
        b = [x for x in range(n) if x not in a]
    elif kind == 2:
        a = []
    elif kind == 3:
        b = []
    elif kind == 4:
        k = draw(st.integers(0, n))
        a, b = [x for x in a if x < k], [x for x in b if x >= k]
    if draw(st.booleans()):
        a, b = b, a
    return [a, b]


@st.composite
def runs(draw):
    n = gens.wide(draw) or draw(st.sampled_from([2, 3, 5, 8, 8, 12]))
    depth = draw(st.sampled_from([0, 1, 1, 1, 2, 2]))
    outer = []
    if depth == 0:
        outer = [[]]
    elif depth == 1:
        outer = [[j] for j in draw(st.lists(st.integers(0, 9), max_size=6, unique=True)
                                   .map(sorted))]
    else:
        for i in draw(st.lists(st.integers(0, 9), max_size=3, unique=True).map(sorted)):
            outer += [[i, j] for j in draw(st.lists(st.integers(0, 9), max_size=3, unique=True)
                                           .map(sorted))]
    fibers = [draw(lists(n)) for _ in outer]
    return {"depth": depth, "outer": outer, "fibers": fibers,
            "cuts": draw(st.lists(st.booleans(), min_size=len(outer), max_size=len(outer))),
            "zeros": draw(st.integers(0, 3)) == 0, "n": n,
            "lf": draw(st.booleans()), "fmt": draw(st.sampled_from(["CC", "CC", "CU", "UC"])),
            "jitter": draw(st.integers(0, 5))}


def models():
    from fibertree.model import (LeaderFollowerIntersector, SkipAheadIntersector,
                                 TwoFingerIntersector)
    return {"two-finger": TwoFingerIntersector(), "skip-ahead": SkipAheadIntersector(),
            "lf0": LeaderFollowerIntersector(), "lf1": LeaderFollowerIntersector()}


def feed(ms, t0, t1):
    ms["two-finger"].addTraces([list(x) for x in t0], [list(x) for x in t1])
    ms["skip-ahead"].addTraces([list(x) for x in t0], [list(x) for x in t1])
    ms["lf0"].addTraces([list(x) for x in t0])
    ms["lf1"].addTraces([list(x) for x in t1])


def counts(ms):
    return {k: m.getNumIntersects() for k, m in ms.items()}


def expect(fibers):
    out = {"two-finger": 0, "skip-ahead": 0, "lf0": 0, "lf1": 0}
    for a, b in fibers:
        for k, x in zip(out, merge(a, b)):
            out[k] += x
    return out


def label(case, ctx):
    fs = case["fibers"]
    ctx.label(f"outer{case['depth']}", f"fibers{min(len(fs), 5)}")
    for a, b in fs:
        ctx.label("empty" if not a and not b else "one-empty" if not a or not b else
                  "identical" if a == b else "disjoint" if not set(a) & set(b) else "mixed")
    ctx.nt(any(merge(a, b)[0] >= 2 for a, b in fs))


def run_direct(case, ctx):
    """Traces written down row by row."""
    names = ["M", "J"][:case["depth"]] + ["K"]
    head = [n + "_pos" for n in names] + names + ["fiber_pos"]
    batches, all_rows = [[[], []]], [[], []]
    k = case["jitter"]
    seen = {}
    for pre, (a, b), cut in zip(case["outer"], case["fibers"], case["cuts"]):
        _, _, na, nb = merge(a, b)
        stamp = []
        for i in range(len(pre)):
            s = seen.setdefault(tuple(pre[:i]), [])
            if pre[i] not in s:
                s.append(pre[i])
            stamp.append(s.index(pre[i]))
        for o, (cs, n) in enumerate(((a, na), (b, nb))):
            for i, c in enumerate(cs[:n]):
                row = stamp + [k + i] + list(pre) + [c, i]
                batches[-1][o].append(row)
                all_rows[o].append(row)
        k += case["jitter"]
        if cut:
            batches.append([[], []])
    want = expect(case["fibers"])
    ms = models()
    started = [False, False]
    for b in batches:
        rows = []
        for o in (0, 1):
            t = list(b[o])
            if t and not started[o]:
                started[o] = True
                t.insert(0, head)
            rows.append(t)
        feed(ms, *rows)
    check_eq(counts(ms), want, f"counts over {len(batches)} batches")
    ms = models()
    feed(ms, *([head] + r if r else [] for r in all_rows))
    check_eq(counts(ms), want, "counts in one shot")
    label(case, ctx)


def fiber_of(cs, n, zeros, fmt):
    """A fiber with these coordinates, possibly with explicit zeros in between."""
    pts = [(c, c + 1) for c in cs]
    if zeros:
        pts += [(c, 0) for c in range(n) if c not in cs and c % 2]
    pts.sort()
    f = F()([c for c, _ in pts], [v for _, v in pts], shape=n)
    f.getRankAttrs().setId("K")
    f.getRankAttrs().setFormat(fmt)
    return f


def run_collected(case, ctx):
    """Traces collected from the intersections themselves."""
    depth, n = case["depth"], case["n"]
    fa, fb = case["fmt"]
    fibers = case["fibers"]
    lf = case["lf"]
    # an uncompressed operand presents every coordinate of its shape
    eff = [[list(range(n)) if fa == "U" and not lf else a,
            list(range(n)) if fb == "U" and not lf else b] for a, b in fibers]
    ops = [(fiber_of(a, n, case["zeros"], "C" if lf else fa),
            fiber_of(b, n, case["zeros"], "C" if lf else fb)) for a, b in fibers]
    Metrics = M()
    ms = models()
    whole = models()
    got = [[], []]
    nest.reset()
    with nest.Scratch() as d:
        Metrics.beginCollect(f"{d}/x")
        try:
            for o in (0, 1):
                Metrics.trace("K", f"intersect_{o}", consumable=True)
                Metrics.trace("K", f"intersect_{o}")
            it = iter(zip(ops, case["cuts"]))
            matched = []

            def inner():
                (a, b), cut = next(it)
                e = F().intersection(a, b, style="leader-follower") if lf else a & b
                matched.append([c for c, _ in e])
                if cut:
                    flush()

            def flush():
                ts = [Metrics.consumeTrace("K", f"intersect_{o}") for o in (0, 1)]
                for o in (0, 1):
                    got[o] += ts[o]
                feed(ms, *ts)
            outer = case["outer"]
            if depth == 0:
                inner()
            elif depth == 1:
                for _ in level([p[0] for p in outer], "J"):
                    inner()
            else:
                for i, _ in level(sorted({p[0] for p in outer}), "M"):
                    for _ in level([p[1] for p in outer if p[0] == i], "J"):
                        inner()
            flush()
        finally:
            try:
                Metrics.endCollect()
            finally:
                nest.reset()
        files = [nest.readtrace(f"{d}/x-K-intersect_{o}.csv") for o in (0, 1)]
    if not lf:
        check_eq(matched, [[c for c in a if c in b] for a, b in eff], "matched coordinates")
    if lf:
        want = {"lf0": sum(len(a) for a, _ in fibers)}
    else:
        want = expect(eff)
    check_eq({k: v for k, v in counts(ms).items() if k in want}, want,
             "counts over batches of collected traces")
    feed(whole, *([f[0]] + f[1] if f is not None else [] for f in files))
    check_eq({k: v for k, v in counts(whole).items() if k in want}, want,
             "counts of the trace files in one shot")
    label(case, ctx)
    ctx.label("leader-follower" if lf else case["fmt"])


def level(cs, rank):
    f = F()(list(cs), [1] * len(cs))
    f.getRankAttrs().setId(rank)
    return f


# ---------------------------------------------------------------- swaps

@st.composite
def swaps(draw):
    depth = draw(st.sampled_from([0, 0, 1, 1, 2]))
    n = depth + 2 + draw(st.sampled_from([0, 0, 0, 1]))
    wide = {2: 7, 3: 4, 4: 3}[n] if n < 5 else 2
    shape = [draw(st.integers(1, 4)) for _ in range(n)]
    shape[depth] = draw(st.integers(1, wide + 4))
    shape[depth + 1] = draw(st.integers(1, 6))
    shape = gens.widen(draw, shape, sizes=[17, 24, 300])

    def tree(level):
        cs = draw(gens.coordset(shape[level]))
        if level and not cs:
            cs = [draw(st.integers(0, shape[level] - 1))]
        return [[c, draw(st.sampled_from([1, 2, 0, -3, 0.5])) if level + 1 == n
                 else tree(level + 1)] for c in cs]
    return {"spec": tree(0), "n": n, "depth": depth, "known": draw(st.booleans()),
            "shape": shape,
            "fmt": draw(st.lists(st.sampled_from("CCCU"), min_size=n, max_size=n)),
            "radix": draw(st.sampled_from([2, 2, 3, 4, 5, 7, 100, INF, "N"])),
            "lat": draw(st.sampled_from([0, 1, 2, 3, 17, "N", "N", "N"])),
            "vals": draw(st.lists(st.sampled_from([0, 0, 1, -5, 9]), min_size=1, max_size=4))}


def count(parts, radix, lat):
    """Cost of merging the coordinate lists, round after round."""
    total = 0
    radix = INF if radix == "N" else radix
    while len(parts) > 1:
        new = []
        k = min(radix, len(parts))
        for i in range(0, len(parts), k):
            group = [sorted(x) for x in parts[i:i + k]]
            flat = sorted(c for x in group for c in x)
            if lat != "N":
                total += lat * (len(group) + len(flat))
            else:
                total += compares(group)
            new.append(flat)
        parts = new
    return total


def compares(group):
    """Heads kept in order, smallest coordinate (then latest list) first; a new head is compared
    with every head that goes before it and with the one it stops at."""
    head, total = [], 0
    group = [list(x) for x in group]

    def insert(i):
        nonlocal total
        if group[i]:
            x = (group[i].pop(0), -i)
            total += 1 + sum(h < x for h in head)
            head.append(x)
    for i in range(len(group)):
        insert(i)
    while head:
        x = min(head)
        head.remove(x)
        insert(-x[1])
    return total


def run_swaps(case, ctx):
    from fibertree.model import Compute
    n, depth = case["n"], case["depth"]
    ids = [f"R{i}" for i in range(n)]
    vals = itertools.cycle(case["vals"])

    def other(spec, level):
        return [[c, next(vals) if level + 1 == n else other(x, level + 1)] for c, x in spec]
    level = [case["spec"]]
    for _ in range(depth):
        level = [x for s in level for _, x in s]
    want = 0
    groups = []
    for s in level:
        parts = [[c for c, _ in x] for _, x in s]
        groups.append(parts)
        want += count(parts, case["radix"], case["lat"])
    for spec, what in ((case["spec"], "swaps"),
                       (other(case["spec"], 0), "swaps with other payload values")):
        t = raw.mk_tensor({"ranks": ids, "shape": case["shape"] if case["known"] else None,
                           "default": 0, "spec": spec,
                           "fmt": case["fmt"] if case["known"] else None})
        before = raw.tsnap(t)
        check_eq(Compute.numSwaps(t, depth, case["radix"], case["lat"]), want, what)
        check_eq(raw.tsnap(t), before, "the tensor after its swaps were counted")
    ctx.label(f"depth{depth}", f"radix{case['radix']}", "compares" if case["lat"] == "N" else
              "latency", *(f"lists{min(len(g), 9)}" for g in groups))
    ctx.nt(any(len(g) > 1 for g in groups))


def small(tier):
    """All pairs of subsets of {0,1,2} for two consecutive fibers, every batching."""
    subs = [[c for c in range(3) if m >> c & 1] for m in range(8)]
    pairs = [[a, b] for a in subs for b in subs]
    k = 3 if tier == "quick" else 1
    for i, x in enumerate(pairs):
        for j, y in enumerate(pairs):
            if (i + j) % k == 0:
                yield {"depth": 1, "outer": [[0], [2]], "fibers": [x, y],
                       "cuts": [bool((i + j) & 1), False], "zeros": False, "n": 3, "lf": False,
                       "fmt": "CC", "jitter": 1}


SUBS = [
    Sub("small", run_direct, exhaustive=small, quick=0, thorough=0,
        rule="pairs of subsets of {0,1,2} for two consecutive fibers (all when thorough)"),
    Sub("direct", run_direct, runs, quick=3000, thorough=80000,
        rule="traces written down row by row"),
    Sub("collected", run_collected, runs, quick=2500, thorough=60000,
        rule="traces collected from the intersections, in memory and in files"),
    Sub("swaps", run_swaps, swaps, quick=2500, thorough=80000),
]
