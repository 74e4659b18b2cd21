"""C08: splits partition a fiber losslessly at exactly the stated boundaries."""
from .core import HYP, Sub, Violation, check, check_eq  # noqa
from hypothesis import strategies as st

from . import gens, raw
from .raw import F, P, T

PROP = "C08"
RULE = ("splits of fibers and of every rank of tensors, re-split up to three times; every result "
        "level is compared with partitions recomputed from the operand's raw element list and "
        "active range. Non-trivial: at least two active non-empty elements and either two "
        "partitions or a partition boundary strictly inside the active range.")
ASSUMPTIONS = ["a partition's halo extends its interval as clipped to the active range",
               "an empty active range is split without halos",
               "elements before the first boundary of a non-uniform split belong to no partition"]

KINDS = ["uniform", "nonuniform", "equal", "unequal"]


def occupancy(f, default):
    """[(coord, payload)] of the non-empty elements, raw."""
    out = []
    for c, p in zip(f.coords, f.payloads):
        if isinstance(p, F()):
            if raw.content(p, default):
                out.append((c, p))
        elif raw.unbox(p) != default:
            out.append((c, p))
    return out


def boundaries(kind, arg, coords, active):
    """[(lo, hi)] of every partition whose clipped interval is not empty."""
    a0, a1 = active
    act = [c for c in coords if a0 <= c < a1]
    if kind == "uniform":
        if a0 >= a1:
            return []
        out = []
        p = a0 // arg * arg
        while p < a1:
            out.append((p, p + arg))
            p += arg
        return out
    if kind == "nonuniform":
        ss = list(arg) + [None]
    else:
        ss, at = [], 0
        sizes = list(arg) if kind == "unequal" else None
        i = 0
        while at < len(act):
            ss.append(a0 if at == 0 else act[at])
            if sizes is None:
                at += arg
            elif i < len(sizes):
                at += sizes[i]
                i += 1
            else:
                break                      # the remainder is the last chunk
        ss.append(None)
    out = []
    for lo, hi in zip(ss, ss[1:]):
        clo = max(lo, a0)
        chi = a1 if hi is None else min(hi, a1)
        if clo < chi:
            out.append((lo, hi))
    return out


def expect(f, default, split):
    """Expected (upper coord, [(coord, value)], active range) list for one fiber."""
    kind, arg, rel, pre, post = split
    a0, a1 = f.getActive()
    occ = occupancy(f, default)
    out = []
    for lo, hi in boundaries(kind, arg, [c for c, _ in occ], (a0, a1)):
        clo = max(lo, a0)
        chi = a1 if hi is None else min(hi, a1)
        mem = [(c, p) for c, p in occ
               if (c >= clo - pre if pre else c >= clo) and (c < chi + post if post else c < chi)]
        if mem:
            o = lo if rel else 0
            out.append((lo, [((c - o) if rel else c, p) for c, p in mem],
                        (clo - o, chi - o) if rel else (clo, chi)))
    return out


def tree(p, default):
    """Value of an element, empties dropped (a split may copy or drop explicit defaults)."""
    if isinstance(p, F()):
        return sorted(raw.content(p, default).items())
    return raw.unbox(p)


def compare(f, got, default, split, what):
    """got is the fiber a split made of f."""
    exp = expect(f, default, split)
    check(isinstance(got, F()), "{}: the upper level is {!r}", what, got)
    check_eq(got.coords, [x[0] for x in exp], f"{what}: upper coordinates")
    for (lo, mem, act), low in zip(exp, got.payloads):
        w = f"{what}: partition {lo}"
        check(isinstance(low, F()), "{} is {!r}", w, low)
        check_eq([(c, tree(p, default)) for c, p in zip(low.coords, low.payloads)],
                 [(c, tree(p, default)) for c, p in mem], w)
        check_eq(tuple(low.getActive()), act, w + " active range")
        check_eq([c for c, _ in low.iterOccupancy()], [c for c, _ in mem], w + " iterated")
        if not (split[3] or split[4]):
            check_eq([c for c, _ in low.iterActive()], [c for c, _ in mem],
                     w + " iterated over its active range")
    return exp


def descend(f, got, depth, default, split, what, stats):
    if depth == 0:
        exp = compare(f, got, default, split, what)
        stats["parts"] = max(stats["parts"], len(exp))
        n = sum(f.getActive()[0] <= c < f.getActive()[1] for c, _ in occupancy(f, default))
        stats["elems"] = max(stats["elems"], n)
        return
    check_eq(got.coords, f.coords, f"{what}: coordinates above the split rank")
    for c, p, q in zip(f.coords, f.payloads, got.payloads):
        descend(p, q, depth - 1, default, split, f"{what}[{c}]", stats)


@st.composite
def split(draw, tuples=False):
    k = draw(st.sampled_from(KINDS if not tuples else ["equal", "unequal"]))
    if k == "uniform":
        arg = draw(st.integers(1, 6))
    elif k == "nonuniform":
        arg = draw(st.lists(st.integers(0, 10), min_size=1, max_size=4, unique=True).map(sorted))
    elif k == "equal":
        arg = draw(st.integers(1, 4))
    else:
        arg = draw(st.lists(st.integers(1, 3), min_size=1, max_size=4))
    if tuples:
        return (k, arg, False, 0, 0)
    h = st.sampled_from([0, 0, 0, 1, 2, 3])
    return (k, arg, draw(st.booleans()), draw(h), draw(h))


def call(o, sp, **kw):
    k, arg, rel, pre, post = sp
    fn = {"uniform": o.splitUniform, "nonuniform": o.splitNonUniform, "equal": o.splitEqual,
          "unequal": o.splitUnEqual}[k]
    if isinstance(arg, (list, tuple)):
        arg = list(arg)
    if rel:
        kw["relativeCoords"] = True
    if pre:
        kw["pre_halo"] = pre
    if post:
        kw["post_halo"] = post
    return fn(arg, **kw)


# ---------------------------------------------------------------- one fiber

@st.composite
def one(draw):
    depth = draw(st.sampled_from([1, 1, 1, 2]))
    default = draw(st.sampled_from([0, 0, 0, 0, 3, 1000, 0.5]))
    n = gens.wide(draw) or draw(st.integers(0, 12))
    sh = [max(n, 1), 2][:depth]
    sp = draw(gens.spec(sh, default)) if draw(st.booleans()) else \
        draw(gens.rspec(sh, extra=[default]))
    o = {"depth": depth, "default": default, "spec": sp, "active": None,
         "shape": sh if draw(st.booleans()) else None, "own": draw(st.booleans()),
         "fmt": draw(st.sampled_from("CCCU")), "tuples": False}
    if draw(st.integers(0, 2)) == 0:
        lo = draw(st.integers(0, n + 1))
        o["active"] = (lo, draw(st.integers(lo, n + 2)))
    o["split"] = draw(split())
    o["asfiber"] = draw(st.booleans())
    if draw(st.integers(0, 7)) == 0 and depth == 1:
        o["spec"] = [[(c // 4, c % 4), v] for c, v in sp]
        o["shape"] = [(4, 4)] if o["shape"] else None
        o["active"], o["tuples"], o["fmt"] = None, True, "C"
        o["split"] = draw(split(tuples=True))
    return o


def mk(o):
    f = raw.mk_fiber(o["spec"], o["depth"], o["default"], shape=o["shape"])
    t = None
    if o["own"]:
        t = T().fromFiber(rank_ids=["K", "N"][:o["depth"]], fiber=f, default=o["default"],
                          shape=o["shape"])
        f = t.getRoot()
        t.setFormat("K", o["fmt"])
    else:
        f.getRankAttrs().setFormat(o["fmt"])
    if o["active"]:
        f.setActive(o["active"])
    return f, t


def run_one(case, ctx):
    o = case
    f, t = mk(o)
    before = raw.snap(t or f, ids=True)
    sp = o["split"]
    if f.getActive()[0] >= f.getActive()[1]:
        sp = sp[:3] + (0, 0)           # no interval, so no halo around it
    what = f"split {sp}"
    if sp[0] == "nonuniform" and o["asfiber"]:
        bounds = F()(list(sp[1]), [1] * len(sp[1]))
        kw = {}
        got = f.splitNonUniform(bounds, relativeCoords=sp[2], pre_halo=sp[3], post_halo=sp[4])
    else:
        got = call(f, sp)
    if raw.snap(t or f, ids=True) != before:
        raise Violation(f"{what}: the operand changed")
    exp = compare(f, got, o["default"], sp, what)
    raw.wellformed(got, o["depth"] + 1, what)
    if not (sp[3] or sp[4]) and sp[0] != "nonuniform":
        # every active non-empty element exactly once
        a0, a1 = f.getActive()
        n = sum(a0 <= c < a1 for c, _ in occupancy(f, o["default"]))
        check_eq(sum(len(x.coords) for x in got.payloads), n, what + ": number of elements")
    ctx.label(sp[0], "rel" if sp[2] else "abs", "halo" if sp[3] or sp[4] else "nohalo",
              "active" if o["active"] else "whole", "tuple" if o["tuples"] else "int", o["fmt"])
    ctx.nt(len(occupancy(f, o["default"])) >= 2 and len(exp) >= 2)


# ---------------------------------------------------------------- tensors, re-splits

@st.composite
def deep(draw):
    depth = draw(st.sampled_from([1, 1, 2, 2, 3]))
    shape = draw(st.lists(st.integers(2, {1: 14, 2: 8, 3: 5}[depth]), min_size=depth,
                          max_size=depth))
    shape = gens.widen(draw, shape)
    default = draw(st.sampled_from([0, 0, 0, 0, 3, 1000, 0.5]))
    sp = draw(gens.spec(shape, default)) if draw(st.integers(0, 2)) == 0 else \
        draw(gens.rspec(shape, extra=[default]))
    steps = []
    d = depth
    for _ in range(draw(st.integers(1, 3))):
        s = draw(split())
        if draw(st.booleans()):
            s = (s[0], s[1], s[2], 0, 0)
        steps.append({"split": s, "depth": draw(st.integers(0, d - 1)),
                      "via": draw(st.sampled_from(["depth", "rankid"]))})
        d += 1
    return {"ranks": gens.RANKS[:depth], "shape": shape if draw(st.booleans()) else None,
            "default": default, "spec": sp, "steps": steps,
            "fiberlevel": draw(st.integers(0, 3)) == 0,
            "fmt": draw(st.lists(st.sampled_from("CCCU"), min_size=depth, max_size=depth))}


def run_deep(case, ctx):
    t = raw.mk_tensor(case)
    dflt = case["default"]
    stats = {"parts": 0, "elems": 0}
    lossless = True
    start = raw.tcontent(t)
    # every rank: (identity, original rank, holds its coordinate, ranks to add to it)
    ranks = [(i, i, True, ()) for i in range(len(case["ranks"]))]
    fresh = 100
    for n, s in enumerate(case["steps"]):
        sp, d = s["split"], s["depth"]
        what = f"step {n}: {sp} at depth {d}"
        before = raw.snap(t, ids=True)
        kw = {"depth": d} if s["via"] == "depth" else {"rankid": t.getRankIds()[d]}
        if case["fiberlevel"] and len(case["steps"]) == 1:
            new = call(t.getRoot(), sp, **kw)
            root, got = t.getRoot(), new
            raw.wellformed(new, len(t.getRankIds()) + 1, what)
        else:
            new = call(t, sp, **kw)
            root, got = t.getRoot(), new.getRoot()
            raw.wellformed(got, len(new.getRankIds()), what)
            raw.rank_mirror(new, what)
        if raw.snap(t, ids=True) != before:
            raise Violation(f"{what}: the operand changed")
        descend(root, got, d, dflt, sp, what, stats)
        if sp[0] == "nonuniform" or sp[3] or sp[4]:
            lossless = False
        u, o, leaf, base = ranks[d]
        fresh += 1
        add = (fresh,) if sp[2] else ()
        ranks[d:d + 1] = [(fresh, o, False, ()), (u, o, leaf, base + add)]
        if isinstance(new, F()):
            break
        t = new
    else:
        if lossless:
            final = {}
            for pt, v in raw.tcontent(t).items():
                at = {u: c for (u, *_), c in zip(ranks, pt)}
                info = {u: base for u, _, _, base in ranks}

                def absolute(u):
                    return at[u] + sum(absolute(b) for b in info[u])

                key = [absolute(next(u for u, oo, leaf, _ in ranks if oo == o and leaf))
                       for o in range(len(case["ranks"]))]
                key = tuple(key)
                check(key not in final, "point {} appears in two partitions", key)
                final[key] = v
            check_eq(final, start, f"content after {[s['split'] for s in case['steps']]} at "
                                   f"{[s['depth'] for s in case['steps']]}")
            ctx.label("tiling")
    ctx.label(f"d{len(case['ranks'])}", f"steps{len(case['steps'])}",
              *[s["split"][0] for s in case["steps"]])
    ctx.nt(stats["elems"] >= 2 and stats["parts"] >= 2)


# ---------------------------------------------------------------- division operators

@st.composite
def div(draw):
    o = draw(one())
    while o["tuples"]:
        o["tuples"] = False
        o["spec"] = [[4 * c[0] + c[1], v] for c, v in o["spec"]]
        o["shape"] = [16] if o["shape"] else None
    return {"f": o, "op": draw(st.sampled_from(["/", "//"])), "n": draw(st.integers(1, 6))}


def run_div(case, ctx):
    o = case["f"]
    f, t = mk(o)
    n = case["n"]
    x = t if t is not None else f
    before = raw.snap(x, ids=True)
    occ = occupancy(f, o["default"])
    if case["op"] == "/":
        shape = o["shape"][0] if o["shape"] else max([c + 1 for c, _ in o["spec"]], default=0)
        sizes = [max(1, (shape + n - 1) // n)]
        got = x / n
        k = "uniform"
    else:
        act = [c for c, _ in occ if f.getActive()[0] <= c < f.getActive()[1]]
        # the occupancy is that of the stored, of the non-empty or of the active elements
        sizes = [max(1, (m + n - 1) // n) for m in (len(f.coords), len(occ), len(act))]
        got = x // n
        k = "equal"
    if raw.snap(x, ids=True) != before:
        raise Violation(f"{case['op']} {n}: the operand changed")
    got = got.getRoot() if t is not None else got
    err = None
    for s in dict.fromkeys(sizes):
        try:
            exp = compare(f, got, o["default"], (k, s, False, 0, 0), f"f {case['op']} {n}")
            check(len(exp) <= n or o["active"] is not None,
                  "f {} {} gives {} partitions", case["op"], n, len(exp))
            err = None
            break
        except Violation as e:
            err = err or e
    if err:
        raise err
    ctx.label(case["op"])
    ctx.nt(len(occ) >= 2 and n >= 2)


# ---------------------------------------------------------------- exhaustive

def small(tier):
    n = 5 if tier == "quick" else 7
    for m in range(1 << n):
        cs = [i for i in range(n) if m >> i & 1]
        for a0 in range(0, n + 1, 1 if tier != "quick" else 2):
            for a1 in range(a0, n + 2, 1 if tier != "quick" else 2):
                for step in (1, 2, 3, 4):
                    for pre, post in ((0, 0), (1, 0), (0, 1), (2, 1)):
                        yield (cs, (a0, a1), step, pre, post)


def run_small(case, ctx):
    cs, act, step, pre, post = case
    if act[0] >= act[1]:
        pre = post = 0
    for kind, arg in (("uniform", step), ("equal", step), ("unequal", [step, 1]),
                      ("nonuniform", [0, step]), ("nonuniform", [step, step + 1, 2 * step + 1])):
        f = F()(list(cs), [c + 1 for c in cs], active_range=act)
        for rel in (False, True):
            sp = (kind, arg, rel, pre, post)
            got = call(f, sp)
            compare(f, got, 0, sp, f"split {sp} of {cs} active {act}")
    ctx.nt(len(cs) >= 2 and act[0] < act[1])


SUBS = [
    Sub("one", run_one, one, quick=8000, thorough=250000),
    Sub("deep", run_deep, deep, quick=5000, thorough=200000),
    Sub("div", run_div, div, quick=1500, thorough=50000),
    Sub("small", run_small, exhaustive=small, quick=0,
        rule="two stored elements and a non-empty active range"),
]
