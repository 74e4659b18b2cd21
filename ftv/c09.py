"""C09: rank transforms move every point to its image and nothing else."""
import itertools

from .core import HYP, Sub, Violation, check, check_eq  # noqa
from hypothesis import strategies as st

from . import gens, model, raw, xform
from .raw import F, P, T  # noqa

PROP = "C09"
RULE = ("tensors of depth 1-4 (explicit defaults, empty sub-fibers, empty tensors, default 0 or "
        "not, formats C/U), single transforms with their inverse and chains of up to five, at "
        "tensor and at fiber level; the result's points are compared with the image of the "
        "operand's points under the coordinate map. Non-trivial: at least two points and a "
        "transform that changes the points' coordinates.")
ASSUMPTIONS = ["linear coordinates need an authoritative shape",
               "colliding points are passed to the merge function in the order of their points",
               "ranks are merged one at a time, lowest first",
               "flattening with colliding coordinates is rejected (merge reduces them)"]


def observe(t, s, what):
    """t must be exactly the tensor of the model state s."""
    raw.wellformed(t.getRoot(), s.depth, what)
    raw.rank_mirror(t, what)
    check_eq(t.getRankIds(), s.ids, what + ": rank ids")
    check_eq(raw.tcontent(t), s.pts, what + ": points")
    check_eq(t.countValues(), len(s.pts), what + ": countValues()")


def start(case):
    t = raw.mk_tensor(case)
    s = model.St(case["ranks"], case["shape"],
                 raw.spec_content(case["spec"], len(case["ranks"]), case["default"]),
                 case["default"], case.get("fmt"))
    return t, s


# ---------------------------------------------------------------- steps

@st.composite
def step(draw, depth):
    """A transform literal that fits a tensor with that many ranks, and its resulting depth."""
    ks = ["uniform", "nonuniform", "equal", "updcoords", "unflatten", "deepcopy"]
    if depth > 1:
        ks = ks[:5] + ["swizzle", "swap", "flatten", "merge", "flatten", "unflatten"] * 2
    k = draw(st.sampled_from(ks))
    d = draw(st.integers(0, depth - 1))
    if k == "uniform":
        return (k, d, draw(st.integers(1, 4)), draw(st.booleans()))
    if k == "nonuniform":
        bs = draw(st.lists(st.integers(1, 6), max_size=3, unique=True).map(sorted))
        return (k, d, [0] + bs, draw(st.booleans()))
    if k == "equal":
        return (k, d, draw(st.integers(1, 3)))
    if k == "updcoords":
        return (k, d, draw(st.sampled_from(["id", "+3", "*2", "rev", "perm"])))
    if k == "deepcopy":
        return (k,)
    if k == "swizzle":
        return (k, tuple(draw(st.permutations(range(depth)))))
    if k == "swap":
        return (k, draw(st.integers(0, depth - 2)))
    if k == "unflatten":
        return (k, d, draw(st.integers(1, 2)))
    d = draw(st.integers(0, depth - 2))
    lv = draw(st.integers(1, depth - 1 - d))
    if k == "flatten":
        return (k, d, lv, draw(st.sampled_from(["tuple", "tuple", "pair", "linear", "absolute",
                                                "relative"])))
    fns = [None, "sum", "first", "last", "max"] + (["poly"] if lv == 1 else [])
    return (k, d, lv, draw(st.sampled_from(xform.STYLES + ["absolute", "relative"])),
            draw(st.sampled_from(fns)))


def advance(s, x):
    """Model state after a step; None if the step is not legal here; "?" if it must be read
    back from the result."""
    k = x[0]
    if k == "deepcopy":
        return s
    if k == "swizzle":
        return model.swizzle(s, x[1])
    if k == "swap":
        return model.swap(s, x[1])
    if k == "flatten":
        if not model.legal_flatten(s, x[1], x[2], x[3]):
            return None
        return model.flatten(s, x[1], x[2], x[3])
    if k == "merge":
        if not model.legal_flatten(s, x[1], x[2], x[3]):
            return None
        return model.merge(s, x[1], x[2], x[3], x[4])
    if k == "unflatten":
        if any(isinstance(v, tuple) and not isinstance(s.ids[x[1]], list)
               for p in s.pts for v in p[x[1]:x[1] + 1]):
            return None
        return model.unflatten(s, x[1], x[2])
    d = x[1]
    if k in ("uniform", "nonuniform", "updcoords"):
        if not model.isint(s, d) or (s.shape and not isinstance(s.shape[d], int)):
            return None
        if isinstance(s.ids[d], list) and not s.pts:
            return None                    # the coordinates might be tuples
    if k == "uniform":
        return model.split_uniform(s, d, x[2], x[3])
    if k == "nonuniform":
        return model.split_nonuniform(s, d, x[2], x[3])
    if k == "equal":
        return "?"
    if k == "updcoords":
        f = xform.CMAP[x[2]]
        if any(not 0 <= f(p[d]) < 64 for p in s.pts):
            return None
        pts = {p[:d] + (f(p[d]),) + p[d + 1:]: v for p, v in s.pts.items()}
        shape = s.shape
        if shape:
            shape = shape[:d] + [64] + shape[d + 1:]
        return s.new(s.ids, shape, pts, s.fmt)
    raise AssertionError(k)


def call(t, x):
    import copy
    k = x[0]
    if k == "deepcopy":
        return copy.deepcopy(t)
    if k == "swizzle":
        ids = t.getRankIds()
        return t.swizzleRanks([ids[i] for i in x[1]])
    if k == "swap":
        return t.swapRanks(depth=x[1])
    if k == "flatten":
        return t.flattenRanks(depth=x[1], levels=x[2], coord_style=x[3])
    if k == "merge":
        kw = {"merge_fn": xform.mfns()[x[4]]} if x[4] else {}
        return t.mergeRanks(depth=x[1], levels=x[2], coord_style=x[3], **kw)
    if k == "unflatten":
        return t.unflattenRanks(depth=x[1], levels=x[2])
    if k == "uniform":
        return t.splitUniform(x[2], depth=x[1], relativeCoords=x[3])
    if k == "nonuniform":
        return t.splitNonUniform(list(x[2]), depth=x[1], relativeCoords=x[3])
    if k == "equal":
        return t.splitEqual(x[2], depth=x[1])
    if k == "updcoords":
        return t.updateCoords(xform.CFN[x[2]], depth=x[1], new_shape=64)
    raise AssertionError(k)


def outside(s):
    """Coordinates past the shape (relative merges of ranks that were not split)."""
    def ins(c, sh):
        if isinstance(c, tuple):
            return isinstance(sh, tuple) and all(ins(a, b) for a, b in zip(c, sh))
        return isinstance(sh, int) and c < sh
    return s.shape is not None and any(not ins(c, sh) for p in s.pts for c, sh in zip(p, s.shape))


def relmerge(x):
    return x[0] in ("flatten", "merge") and x[3] == "relative"


def do(t, s, x, what):
    """One step on both sides: (tensor, state), or None if the step does not apply."""
    n = advance(s, x)
    if n is None:
        return None
    before = raw.snap(t, ids=True)
    new = call(t, x)
    if raw.snap(t, ids=True) != before:
        raise Violation(f"{what}: the operand changed")
    if n == "?":
        # the partition boundaries are C08's business
        d = x[1]
        shape = s.shape
        if shape:
            shape = shape[:d] + [shape[d]] * 2 + shape[d + 1:]
        got = raw.tcontent(new)
        n = s.new(model.split_ids(s, d), shape, got,
                  s.fmt[:d] + [s.fmt[d]] * 2 + s.fmt[d + 1:])
        back = {p[:d] + p[d + 1:]: v for p, v in got.items()}
        check_eq(len(back), len(got), what + ": number of points")
        check_eq(back, s.pts, what + ": points without the new coordinate")
    observe(new, n, what)
    return new, n


# ---------------------------------------------------------------- chains

@st.composite
def start_case(draw, depths=(1, 2, 2, 3, 3, 4)):
    depth = draw(st.sampled_from(depths))
    hi = {1: 9, 2: 6, 3: 4, 4: 3}[depth]
    shape = draw(st.lists(st.sampled_from([1] + list(range(2, hi + 1)) * 3), min_size=depth,
                          max_size=depth))
    shape = gens.widen(draw, shape)
    default = draw(st.sampled_from([0] * 6 + [3, 1000, 0.5]))
    sp = draw(gens.spec(shape, default)) if draw(st.integers(0, 5)) == 0 else \
        draw(gens.rspec(shape, extra=[default]))
    fmt = draw(st.lists(st.sampled_from("CCCCCU"), min_size=depth, max_size=depth))
    return {"ranks": gens.RANKS[:depth], "shape": shape if draw(st.integers(0, 2)) else None,
            "default": default, "spec": sp, "fmt": fmt}


@st.composite
def chain(draw):
    c = draw(start_case())
    d = len(c["ranks"])
    steps = []
    for _ in range(draw(st.sampled_from([1, 2, 3, 3, 4, 4, 5]))):
        x = draw(step(d))
        steps.append(x)
        # keeps track of the depth if every step applies; a step that does not is skipped
        if x[0] in ("uniform", "nonuniform", "equal"):
            d = min(d + 1, 5)
        elif x[0] in ("flatten", "merge"):
            d -= x[2]
        elif x[0] == "unflatten":
            d = min(d + x[2], 5)
    c["steps"] = steps
    if not any(x[0] in ("uniform", "nonuniform", "equal") for x in steps) \
            and draw(st.integers(0, 2)) == 0:
        # only splits look at the active ranges
        c["narrow"] = [None if f == "U" else
                    draw(st.sampled_from([None, (0, 0), (0, 1), (1, 3), (2, 9)]))
                    for f in c["fmt"]]
        if len(c["ranks"]) > 2 and draw(st.booleans()):
            steps[:0] = [("merge", 0, 1, "absolute", draw(st.sampled_from([None, "sum", "last"])))]
    return c


def fits(s, x):
    k = x[0]
    if k == "swizzle":
        return len(x[1]) == s.depth
    if k == "swap":
        return x[1] + 1 < s.depth
    if k in ("flatten", "merge"):
        return x[1] + x[2] < s.depth
    return k == "deepcopy" or x[1] < s.depth


def run_chain(case, ctx):
    t, s = start(case)
    observe(t, s, "start")
    applied = []
    moved = False
    for x in case["steps"]:
        if not fits(s, x) or s.depth > 6:
            continue
        r = do(t, s, x, f"{x} after {applied}")
        if r is None:
            ctx.label("skipped")
            continue
        if len(s.pts) >= 2 and r[1].pts != s.pts:
            moved = True
        t, s = r
        applied.append(x)
        ctx.label(x[0] + (":" + x[3] if x[0] in ("flatten", "merge") else ""))
        if relmerge(x) and (s.shape is None or outside(s)):
            break
    ctx.label(f"steps{len(applied)}", f"d{len(case['ranks'])}")
    ctx.nt(moved)


# ---------------------------------------------------------------- inverses

@st.composite
def inverse(draw):
    c = draw(start_case((2, 2, 3, 3, 4)))
    depth = len(c["ranks"])
    k = draw(st.sampled_from(["swizzle", "swap", "tuple", "pair", "split", "resplit", "rel",
                              "deep"]))
    d = draw(st.integers(0, depth - 1))
    if k == "swizzle":
        c["x"] = (k, tuple(draw(st.permutations(range(depth)))))
    elif k == "swap":
        c["x"] = (k, draw(st.integers(0, depth - 2)))
    elif k in ("tuple", "pair"):
        d = draw(st.integers(0, depth - 2))
        c["x"] = (k, d, draw(st.integers(1, depth - 1 - d)))
    elif k == "deep":
        # flatten some, then more on top or below, and take both apart again
        if depth < 3:
            c["x"] = ("tuple", 0, 1)
        else:
            d = draw(st.integers(0, depth - 3))
            c["x"] = (k, d, draw(st.booleans()))
    else:
        n = draw(st.integers(1, 2)) if k == "resplit" else 1
        ss = []
        for _ in range(n):
            kind = draw(st.sampled_from(["uniform", "nonuniform"] if k == "rel" else
                                        ["uniform", "nonuniform", "equal", "unequal"]))
            arg = {"uniform": st.integers(1, 5), "equal": st.integers(1, 3),
                   "unequal": st.lists(st.integers(1, 2), min_size=1, max_size=3),
                   "nonuniform": st.lists(st.integers(1, 6), max_size=3, unique=True)
                   .map(lambda l: [0] + sorted(l))}[kind]
            ss.append((kind, draw(arg)))
        c["x"] = (k, d, ss)
    return c


def run_inverse(case, ctx):
    t, s = start(case)
    x = case["x"]
    k = x[0]
    if k == "swizzle":
        inv = tuple(x[1].index(i) for i in range(s.depth))
        mid, ms = do(t, s, x, f"{x}")
        back, bs = do(mid, ms, ("swizzle", inv), f"{x} and its inverse")
    elif k == "swap":
        mid, ms = do(t, s, x, f"{x}")
        back, bs = do(mid, ms, x, f"{x} twice")
    elif k in ("tuple", "pair"):
        mid, ms = do(t, s, ("flatten", x[1], x[2], k), f"flatten {x}")
        cut = mid
        for lv in range(1, x[2] + 1):
            n = model.unflatten(ms, x[1], lv)
            cut = mid.unflattenRanks(depth=x[1], levels=lv)
            observe(cut, n, f"unflatten {lv} of flatten {x}")
        back, bs = cut, n
    elif k == "deep":
        d, lower = x[1], x[2]
        first = d + 1 if lower else d
        mid, ms = do(t, s, ("flatten", first, 1, "tuple"), "first flatten")
        mid, ms = do(mid, ms, ("flatten", d, 1, "tuple"), "second flatten")
        back, bs = do(mid, ms, ("unflatten", d, 2), "unflatten both")
    else:
        mid, ms = t, s
        d = x[1]
        style = "relative" if k == "rel" else "absolute"
        for i, (kind, arg) in enumerate(x[2]):
            fn = {"uniform": mid.splitUniform, "nonuniform": mid.splitNonUniform,
                  "equal": mid.splitEqual, "unequal": mid.splitUnEqual}[kind]
            at = d + (i if i == 0 or kind != "uniform" else 0)
            mid = fn(list(arg) if isinstance(arg, list) else arg, depth=at,
                     relativeCoords=(k == "rel"))
            raw.wellformed(mid.getRoot(), s.depth + i + 1, f"split {x}")
        ctx.label(*[kind for kind, _ in x[2]])
        back = mid.flattenRanks(depth=d, levels=len(x[2]), coord_style=style)
        what = f"flatten({style}) of split {x}"
        raw.wellformed(back.getRoot(), s.depth, what)
        raw.rank_mirror(back, what)
        check_eq(raw.tcontent(back), s.pts, what + ": points")
        check(back.getRoot() == t.getRoot(), "{}: not equal to the original", what)
        ctx.label(k)
        ctx.nt(len(s.pts) >= 2)
        return
    check_eq(bs.pts, s.pts, "model: inverse")
    check_eq(bs.ids, s.ids, "model: inverse ids")
    check(back == t, "{}: the inverse is not equal to the original", x)
    check(t == back, "{}: the original is not equal to its inverse image", x)
    ctx.label(k)
    ctx.nt(len(s.pts) >= 2 and ms.pts != s.pts)


# ---------------------------------------------------------------- fiber level

@st.composite
def fiber(draw):
    c = draw(start_case((2, 2, 3, 3, 4)))
    depth = len(c["ranks"])
    k = draw(st.sampled_from(["swap", "flatten", "merge", "flatten", "merge", "swapBelow",
                              "flattenBelow", "unflatten", "unflattenBelow"]))
    c["own"] = draw(st.booleans()) and not k.endswith("Below")
    if k.endswith("Below") and depth == 2 and k != "unflattenBelow":
        k = k[:-5]
    d = draw(st.integers(0, depth - 2))
    if k == "swap":
        c["x"] = (k, 0)
    elif k == "swapBelow":
        c["x"] = (k, draw(st.integers(0, depth - 3)))
    elif k == "unflattenBelow":
        if depth == 2:
            c["x"] = ("unflatten", 0, 1, 1)
        else:
            d = draw(st.integers(1, depth - 2))
            lv = draw(st.integers(1, depth - 1 - d))
            c["x"] = (k, d, lv, draw(st.integers(1, lv)))
    elif k == "unflatten":
        lv = draw(st.integers(1, depth - 1))
        c["x"] = (k, 0, lv, draw(st.integers(1, lv)))
    elif k == "flattenBelow":
        d = draw(st.integers(1, depth - 2))
        c["x"] = (k, d, draw(st.integers(1, depth - 1 - d)),
                  draw(st.sampled_from(["tuple", "pair", "linear"])))
    else:
        lv = draw(st.integers(1, depth - 1 - d))
        if k == "flatten":
            c["x"] = (k, d, lv, draw(st.sampled_from(["tuple", "pair", "linear"])))
        else:
            c["x"] = (k, d, lv, draw(st.sampled_from(xform.STYLES)),
                      draw(st.sampled_from([None, "sum", "first", "last", "max"]
                                           + (["poly"] if lv == 1 else []))))
    return c


def run_fiber(case, ctx):
    t, s = start(case)
    x = case["x"]
    k = x[0]
    f = t.getRoot() if case["own"] else \
        raw.mk_fiber(case["spec"], s.depth, case["default"], shape=case["shape"])
    what = f"fiber {x}"
    if k in ("flatten", "merge", "flattenBelow") and not model.legal_flatten(s, x[1], x[2], x[3]):
        ctx.label("skipped")
        return
    before = raw.snap(f, ids=True)
    if k == "swap":
        if f.isEmpty():
            ctx.label("empty")
            return                         # documented: needs a non-empty fiber
        n, got = model.swap(s, 0), f.swapRanks()
    elif k == "flatten":
        n = model.flatten(s, x[1], x[2], x[3])
        got = f.flattenRanks(depth=x[1], levels=x[2], style=x[3])
    elif k == "merge":
        n = model.merge(s, x[1], x[2], x[3], x[4])
        kw = {"merge_fn": xform.mfns()[x[4]]} if x[4] else {}
        got = f.mergeRanks(depth=x[1], levels=x[2], style=x[3], **kw)
    elif k == "unflatten":
        n = model.unflatten(model.flatten(s, 0, x[2], "tuple"), 0, x[3])
        got = f.flattenRanks(levels=x[2], style="tuple").unflattenRanks(levels=x[3])
    elif k == "swapBelow":
        n = model.swap(s, x[1] + 1)
        f.swapRanksBelow(depth=x[1])
        got, before = f, None
    elif k == "flattenBelow":
        n = model.flatten(s, x[1], x[2], x[3])
        f.flattenRanksBelow(depth=x[1] - 1, levels=x[2], style=x[3])
        got, before = f, None
    else:
        n = model.unflatten(model.flatten(s, x[1], x[2], "tuple"), x[1], x[3])
        got = f.flattenRanks(depth=x[1], levels=x[2], style="tuple")
        got.unflattenRanksBelow(depth=x[1] - 1, levels=x[3])
    if before is not None and raw.snap(f, ids=True) != before:
        raise Violation(f"{what}: the operand changed")
    raw.wellformed(got, n.depth, what)
    check_eq(raw.content(got, s.default), n.pts, what + ": points")
    ctx.label(k, "own" if case["own"] else "free")
    ctx.nt(len(s.pts) >= 2)


# ---------------------------------------------------------------- everything small

def trees(depth, n, leaves):
    """Every tree spec of that depth over coordinates < n."""
    if depth == 1:
        subs = [None] + list(leaves)
    else:
        subs = [None] + trees(depth - 1, n, leaves)
    out = []
    for combo in itertools.product(subs, repeat=n):
        out.append([[c, v] for c, v in enumerate(combo) if v is not None])
    return out


def all_steps(depth):
    out = []
    for p in itertools.permutations(range(depth)):
        out.append(("swizzle", p))
    for d in range(depth - 1):
        out.append(("swap", d))
        for lv in range(1, depth - d):
            for stl in ("tuple", "pair", "linear"):
                out.append(("flatten", d, lv, stl))
            for stl in ("absolute", "relative"):
                for fn in (None, "max"):
                    out.append(("merge", d, lv, stl, fn))
    for d in range(depth):
        out.append(("uniform", d, 2, False))
    return out


def small(tier):
    for sp in trees(2, 2, (0, 1)):
        yield {"ranks": ["M", "K"], "shape": [2, 2], "default": 0, "spec": sp}
    t3 = trees(3, 2, (0, 1)) if tier == "thorough" else None
    if t3 is None:
        import random
        rnd = random.Random(9)
        two = trees(2, 2, (0, 1, -1))
        t3 = [[[c, v] for c, v in enumerate((rnd.choice([None] + two) for _ in range(2)))
               if v is not None] for _ in range(500)]
    for sp in t3:
        yield {"ranks": ["M", "K", "N"], "shape": [2, 2, 2], "default": 0, "spec": sp}
    import random
    rnd = random.Random(10)
    two = trees(2, 2, (0, 1, 2))
    for _ in range(120 if tier == "quick" else 1500):
        sp = [[a, [[b, rnd.choice(two)] for b in range(2) if rnd.random() < .8]]
              for a in range(2) if rnd.random() < .9]
        yield {"ranks": ["M", "K", "N", "J"], "shape": [2, 2, 2, 2], "default": 0, "spec": sp}


def run_small(case, ctx):
    t, s = start(case)
    for x in all_steps(s.depth):
        do(t, s, x, f"{x}")
    for lv in range(1, s.depth):
        for d in range(s.depth - lv):
            mid, ms = do(t, s, ("flatten", d, lv, "tuple"), "flatten")
            back, _ = do(mid, ms, ("unflatten", d, lv), "unflatten")
            check(back == t and t == back, "unflatten(flatten) at {} levels {} differs", d, lv)
    ctx.nt(len(s.pts) >= 2)


SUBS = [
    Sub("chain", run_chain, chain, quick=5000),
    Sub("inverse", run_inverse, inverse, quick=3500),
    Sub("fiber", run_fiber, fiber, quick=3000),
    Sub("small", run_small, exhaustive=small, quick=0, thorough=0,
        rule="every 2x2 tree and a sample of 2x2x2 (thorough: all) and 2^4 trees, every transform"),
]
