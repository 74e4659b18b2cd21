"""C13: conversions between representations are lossless."""
import copy
import os
import random
import tempfile

from .core import HYP, Sub, Violation, check, check_eq  # noqa
from hypothesis import strategies as st

from . import gens, raw, xform
from .raw import F, P, T

PROP = "C13"
RULE = ("rectangular nests of depth 1-4 (int and float entries, all densities including all "
        "default, defaults 0 and not, long and single rows), built as fiber and as tensor and "
        "uncompressed again; tensors and fibers straight from nests or trees and after up to two "
        "transforms (tuple coordinates and shapes, empty sub-fibers, explicit defaults, rank 0) "
        "dumped to YAML and to dictionaries and loaded back; random construction over seeds, "
        "shapes and densities. Oracle: the nest itself / the content extracted before dumping. "
        "Non-trivial: at least two non-default entries, and a default entry for nests.")
ASSUMPTIONS = ["known finding: a *fiber* built from an all-default nest of depth >= 2 reports only "
               "its top dimension; every other shape is checked",
               "nests have no zero-length dimension",
               "NaN entries are not generated (no value equals itself)",
               "a non-zero default with non-unit density of upper ranks is documented as senseless"]

# ---------------------------------------------------------------- nests


def entries(nest):
    """{point: value} of every entry."""
    if not isinstance(nest, list):
        return {(): nest}
    return {(c,) + p: v for c, s in enumerate(nest) for p, v in entries(s).items()}


def dims_of(nest):
    out = []
    while isinstance(nest, list):
        out.append(len(nest))
        nest = nest[0]
    return out


@st.composite
def nests(draw):
    depth = draw(st.sampled_from((1, 2, 2, 3, 3, 4)))
    hi = {1: 10, 2: 6, 3: 4, 4: 3}[depth]
    dims = draw(st.lists(st.integers(1, hi), min_size=depth, max_size=depth))
    dims = gens.widen(draw, dims, sizes=[17, 40])
    if depth <= 2 and draw(st.integers(0, 40)) == 0:
        dims[0] = draw(st.sampled_from([64, 300, 1500]))
    default = draw(st.sampled_from((0, 0, 0, 1, -1, 0.5, 7)))
    rnd = random.Random(draw(st.integers(0, 1 << 40)))
    dens = draw(st.sampled_from([0.5, 0.8, 0.3, 0.1, 1, 0, 0.6, 0.4]))
    row = draw(st.sampled_from([0, 0, 0, 0.4]))     # rows forced all default
    pool = draw(st.sampled_from([[1, 2, 3, -1], [1, 2.5, -0.25, 3], [0.5, 1.5, 1e-9, 1e300],
                                 [0, 1, 7, -1, 0.5], [10**20, -3, 2, float("inf")]]))

    def fill(ds, off):
        off = off or rnd.random() < row
        if not ds:
            return default if off or rnd.random() >= dens else rnd.choice(pool)
        return [fill(ds[1:], off) for _ in range(ds[0])]

    return {"nest": fill(dims, False) if dens else
            fill(dims, True), "default": default, "extra": draw(st.integers(0, 2)),
            "fmt": draw(st.sampled_from("CCU"))}


def check_nest(got, nest, what):
    """Equal nests of plain (unboxed) values of the same types."""
    if isinstance(nest, list):
        check(isinstance(got, list), "{}: {!r} where a list is due", what, got)
        check_eq(len(got), len(nest), what)
        for i, (g, n) in enumerate(zip(got, nest)):
            check_nest(g, n, f"{what}[{i}]")
        return
    check(not isinstance(got, (P(), F(), type)), "{}: entry is {!r}", what, got)
    check_eq(got, nest, what)


def run_nests(case, ctx):
    nest, d = case["nest"], case["default"]
    dims = dims_of(nest)
    depth = len(dims)
    want = {p: v for p, v in entries(nest).items() if v != d}
    ref = copy.deepcopy(nest)
    f = F().fromUncompressed(nest, default=d)
    check_eq(raw.content(f, d), want, "Fiber.fromUncompressed: content")
    explicit(f, d, "Fiber.fromUncompressed")
    check_eq(f.getShape(all_ranks=False), dims[0], "Fiber.fromUncompressed: top shape")
    if want or depth == 1:
        raw.wellformed(f, depth, "Fiber.fromUncompressed")
        check_eq(f.getShape(all_ranks=True), dims, "Fiber.fromUncompressed: shape")
        check_nest(f.uncompress(), nest, "uncompress of the fiber, own shape")
    check_nest(f.uncompress(shape=list(dims)), nest, "uncompress of the fiber")
    check_eq(nest, ref, "the nest afterwards")
    # a bigger shape pads with defaults
    e = case["extra"]
    big = [n + e for n in dims]
    check_nest(f.uncompress(shape=big), pad(nest, big, d), "uncompress to a bigger shape")
    ids = [f"R{i}" for i in range(depth)]
    for given in (False, True):
        kw = {"shape": list(big)} if given else {}
        t = T().fromUncompressed(rank_ids=list(ids), root=nest, default=d, name="N", **kw)
        w = f"Tensor.fromUncompressed {kw}"
        check_eq(raw.tcontent(t), want, f"{w}: content")
        raw.wellformed(t.getRoot(), depth, w)
        raw.rank_mirror(t, w)
        explicit(t.getRoot(), d, w)
        check_eq(t.getShape(), big if given else dims, f"{w}: shape")
        check_eq(t.getShape(authoritative=True), big if given else dims,
                 f"{w}: authoritative shape")
        check_eq(t.getName(), "N", f"{w}: name")
        check_eq(raw.val(t.getDefault()), d, f"{w}: default")
        if case["fmt"] == "U":
            for r in ids:
                t.setFormat(r, "U")
        check_nest(t.getRoot().uncompress(shape=list(dims)), nest, f"{w}: uncompress")
        check_nest(t.getRoot().uncompress(), pad(nest, big, d) if given else nest,
                   f"{w}: uncompress, own shape")
        # and once more round
        t2 = T().fromUncompressed(rank_ids=list(ids), root=t.getRoot().uncompress(), default=d)
        check(t == t2, "{}: not equal after another round", w)
    check_eq(nest, ref, "the nest afterwards")
    ctx.label(f"d{depth}", "empty" if not want else "some",
              f"default {d}")
    ctx.nt(len(want) >= 2 and any(v == d for v in entries(nest).values()))


def pad(nest, dims, d):
    if not dims:
        return nest
    rest = [pad(s, dims[1:], d) for s in nest]

    def blank(ds):
        return d if not ds else [blank(ds[1:]) for _ in range(ds[0])]
    return rest + [blank(dims[1:]) for _ in range(dims[0] - len(nest))]


def explicit(f, d, what):
    for p in f.payloads:
        if isinstance(p, F()):
            explicit(p, d, what)
            check(len(p.coords) > 0, "{}: stores an empty sub-fiber", what)
        else:
            check(raw.unbox(p) != d, "{}: stores an explicit default", what)


def small(tier):
    """Every nest over {0, 1} of a few shapes, and every single-entry nest of others."""
    import itertools
    for dims in ([1], [3], [1, 1], [2, 2], [1, 3], [3, 1], [2, 1, 2], [2, 2, 2]):
        n = 1
        for x in dims:
            n *= x
        for d in (0, 1):
            for vs in itertools.product((0, 1), repeat=n):
                yield {"nest": shape_up(list(vs), dims), "default": d, "extra": 0, "fmt": "C"}


def shape_up(vs, dims):
    if len(dims) == 1:
        return vs
    k = len(vs) // dims[0]
    return [shape_up(vs[i * k:(i + 1) * k], dims[1:]) for i in range(dims[0])]


def run_emptyshape(case, ctx):
    nest = case["nest"]
    f = F().fromUncompressed(nest)
    check_eq(f.getShape(all_ranks=True), dims_of(nest),
             "shape of a fiber built from an all-default nest")


# ---------------------------------------------------------------- uncompress of any tree

@st.composite
def trees(draw):
    c = draw(gens.tensor_case(depths=(1, 2, 2, 3, 4), defaults=(0, 0, 3, -1), floats=True,
                              wide=[17, 33], fmt="any", hi=5))
    if draw(st.booleans()):
        c["spec"] = draw(gens.rspec(c["dims"], extra=[c["default"]]))
    return {"t": c, "own": draw(st.booleans()), "less": draw(st.integers(0, 2)),
            "x": draw(st.sampled_from([None, None, "swizzle", "split", "swap"]))}


def run_trees(case, ctx):
    c = case["t"]
    d, depth = c["default"], len(c["ranks"])
    if case["own"]:
        if c["shape"] is None:
            c = dict(c, fmt=["C"] * depth)
        t = raw.mk_tensor(c)
        if case["x"] == "swizzle":
            t = t.swizzleRanks(list(reversed(c["ranks"])))
        elif case["x"] == "split":
            t = t.splitUniform(2)
        elif case["x"] == "swap" and depth > 1:
            t = t.swapRanks()
        ct = raw.tcontent(t)
        f = t.getRoot()
        shape = t.getShape()
        depth = len(shape)
    else:
        f = raw.mk_fiber(c["spec"], depth, d, shape=c["shape"])
        ct = raw.content(f, d)
        shape = list(c["dims"])
        if not known_leaf(c["spec"], depth) and d != 0:
            return                           # nothing tells an unowned empty tree its default
    before = raw.snap(f)
    # also cut off: entries beyond the shape are not in the nest
    for sh in (shape, [max(1, n - case["less"]) for n in shape]):
        got = f.uncompress(shape=list(sh))
        check_eq(raw.snap(f), before, "the fiber after uncompress")
        want = blank_nest(sh, ct, d)
        check_nest(got, want, f"uncompress({sh})")
    if case["own"]:
        check_nest(f.uncompress(), blank_nest(shape, ct, d), "uncompress()")
        if not all(shape):
            return                           # estimated shape of nothing
        back = T().fromUncompressed(rank_ids=t.getRankIds(), root=f.uncompress(), default=d,
                                    shape=list(shape))
        check(back == t and t == back, "tensor rebuilt from its uncompressed form differs")
        check_eq(back.getShape(), shape, "shape of the rebuilt tensor")
    ctx.label("own" if case["own"] else "free", f"d{depth}", f"default {d}", str(case["x"]))
    ctx.nt(len(ct) >= 2)


def known_leaf(spec, depth):
    return bool(spec) if depth == 1 else any(known_leaf(s, depth - 1) for _, s in spec)


def blank_nest(shape, ct, d, pre=()):
    if len(pre) == len(shape):
        return ct.get(pre, d)
    return [blank_nest(shape, ct, d, pre + (c,)) for c in range(shape[len(pre)])]


# ---------------------------------------------------------------- YAML and dictionaries

@st.composite
def dumps(draw):
    if draw(st.integers(0, 11)) == 0:
        return {"rank0": draw(st.sampled_from([0, 1, -3, 2.5, 1e300, float("inf")])),
                "name": draw(st.sampled_from(["", "Z", "a: b", "5", "null", "é"]))}
    c = draw(gens.tensor_case(depths=(1, 2, 2, 3), defaults=(0, 0, 0, 3, -1, 0.5), floats=True,
                              wide=[17, 300]))
    if draw(st.booleans()):
        c["spec"] = draw(gens.rspec(c["dims"], extra=[c["default"]] + [0.5, 1e-7, 1e300]))
    c["name"] = draw(st.sampled_from(["", "A", "T+split", "x y", "5", "yes", "a: b", "~", "#n"]))
    depth = len(c["ranks"])
    if draw(st.integers(0, 4)) == 0:
        c["ranks"] = [draw(st.sampled_from(["N", "on", "Y", "K.1", "M 2"])) + str(i)
                      for i in range(depth)]
    xs = []
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
        xs.append(draw(xform.xform(depth, [k for k in xform.KINDS if k != "updcoords"],
                                   known=c["shape"] is not None)))
    return {"t": c, "xs": xs, "fmt": draw(st.booleans()), "mut": draw(st.booleans())}


def make(case):
    if "rank0" in case:
        t = T()(rank_ids=[], shape=[], name=case["name"])
        r = t.getRoot()
        r <<= case["rank0"]
        return t
    t = raw.mk_tensor(case["t"])
    for x in case["xs"]:
        depth = len(t.ranks)
        tup = any(isinstance(i, list) for i in t.getRankIds())
        if depth > 3 or tup or depth != len(case["t"]["ranks"]) and x[0] in (
                "swizzle", "flatten", "merge", "unflatten", "flatsplit", "swap"):
            # literals are drawn for the original ranks
            if x[0] == "flatten" and not tup and depth > 2:
                t = t.flattenRanks(depth=depth - 2)
            continue
        if x[0] in ("swap", "//", "/", "equal", "unequal") and t.getRoot().isEmpty():
            continue
        if x[0] == "updpayloads" and tup:
            continue
        t = xform.apply(t, x)
    if case["fmt"] and t.getShape(authoritative=True) is not None:
        t.setFormat(t.getRankIds()[-1], "U")
    t.setMutable(case["mut"])
    return t


def scratch():
    return tempfile.TemporaryDirectory(prefix="ftv13-")


def same_types(a, b, what):
    """int stays int, float stays float."""
    def leaves(f):
        if isinstance(f, P()):
            return {(): f.value}
        out = {}
        for c, p in zip(f.coords, f.payloads):
            for q, v in leaves(p).items():
                out[(c,) + q] = v
        return out
    la, lb = leaves(a), leaves(b)
    check_eq({p: (type(v), v) for p, v in lb.items()}, {p: (type(v), v) for p, v in la.items()},
             f"{what}: stored elements")


def run_dumps(case, ctx):
    t = make(case)
    before = raw.snap(t)
    with scratch() as tmp:
        path = os.path.join(tmp, "t.yaml")
        t.dump(path)
        check_eq(raw.snap(t), before, "the tensor after dump")
        for load in ("fromYAMLfile", "ctor"):
            u = T().fromYAMLfile(path) if load == "fromYAMLfile" else T()(path)
            w = f"loaded by {load}"
            check(isinstance(u, T()), "{}: {!r}", w, type(u))
            check_eq(u.getRankIds(), t.getRankIds(), f"{w}: rank ids")
            check_eq(u.getShape(), t.getShape(), f"{w}: shape")
            check_eq(u.getName(), t.getName(), f"{w}: name")
            check_eq(raw.tcontent(u), raw.tcontent(t), f"{w}: content")
            check(t == u and u == t, "{}: not equal to the original", w)
            if "rank0" not in case:
                check_eq(raw.val(u.getDefault()), raw.val(t.getDefault()), f"{w}: default")
                same_types(t.getRoot(), u.getRoot(), w)
                raw.rank_mirror(u, w)
            # a second generation is the same again
            p2 = os.path.join(tmp, "u.yaml")
            u.dump(p2)
            v = T().fromYAMLfile(p2)
            check(v == t and v.getShape() == t.getShape() and v.getName() == t.getName(),
                  "{}: differs after a second round", w)
        if "rank0" in case:
            ctx.label("rank0")
            ctx.nt(case["rank0"] != 0)
            return
        d = case["t"]["default"]
        root = t.getRoot()
        fibers = [("owned", root)]
        fibers.append(("ownerless", root.copy(preserve_owner=False)))
        if root.payloads and isinstance(root.payloads[0], F()):
            fibers.append(("sub-fiber", root.payloads[0]))
        for name, f in fibers:
            fd = raw.val(t.getDefault())
            ct = raw.content(f, fd)
            fb = raw.snap(f)
            fpath = os.path.join(tmp, "f.yaml")
            f.dump(fpath)
            g = F().fromYAMLfile(fpath)
            compare(f, g, ct, fd, f"{name} fiber by YAML")
            g = F().fromYAMLfile(fpath, default=fd)
            compare(f, g, ct, fd, f"{name} fiber by YAML, default given")
            dct = f.fiber2dict()
            g = F().dict2fiber(dct)
            compare(f, g, ct, fd, f"{name} fiber by dictionary")
            g2 = F().dict2fiber(f.fiber2dict())
            # neither shares anything with the fiber
            scribble(dct)
            check_eq(raw.snap(f), fb, f"{name}: the fiber after its dictionary was changed")
            check(f == g2, "{}: dictionary form changed", name)
    ctx.label(*[x[0] for x in case["xs"]], f"default {d}")
    ctx.nt(len(raw.tcontent(t)) >= 2)


def compare(f, g, ct, d, what):
    check(isinstance(g, F()), "{}: {!r}", what, type(g))
    check_eq(raw.content(g, d), ct, f"{what}: content")
    check(f == g and g == f, "{}: not equal", what)
    check_eq(g.isEmpty(), not ct, f"{what}: emptiness")
    check_eq(g.countValues(), len(ct), f"{what}: count")
    same_types(f, g, what)
    known = f.getShape(all_ranks=False, authoritative=True)
    check_eq(g.getShape(all_ranks=False, authoritative=True), known, f"{what}: shape")
    if known is None and f.getOwner() is None:
        check_eq(g.getShape(all_ranks=False), f.getShape(all_ranks=False),
                 f"{what}: estimated shape")


def scribble(x):
    if isinstance(x, dict):
        for v in list(x.values()):
            scribble(v)
        x["scribble"] = 1
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        x.append(99)


# ---------------------------------------------------------------- random construction

@st.composite
def randoms(draw):
    depth = draw(st.sampled_from((1, 2, 2, 3, 4)))
    shape = draw(gens.shapes(depth, 1, {1: 12, 2: 7, 3: 5, 4: 4}[depth]))
    default = draw(st.sampled_from((0, 0, 0, 1, 5, -1)))
    dens = st.sampled_from([0, 0.0, 0.2, 0.5, 0.9, 1, 1.0])
    if draw(st.booleans()):
        density = draw(dens)
    else:
        upper = st.sampled_from([1, 1.0]) if default != 0 else dens
        density = [draw(upper) for _ in range(depth - 1)] + [draw(dens)]
    return {"shape": shape, "density": density, "default": default,
            "interval": draw(st.sampled_from([1, 2, 10, 100])),
            "seed": draw(st.one_of(st.integers(0, 5), st.integers(0, 1 << 40), st.text(max_size=3))),
            "noise": draw(st.integers(0, 1 << 30))}


def run_randoms(case, ctx):
    shape, dens, d = case["shape"], case["density"], case["default"]
    depth = len(shape)
    ids = gens.RANKS[:depth]
    sh, dn = list(shape), copy.copy(dens)
    kw = dict(interval=case["interval"], seed=case["seed"], default=d)
    random.seed(case["noise"])
    t = T().fromRandom(rank_ids=list(ids), shape=sh, density=dn, **kw)
    f = F().fromRandom(sh, dn, **kw)
    random.seed(case["noise"] + 1)
    random.random()
    t2 = T().fromRandom(rank_ids=list(ids), shape=sh, density=dn, **kw)
    f2 = F().fromRandom(sh, dn, **kw)
    check_eq((sh, dn), (list(shape), dens), "the arguments afterwards")
    check(t == t2, "two tensors from the same seed differ")
    check_eq(raw.fsnap(t.getRoot()), raw.fsnap(t2.getRoot()), "two trees from the same seed")
    check(f == f2, "two fibers from the same seed differ")
    ct = raw.tcontent(t)
    check_eq(raw.content(f, d), ct, "fiber and tensor from the same seed")
    raw.wellformed(t.getRoot(), depth, "fromRandom")
    raw.rank_mirror(t, "fromRandom")
    check_eq(t.getShape(), list(shape), "shape")
    check_eq(t.getRankIds(), list(ids), "rank ids")
    check_eq(raw.val(t.getDefault()), d, "default")
    full = 1
    for n in shape:
        full *= n
    for p, v in ct.items():
        check(all(0 <= c < n for c, n in zip(p, shape)), "point {} outside the shape {}", p, shape)
        check(isinstance(v, int) and (1 <= v <= case["interval"] or v == 0 and d != 0),
              "value {} outside the interval {}", v, case["interval"])
    one = all(x == 1 for x in (dens if isinstance(dens, list) else [dens]))
    if one:
        if not 1 <= d <= case["interval"]:
            check_eq(len(ct), full, "points at density 1")
        check(0 not in ct.values(), "a zero at density 1")
        ctx.label("density 1")
    zero = (dens[-1] if isinstance(dens, list) else dens) == 0
    if zero and d == 0:
        check_eq(len(ct), 0, "points at density 0")
    ctx.label(f"d{depth}", f"default {d}")
    ctx.nt(len(ct) >= 2 and not one)


SUBS = [
    Sub("small", run_nests, exhaustive=small, quick=0, thorough=0,
        rule="all nests over {0,1} of eight shapes, default 0 and 1"),
    Sub("emptyshape", run_emptyshape, exhaustive=lambda tier: [], quick=0, thorough=0,
        rule="an empty fiber has no lower level to hold the nest's other dimensions (known "
             "finding, re-run from known_findings.json)"),
    Sub("nests", run_nests, nests, quick=2500),
    Sub("trees", run_trees, trees, quick=2500),
    Sub("dumps", run_dumps, dumps, quick=1500),
    Sub("randoms", run_randoms, randoms, quick=1200),
]
