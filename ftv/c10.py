"""C10: value-returning operations never disturb or alias their operands."""
import contextlib
import copy
import functools
import io
import os
import tempfile

from .core import HYP, Sub, Violation, check, check_eq  # noqa
from hypothesis import strategies as st

from . import gens, hist, raw, xform
from .raw import F, P, T

PROP = "C10"
RULE = ("every value-returning operation and every observer applied to generated tensors, owned "
        "and unowned fibers (explicit defaults, empty sub-fibers, formats, active ranges, tuple "
        "coordinates): snapshots with object identities before and after, disjoint sets of "
        "mutable objects, then everything on one side is overwritten and the other side compared "
        "with its snapshot. Non-trivial: an operand with at least two stored elements.")
ASSUMPTIONS = ["shared immutable values (numbers, strings, tuples, rank-id lists) are no aliasing",
               "the saved search position of a fiber is not part of the tree"]


# ---------------------------------------------------------------- operands

@st.composite
def operand(draw, depths=(1, 2, 2, 3), lo=1, hi=5):
    c = draw(gens.tensor_case(depths=depths, defaults=(0, 0, 3), fmt="any", hi=hi))
    if draw(st.integers(0, 3)):
        few = c["default"] != 0 and draw(st.booleans())
        c["spec"] = draw(gens.rspec(c["dims"], extra=[c["default"]],
                                    **({"vals": (0, c["default"])} if few else {})))
    c["fmt"] = [f if draw(st.integers(0, 2)) == 0 else "C" for f in c["fmt"]]
    c["mut"] = draw(st.booleans())
    c["color"] = draw(st.sampled_from(["red", "blue"]))
    c["active"] = draw(st.sampled_from([None, None, (1, 3), (0, 2)]))
    c["name"] = draw(st.sampled_from(["", "A"]))
    return c


def mk(c):
    t = raw.mk_tensor(c)
    t.setMutable(c["mut"])
    t.setColor(c["color"])
    if c["active"]:
        t.getRoot().setActive(c["active"])
    return t


def elements(t):
    return sum(len(f.coords) for r in t.ranks for f in r.getFibers())


# ---------------------------------------------------------------- overwriting everything

def overwrite(o):
    """Change everything reachable from a fiber or tensor through the public API."""
    def fib(f, seen):
        if id(f) in seen:
            return
        seen.add(id(f))
        for p in list(f.payloads):
            if isinstance(p, F()):
                fib(p, seen)
            else:
                p += 1
                p <<= 97
        a = f.getRankAttrs()
        a.setFormat("U" if a.getFormat() == "C" else "C")
        a.setShape(50)
        a.setId("overwritten")
        f.setActive((3, 4))
        f.clear()

    seen = set()
    if isinstance(o, T()):
        ranks = list(o.ranks)
        root = o.getRoot()
        if isinstance(root, P()):
            root <<= 97
        else:
            fib(root, seen)
            if root.getOwner() is not None:
                root.getPayloadRef(*([1] * len(ranks)))
        o.setName("overwritten")
        o.setColor("green")
        o.setMutable(not o.isMutable())
        for r in ranks:
            r.getAttrs().setShape(51)
            r.getAttrs().setFormat("U")
        if ranks:
            o.setDefault(41)
    else:
        fib(o, seen)


def shared(a, b):
    ma, mb = raw.mutables(a), raw.mutables(b)
    return [(ma[i], mb[i]) for i in set(ma) & set(mb) if "rank id list" not in ma[i]]


def verify(op, operands, what, muts=()):
    """op() -> a fresh result from the operands, never touching or sharing them."""
    before = [raw.snap(o, ids=True) for o in operands]
    plain = [raw.snap(o) for o in operands]
    r1 = op()
    for i, (o, b) in enumerate(zip(operands, before)):
        if raw.snap(o, ids=True) != b:
            raise Violation(f"{what}: operand {i} changed: {raw.snap(o)!r} was {plain[i]!r}")
        s = shared(o, r1)
        check(not s, "{}: the result shares {} with operand {}", what, s[:4], i)
    r2 = op()
    snap2 = raw.snap(r2)
    check_eq(raw.snap(r1), snap2, f"{what}: a second call")
    s = shared(r1, r2)
    check(not s, "{}: two results share {}", what, s[:4])
    # mutate the first result: invisible to the operands and to the other result
    for m in muts:
        mutate(r1, m)
    overwrite(r1)
    for i, (o, b) in enumerate(zip(operands, before)):
        if raw.snap(o, ids=True) != b:
            raise Violation(f"{what}: changing the result changed operand {i}: {raw.snap(o)!r} "
                            f"was {plain[i]!r}")
    check_eq(raw.snap(r2), snap2, f"{what}: changing one result changed the other")
    # mutate the operands: invisible to the result
    for o in operands:
        for m in muts:
            mutate(o, m)
        overwrite(o)
    check_eq(raw.snap(r2), snap2, f"{what}: changing the operands changed the result")
    return r1


def mutate(o, m):
    root = o.getRoot() if isinstance(o, T()) else o
    if not isinstance(root, F()):
        return
    depth = 1
    levels = [root]                        # a fiber of each level, the deepest chain
    while True:
        fs = [p for f in levels for p in f.payloads if isinstance(p, F())]
        if any(isinstance(c, tuple) for f in levels for c in f.coords):
            return
        if not fs:
            break
        levels, depth = fs, depth + 1
    f = levels[0]
    if isinstance(o, T()) and depth != len(o.ranks):
        return
    if m[0] in ("ref", "append") and not isinstance(o, T()):
        return                             # an unowned fiber may refuse insertions
    if m[0] == "ref":
        m = (m[0], (m[1] * 4)[:depth]) + m[2:]
        p = root.getPayloadRef(*m[1])
        if not isinstance(p, F()):
            hist.act(p, m[2], m[3])
    elif m[0] == "append":
        c = (root.coords[-1] if root.coords else 0) + 1
        v = 5 if depth == 1 else functools.reduce(lambda v, _: F()([1], [v]), range(depth - 1), 5)
        root.append(c, v)
    elif m[0] == "updpayloads":
        root.updatePayloads(lambda i, c, p: p + 1, depth=depth - 1)
    elif m[0] == "clear":
        f.clear()


MUTS = st.lists(st.one_of(
    st.tuples(st.just("ref"), st.tuples(st.integers(0, 6), st.integers(0, 3)), hist.ACTS,
              st.integers(1, 9)),
    st.just(("append",)), st.just(("updpayloads",)), st.just(("clear",))), max_size=3)


# ---------------------------------------------------------------- tensor-level operations

TK = [k for k in xform.KINDS if k != "flatsplit"] + ["unflatten2", "listids", "adopt", "adoptsub", "pickle",
                                                     "reroot"]


@st.composite
def tensors(draw):
    k = draw(st.sampled_from(TK))
    deep = k in ("swap", "swizzle", "flatten", "merge", "unflatten", "unflatten2")
    c = draw(operand((3,) if k == "listids" else (2, 2, 3) if deep else (1, 2, 2, 3)))
    depth = len(c["ranks"])
    if k == "unflatten2":
        lv = draw(st.integers(1, depth - 1))
        x = (k, draw(st.integers(0, depth - 1 - lv)), lv, draw(st.integers(1, lv)),
             draw(st.sampled_from(["tuple", "pair"])))
    elif k == "listids":
        # an operand one of whose ranks is already a flattened one (its rank id is a list)
        x = (k, draw(st.integers(0, 1)), draw(st.sampled_from(["tuple", "pair"])),
             draw(st.sampled_from(["flatten", "flatten", "swap", "swizzle", "unflatten",
                                   "uniform", "updpayloads", "adopt", "deepcopy"])),
             draw(st.sampled_from(["tuple", "pair"])))
    elif k in ("adopt", "adoptsub", "pickle", "reroot"):
        x = (k,)
    else:
        x = draw(xform.xform(depth, [k], known=c["shape"] is not None))
    return {"t": c, "x": x, "muts": draw(MUTS), "pre": draw(st.sampled_from(
        [None, None, "split", "flatten", "swizzle"]))}


def legal_updcoords(t, x):
    f = xform.CMAP[x[2]]

    def walk(g, d):
        if d == 0:
            return all(isinstance(c, int) and 0 <= f(c) < 64 for c in g.coords)
        return all(walk(p, d - 1) for p in g.payloads if isinstance(p, F()))
    return walk(t.getRoot(), x[1])


def run_tensors(case, ctx):
    x = case["x"]
    k = x[0]
    t = mk(case["t"])
    ids = t.getRankIds()
    depth = len(ids)
    n = elements(t)
    if k == "listids":
        pass
    elif case["pre"] == "split" and not case["t"]["active"]:
        t = t.splitUniform(2, depth=depth - 1)
    elif case["pre"] == "flatten" and depth > 2 and k in ("deepcopy", "swizzle", "pickle"):
        t = t.flattenRanks(depth=depth - 2, levels=1)
        x = ("deepcopy",) if k == "swizzle" else x
    elif case["pre"] == "swizzle" and depth > 1:
        t = t.swizzleRanks(list(reversed(ids)))
    if k == "swizzle" and len(t.getRankIds()) > depth:
        x = (k, tuple(x[1]) + (depth,))
    if k == "updcoords" and not legal_updcoords(t, x):
        return
    if k == "uniform" and t.getRoot().getActive() and case["t"]["active"]:
        a0, a1 = t.getRoot().getActive()
        if a0 >= a1:
            return
    what = f"{x}"
    others = []
    if k == "unflatten2":
        t = t.flattenRanks(depth=x[1], levels=x[2], coord_style=x[4])
        op = lambda: t.unflattenRanks(depth=x[1], levels=x[3])  # noqa
    elif k == "listids":
        t = t.flattenRanks(depth=x[1], levels=1, coord_style=x[2])
        ids = t.getRankIds()
        op = {"flatten": lambda: t.flattenRanks(depth=0, levels=1, coord_style=x[4]),
              "swap": lambda: t.swapRanks(depth=0),
              "swizzle": lambda: t.swizzleRanks([ids[1], ids[0]]),
              "unflatten": lambda: t.unflattenRanks(depth=x[1]),
              "uniform": lambda: t.splitUniform(2, depth=1 - x[1]),
              "updpayloads": lambda: t.updatePayloads(lambda i, c, p: p + 1, depth=1),
              "adopt": lambda: T().fromFiber(rank_ids=t.getRankIds(), fiber=t.getRoot(),
                                             default=case["t"]["default"]),
              "deepcopy": lambda: copy.deepcopy(t)}[x[3]]
        if x[3] in ("swap", "swizzle") and n == 0:
            return
    elif k == "adopt":
        op = lambda: T().fromFiber(rank_ids=t.getRankIds(), fiber=t.getRoot(),  # noqa
                                   default=case["t"]["default"])
    elif k == "adoptsub":
        if depth == 1 or not t.getRoot().payloads:
            return
        sub = t.getRoot().payloads[0]
        op = lambda: T().fromFiber(rank_ids=t.getRankIds()[1:], fiber=sub,  # noqa
                                   default=case["t"]["default"])
    elif k == "reroot":
        def op():
            u = T()(rank_ids=t.getRankIds(), default=case["t"]["default"])
            u.setRoot(t.getRoot())
            return u
    elif k == "pickle":
        import pickle
        op = lambda: pickle.loads(pickle.dumps(t))  # noqa
    else:
        if k in ("uniform", "nonuniform", "equal", "unequal") and x[5] == "rankid" and False:
            return
        op = lambda: xform.apply(t, x)  # noqa
    verify(op, [t] + others, what, case["muts"])
    ctx.label(k, f"d{depth}")
    ctx.nt(n >= 2)


# ---------------------------------------------------------------- fiber-level operations

FK = ["uniform", "nonuniform", "nonuniform_f", "equal", "unequal", "/", "//", "swap", "flatten",
      "merge", "merge", "unflatten", "+f", "*f", "+s", "s+", "*s", "s*", "copy", "copy_no", "copy_no",
      "deepcopy", "nonEmpty", "+f", "*f"]


@st.composite
def fibers(draw):
    k = draw(st.sampled_from(FK))
    deep = k in ("swap", "flatten", "merge", "unflatten")
    flat = k in ("+s", "s+", "*s", "s*")
    c = draw(operand((2, 2, 3) if deep else (1,) if flat else (1, 2, 2, 3)))
    depth = len(c["ranks"])
    o = {"t": c, "k": k, "own": draw(st.booleans()), "at": [], "muts": draw(MUTS)}
    if not deep and depth > 1 and draw(st.integers(0, 3)) == 0:
        o["at"] = [draw(st.integers(0, 3))]
        depth -= 1
    if k == "uniform":
        o["arg"] = draw(st.integers(1, 4))
    elif k in ("nonuniform", "nonuniform_f"):
        o["arg"] = draw(st.lists(st.integers(0, 6), min_size=1, max_size=3,
                                 unique=True).map(sorted))
    elif k in ("equal", "/", "//"):
        o["arg"] = draw(st.integers(1, 3))
    elif k == "unequal":
        o["arg"] = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
    elif flat:
        o["arg"] = draw(st.sampled_from([0, 2, -1, 1.5]))
    if k in ("uniform", "nonuniform", "nonuniform_f", "equal", "unequal"):
        o["rel"] = draw(st.booleans())
        o["halo"] = (draw(st.sampled_from([0, 0, 1])), draw(st.sampled_from([0, 0, 1])))
        o["depth"] = draw(st.integers(0, depth - 1))
    if k in ("flatten", "merge", "unflatten"):
        o["depth"] = draw(st.integers(0, depth - 2))
        o["levels"] = draw(st.integers(1, depth - 1 - o["depth"]))
        o["style"] = draw(st.sampled_from(
            ["tuple", "pair"] + (["linear"] if c["shape"] and k != "unflatten" else [])
            + (["absolute", "relative", "absolute"] if k == "merge" else [])))
        o["fn"] = draw(st.sampled_from([None, "sum", "first", "last", "max"]))
    if k in ("+f", "*f"):
        d = dict(c)
        d["spec"] = draw(gens.rspec(c["dims"], extra=[c["default"]]))
        o["u"] = d
        o["ownb"] = draw(st.booleans())
        o["self"] = draw(st.integers(0, 9)) == 0
    return o


def free(c):
    f = raw.mk_fiber(c["spec"], len(c["ranks"]), c["default"], shape=c["shape"])
    if c["active"]:
        f.setActive(c["active"])
    return f


def sub(f, at):
    for i in at:
        if not f.payloads:
            return None
        f = f.payloads[i % len(f.payloads)]
    return f


def run_fibers(case, ctx):
    c, k = case["t"], case["k"]
    t = mk(c) if case["own"] else None
    top = t if t is not None else free(c)
    f = sub(t.getRoot() if t is not None else top, case["at"])
    if f is None:
        ctx.label("no sub-fiber")
        return
    tops = [top]
    extra = []
    a = case.get("arg")
    kw = {}
    if "rel" in case:
        if case["rel"]:
            kw["relativeCoords"] = True
        if any(case["halo"]) and f.getActive()[0] < f.getActive()[1]:
            kw["pre_halo"], kw["post_halo"] = case["halo"]
        kw["depth"] = case["depth"]
    if k == "uniform":
        op = lambda: f.splitUniform(a, **kw)  # noqa
    elif k == "nonuniform":
        op = lambda: f.splitNonUniform(list(a), **kw)  # noqa
    elif k == "nonuniform_f":
        g = F()(list(a), [1] * len(a))
        extra = [g]
        op = lambda: f.splitNonUniform(g, **kw)  # noqa
    elif k == "equal":
        op = lambda: f.splitEqual(a, **kw)  # noqa
    elif k == "unequal":
        op = lambda: f.splitUnEqual(list(a), **kw)  # noqa
    elif k == "/":
        op = lambda: f / a  # noqa
    elif k == "//":
        if not any(not P().isEmpty(p) for p in f.payloads) or c["active"]:
            ctx.label("nothing to divide")
            return
        op = lambda: f // a  # noqa
    elif k == "swap":
        if f.isEmpty():
            ctx.label("empty")
            return
        op = lambda: f.swapRanks()  # noqa
    elif k == "flatten":
        op = lambda: f.flattenRanks(depth=case["depth"], levels=case["levels"],  # noqa
                                    style=case["style"])
    elif k == "merge":
        fn = {"merge_fn": xform.mfns()[case["fn"]]} if case["fn"] else {}
        op = lambda: f.mergeRanks(depth=case["depth"], levels=case["levels"],  # noqa
                                  style=case["style"], **fn)
    elif k == "unflatten":
        f = f.flattenRanks(depth=0, levels=case["levels"], style=case["style"])
        tops = [f]
        op = lambda: f.unflattenRanks(levels=case["levels"])  # noqa
    elif k in ("+f", "*f"):
        u = mk(case["u"]) if case["ownb"] else None
        g = f
        if not case["self"]:
            utop = u if u is not None else free(case["u"])
            g = sub(u.getRoot() if u is not None else utop, case["at"])
            if g is None:
                ctx.label("no sub-fiber")
                return
            tops.append(utop)
        op = (lambda: f + g) if k == "+f" else (lambda: f * g)
    elif k == "+s":
        op = lambda: f + a  # noqa
    elif k == "s+":
        op = lambda: a + f  # noqa
    elif k == "*s":
        op = lambda: f * a  # noqa
    elif k == "s*":
        op = lambda: a * f  # noqa
    elif k == "copy":
        op = lambda: f.copy()  # noqa
    elif k == "copy_no":
        op = lambda: f.copy(preserve_owner=False)  # noqa
    elif k == "deepcopy":
        op = lambda: copy.deepcopy(f)  # noqa
    elif k == "nonEmpty":
        op = lambda: f.nonEmpty()  # noqa
    if k in ("linear", "merge", "flatten") and case["style"] == "linear" and t is None:
        pass
    if k == "copy_no":
        detached(f, op(), ())
    verify(op, tops + extra, f"fiber {k} {a} {kw}", case["muts"])
    ctx.label(k, "own" if t is not None else "free", "sub" if case["at"] else "top")
    ctx.nt(len(f.coords) >= 1 and sum(1 for _ in raw.content(f, c["default"])) >= 0
           and len(c["spec"]) >= 2)


def detached(f, g, path):
    """g is a copy of f that belongs to no rank but knows what f's rank knew."""
    check(g.getOwner() is None, "copy(preserve_owner=False): the fiber at {} has an owner", path)
    a, b = f.getRankAttrs(), g.getRankAttrs()
    check(a is not b and a == b, "copy(preserve_owner=False): attributes at {}: {!r} for {!r}",
          path, b, a)
    check_eq(g.coords, f.coords, f"copy(preserve_owner=False): coordinates at {path}")
    for c, p, q in zip(f.coords, f.payloads, g.payloads):
        if isinstance(p, F()):
            detached(p, q, path + (c,))


# ---------------------------------------------------------------- small objects

@st.composite
def objects(draw):
    return {"t": draw(operand((1, 2))), "what": draw(st.sampled_from(["payload", "rank", "attrs",
                                                                      "tuple", "default"])),
            "v": draw(st.sampled_from([0, 3, 1.5])),
            "other": draw(st.sampled_from([0, 0.5, -2.5, 1 << 40]))}


def run_objects(case, ctx):
    k, v = case["what"], case["v"]
    if k == "default" and case.get("other", 0) != 0:
        case = dict(case, t=dict(case["t"], default=case["other"]))
    t = mk(case["t"])
    before = raw.snap(t, ids=True)
    if k == "payload":
        p = P()(v)
        q = copy.deepcopy(p)
        check(q is not p and q == p, "deepcopy of a box: {!r}", q)
        q += 1
        check_eq(p.value, v, "box after its copy changed")
        p <<= 77
        check_eq(q.value, v + 1, "copy after its box changed")
    elif k == "tuple":
        p = P()((P()(v), 2))
        q = copy.deepcopy(p)
        check(q.value[0] is not p.value[0], "deepcopy of a box of a tuple shares a box")
    elif k == "rank":
        r = t.ranks[0]
        q = copy.deepcopy(r)
        have = {id(x) for rr in t.ranks for x in [rr, rr.getAttrs()] + list(rr.getFibers())}
        check(id(q) not in have and id(q.getAttrs()) not in have, "rank copy shares")
        check(not have & {id(x) for x in q.getFibers()}, "rank copy shares its fibers")
        q.getAttrs().setFormat("U")
        q.getAttrs().setShape(9)
        for g in q.getFibers():
            g.clear()
    elif k == "attrs":
        a = t.ranks[-1].getAttrs()
        b = copy.deepcopy(a)
        check(b is not a and b == a, "attributes differ from their copy")
        b.setShape(77)
        b.setDefault(P()(55))
        b.setFormat("U")
    else:
        # every default handed out is fresh
        f = t.ranks[-1].getFibers()[0] if t.ranks[-1].getFibers() else None
        if f is not None:
            d = f.getDefault()
            e = f.getDefault()
            check(d is not e, "getDefault() hands out one box twice")
            d <<= 99
            miss = max(f.coords, default=0) + 1
            p = f.getPayload(miss)
            check_eq(raw.val(p), case["t"]["default"], "absent element after a default changed")
            p <<= 98
            check_eq(raw.val(f.getPayload(miss)), case["t"]["default"],
                     "absent element after its stand-in changed")
            d = t.getDefault()
            if isinstance(d, P()):
                d <<= 96
                check_eq(raw.val(t.getDefault()), case["t"]["default"], "tensor default")
    if raw.snap(t, ids=True) != before:
        raise Violation(f"{k}: the tensor changed")
    ctx.label(k)
    ctx.nt(elements(t) >= 2)


# ---------------------------------------------------------------- observers

def nest(f):
    for _, p in f:
        if isinstance(p, F()):
            nest(p)


def walk(it, n=None):
    for i, (_, p) in enumerate(it):
        if isinstance(p, F()):
            nest(p)
        if n is not None and i >= n:
            break


def co(it):
    for _, ps in it:
        ps = raw.val(ps)
        fs = [p for p in ps if isinstance(p, F())] if isinstance(ps, tuple) else []
        if len(fs) == 2:
            co(fs[0] & fs[1])
        for f in fs:
            nest(f)


def populate_source(f):
    from fibertree import Fiber
    z = Fiber([], [], default=f.getDefault() if not isinstance(f.getDefault(), type) else Fiber)
    for _, (z_ref, a_val) in z << f:
        pass


def scratch(fn):
    with tempfile.TemporaryDirectory() as d:
        fn(os.path.join(d, "x.yaml"))


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        fn()


def footprints(t):
    from fibertree.model import Format
    spec = {r: {"format": t.getFormat(r), "cbits": 8, "pbits": 16, "fhbits": 3, "rhbits": 5}
            for r in t.getRankIds()}
    fm = Format(t, spec)
    fm.getTensor()
    fm.getSubTree()
    fm.getRoot()
    for r in t.getRankIds():
        fm.getRank(r)
    root = t.getRoot()
    fm.getFiber()
    for c, p in zip(root.coords, root.payloads):
        if isinstance(p, F()):
            fm.getFiber(c)
        fm.getSubTree(c)
    if len(t.getRankIds()) > 1:
        fm.getFiber(9)
        fm.getSubTree(9)


# observers of a fiber: fn(f, g, c, depth) with g of the same depth, c a coordinate
FOBS = {
    "getPayload": lambda f, g, c, d: f.getPayload(c),
    "getPayload_deep": lambda f, g, c, d: f.getPayload(*[c] * d),
    "getPayload_default": lambda f, g, c, d: f.getPayload(c, default=None, allocate=False),
    "getPayload_none": lambda f, g, c, d: f.getPayload(*[c] * d, default=8, allocate=False),
    "getPosition": lambda f, g, c, d: f.getPosition(c),
    "getPayload_pos": lambda f, g, c, d: f.getPayload(c, start_pos=0),
    "getPosition_pos": lambda f, g, c, d: f.getPosition(c, start_pos=0),
    "iterRange_pos": lambda f, g, c, d: walk(f.iterRange(0, c, start_pos=0)),
    "iterOccupancy_pos": lambda f, g, c, d: walk(f.iterOccupancy(start_pos=len(f.coords) // 2)),
    "concat": lambda f, g, c, d: F().concat(f[0:1], f[1:]),
    "concat_own": lambda f, g, c, d: (f.concat(f[len(f.coords):]), f[0:0].concat(f)),
    "getRange": lambda f, g, c, d: f.getRange(c, 3),
    "getitem": lambda f, g, c, d: f[c % len(f.coords)] if f.coords else None,
    "slice": lambda f, g, c, d: f[0:2],
    "len": lambda f, g, c, d: len(f),
    "coords": lambda f, g, c, d: (f.getCoords(), f.getPayloads()),
    "minmax": lambda f, g, c, d: (f.minCoord(), f.maxCoord()),
    "iter": lambda f, g, c, d: walk(f),
    "iter_break": lambda f, g, c, d: walk(f, 0),
    "reversed": lambda f, g, c, d: walk(reversed(f)),
    "iterOccupancy": lambda f, g, c, d: walk(f.iterOccupancy()),
    "iterShape": lambda f, g, c, d: walk(f.iterShape()),
    "iterActive": lambda f, g, c, d: walk(f.iterActive()),
    "iterActiveShape": lambda f, g, c, d: walk(f.iterActiveShape()),
    "iterRange": lambda f, g, c, d: walk(f.iterRange(1, c)),
    "iterRangeShape": lambda f, g, c, d: walk(f.iterRangeShape(0, c, 2)),
    "iterUncompressed": lambda f, g, c, d: walk(f.iterUncompressed()),
    "iterShapeCoords": lambda f, g, c, d: list(f.iterShapeCoords()),
    "coiterShape": lambda f, g, c, d: list(F().coiterShape([f, g])),
    "coiterActiveShape": lambda f, g, c, d: list(F().coiterActiveShape([f, g])),
    "coiterRangeShape": lambda f, g, c, d: list(F().coiterRangeShape([f, g], 0, c)),
    "and": lambda f, g, c, d: co(f & g),
    "or": lambda f, g, c, d: co(f | g),
    "xor": lambda f, g, c, d: co(f ^ g),
    "sub": lambda f, g, c, d: co(f - g),
    "intersection": lambda f, g, c, d: co(F().intersection(f, g, f)),
    "leader": lambda f, g, c, d: co(F().intersection(f, g, style="leader-follower", leader=0)),
    "union": lambda f, g, c, d: co(F().union(f, g, f)),
    "populate_source": lambda f, g, c, d: populate_source(f),
    "prune": lambda f, g, c, d: walk(f.prune(lambda i, c, p: i % 2 == 0)),
    "project": lambda f, g, c, d: walk(f.project(lambda c: c + 2)),
    "project_rev": lambda f, g, c, d: walk(f.project(lambda c: 9 - c)),
    "project_int": lambda f, g, c, d: walk(f.project(lambda c: c + 1, interval=(1, 4))),
    "fromLazy": lambda f, g, c, d: F().fromLazy(f & g),
    "fromLazy_or": lambda f, g, c, d: (F().fromLazy(f | g), F().fromLazy(f - g),
                                       F().fromLazy(F().union(f, g))),
    "fromLazy_project": lambda f, g, c, d: F().fromLazy(f.project(lambda c: c + 2)),
    "fromLazy_prune": lambda f, g, c, d: F().fromLazy(f.prune(lambda i, c, p: i % 2 == 0)),
    "lazy_info": lambda f, g, c, d: [(x.getActive(), x.getDefault(), x.isLazy(),
                                      x.getShape(all_ranks=False, authoritative=True))
                                     for x in (f & g, f | g, f.prune(lambda i, c, p: True))],
    "bool": lambda f, g, c, d: (f == 0, f != None, f == [], f in [g]),  # noqa
    "eq": lambda f, g, c, d: (f == g, g == f, f == f, f != g),
    "isEmpty": lambda f, g, c, d: f.isEmpty(),
    "count": lambda f, g, c, d: (f.countValues(), f.countValues(recursive=False)),
    "nonEmpty": lambda f, g, c, d: f.nonEmpty(),
    "shape": lambda f, g, c, d: (f.getShape(), f.getShape(all_ranks=False), f.estimateShape(),
                                 f.getShape(all_ranks=False, authoritative=True)),
    "depth": lambda f, g, c, d: (f.getDepth(), f.getRankIds(), f.getActive(), f.getDefault()),
    "str": lambda f, g, c, d: str(f),
    "repr": lambda f, g, c, d: repr(f),
    "format": lambda f, g, c, d: (f"{f}", f"{f:n}", f"{f:n*}", f"{f:(02,03)}"),
    "print": lambda f, g, c, d: quiet(lambda: f.print("t")),
    "fiber2dict": lambda f, g, c, d: f.fiber2dict(),
    "dump": lambda f, g, c, d: scratch(f.dump),
    "uncompress": lambda f, g, c, d: f.uncompress(),
    "savedpos": lambda f, g, c, d: (f.getSavedPos(), f.getSavedPosStats()),
}
TOBS = {
    "t_getPayload": lambda t, c: t.getPayload(*[c] * len(t.getRankIds())),
    "t_getPayload1": lambda t, c: t.getPayload(c),
    "t_count": lambda t, c: t.countValues(),
    "t_eq": lambda t, c: (t == t, t == copy.deepcopy(t), t != t),
    "t_shape": lambda t, c: (t.getShape(), t.getShape(authoritative=True), t.getDepth(),
                             t.getShape(t.getRankIds()[:1])),
    "t_meta": lambda t, c: (t.getRankIds(), t.getName(), t.getColor(), t.getDefault(),
                            t.isMutable(), [t.getFormat(r) for r in t.getRankIds()], t.root()
                            if callable(getattr(t, "root", None)) else None),
    "t_str": lambda t, c: (str(t), repr(t), f"{t}", f"{t:n}"),
    "t_print": lambda t, c: quiet(lambda: t.print("x")),
    "t_dump": lambda t, c: scratch(t.dump),
    "t_iter": lambda t, c: walk(iter(t)),
    "t_rev": lambda t, c: walk(reversed(t)),
    "t_getitem": lambda t, c: t[c % len(t.getRoot().coords)] if t.getRoot().coords else None,
    "t_format": lambda t, c: footprints(t),
    "t_rank": lambda t, c: [(str(r), repr(r), r.getShape(), r.getRankIds(), r.getId(),
                             r.getFibers(), r.getDefault(), r.getFormat(), r.getNextRank())
                            for r in t.ranks],
}
# (observer, why) pairs whose operand must be something special
NEEDS_INT = {"iterRange", "iterRange_pos", "fromLazy_project", "iterRangeShape", "project", "project_rev", "project_int",
             "coiterRangeShape", "format", "getRange"}


@st.composite
def observe(draw):
    c = draw(operand((1, 1, 2, 2, 3)))
    d = dict(c)
    d["spec"] = draw(gens.rspec(c["dims"], extra=[c["default"]]))
    names = sorted(FOBS) + sorted(TOBS)
    return {"t": c, "u": d, "own": draw(st.booleans()), "ownb": draw(st.booleans()),
            "flat": draw(st.integers(0, 6)) == 0 and len(c["ranks"]) > 1 and c["active"] is None,
            "at": draw(st.sampled_from([[], [], [0], [1]])),
            "ops": draw(st.lists(st.tuples(st.sampled_from(names), st.integers(0, 5)),
                                 min_size=3, max_size=10))}


def run_observe(case, ctx):
    c = case["t"]
    t = mk(c) if case["own"] else None
    u = mk(case["u"]) if case["ownb"] else None
    if case["flat"]:
        t = mk(c).flattenRanks()
        u = mk(case["u"]).flattenRanks()
    top = t if t is not None else free(c)
    utop = u if u is not None else free(case["u"])
    depth = len(c["ranks"]) - (1 if case["flat"] else 0)
    f = sub(t.getRoot() if t is not None else top, case["at"] if depth > 1 else [])
    g = sub(u.getRoot() if u is not None else utop, case["at"] if depth > 1 else [])
    if f is None or g is None:
        return
    if depth > 1 and case["at"]:
        depth -= 1
    tuples = any(isinstance(x, tuple) for x in f.coords) or case["flat"] and not case["at"]
    before = raw.snap(top, ids=True), raw.snap(utop, ids=True)
    plain = raw.snap(top), raw.snap(utop)
    done = []
    for name, arg in case["ops"]:
        if name in TOBS:
            if t is None:
                continue
            fn = lambda: TOBS[name](t, arg if not tuples else (arg, arg))  # noqa
        else:
            if tuples and name in NEEDS_INT:
                continue
            fn = lambda: FOBS[name](f, g, arg if not tuples or name in  # noqa
                                    ("getitem",) else (arg, arg), depth)
        if name == "t_getitem" and tuples:
            continue
        try:
            fn()
        except Violation:
            raise
        except Exception as e:
            # some observers refuse some objects; they must not disturb them either
            ctx.label(f"refused:{name}:{type(e).__name__}")
        done.append(name)
        if raw.snap(top, ids=True) != before[0]:
            raise Violation(f"{name} (after {done[:-1]}) changed the object observed: "
                            f"{raw.snap(top)!r}, was {plain[0]!r}")
        if raw.snap(utop, ids=True) != before[1]:
            raise Violation(f"{name} (after {done[:-1]}) changed the second object: "
                            f"{raw.snap(utop)!r}, was {plain[1]!r}")
        if t is not None:
            raw.rank_mirror(t, f"after {name}")
    ctx.label(*done)
    ctx.label("own" if t is not None else "free", "tuple" if tuples else "int")
    ctx.nt(len(done) >= 2 and len(f.coords) >= 2)


# ---------------------------------------------------------------- images

@st.composite
def images(draw):
    c = draw(operand((1, 2, 2, 3), hi=4))
    pts = st.lists(st.tuples(*[st.integers(0, 3)] * len(c["ranks"])), min_size=1, max_size=3)
    return {"t": c, "own": draw(st.booleans()),
            "style": draw(st.sampled_from(["tree", "uncompressed", "tree+uncompressed", "t", "u"])),
            "hl": draw(st.one_of(st.just({}), pts, st.dictionaries(
                st.sampled_from(["PE0", "PE1"]), pts, min_size=1, max_size=2))),
            "flat": draw(st.integers(0, 5)) == 0 and len(c["ranks"]) > 1 and c["active"] is None,
            "rank0": draw(st.integers(0, 12)) == 0}


def run_images(case, ctx):
    from fibertree.graphics.tensor_image import TensorImage
    c = case["t"]
    if case["rank0"]:
        o = T()(rank_ids=[])
        r = o.getRoot()
        r <<= 5
    elif case["flat"]:
        o = mk(c).flattenRanks()
    else:
        o = mk(c) if case["own"] else free(c)
    before = raw.snap(o, ids=True)
    hl = case["hl"] if not (case["flat"] or case["rank0"]) else {}
    kw = {"style": case["style"], "extent": (12, 16)}
    pics = []
    for i in range(3):
        try:
            im = TensorImage(o, highlights=copy.deepcopy(hl), **kw).im
            pics.append((im.size, im.tobytes()))
        except Exception as e:
            pics.append(("refused", type(e).__name__, str(e)))
            ctx.label(f"refused:{type(e).__name__}")
        if raw.snap(o, ids=True) != before:
            raise Violation(f"rendering {case['style']} changed the object")
    check(pics[0] == pics[1] == pics[2], "rendering {} gives different images", case["style"])
    if pics[0][0] == "refused":
        return
    if case["own"] and not case["flat"] and not case["rank0"]:
        # the same state rebuilt from scratch looks the same
        im = TensorImage(mk(c), highlights=copy.deepcopy(hl), **kw).im
        check((im.size, im.tobytes()) == pics[0], "an identical tensor renders differently")
    ctx.label(case["style"], "hl" if hl else "plain")
    ctx.nt(len(c["spec"]) >= 2)


SUBS = [
    Sub("tensors", run_tensors, tensors, quick=2600),
    Sub("fibers", run_fibers, fibers, quick=3000),
    Sub("observe", run_observe, observe, quick=6000),
    Sub("objects", run_objects, objects, quick=400),
    Sub("images", run_images, images, quick=160),
]
