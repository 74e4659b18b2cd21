"""C02: a tensor's rank bookkeeping always mirrors its fibertree."""
import copy
import os
import tempfile

from .core import HYP, Sub, Violation, check, check_eq  # noqa
from hypothesis import strategies as st

from . import c01, gens, hist, raw, xform
from .raw import F, P, T

PROP = "C02"
RULE = ("raw depth-first walk from Tensor.getRoot() compared with ranks[i].getFibers() by "
        "identity (once each, none stale, none missing), owners, chain and root. Non-trivial: "
        "a mutation history with at least 3 applied steps that changed a tree of depth>=2, or a "
        "construction/transform whose result has at least two fibers below the root.")
ASSUMPTIONS = ["the fiber objects handed to a tensor are not edited behind its back through the "
               "raw coords/payloads lists"]


@st.composite
def history(draw):
    return draw(c01.history(depths=(2, 2, 3), max_ops=10).filter(lambda c: c["route"] != "fiber"))


def run_history(case, ctx):
    c01.run_history(case, ctx, mirror=True)


# ------------------------------------------------------------- constructors

@st.composite
def ctor(draw):
    how = draw(st.sampled_from(["empty", "fiber", "fiber-noids", "fiber-noids", "nest", "random", "yaml",
                                "rank0", "reroot", "steal", "adopt", "sub", "fromFiber-owned",
                                "setshape", "populated"]))
    a = draw(gens.tensor_case(depths=(1, 2, 2, 3), defaults=(0, 0, 3), hi=4))
    b = draw(gens.tensor_case(depths=(len(a["ranks"]),), defaults=(a["default"],), hi=4))
    return {"how": how, "a": a, "b": b, "seed": draw(st.integers(0, 50)),
            "dens": draw(st.sampled_from([0.3, 0.7, 1.0]))}


def fibers_below(t):
    return sum(len(r.getFibers()) for r in t.ranks[1:])


def run_ctor(case, ctx):
    how, a, b = case["how"], case["a"], case["b"]
    depth = len(a["ranks"])
    ids = list(a["ranks"])
    dflt = a["default"]
    others = []
    if how == "empty":
        t = T()(rank_ids=ids, shape=a["shape"], default=dflt)
    elif how == "rank0":
        t = T()(rank_ids=[])
    elif how == "fiber-noids":
        if raw.spec_empty(a["spec"], depth, dflt):
            return
        t = T().fromFiber(fiber=raw.mk_fiber(a["spec"], depth, dflt), default=dflt)
    elif how == "nest":
        t = T().fromUncompressed(rank_ids=ids, root=c01.dense(a["spec"], a["dims"], dflt),
                                 default=dflt)
    elif how == "random":
        t = T().fromRandom(rank_ids=ids, shape=list(a["dims"]),
                           density=[case["dens"]] * depth, seed=case["seed"])
    elif how == "yaml":
        src = raw.mk_tensor(a)
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "t.yaml")
            src.dump(p)
            t = T().fromYAMLfile(p)
        others.append(src)
    elif how == "reroot":
        t = raw.mk_tensor(a)
        t.setRoot(raw.mk_fiber(b["spec"], depth, dflt))
    elif how == "steal":
        # the root of another tensor becomes ours: both must stay sound
        src = raw.mk_tensor(b)
        t = raw.mk_tensor(a)
        t.setRoot(src.getRoot())
        others.append(src)
        check_eq(raw.rawtree(t.getRoot()), raw.rawtree(src.getRoot()), "tree after setRoot()")
    elif how == "fromFiber-owned":
        src = raw.mk_tensor(a)
        t = T().fromFiber(rank_ids=ids, fiber=src.getRoot(), default=dflt)
        others.append(src)
    elif how == "adopt":
        # an unowned root over fibers that belong to another tensor
        src = raw.mk_tensor(a)
        if depth == 1 or not src.getRoot().coords:
            return
        root = F()(list(src.getRoot().coords), list(src.getRoot().payloads))
        t = T().fromFiber(rank_ids=ids, fiber=root, default=dflt)
        others.append(src)
        check_eq(raw.rawtree(t.getRoot()), raw.rawtree(src.getRoot()), "adopted tree")
    elif how == "sub":
        src = raw.mk_tensor(a)
        if depth == 1 or not src.getRoot().coords:
            return
        t = T().fromFiber(rank_ids=ids[1:], fiber=src.getRoot().payloads[0], default=dflt)
        others.append(src)
    elif how == "populated":
        t = T().makePopulated(ids, list(a["dims"]), initial=case["seed"] % 3,
                              default=[None, 0][case["seed"] % 2])
    elif how == "setshape":
        t = raw.mk_tensor(a)
        t.setShape(list(a["dims"]))
    else:
        t = raw.mk_tensor(a)
    ctx.label(how)
    raw.rank_mirror(t, how)
    for o in others:
        raw.rank_mirror(o, how + " (source tensor)")
    # statistics clearing reaches every fiber
    if depth and how != "rank0":
        def walk(f):
            yield f
            for p in f.payloads:
                if isinstance(p, F()):
                    yield from walk(p)
        fs = list(walk(t.getRoot()))
        for f in fs:
            f.setSavedPos(0, distance=2)
        t.clearStats()
        for f in fs:
            check_eq(f.getSavedPosStats(), (0, 0), "saved-position statistics after clearStats()")
    # and so do the footprints of the ranks
    if how != "rank0":
        from fibertree.model.format import Format
        spec = {r: {"cbits": 3, "pbits": 5, "fhbits": 2, "rhbits": 1}
                for r in t.getRankIds()}
        fm = Format(t, spec)
        level = [t.getRoot()]
        for r in t.getRankIds():
            want = 1 + sum(2 + 8 * len(f.coords) for f in level)
            check_eq(fm.getRank(r), want, f"footprint of rank {r}")
            level = [p for f in level for p in f.payloads if isinstance(p, F())]
    ctx.nt(how == "rank0" or fibers_below(t) >= 2 or (depth == 1 and bool(t.getRoot().coords)))


# ------------------------------------------------------------- transforms

@st.composite
def transform(draw):
    t = draw(gens.tensor_case(depths=(1, 2, 2, 3, 3), defaults=(0, 0, 3), hi=5))
    n = len(t["ranks"])
    xs = [draw(xform.xform(n, known=t["shape"] is not None))]
    post = draw(st.lists(hist.op(n, ["ref", "ref", "populate", "clear", "assign"]), max_size=3))
    # mutations of the result, then one more transform (drawn for either number of ranks)
    then = [(draw(st.lists(hist.op(m, ["ref", "populate", "clear", "assign", "append", "insert",
                                       "setitem", "updfibers", "iterref", "iaddf", "extend"]),
                           min_size=1, max_size=3)),
             draw(xform.xform(m, known=False)))
            if m else ([], ("deepcopy",)) for m in (n - 1, n, n + 1)]
    return {"t": t, "x": xs[0], "post": post, "then": then}


def run_transform(case, ctx):
    t = raw.mk_tensor(case["t"])
    x = case["x"]
    r = xform.apply(t, x)
    ctx.label(x[0])
    raw.rank_mirror(t, f"operand of {x[0]}")
    raw.rank_mirror(r, f"result of {x}")
    check(r.getRoot() is not t.getRoot(), "result shares the root")
    raw.wellformed(r.getRoot(), len(r.getRankIds()), f"result of {x}")
    ctx.nt(fibers_below(r) >= 2 or (len(r.ranks) == 1 and len(r.getRoot().coords) > 1))
    # mutating the operand afterwards keeps both sound
    depth = len(case["t"]["ranks"])
    for o in case["post"]:
        try:
            hist.apply(t.getRoot(), depth, o, case["t"]["default"], True)
        except hist.Illegal:
            continue
        raw.rank_mirror(t, f"operand after {x} and {o[0]}")
        raw.rank_mirror(r, f"result after {x} and {o[0]} on the operand")
    # and so does mutating the result, whose ranks may be new
    rd = len(r.getRankIds())
    if all(isinstance(i, str) for i in r.getRankIds()):
        for c in (0, 3):
            p = r.getPayloadRef(*([c] * rd))
            p <<= 9
            raw.rank_mirror(r, f"result of {x} after a write")
    if "then" not in case or not ints(r.getRoot()) or not depth - 1 <= rd <= depth + 1 \
            or not all(isinstance(i, str) for i in r.getRankIds()):
        return
    ops, x2 = case["then"][rd - depth + 1]
    for o in ops:
        try:
            hist.apply(r.getRoot(), rd, o, case["t"]["default"], True)
        except hist.Illegal:
            continue
        ctx.label("then " + o[0])
        raw.rank_mirror(r, f"result of {x} after {o[0]}")
        raw.wellformed(r.getRoot(), rd, f"result of {x} after {o[0]}")
    q = xform.apply(r, x2)
    ctx.label("then " + x2[0])
    raw.rank_mirror(r, f"operand of the second transform {x2}")
    raw.rank_mirror(q, f"result of the second transform {x2}")
    raw.wellformed(q.getRoot(), len(q.getRankIds()), f"result of the second transform {x2}")


def ints(f):
    return all(isinstance(c, int) for c in f.coords) and \
        all(ints(p) for p in f.payloads if isinstance(p, F()))


SUBS = [
    Sub("history", run_history, history, quick=8000, thorough=300000),
    Sub("construct", run_ctor, ctor, quick=2500, thorough=60000),
    Sub("tuples", lambda case, ctx: c01.run_tuples(case, ctx, mirror=True), c01.tuples,
        quick=1500, thorough=40000,
        rule="at least two steps changed a tree one of whose ranks has tuple coordinates"),
    Sub("transform", run_transform, transform, quick=6000, thorough=150000),
]
