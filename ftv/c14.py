"""C14: rank ids, shapes, defaults, formats and active ranges follow the data."""
import copy
import operator

from .core import HYP, Sub, Violation, check, check_eq  # noqa
from hypothesis import strategies as st

from . import c09, gens, model, raw, xform
from .raw import F, P, T  # noqa

PROP = "C14"
RULE = ("chains of up to five transforms over tensors of depth 1-4 (explicit or estimated shape, "
        "default 0 or not, any formats, mutable or not, explicit covering active ranges), every "
        "constructor, every lazy operator over owned and unowned operands, and fibers with "
        "attributes of their own joining a tensor; ids, shape, default, formats, mutability and "
        "active ranges are compared with values computed from the operand's. Non-trivial: see "
        "the rule of each check.")
ASSUMPTIONS = ["shapes of results of operands with an estimated shape only have to cover the data",
               "halo elements of a partition lie outside its active range",
               "the format of a rank made by flattening or unflattening is not prescribed"]


# ---------------------------------------------------------------- what a tensor reports

def inside(c, sh):
    if isinstance(c, tuple):
        return isinstance(sh, tuple) and len(c) == len(sh) and \
            all(inside(a, b) for a, b in zip(c, sh))
    return not isinstance(sh, tuple) and 0 <= c < sh


def attrs(t, s, what, mutable=None, active=True):
    """Everything the tensor and its fibers report against the model state."""
    ids = t.getRankIds()
    check_eq(ids, s.ids, what + ": rank ids")
    check_eq(t.getDepth(), s.depth, what + ": depth")
    if s.shape is not None:
        check_eq(t.getShape(authoritative=True), s.shape, what + ": authoritative shape")
    shape = t.getShape()
    check_eq(len(shape), s.depth, what + ": length of the shape")
    if s.shape is not None:
        check_eq(shape, s.shape, what + ": shape")
    check_eq(raw.val(t.getDefault()), s.default, what + ": leaf default")
    check_eq(type(raw.val(t.getDefault())), type(s.default), what + ": type of the leaf default")
    if mutable is not None:
        check_eq(t.isMutable(), mutable, what + ": mutability hint")
    fmts = [t.getFormat(i) for i in ids]
    for i, (g, w) in enumerate(zip(fmts, s.fmt)):
        if w is not None:
            check_eq(g, w, f"{what}: format of rank {ids[i]}")
        check(g in ("C", "U"), "{}: format {!r} of rank {}", what, g, ids[i])
    level = [t.getRoot()]
    for i, r in enumerate(t.ranks):
        w = f"{what}: rank {ids[i]}"
        last = i + 1 == s.depth
        check_eq(r.getId(), s.ids[i], w + " getId")
        one = r.getShape(all_ranks=False)
        check(one == shape[i] or one is None and s.shape is None,
              "{}: getShape is {}, the tensor's is {}", w, one, shape[i])
        check_eq(r.getShape(), shape[i:], w + " getShape of all ranks")
        if isinstance(ids[i], str):
            check_eq(t.getShape(ids[i]), shape[i], w + " getShape by id")
        if last:
            check_eq(raw.val(r.getDefault()), s.default, w + " default")
        for f in level:
            fiber(f, r, shape[i], w, s.default if last else None, active)
        level = [p for f in level for p in f.payloads] if not last else []
    return fmts


def fiber(f, r, shape, what, default, active=True):
    check(f.getRankAttrs() is r.getAttrs(), "{}: a fiber does not report its rank's attributes",
          what)
    check_eq(f.getShape(all_ranks=False), shape, what + ": shape of a fiber")
    check_eq(f.getRankIds()[0], r.getId(), what + ": rank id of a fiber")
    if default is not None:
        check_eq(raw.val(f.getDefault()), default, what + ": default of a fiber")
    for c in f.coords:
        check(inside(c, shape), "{}: coordinate {} is not inside the reported shape {}",
              what, c, shape)
    if active:
        in_active(f, what)


def in_active(f, what):
    a0, a1 = f.getActive()
    for c in f.coords:
        check(a0 <= c < a1 or (isinstance(c, tuple) and a1 == float("inf")),
              "{}: coordinate {} of {} is outside the active range {}", what, c, f.coords, (a0, a1))
    occ = [(c, id(p)) for c, p in f.iterOccupancy()]
    act = [(c, id(p)) for c, p in f.iterActive()]
    check_eq([c for c, _ in act], [c for c, _ in occ],
             what + ": coordinates of active against occupancy iteration")
    check_eq(act, occ, what + ": active against occupancy iteration")


# ---------------------------------------------------------------- chains

@st.composite
def step(draw, depth):
    k = draw(st.integers(0, 17))
    d = draw(st.integers(0, depth - 1))
    if k == 6:
        return ("fmt", d, draw(st.sampled_from("CU")))
    if k == 0:
        return ("equal", d, draw(st.integers(1, 3)), draw(st.booleans()))
    if k == 1:
        return ("unequal", d, draw(st.lists(st.integers(1, 3), min_size=1, max_size=3)))
    if k == 2:
        return (draw(st.sampled_from(["div", "floordiv"])), 0, draw(st.integers(1, 4)))
    if k == 3:
        return ("halo", d, draw(st.integers(1, 4)), draw(st.integers(0, 2)),
                draw(st.integers(0, 2)), draw(st.booleans()))
    if k == 4:
        return ("rename", d, draw(st.sampled_from(["id", "+3", "rev"])), draw(st.booleans()),
                draw(st.booleans()))
    if k == 5:
        return ("updpay", d)
    return draw(c09.step(depth))


@st.composite
def chain(draw):
    c = draw(c09.start_case())
    d = len(c["ranks"])
    c["fmt"] = draw(st.lists(st.sampled_from("CU"), min_size=d, max_size=d))
    c["mutable"] = draw(st.booleans())
    c["act"] = draw(st.integers(0, 99)) if draw(st.integers(0, 3)) == 0 else None
    steps = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 2, 3, 4, 5]))):
        x = draw(step(d))
        if steps and steps[-1][0] == "flatten" and steps[-1][3] in ("tuple", "pair") and \
                draw(st.booleans()):
            x = ("unflatten", steps[-1][1], draw(st.integers(1, steps[-1][2])))
        steps.append(x)
        if x[0] in ("uniform", "nonuniform", "equal", "unequal", "div", "floordiv", "halo"):
            d = min(d + 1, 5)
        elif x[0] in ("flatten", "merge"):
            d -= x[2]
        elif x[0] == "unflatten":
            d = min(d + x[2], 5)
    c["steps"] = steps
    return c


def cover(t, seed):
    """Explicit active ranges that cover the coordinates of every fiber."""
    import random
    rnd = random.Random(seed)
    for r in t.ranks:
        n = r.getShape(all_ranks=False)
        for f in r.getFibers():
            if f.coords and rnd.random() < .6:
                lo = rnd.randint(0, f.coords[0])
                f.setActive((lo, rnd.randint(f.coords[-1] + 1, max(n, f.coords[-1] + 1))))


def split_back(s, d, new, what):
    got = raw.tcontent(new)
    shape = s.shape and s.shape[:d] + [s.shape[d]] * 2 + s.shape[d + 1:]
    return s.new(model.split_ids(s, d), shape, got, s.fmt[:d] + [s.fmt[d]] * 2 + s.fmt[d + 1:])


def advance(t, s, x):
    """(result, state, active ranges hold everything, level exempt) or None if not legal."""
    k = x[0]
    if k in ("equal", "unequal", "div", "floordiv", "halo"):
        d = x[1]
        if isinstance(s.ids[d], list) and not s.pts:
            return None
        if k in ("div", "floordiv", "halo") and not model.isint(s, d):
            return None
        if k == "div" and not t.getShape()[0]:
            return None
        if k in ("equal", "unequal") and len(x) > 3 and x[3] and not model.isint(s, d):
            return None
        if k == "equal":
            new = t.splitEqual(x[2], depth=d, relativeCoords=True) if len(x) > 3 and x[3] \
                else t.splitEqual(x[2], depth=d)
        elif k == "unequal":
            new = t.splitUnEqual(list(x[2]), depth=d)
        elif k == "div":
            new = t / x[2]
        elif k == "floordiv":
            new = t // x[2]
        else:
            kw = {"rankid": s.ids[d]} if x[5] else {"depth": d}
            if x[3] or x[4]:
                for f in t.ranks[d].getFibers():
                    a0, a1 = f.getActive()
                    # (an absolute merge of unrelated ranks keeps the upper rank's range)
                    if a0 >= a1 or a1 > (f.getShape(all_ranks=False) or 0):
                        return None
            new = t.splitUniform(x[2], pre_halo=x[3], post_halo=x[4], **kw)
        return new, split_back(s, d, new, x), not (k == "halo" and (x[3] or x[4]))
    if k == "rename":
        d = x[1]
        if not model.isint(s, d) or (isinstance(s.ids[d], list) and not s.pts):
            return None
        f = xform.CMAP[x[2]]
        if any(f(p[d]) < 0 for p in s.pts):
            return None
        top = max([f(p[d]) + 1 for p in s.pts], default=0)
        kw = {"new_rank_id": f"Z{s.depth}"} if x[3] and "Z" not in str(s.ids) else {}
        known = t.ranks[d].getShape(all_ranks=False, authoritative=True)
        if x[4] or known is not None and (not isinstance(known, int) or top > known):
            kw["new_shape"] = max(top, 1) + 2
        pts = {p[:d] + (f(p[d]),) + p[d + 1:]: v for p, v in s.pts.items()}
        shape = s.shape
        if shape:
            shape = shape[:d] + [kw.get("new_shape", shape[d])] + shape[d + 1:]
        ids = s.ids[:d] + [kw.get("new_rank_id", s.ids[d])] + s.ids[d + 1:]
        # explicit defaults and empty sub-fibers move too
        deep = t.ranks[d].getFibers()
        if any(f(c) < 0 or (not kw.get("new_shape") and known is not None and f(c) >= known)
               or (kw.get("new_shape") and f(c) >= kw["new_shape"])
               for fb in deep for c in fb.coords):
            return None
        new = t.updateCoords(xform.CFN[x[2]], depth=d, **kw)
        return new, s.new(ids, shape, pts, s.fmt), True
    if k == "fmt":
        t.setFormat(s.ids[x[1]], x[2])
        return t, s.new(s.ids, s.shape, s.pts, s.fmt[:x[1]] + [x[2]] + s.fmt[x[1] + 1:]), True
    if k == "updpay":
        if x[1] + 1 != s.depth:
            return t.updatePayloads(lambda i, c, p: p, depth=x[1]), s, True
        new = t.updatePayloads(lambda i, c, p: p + 1, depth=x[1])
        return new, s.new(s.ids, s.shape, raw.tcontent(new), s.fmt), True
    n = c09.advance(s, x)
    if n is None:
        return None
    if k == "updcoords":
        f = xform.CMAP[x[2]]
        if any(not 0 <= f(c) < 64 for fb in t.ranks[x[1]].getFibers() for c in fb.coords):
            return None                    # explicit defaults and empty sub-fibers move too
    new = c09.call(t, x)
    if n == "?":
        n = split_back(s, x[1], new, x)
    if k in ("flatten", "merge"):
        n.fmt[x[1]] = None
    elif k == "unflatten":
        for i in range(x[1], x[1] + x[2] + 1):
            n.fmt[i] = None
    return new, n, True


def run_chain(case, ctx):
    t, s = c09.start(case)
    t.setMutable(case["mutable"])
    if case["act"] is not None:
        cover(t, case["act"])
    attrs(t, s, "start", case["mutable"])
    if s.shape is None:
        check_eq(t.getShape(authoritative=True), None, "authoritative shape of an estimated tensor")
    applied = []
    for x in case["steps"]:
        if (not c09.fits(s, x) if x[0] in KIND else x[1] >= s.depth) or s.depth > 6:
            continue
        what = f"{x} after {applied}"
        before = [t.getFormat(i) for i in t.getRankIds()]
        r = advance(t, s, x)
        if r is None:
            ctx.label("skipped")
            continue
        new, n, act = r
        if c09.relmerge(x) and (n.shape is None or c09.outside(n) or gone(new, n)):
            # documented to keep the upper rank's shape: the sums need not fit
            ctx.label("relative")
            break
        fm = attrs(new, n, what, case["mutable"], act)
        if new is not t:
            check_eq([t.getFormat(i) for i in t.getRankIds()], before,
                     what + ": operand's formats")
            check_eq(t.isMutable(), case["mutable"], what + ": operand's mutability hint")
        t, s = new, model.St(n.ids, n.shape, n.pts, n.default, fm)
        applied.append(x)
        ctx.label(x[0] + (":" + x[3] if x[0] in ("flatten", "merge") else ""))
        if not act:
            ctx.label("halo")
            break
    ctx.label(f"steps{len(applied)}", "auth" if case["shape"] else "estimated",
              "default" if case["default"] else "zero", *(["act"] if case["act"] is not None else []))
    ctx.nt(bool(applied) and len(s.pts) >= 2)


KIND = {"uniform", "nonuniform", "updcoords", "unflatten", "deepcopy", "swizzle", "swap",
        "flatten", "merge"}


def gone(t, s):
    """A stored (possibly default) coordinate past the shape of a relative merge."""
    return any(not inside(c, sh) for r, sh in zip(t.ranks, s.shape)
               for f in r.getFibers() for c in f.coords)


# ---------------------------------------------------------------- constructors

BUILD = ["fromFiber", "empty", "populated", "uncompressed", "yaml", "yamlfile", "random",
         "deepcopy", "setRoot", "noids"]


@st.composite
def build(draw):
    c = draw(c09.start_case((1, 2, 3)))
    c["k"] = draw(st.sampled_from(BUILD))
    c["own"] = draw(st.booleans())          # the fiber carries attributes of its own
    c["fdef"] = draw(st.sampled_from([0, 3, 7]))
    c["grow"] = draw(st.integers(0, 3))
    c["seed"] = draw(st.integers(0, 50))
    c["dens"] = draw(st.sampled_from([0.2, 0.5, 0.9]))
    if c["k"] in ("fromFiber", "setRoot", "noids", "deepcopy") and draw(st.booleans()):
        # one rank has pairs for coordinates, and nothing says how large they get
        d = draw(st.sampled_from([1, 2, 2, 2, 3]))
        c["tup"] = draw(st.integers(min(1, d - 1), d - 1))
        c["ranks"] = gens.RANKS[:d]
        c["spec"] = draw(gens.rspec([3, 3][:d - 1] + [8] if c["tup"] == d - 1 else [3, 8, 2],
                                    extra=[c["default"]]))
        c["shape"], c["own"] = None, False
        c["fmt"] = ["C"] * len(c["ranks"])
    return c


def paired(spec, lv):
    return [[(c // 2, -c % 5) if lv == 0 else c,
             paired(s, lv - 1) if isinstance(s, list) else s] for c, s in spec]


def sortspec(spec):
    return sorted([[c, sortspec(s) if isinstance(s, list) else s] for c, s in spec],
                  key=lambda e: e[0])


def dims(case):
    """Smallest shape that covers the tree."""
    n = len(case["ranks"])
    out = [0] * n

    def go(sp, d):
        for c, v in sp:
            out[d] = max(out[d], c + 1)
            if d + 1 < n:
                go(v, d + 1)
    go(case["spec"], 0)
    return out


def run_build(case, ctx):
    import os
    import tempfile
    k, ids, default = case["k"], list(case["ranks"]), case["default"]
    n = len(ids)
    if case.get("tup") is not None:
        case = dict(case, spec=sortspec(paired(case["spec"], case["tup"])))
        ctx.label("pairs")
    shape = None if case["shape"] is None else [max(a, b) + case["grow"]
                                                for a, b in zip(case["shape"], dims(case))]
    pts = raw.spec_content(case["spec"], n, default)
    fspec = raw.mk_fiber(case["spec"], n, default)
    mutable = False
    if k in ("fromFiber", "setRoot", "noids"):
        if case["own"]:
            fspec = attributed(case["spec"], n, case["fdef"], dims(case), 0)
        if k == "fromFiber":
            t = T().fromFiber(rank_ids=ids, fiber=fspec, shape=shape, default=default)
        elif k == "noids":
            t = T().fromFiber(fiber=fspec, shape=shape, default=default)
            ids = [f"R{n - 1 - i}" for i in range(n)]
            if shape is None and fspec.getDepth() != n:
                ctx.label("depth unknown")
                return
        else:
            t = T()(rank_ids=ids, shape=shape, default=default)
            mutable = True
            t.setRoot(fspec)
        if shape is None and case["own"]:
            shape = None
    elif k == "empty":
        t = T()(rank_ids=ids, shape=shape, default=default)
        pts, mutable = {}, True
    elif k == "populated":
        shape = shape or [d + 1 for d in dims(case)]
        t = T().makePopulated(ids, shape, initial=5, default=default)
        mutable = True
        pts = raw.tcontent(t)
        total = 1
        for d in shape:
            total *= d
        check_eq(len(pts), total, "number of points of a populated tensor")
    elif k == "uncompressed":
        full = shape or [d + 1 for d in dims(case)]
        t = T().fromUncompressed(ids, nest(pts, full, default), shape=shape, default=default)
        shape = full
    elif k in ("yaml", "yamlfile"):
        t0 = T().fromFiber(rank_ids=ids, fiber=fspec, shape=shape, default=default)
        d = tempfile.mkdtemp(prefix="c14")
        fn = os.path.join(d, "t.yaml")
        try:
            t0.dump(fn)
            t = T()(fn) if k == "yaml" else T().fromYAMLfile(fn)
        finally:
            os.unlink(fn)
            os.rmdir(d)
    elif k == "random":
        shape = shape or [4] * n
        t = T().fromRandom(ids, shape, [case["dens"]] * n, seed=case["seed"], default=0)
        default = 0
        pts = raw.tcontent(t)
    else:
        t0 = raw.mk_tensor(case)
        t0.setMutable(case["own"])
        mutable = case["own"]
        t = copy.deepcopy(t0)
        shape = case["shape"]
        s = model.St(ids, shape, pts, default, case["fmt"])
        attrs(t, s, "deepcopy", mutable)
        check_eq(raw.tcontent(t), pts, "deepcopy: points")
        ctx.label(k)
        ctx.nt(len(pts) >= 2)
        return
    s = model.St(ids, shape, pts, default)
    attrs(t, s, f"{k}", mutable)
    if k not in ("setRoot", "fromFiber", "noids") or not case["own"]:
        check_eq(raw.tcontent(t), pts, f"{k}: points")
    ctx.label(k, "auth" if shape else "estimated", *(["own"] if case["own"] else []))
    ctx.nt(len(pts) >= 2)


def nest(pts, shape, default, pre=()):
    if len(pre) == len(shape):
        return pts.get(pre, default)
    return [nest(pts, shape, default, pre + (i,)) for i in range(shape[len(pre)])]


def attributed(spec, depth, default, shape, level):
    """Unowned tree whose fibers carry ids, shapes, formats and defaults of their own."""
    Fiber = F()
    if depth == 1:
        f = Fiber([c for c, _ in spec], [v for _, v in spec], default=default, shape=shape[0])
    else:
        f = Fiber([c for c, _ in spec],
                  [attributed(v, depth - 1, default, shape[1:], level + 1) for _, v in spec],
                  default=Fiber, shape=shape[0])
    f.getRankAttrs().setId(f"own{level}")
    f.getRankAttrs().setFormat("U")
    return f


# ---------------------------------------------------------------- joining a tensor

JOIN = ["setRoot", "append", "setitem", "insertassign", "ref", "populate", "extend"]


@st.composite
def join(draw):
    c = draw(c09.start_case((1, 2, 2, 3)))
    c["shape"] = draw(st.sampled_from([None, [8] * len(c["ranks"])]))
    c["k"] = draw(st.sampled_from(JOIN))
    d = len(c["ranks"])
    c["sub"] = draw(gens.spec([4] * (d if c["k"] == "setRoot" else max(1, d - 1)), c["default"]))
    c["fdef"] = draw(st.sampled_from([0, 3, 7]))
    return c


def run_join(case, ctx):
    t, s = c09.start(case)
    k, n = case["k"], s.depth
    root = t.getRoot()
    if k != "setRoot" and n == 1:
        ctx.label("leaf")
        return
    new = attributed(case["sub"], n if k == "setRoot" else n - 1, case["fdef"], [4] * n, 0)
    at = (root.coords[-1] + 1) if root.coords else 0
    sub = None
    if k == "setRoot":
        t.setRoot(new)
        sub = t.getRoot()
    elif k == "append":
        root.append(at, new)
        sub = root.payloads[-1]
    elif k == "extend":
        o = F()([at, at + 1], [new, copy.deepcopy(new)])
        root.extend(o)
        if at + 1 not in root.coords:
            ctx.label("nothing")
            return                         # empty payloads need not be appended
        sub = root.payloads[-1]
    elif k == "setitem":
        if not root.coords:
            return
        root[0] = new
        sub = root.payloads[0]
    elif k == "insertassign":
        # a sub-fiber handed out for a missing coordinate joins once it is stored
        sub = root.getPayloadRef(at)
    elif k == "ref":
        sub = root.getPayloadRef(at)
        leaf = t.getRoot().getPayloadRef(at, *([0] * (n - 1)))
        check(leaf is not None, "no leaf")
    else:
        src = F()([at], [new])
        for _, (z, a) in root << src:
            z <<= a
        sub = root.getPayload(at)
        if not raw.content(new, case["default"]):
            # nothing assigned
            ctx.label("nothing")
            return
    top = 0 if k == "setRoot" else 1
    stack = [(sub, top)]
    while stack:
        f, lv = stack.pop()
        r = t.ranks[lv]
        w = f"{k}: fiber of rank {r.getId()}"
        check(f.getOwner() is r, "{} is owned by {}", w, f.getOwner() and f.getOwner().getId())
        check(f.getRankAttrs() is r.getAttrs(), "{} keeps attributes of its own", w)
        check_eq(f.getRankIds(), [x.getId() for x in t.ranks[lv:]], w + ": rank ids")
        check_eq(f.getRankAttrs().getId(), r.getId(), w + ": rank id")
        if r.getShape(all_ranks=False) is not None:
            check_eq(f.getShape(all_ranks=False), r.getShape(all_ranks=False), w + ": shape")
        check_eq(f.getRankAttrs().getFormat(), s.fmt[lv], w + ": format")
        if lv + 1 == n:
            check_eq(raw.val(f.getDefault()), s.default, w + ": default")
        else:
            check_eq(raw.dsnap(f.getDefault()), "Fiber", w + ": default")
            stack.extend((p, lv + 1) for p in f.payloads)
    for r, i, fm in zip(t.ranks, s.ids, s.fmt):
        check_eq(r.getId(), i, "rank id after " + k)
        check_eq(t.getFormat(i), fm, "format after " + k)
    check_eq(raw.val(t.getDefault()), s.default, "leaf default after " + k)
    if case["shape"]:
        check_eq(t.getShape(authoritative=True), case["shape"], "shape after " + k)
    elif k == "setRoot":
        for r, sh in zip(t.ranks, t.getShape()):
            for f in r.getFibers():
                for c in f.coords:
                    check(inside(c, sh), "after {}: coordinate {} is not inside the shape {}",
                          k, c, t.getShape())
    ctx.label(k, "auth" if case["shape"] else "estimated")
    ctx.nt(bool(case["sub"]))


# ---------------------------------------------------------------- lazy results

OPS = ["&", "|", "^", "-", "<<", "intersection", "union", "intersection:lf", "prune", "project",
       "projectI", "coshape", "coshaperef", "coactive", "coactiveref"]


@st.composite
def lazy(draw):
    n = draw(st.integers(1, 8))
    depth = draw(st.sampled_from([1, 1, 1, 2]))

    def operand():
        o = {"depth": depth, "spec": draw(gens.spec([n, 3][:depth], 0)),
             "shape": n + draw(st.integers(0, 2)) if draw(st.booleans()) else None, "active": None,
             "own": draw(st.booleans()), "fmt": draw(st.sampled_from("CCU")),
             "id": draw(st.sampled_from([None, "A", "B", "K"]))}
        if draw(st.booleans()):
            lo = draw(st.integers(0, n))
            o["active"] = (lo, draw(st.integers(lo, n + 2)))
        return o

    o1, o2, o3 = operand(), operand(), operand()
    op = draw(st.sampled_from(OPS))
    iv = draw(st.integers(0, 6))
    return {"o": [o1, o2, o3], "op": op, "n": draw(st.integers(2, 3)),
            "tf": draw(st.sampled_from(["id", "+3", "*2", "rev"])),
            "iv": (iv, draw(st.integers(iv, 14))), "rid": draw(st.sampled_from([None, "Q"])),
            "then": draw(st.sampled_from([None, None, "&", "|", "-", "prune", "projectI", "<<",
                                          "fromLazy"]))}


def mk(o):
    d = o["depth"]
    sub = [o["shape"], 3][:d] if o["shape"] is not None else None
    if o["own"]:
        ids = [o["id"] or "W", "X2"][:d]
        t = T().fromFiber(rank_ids=ids, fiber=raw.mk_fiber(o["spec"], d, 0), shape=sub)
        t.setFormat(ids[0], o["fmt"])
        f = t.getRoot()
        f._keep = t
    else:
        f = raw.mk_fiber(o["spec"], d, 0, shape=sub)
        f.getRankAttrs().setFormat(o["fmt"])
        if o["id"]:
            f.getRankAttrs().setId(o["id"])
    if o["active"] is not None:
        f.setActive(tuple(o["active"]))
    return f


def rid(f):
    return f.getRankAttrs().getId()


def aractive(o):
    """The operand's active range, from the literal alone."""
    if o["active"] is not None:
        return tuple(o["active"])
    if o["shape"] is not None:
        return 0, o["shape"]
    return 0, max([c + 1 for c, _ in o["spec"]], default=0)


def oid(o):
    if o["own"]:
        return o["id"] or "W"
    return o["id"] or "Unknown"


def proj(f, case, act, interval):
    tf = xform.CMAP[case["tf"]] if case["tf"] != "rev" else (lambda c: 20 - c)
    kw = {}
    if case["rid"]:
        kw["rank_id"] = case["rid"]
    if interval:
        kw["interval"] = tuple(case["iv"])
        r = tuple(case["iv"])
    elif act[0] < act[1]:
        ends = tf(act[0]), tf(act[1] - 1)
        r = min(ends), max(ends) + 1
    else:
        r = None
    return f.project(tf, **kw), r


def run_lazy(case, ctx):
    O = case["o"]
    fs = [mk(o) for o in O]
    a, b, c = fs
    acts = [aractive(o) for o in O]
    for f, o, w in zip(fs, O, acts):
        check_eq(f.getActive(), w, "active range of an operand")
    op = case["op"]
    wid, wact = oid(O[0]), acts[0]
    if op == "&":
        r = a & b
    elif op == "|":
        r = a | b
    elif op == "^":
        r = a ^ b
    elif op == "-":
        r = a - b
    elif op == "<<":
        r = a << b
        wact = acts[1]
    elif op.startswith("intersection"):
        kw = {}
        if op.endswith("lf"):
            kw = {"style": "leader-follower", "leader": 0}
        r = F().intersection(*fs[:case["n"]], **kw)
    elif op == "union":
        r = F().union(*fs[:case["n"]])
    elif op == "prune":
        r = a.prune(lambda i, c, p: c % 2 == 0)
    elif op in ("project", "projectI"):
        r, wact = proj(a, case, wact, op == "projectI")
        wid = case["rid"]
    elif op in ("coshape", "coshaperef"):
        if a.getShape(all_ranks=False) is None:
            return
        r = (F().coiterShape if op == "coshape" else F().coiterShapeRef)(fs[:case["n"]])
        wact = (0, O[0]["shape"] if O[0]["shape"] is not None else acts_shape(O[0]))
    else:
        r = (F().coiterActiveShape if op == "coactive" else F().coiterActiveShapeRef)(
            fs[:case["n"]])
    look(r, op, wid, wact)
    if op == "<<":
        check_eq(a.getActive(), acts[1], "active range of the destination of <<")
    th = case["then"]
    if op in ("^", "-", "&", "project", "projectI", "prune") and th and wid is not None \
            and wact is not None:
        what = f"{th} of the result of {op}"
        if th == "&":
            look(r & c, what, wid, wact)
            look(c & r, what + " (second)", oid(O[2]), acts[2])
        elif th == "|":
            look(r | c, what, wid, wact)
        elif th == "-":
            look(r - c, what, wid, wact)
        elif th == "prune":
            look(r.prune(lambda i, c, p: True), what, wid, wact)
        elif th == "projectI":
            look(r.project(lambda c: c + 1, interval=(1, 5), rank_id="Y"), what, "Y", (1, 5))
            if wact[0] < wact[1]:
                look(r.project(lambda c: c + 1, rank_id="Y"), what, "Y",
                     (wact[0] + 1, wact[1] + 1))
        elif th == "<<":
            z = F()([], [])
            z.getRankAttrs().setId("Z")
            look(z << r, what, "Z", wact)
            check_eq(z.getActive(), wact, "active range of a destination populated from a lazy "
                     "fiber")
        elif op in ("project", "projectI", "prune"):
            e = F().fromLazy(r)
            check_eq(e.getActive(), wact, "active range of fromLazy")
        ctx.label("then " + th)
    ctx.label(op, "owned" if O[0]["own"] else "free",
              "active" if O[0]["active"] else "whole")
    ctx.nt(O[0]["id"] != O[1]["id"] or acts[0] != acts[1])


def acts_shape(o):
    return max([c + 1 for c, _ in o["spec"]], default=0)


def look(r, what, wid, wact):
    if wid is not None:
        check_eq(rid(r), wid, f"rank id of the result of {what}")
        got = r.getRankAttrs().getId()
        check_eq(got, wid, f"rank id of the result of {what}")
    if wact is not None:
        check_eq(tuple(r.getActive()), tuple(wact), f"active range of the result of {what}")


# ---------------------------------------------------------------- fiber level

@st.composite
def fibers(draw):
    c = draw(c09.start_case((1, 2, 2, 3, 3)))
    d = len(c["ranks"])
    c["own"] = draw(st.booleans())
    k = draw(st.sampled_from(["uniform", "nonuniform", "equal", "unequal", "div", "floordiv",
                              "copy", "fromLazy", "nonEmpty", "concat"] +
                             (["flatten", "merge", "swap", "unflatten"] * 2 if d > 1 else [])))
    c["x"] = (k, draw(st.integers(0, d - 1)), draw(st.integers(1, 4)), draw(st.booleans()))
    c["style"] = draw(st.sampled_from(["tuple", "pair", "absolute", "linear"]))
    c["lv"] = draw(st.integers(1, max(1, d - 1)))
    if d > 1 and not c["own"] and draw(st.booleans()):
        # shapes of its own for every fiber, that bound its coordinates
        c["shapes"] = draw(st.lists(st.sampled_from([None, 0, 0, 1, 3]), min_size=2, max_size=5))
        if draw(st.booleans()):
            # merges of fibers with (mostly known) shapes that differ
            c["shapes"] = [0 if e is None and draw(st.booleans()) else e for e in c["shapes"]]
            c["x"] = ("merge", 0, 1, False)
            c["style"], c["lv"] = "absolute", 1
    return c


def shaped(spec, depth, default, extra, n=None):
    """Unowned tree whose fibers have (or have no) shapes of their own."""
    Fiber = F()
    n = n if n is not None else [0]
    e = extra[n[0] % len(extra)]
    n[0] += 1
    kw = {} if e is None else {"shape": max([c for c, _ in spec], default=0) + 1 + e}
    if depth == 1:
        return Fiber([raw.fresh(c) for c, _ in spec], [raw.fresh(v) for _, v in spec],
                     default=default, **kw)
    return Fiber([raw.fresh(c) for c, _ in spec],
                 [shaped(v, depth - 1, default, extra, n) for _, v in spec], default=Fiber, **kw)


def every(f, what):
    """Every fiber of the tree: coordinates inside shape and active range."""
    sh = f.getShape(all_ranks=False)
    for c in f.coords:
        check(inside(c, sh), "{}: coordinate {} is not inside the shape {} of its fiber",
              what, c, sh)
    in_active(f, what)
    for p in f.payloads:
        if isinstance(p, F()):
            every(p, what)


def run_fibers(case, ctx):
    t, s = c09.start(case)
    k, d, n, rel = case["x"]
    if case["own"]:
        f = t.getRoot()
    elif case.get("shapes"):
        f = shaped(case["spec"], s.depth, case["default"], case["shapes"])
    else:
        f = raw.mk_fiber(case["spec"], s.depth, case["default"], shape=case["shape"])
    what = f"fiber {case['x']}"
    d0 = d
    if k == "uniform":
        g = f.splitUniform(n, depth=d, relativeCoords=rel)
    elif k == "nonuniform":
        g = f.splitNonUniform([0, n], depth=d, relativeCoords=rel)
    elif k == "equal":
        g = f.splitEqual(n, depth=d)
    elif k == "unequal":
        g = f.splitUnEqual([n, 1], depth=d)
    elif k == "div":
        if not f.getShape(all_ranks=False):
            return
        g = f / n
    elif k == "floordiv":
        g = f // n
    elif k == "copy":
        g = copy.deepcopy(f)
        check_eq(g.getActive(), f.getActive(), what + ": active range of a copy")
    elif k == "fromLazy":
        if s.depth > 1:
            return
        g = F().fromLazy(f.prune(lambda i, c, p: True))
    elif k == "nonEmpty":
        g = f.nonEmpty()
    elif k == "concat":
        if s.depth > 1 or case["own"]:
            return
        g = f + 1
    elif k == "swap":
        if f.isEmpty():
            return
        g = f.swapRanks()
    elif k in ("flatten", "merge"):
        lv = case["lv"]
        if d + lv >= s.depth:
            d, lv = 0, 1
        style = case["style"]
        if style == "linear" and (not case["shape"] or case.get("shapes")):
            return
        if k == "flatten":
            if model.flatten(s, d, lv, style) is None or style == "absolute":
                return
            g = f.flattenRanks(depth=d, levels=lv, style=style)
        else:
            g = f.mergeRanks(depth=d, levels=lv, style=style)
    else:
        if s.depth < 2:
            return
        g = f.flattenRanks(levels=case["lv"], style="tuple").unflattenRanks(levels=case["lv"])
    every(g, what)
    if case.get("shapes"):
        ctx.label("own shapes")
    else:
        check_eq(f.getShape(all_ranks=False), (s.shape or t.getShape())[0],
                 what + ": operand's shape")
        if s.shape is not None and not s.pts == {}:
            keeps_shape(case, k, d, s, g, what)
    ctx.label(k, "own" if case["own"] else "free", f"d{s.depth}", f"at{d0}")
    ctx.nt(len(s.pts) >= 2)


def keeps_shape(case, k, d, s, g, what):
    if d == 0 and k in ("uniform", "nonuniform", "equal", "unequal", "div", "floordiv", "copy"):
        check_eq(g.getShape(all_ranks=False), s.shape[0], what + ": shape of the result")
        if k != "copy":
            for p in g.payloads:
                check_eq(p.getShape(all_ranks=False), s.shape[0],
                         what + ": shape of a partition")


SUBS = [
    Sub("chain", run_chain, chain, quick=6000,
        rule="at least one transform applied and two points left"),
    Sub("build", run_build, build, quick=2500, rule="two or more points"),
    Sub("join", run_join, join, quick=2000, rule="the joining fiber is not empty"),
    Sub("lazy", run_lazy, lazy, quick=5000, rule="operands differ in rank id or active range"),
    Sub("fibers", run_fibers, fibers, quick=2500, rule="two or more points"),
]
