"""C01: fibertrees stay well-formed under every history of public mutations."""
from .core import HYP, Sub, Violation, check, check_eq  # noqa
from hypothesis import strategies as st

from . import gens, hist, raw
from .raw import F, T

PROP = "C01"
RULE = ("case = initial tree (tensor from a constructor, or unowned fiber; explicit defaults and "
        "empty sub-fibers allowed) + history of public mutators; the whole tree is read raw "
        "after every step. Non-trivial: at least 3 steps applied, one of which "
        "inserted/removed an element, on a tree that was not empty throughout.")
ASSUMPTIONS = ["arguments are type-correct (scalars for leaves, fibers of the right depth for "
               "interior payloads); updateCoords functions are injective (uniqueness after "
               "updateCoords is documented as unchecked)"]


@st.composite
def history(draw, depths=(1, 2, 3), kinds=hist.KINDS, max_ops=12, defaults=(0, 0, 3)):
    tc = draw(gens.tensor_case(depths=depths, defaults=defaults,
                               fmt=draw(st.sampled_from(["C", "C", "C", "any"]))))
    if tc["shape"] is None:
        tc.pop("fmt", None)
    depth = len(tc["ranks"])
    route = draw(st.sampled_from(["tensor", "tensor", "fiber", "empty", "nest", "derived"]))
    if route == "derived":
        route = draw(st.sampled_from(["split", "swizzled"]))
        if route == "split" and depth > 1:
            # a tensor of one rank less, one of whose ranks is split
            tc = draw(gens.tensor_case(depths=(depth - 1,), defaults=(tc["default"],), wide=False))
            route = ["split", draw(st.integers(0, depth - 2)), draw(st.integers(1, 4))]
    ops = draw(st.lists(hist.op(depth, kinds), min_size=2, max_size=max_ops))
    return {"t": tc, "route": route, "ops": ops}


def dense(spec, shape, default):
    d = {c: v for c, v in spec}
    out = []
    for i in range(shape[0]):
        if len(shape) == 1:
            out.append(d.get(i, default))
        else:
            out.append(dense(d.get(i, []), shape[1:], default))
    return out


def build(case):
    """(tensor or None, root fiber, owned)"""
    tc, route = case["t"], case["route"]
    depth = len(tc["ranks"])
    if isinstance(route, (list, tuple)):
        t = raw.mk_tensor(tc).splitUniform(route[2], depth=route[1])
        return t, t.getRoot(), True
    if route == "swizzled":
        t = raw.mk_tensor(tc).swizzleRanks(list(reversed(tc["ranks"])))
        return t, t.getRoot(), True
    if route == "fiber":
        return None, raw.mk_fiber(tc["spec"], depth, tc["default"], tc["shape"]), False
    if route == "empty":
        t = T()(rank_ids=list(tc["ranks"]), shape=tc["dims"], default=tc["default"])
    elif route == "nest":
        t = T().fromUncompressed(rank_ids=list(tc["ranks"]), default=tc["default"],
                                 root=dense(tc["spec"], tc["dims"], tc["default"]))
    else:
        t = raw.mk_tensor(tc)
    return t, t.getRoot(), True


def run_history(case, ctx, mirror=False):
    depth = len(case["t"]["ranks"]) + isinstance(case["route"], (list, tuple))
    default = case["t"]["default"]
    t, root, owned = build(case)
    raw.wellformed(root, depth, "initial tree")
    if mirror:
        raw.rank_mirror(t, "initial tensor")
    applied = changed = 0
    nonempty = bool(root.coords)
    ctx.label("route " + (case["route"] if isinstance(case["route"], str) else "split"))
    for i, o in enumerate(case["ops"]):
        if not owned and depth > 2 and not (root.coords and
                                            raw.dsnap(root.payloads[0].getDefault()) == "Fiber"):
            # nothing tells how deep the sub-fibers of an empty unowned fiber are
            ctx.label("unowned-depth-unknown")
            break
        if not owned and depth > 2 and o[0] == "populate":
            continue                       # may empty the root on the way
        before = raw.fsnap(root, meta=False)
        where = f"after step {i} {o[0]}"
        try:
            if o[0] == "reroot":
                if t is None:
                    raise hist.Illegal
                new = raw.mk_fiber(o[1], depth, default)
                want = raw.rawtree(new)
                t.setRoot(root if o[2] else new)
                check_eq(raw.rawtree(t.getRoot()), raw.rawtree(root) if o[2] else want,
                         "tree after setRoot()")
                root = t.getRoot()
                r = "ok"
            else:
                r = hist.apply(root, depth, o, default, owned)
        except hist.Illegal:
            ctx.label("skipped")
            continue
        except Violation as e:
            raise Violation(f"step {i} {o}: {e}")
        except Exception as e:
            if owned or depth == 1:
                raise
            # an unowned multi-level fiber does not know the defaults of levels it
            # has no fibers of; being refused is legal, corrupting the tree is not
            ctx.label("unowned-refused")
            raw.wellformed(root, depth, where + " (refused)")
            return
        raw.wellformed(root, depth, where)
        if mirror:
            raw.rank_mirror(t, where)
            check(t.getRoot() is root, "{}: the root was replaced", where)
        after = raw.fsnap(root, meta=False)
        if r == "reject":
            ctx.label("rejected-" + o[0])
            if after != before:
                raise Violation(f"step {i} {o} was rejected but changed the tree "
                                f"from {before} to {after}")
        applied += 1
        changed += before != after
        nonempty = nonempty or bool(root.coords)
        ctx.label(o[0])
    ctx.nt(applied >= 3 and changed and nonempty)


def run(case, ctx):
    run_history(case, ctx)


@st.composite
def pairs(draw):
    cs = draw(st.one_of(
        st.lists(st.integers(0, 6), max_size=6),
        st.lists(st.integers(0, 9), max_size=6, unique=True).map(sorted),
        st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)), max_size=5),
        st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)), max_size=5,
                 unique=True).map(sorted)))
    n = len(cs) if draw(st.integers(0, 5)) else draw(st.integers(0, 6))
    return {"coords": cs, "vals": draw(st.lists(st.integers(0, 3), min_size=n, max_size=n)),
            "how": draw(st.sampled_from(["init", "cp", "implicit"]))}


def run_construct(case, ctx):
    cs, vs, how = case["coords"], case["vals"], case["how"]
    legal = all(a < b for a, b in zip(cs, cs[1:])) and len(cs) == len(vs)
    if how == "implicit":
        f = F()(payloads=list(vs))
        raw.wellformed(f, 1)
        check_eq(raw.rawtree(f), [[i, v] for i, v in enumerate(vs)], "Fiber(payloads=...)")
        return
    if how == "cp" and (len(cs) != len(vs) or not cs):
        how = "init"
    ctx.label("legal" if legal else "illegal", how)
    try:
        f = F()(list(cs), list(vs)) if how == "init" else \
            F().fromCoordPayloadList(list(zip(cs, vs)))
    except AssertionError:
        check(not legal, "constructor refused {} {}", cs, vs)
        return
    check(legal, "constructor accepted coordinates {} with {} payloads", cs, len(vs))
    raw.wellformed(f, 1)
    check_eq(raw.rawtree(f), [[c, v] for c, v in zip(cs, vs)], "constructed fiber")
    ctx.nt(len(cs) >= 2)


# ------------------------------------------- trees with tuple coordinates

PAIR = st.tuples(st.integers(0, 4), st.integers(0, 4))


@st.composite
def tuples(draw):
    depth = draw(st.sampled_from([2, 2, 3]))
    tc = draw(gens.tensor_case(depths=(depth,), defaults=(0, 0, 3), hi=5, wide=False))
    d = draw(st.integers(0, depth - 2))
    kinds = ["ref", "ref", "append", "extend", "setitem", "insert", "lookup", "populate",
             "populate", "assign", "iaddf", "imulf", "imuls", "updcoords", "clear", "drop"]

    def pt():
        p = [draw(st.integers(0, 5)) for _ in range(depth - 1)]
        p[d] = draw(PAIR)
        return p
    ops = []
    for _ in range(draw(st.integers(2, 9))):
        k = draw(st.sampled_from(kinds))
        pts = {tuple(pt()): draw(hist.VALS) for _ in range(draw(st.integers(0, 4)))}
        ops.append((k, pt(), draw(hist.VALS), sorted([list(p), v] for p, v in pts.items()),
                    draw(st.integers(-2, 4)), draw(st.lists(hist.ACTS, min_size=1, max_size=3))))
    return {"t": tc, "d": d, "ops": ops}


def tree_of(pts, depth, default):
    """Fiber of the points."""
    heads = sorted({p[0] for p, _ in pts})
    if depth == 1:
        return F()(heads, [dict((p[0], v) for p, v in pts)[h] for h in heads], default=default)
    return F()(heads, [tree_of([(p[1:], v) for p, v in pts if p[0] == h], depth - 1, default)
                       for h in heads], default=F())


def write_all(z, a, acts, depth, n):
    for c, (r, x) in z << a:
        if depth > 1:
            write_all(r, x, acts, depth - 1, n)
        else:
            hist.act(r, acts[n[0] % len(acts)], n[0] % 3)
            n[0] += 1


def run_tuples(case, ctx, mirror=False):
    from fibertree.core.coord_payload import CoordPayload
    default, d = case["t"]["default"], case["d"]
    t = raw.mk_tensor(case["t"]).flattenRanks(depth=d)
    root, depth = t.getRoot(), len(t.getRankIds())
    raw.wellformed(root, depth, "initial tree")
    n = 0
    for i, (k, pt, v, pts, pos, acts) in enumerate(case["ops"]):
        where = f"after step {i} {k}"
        before = raw.fsnap(root, meta=False)
        f, below, c = root, depth, pt[0]
        if d > 0 and pos % 2 and root.coords and k not in ("ref", "updcoords"):
            # one of the fibers that hold the tuples
            f, below, c = root.payloads[pos % len(root.coords)], depth - 1, pt[1]
            pts = [(p[1:], v) for p, v in pts]
        pts = list({repr(p): (p, v) for p, v in pts}.values())
        sub = (lambda: v) if below == 1 else \
            (lambda: tree_of([(pt[-below + 1:], v)], below - 1, default))
        r = "ok"
        if k == "ref":
            hist.act(root.getPayloadRef(*pt), acts[0], v)
        elif k == "append":
            r = hist.expect(not f.coords or f.coords[-1] < c, lambda: f.append(c, sub()))
        elif k == "insert":
            r = hist.expect(c not in f.coords, lambda: f.insert(c, sub()))
        elif k == "lookup":
            f.insertOrLookup(c, sub())
        elif k == "extend":
            g = tree_of(pts, below, default)
            ok = not pts or all(x == default for _, x in pts) or not f.coords \
                or f.coords[-1] < g.coords[0]
            r = hist.expect(ok, lambda: f.extend(g))
        elif k == "setitem":
            m = len(f.coords)
            ok = -m <= pos < m
            rp = pos % m if m else 0
            if ok and rp > 0 and c <= f.coords[rp - 1] or \
                    ok and rp + 1 < m and c >= f.coords[rp + 1]:
                ok = False
            r = hist.expect(ok, lambda: f.__setitem__(pos, CoordPayload(c, sub())))
        elif k == "populate":
            write_all(f, tree_of(pts, below, default), acts, below, [0])
        elif k == "assign":
            f <<= tree_of(pts, below, default)
        elif k == "iaddf":
            f += tree_of(pts, below, default)
        elif k == "imulf":
            f *= tree_of(pts, below, default)
        elif k == "imuls":
            f *= v
        elif k == "updcoords":
            root.updateCoords(lambda i, c, p: (c[1], c[0]), depth=d)
        elif k == "clear":
            f.clear()
        elif k == "drop":
            # leave everything at the default: populate must take it away again
            for _, (p, _) in f << tree_of([(p, 1) for p, _ in pts], below, default):
                if below == 1:
                    p <<= default
        raw.wellformed(root, depth, where)
        if mirror:
            raw.rank_mirror(t, where)
        if r == "reject" and raw.fsnap(root, meta=False) != before:
            raise Violation(f"step {i} {k} {pt} was rejected but changed the tree")
        n += raw.fsnap(root, meta=False) != before
        ctx.label(k if r == "ok" else "rejected-" + k)
    ctx.label(f"d{depth} tuples at {d}")
    ctx.nt(n >= 2)


SUBS = [
    Sub("tuples", run_tuples, tuples, quick=3000, thorough=60000,
        rule="at least two steps changed a tree one of whose ranks has tuple coordinates"),
    Sub("history", run, history, quick=12000, thorough=400000),
    Sub("construct", run_construct, pairs, quick=1500, thorough=20000,
        rule="constructors accept exactly the strictly increasing, equal-length inputs"),
]
