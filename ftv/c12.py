"""C12: equality, emptiness and counting depend on content only."""
import copy
import itertools
import pickle
import random

from .core import HYP, Sub, Violation, check, check_eq  # noqa
from hypothesis import strategies as st

from . import gens, raw, xform
from .raw import F, P, T

PROP = "C12"
RULE = ("triples of trees of depth 1-3: one drawn, the others re-representations of it (explicit "
        "defaults, empty sub-fibers, shapes, formats, active ranges, ownership, names) with at "
        "most one deep leaf changed, added or removed; every ordered pair is compared with the "
        "equality of the extracted contents. Small trees are enumerated completely, all pairs. "
        "Non-trivial: at least two points and two representations that differ.")
ASSUMPTIONS = ["tensors whose rank ids differ are unequal (documented)"]


def tree(content, depth):
    """Tree spec holding exactly the points of `content`."""
    out = []
    for c in sorted({p[0] for p in content}):
        if depth == 1:
            out.append([c, content[(c,)]])
        else:
            out.append([c, tree({p[1:]: v for p, v in content.items() if p[0] == c}, depth - 1)])
    return out


def vary(rnd, spec, dims, default, p):
    """A tree with the same content and other explicit defaults and empty sub-fibers."""
    have = {c: s for c, s in spec}
    out = []
    for c in range(dims[0]):
        if c in have:
            s = have[c]
            if len(dims) > 1:
                s = vary(rnd, s, dims[1:], default, p)
            out.append([c, s])
        elif rnd.random() < p:
            if len(dims) == 1:
                out.append([c, default])
            else:
                out.append([c, vary(rnd, [], dims[1:], default, p * rnd.random())])
    return out


VALS = [1, 2, 3, -1, 0.5, 4, 300, (1 << 53) + 1, 1e-9]


@st.composite
def triples(draw):
    dims = draw(gens.wideshapes(draw(st.sampled_from((1, 2, 2, 3, 3))), 1, 4))
    default = draw(st.sampled_from((0, 0, 0, 1, -1, 0.5, 1000)))
    sp = draw(st.one_of(gens.rspec(dims, vals=[v for v in VALS if v != default]),
                        gens.spec(dims, default, explicit=False, empty_sub=False),
                        st.just([])))
    depth = len(dims)
    base = raw.spec_content(sp, depth, default)
    members = []
    for i in range(3):
        ct = dict(base)
        ch = draw(st.sampled_from(["same", "same", "leaf", "drop", "add", "move", "swap"]))
        if ch in ("leaf", "drop", "move") and ct:
            p = draw(st.sampled_from(sorted(ct)))
            v = ct.pop(p)
            if ch == "leaf":
                ct[p] = draw(st.sampled_from([x for x in VALS if x not in (default, v)]))
            if ch == "move":
                q = tuple(draw(st.integers(0, n - 1)) for n in dims)
                ct[q] = v
        elif ch == "add":
            q = tuple(draw(st.integers(0, n - 1)) for n in dims)
            ct.setdefault(q, draw(st.sampled_from([x for x in VALS if x != default])))
        elif ch == "swap" and len(ct) > 1:
            p, q = draw(st.permutations(sorted(ct)))[:2]
            ct[p], ct[q] = ct[q], ct[p]
        d = draw(st.sampled_from([default] * 5 + [9]))
        spec = vary(random.Random(draw(st.integers(0, 1 << 16))), tree(ct, depth), dims, d,
                    draw(st.sampled_from([0, 0.3, 0.7, 1])))
        known = draw(st.booleans())
        members.append({
            "spec": spec, "d": d, "own": draw(st.booleans()), "ch": ch,
            "shape": [n + draw(st.integers(0, 2)) for n in dims] if known else None,
            "fmt": draw(st.lists(st.sampled_from("CCU"), min_size=depth, max_size=depth)),
            "active": draw(st.sampled_from([None, None, (0, 1), (2, 9)])),
            "name": draw(st.sampled_from(["", "A", "B"])),
            "via": draw(st.sampled_from(["build"] * 3 + ["ref", "copy", "pickle"]))})
    return {"dims": dims, "default": default, "m": members}


def build(m, dims, default):
    """A fiber, and its tensor when it has one."""
    depth = len(dims)
    fmt = m["fmt"] if m["shape"] else "C" * depth
    if not m["own"]:
        f = raw.mk_fiber(m["spec"], depth, default, shape=m["shape"])
        t = None
        if m["shape"] and "U" in fmt[0]:
            f.getRankAttrs().setFormat("U")
    elif m["via"] == "ref":
        # grown through references and never-filled sub-fibers
        t = T()(rank_ids=gens.RANKS[:depth], shape=m["shape"], default=default)

        def grow(pre, spec, d):
            for c, s in reversed(spec):
                r = t.getPayloadRef(*pre, c)
                if d == 1:
                    r <<= s
                else:
                    grow(pre + (c,), s, d - 1)

        grow((), m["spec"], depth)
        f = t.getRoot()
    else:
        t = raw.mk_tensor({"ranks": gens.RANKS[:depth], "shape": m["shape"], "default": default,
                           "spec": m["spec"], "fmt": fmt, "name": m["name"]})
        f = t.getRoot()
    if m["active"]:
        f.setActive(m["active"])
    if m["via"] == "copy":
        if t is not None:
            t = copy.deepcopy(t)
            f = t.getRoot()
        else:
            f = copy.deepcopy(f)
    elif m["via"] == "pickle":
        if t is not None:
            t = pickle.loads(pickle.dumps(t))
            f = t.getRoot()
        else:
            f = pickle.loads(pickle.dumps(f))
    return f, t


def eqs(a, b, want, what):
    for x, y, w in ((a, b, what), (b, a, what + " (swapped)")):
        r = x == y
        check(isinstance(r, bool), "{}: == returned {!r}", w, r)
        check_eq(r, want, w)
        check_eq(x != y, not want, w + " (!=)")


def minimal(f, d, what, top=True):
    check(top or len(f.coords) > 0, "{}: an empty sub-fiber", what)
    for p in f.payloads:
        if isinstance(p, F()):
            minimal(p, d, what, False)
        else:
            check(raw.unbox(p) != d, "{}: an explicit default", what)


def judge(f, ct, d, depth, what):
    """Emptiness, count, prune and copies of one tree against its content."""
    before = raw.snap(f)
    check_eq(f.isEmpty(), not ct, f"{what}: isEmpty")
    check_eq(P().isEmpty(f), not ct, f"{what}: Payload.isEmpty")
    check_eq(f.countValues(), len(ct), f"{what}: countValues")
    check_eq(f.countValues(recursive=False), len({p[:1] for p in ct}),
             f"{what}: countValues(recursive=False)")
    n = f.nonEmpty()
    minimal(n, d, f"{what}: nonEmpty")
    if depth:
        raw.wellformed(n, depth if n.coords else 1, f"{what}: nonEmpty")
    check_eq(raw.content(n, d), ct, f"{what}: content of nonEmpty")
    check_eq(n.countValues(), len(ct), f"{what}: count of nonEmpty")
    check_eq(n.isEmpty(), not ct, f"{what}: emptiness of nonEmpty")
    eqs(f, n, True, f"{what}: == its nonEmpty")
    eqs(f, f, True, f"{what}: == itself")
    eqs(f, copy.deepcopy(f), True, f"{what}: == its deep copy")
    eqs(f, f.copy(preserve_owner=False), True, f"{what}: == its ownerless copy")
    for c, p in zip(f.coords, f.payloads):
        sub = {q[1:] for q in ct if q[0] == c}
        if isinstance(p, F()):
            check_eq(p.isEmpty(), not sub, f"{what}: isEmpty of the sub-fiber at {c}")
            check_eq(p.countValues(), len(sub), f"{what}: count of the sub-fiber at {c}")
        else:
            check_eq(P().isEmpty(p, default=d), not sub, f"{what}: Payload.isEmpty at {c}")
    check_eq(raw.snap(f), before, f"{what}: the tree afterwards")


def run_triples(case, ctx):
    dims = case["dims"]
    depth = len(dims)
    fs, ts, cs = [], [], []
    for m in case["m"]:
        d = m["d"]
        f, t = build(m, dims, d)
        ct = raw.spec_content(m["spec"], depth, d)
        check_eq(raw.content(f, d), ct, "as built")
        judge(f, ct, d, depth, "tree")
        if t is not None:
            check_eq(t.countValues(), len(ct), "tensor countValues")
            eqs(t, t, True, "tensor == itself")
            eqs(t, copy.deepcopy(t), True, "tensor == its deep copy")
            other = T().fromFiber(rank_ids=["Z"] + gens.RANKS[1:depth],
                                  fiber=raw.mk_fiber(m["spec"], depth, d), default=d)
            eqs(t, other, False, "tensors with other rank ids")
        fs.append(f)
        ts.append(t)
        cs.append(ct)
    snaps = [raw.snap(f) for f in fs]
    for i, j in itertools.combinations(range(3), 2):
        want = cs[i] == cs[j]
        eqs(fs[i], fs[j], want, f"fibers {i} and {j}")
        if ts[i] is not None and ts[j] is not None:
            eqs(ts[i], ts[j], want, f"tensors {i} and {j}")
        ctx.label("equal" if want else "unequal", case["m"][i]["via"])
        if case["m"][i]["spec"] != case["m"][j]["spec"]:
            ctx.nt(len(cs[i]) >= 2)
    e = [[fs[i] == fs[j] for j in range(3)] for i in range(3)]
    for i, j, k in itertools.product(range(3), repeat=3):
        check(not (e[i][j] and e[j][k]) or e[i][k], "not transitive: {} {} {}", i, j, k)
    check_eq([raw.snap(f) for f in fs], snaps, "the trees after comparing them")
    # another thing is not equal to a fiber
    check_eq(fs[0] == 3, False, "fiber == 3")
    check_eq(fs[0] == None, False, "fiber == None")  # noqa: E711
    ctx.label(f"d{depth}", f"default {case['default']}")


# ---------------------------------------------------------------- all small trees

def rows(vals, n):
    """All leaf-level specs over n coordinates."""
    for pick in itertools.product([None] + vals, repeat=n):
        yield [[c, v] for c, v in enumerate(pick) if v is not None]


def small_trees(depth):
    if depth == 1:
        return list(rows([0, 1, 2], 3))
    rs = [None] + list(rows([0, 1], 2))
    if depth == 2:
        return [[[c, r] for c, r in enumerate(x) if r is not None]
                for x in itertools.product(rs, repeat=2)]
    lv = [None, [], [[0, []]], [[0, [[0, 0]]]], [[1, [[0, 1]]]], [[0, []], [1, [[0, 1]]]],
          [[0, [[0, 1]]], [1, [[0, 0]]]], [[0, [[0, 1], [1, 0]]]], [[0, [[1, 1]]]]]
    return [[[c, r] for c, r in enumerate(x) if r is not None]
            for x in itertools.product(lv, repeat=2)]


def small(tier):
    for depth in (1, 2, 3):
        n = len(small_trees(depth))
        for i in range(n):
            yield {"depth": depth, "i": i}


_cache = {}


def run_small(case, ctx):
    depth = case["depth"]
    if depth not in _cache:
        specs = small_trees(depth)
        fs = [raw.mk_fiber(s, depth) for s in specs]
        ts = [raw.mk_tensor({"ranks": gens.RANKS[:depth], "shape": [3] * depth, "default": 0,
                             "spec": s}) for s in specs]
        _cache[depth] = (specs, [raw.spec_content(s, depth) for s in specs], fs, ts)
    specs, cs, fs, ts = _cache[depth]
    i = case["i"]
    judge(fs[i], cs[i], 0, depth, f"{specs[i]}")
    judge(ts[i].getRoot(), cs[i], 0, depth, f"owned {specs[i]}")
    for j in range(len(specs)):
        want = cs[i] == cs[j]
        if (fs[i] == fs[j]) is not want:
            raise Violation(f"{specs[i]} == {specs[j]}: got {not want}")
        if (ts[i] == ts[j]) is not want or (fs[i] == ts[j].getRoot()) is not want:
            raise Violation(f"{specs[i]} == {specs[j]} (owned): got {not want}")
    ctx.nt(len(cs[i]) >= 2)
    ctx.label(f"d{depth}")


# ---------------------------------------------------------------- transformed tensors, rank 0

@st.composite
def derived(draw):
    depth = draw(st.sampled_from((0, 1, 2, 2, 3)))
    if depth == 0:
        return {"depth": 0, "a": draw(st.sampled_from([0, 1, 2, 0.5])),
                "b": draw(st.sampled_from([0, 1, 2, 0.5]))}
    dims = draw(gens.wideshapes(depth, 2, 4))
    sp = draw(gens.rspec(dims, vals=VALS))
    ct = raw.spec_content(sp, depth, 0)
    ct2 = dict(ct)
    if ct and draw(st.booleans()):
        p = draw(st.sampled_from(sorted(ct)))
        ct2[p] = draw(st.sampled_from([v for v in VALS if v != ct[p]]))
    sp2 = vary(random.Random(draw(st.integers(0, 1 << 16))), tree(ct2, depth), dims, 0,
               draw(st.sampled_from([0, 0.3, 0.7])))
    return {"depth": depth, "dims": dims, "a": sp, "b": sp2,
            "xs": draw(st.lists(st.tuples(st.sampled_from(
                ["flatten", "swizzle", "split", "merge", "swap", "splitequal"]),
                st.integers(0, 5)), min_size=1, max_size=3))}


def apply(t, k, n):
    depth = len(t.ranks)
    tup = [i for i in range(depth) if isinstance(t.getShape()[i], tuple)]
    if k == "flatten":
        return t.flattenRanks(levels=1 + n % (depth - 1)) if depth > 1 and not tup else t
    if k == "swizzle":
        ids = t.getRankIds()
        perms = list(itertools.permutations(ids))
        return t.swizzleRanks(list(perms[n % len(perms)])) if depth <= 3 and not tup else t
    if k == "split":
        return t.splitUniform(1 + n % 3) if not tup and depth < 4 else t
    if k == "splitequal":
        return t.splitEqual(1 + n % 3) if depth < 4 and not t.getRoot().isEmpty() else t
    if k == "swap":
        return t.swapRanks() if depth > 1 and not tup and not t.getRoot().isEmpty() else t
    return t


def run_derived(case, ctx):
    if case["depth"] == 0:
        a = T()(rank_ids=[])
        b = T()(rank_ids=[])
        r = a.getRoot()
        r <<= case["a"]
        r = b.getRoot()
        r <<= case["b"]
        eqs(a, b, case["a"] == case["b"], "rank-0 tensors")
        eqs(a, a, True, "rank-0 tensor == itself")
        eqs(a, copy.deepcopy(a), True, "rank-0 tensor == its deep copy")
        ctx.label("rank0")
        return
    ts = [raw.mk_tensor({"ranks": gens.RANKS[:case["depth"]], "shape": case["dims"], "default": 0,
                         "spec": case[k]}) for k in "ab"]
    for k, n in case["xs"]:
        ts = [apply(t, k, n) for t in ts]
        cts = [raw.tcontent(t) for t in ts]
        same = ts[0].getRankIds() == ts[1].getRankIds() and cts[0] == cts[1]
        eqs(ts[0], ts[1], same, f"tensors after {k}")
        for t, c in zip(ts, cts):
            judge(t.getRoot(), c, 0, len(t.ranks), f"after {k}")
            check_eq(t.countValues(), len(c), f"after {k}: tensor countValues")
        ctx.nt(len(cts[0]) >= 2)
        ctx.label(k)


# ---------------------------------------------------------------- lazy fibers

@st.composite
def lazies(draw):
    dims = draw(gens.shapes(draw(st.sampled_from((1, 1, 2))), 1, 6))
    return {"dims": dims, "a": draw(gens.rspec(dims)), "b": draw(gens.rspec(dims)),
            "k": draw(st.sampled_from(["project", "prune", "flip"])), "n": draw(st.integers(-2, 4))}


def run_lazies(case, ctx):
    depth = len(case["dims"])
    a = raw.mk_fiber(case["a"], depth)
    b = raw.mk_fiber(case["b"], depth)

    def lz(f):
        if case["k"] == "project":
            return f.project(lambda c: c + 3, interval=(-50, 50))
        if case["k"] == "flip":
            return f.project(lambda c: 20 - c, interval=(-50, 50))
        return f.prune(lambda n, c, p: c > case["n"])

    def img(ct):
        if case["k"] == "project":
            return {(p[0] + 3,) + p[1:]: v for p, v in ct.items()}
        if case["k"] == "flip":
            return {(20 - p[0],) + p[1:]: v for p, v in ct.items()}
        return {p: v for p, v in ct.items() if p[0] > case["n"]}

    ia, ib = (img(raw.content(f)) for f in (a, b))
    eqs(lz(a), lz(b), ia == ib, f"lazy {case['k']} of both")
    eqs(lz(a), lz(a), True, f"lazy {case['k']} twice")
    mat = raw.mk_fiber(tree(ia, depth), depth)
    eqs(lz(a), mat, True, f"lazy {case['k']} and its content")
    eqs(lz(b), mat, ia == ib, f"lazy {case['k']} and another content")
    ctx.label(case["k"])
    ctx.nt(len(ia) >= 2)


SUBS = [
    Sub("small", run_small, exhaustive=small, quick=0, thorough=0,
        rule="all trees over 3 coordinates (0,1,2), 2x2 (0,1, empty rows) and a 2x2x2 family, "
             "every ordered pair"),
    Sub("triples", run_triples, triples, quick=3000),
    Sub("derived", run_derived, derived, quick=1500),
    Sub("lazy", run_lazies, lazies, quick=600),
]
