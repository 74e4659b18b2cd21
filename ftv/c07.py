"""C07: traversal modes against list comprehensions over the raw content."""
from .core import HYP, Sub, Violation, check, check_eq  # noqa
from hypothesis import strategies as st

from . import gens, raw
from .raw import F, P, T

PROP = "C07"
RULE = ("one fiber (leaf or fiber payloads, owned or not, either format, explicit defaults, empty "
        "sub-fibers, explicit active range) and one traversal or transformed view; oracle: "
        "comprehension over the raw element list. Non-trivial: the fiber stores at least two "
        "elements and the traversal yields at least one or leaves at least one out.")
ASSUMPTIONS = ["a start position is legal when it is a stored position and everything before it "
               "would not be yielded anyway",
               "prune predicates depend on the position only for fibers without empties"]


@st.composite
def fiber(draw, maxn=9, depth=None, fmt=True):
    depth = draw(st.sampled_from([1, 1, 1, 2])) if depth is None else depth
    default = draw(st.sampled_from([0] * 6 + [3, 1000, 0.5]))
    n = gens.wide(draw) or draw(st.integers(0, maxn))
    o = {"depth": depth, "default": default, "own": draw(st.booleans()), "fmt": "C",
         "shape": n + draw(st.integers(0, 2)) if draw(st.booleans()) else None, "active": None}
    cs = draw(gens.coordset(n))
    if depth == 1:
        vals = gens.values(default)
        o["spec"] = [[c, draw(vals)] for c in cs]
    else:
        o["spec"] = [[c, draw(gens.spec([2], default))] for c in cs]
    if o["shape"] == 0:
        o["shape"] = None
    if draw(st.integers(0, 2)) == 0:
        lo = draw(st.integers(0, n + 1))
        o["active"] = (lo, draw(st.integers(lo, n + 2)))
    if fmt and draw(st.integers(0, 2)) == 0:
        o["fmt"] = "U"
    return o


def build(o):
    d = o["depth"]
    sh = None if o["shape"] is None else [o["shape"], 2][:d]
    f = raw.mk_fiber(o["spec"], d, o["default"], shape=sh)
    t = None
    if o["own"]:
        t = T().fromFiber(rank_ids=["K", "N"][:d], fiber=f, default=o["default"], shape=sh)
        f = t.getRoot()
        t.setFormat("K", o["fmt"])
    else:
        f.getRankAttrs().setFormat(o["fmt"])
    if o["active"] is not None:
        f.setActive(o["active"])
    return f, t


def shape_of(o):
    if o["shape"] is not None:
        return o["shape"]
    return max([c + 1 for c, _ in o["spec"]], default=0)


def active_of(o):
    return tuple(o["active"]) if o["active"] is not None else (0, shape_of(o))


def empty(o, v):
    return v == o["default"] if o["depth"] == 1 else raw.spec_empty(v, 1, o["default"])


def occ(o):
    return [c for c, v in o["spec"] if not empty(o, v)]


def stored(f, c):
    return f.payloads[f.coords.index(c)] if c in f.coords else None


def check_payload(p, f, o, c, what, cached=None):
    """p stands for the element at c: the stored payload, or a default."""
    s = stored(f, c)
    if s is not None:
        check(p is s, "{}: delivered {!r}, not the stored payload", what, p)
    elif o["depth"] == 1:
        check(not isinstance(p, F()), "{}: got a fiber", what)
        check_eq(raw.val(p), o["default"], what)
    else:
        check(isinstance(p, F()), "{}: got {!r}", what, p)
        check_eq(raw.content(p, o["default"]), {}, what)


def same(f, t, before, what):
    now = raw.snap(t or f, ids=True)
    if now != before:
        raise Violation(f"{what}: the fiber changed from {before} to {now}")


# ---------------------------------------------------------------- plain traversals

MODES = ["default", "default", "occupancy", "range", "range", "active", "shape", "shaperef",
         "activeshape", "activeshaperef", "rangeshape", "rangeshape", "rangeshaperef", "reversed",
         "getrange", "len"]


@st.composite
def plain(draw):
    o = draw(fiber())
    m = draw(st.sampled_from(MODES))
    b = st.one_of(st.none(), st.integers(-1, 11))
    lo, hi = draw(b), draw(b)
    if m in ("rangeshape", "rangeshaperef", "getrange"):
        lo, hi = draw(st.integers(0, 10)), draw(st.integers(0, 11))
    return {"f": o, "mode": m, "lo": lo, "hi": hi,
            "step": draw(st.sampled_from([1, 1, 1, 2, 3, 5, -1])),
            "sp": draw(st.one_of(st.none(), st.integers(0, 9))),
            "box": draw(st.booleans()), "tick": draw(st.booleans())}


def legal_start(o, sp, skip):
    """A start position such that everything before it is skipped anyway."""
    n = len(o["spec"])
    if sp is None or not n:
        return None
    ok = [j for j in range(n) if all(skip(c, v) for c, v in o["spec"][:j])]
    return ok[sp % len(ok)]


def run_plain(case, ctx):
    o, m = case["f"], case["mode"]
    f, t = build(o)
    before = raw.snap(t or f, ids=True)
    lo, hi, step = case["lo"], case["hi"], case["step"]
    A = active_of(o)
    S = shape_of(o)
    kw = {} if m in ("default", "reversed", "getrange", "len") else {"tick": case["tick"]}
    ref = m.endswith("ref")
    sp = None
    box = (lambda x: P()(x)) if case["box"] else (lambda x: x)

    def inr(c, a, b):
        return (a is None or c >= a) and (b is None or c < b)

    if m == "len":
        check_eq(len(f), len(o["spec"]), "len")
        same(f, t, before, "len()")
        return
    if m == "default":
        it = lambda: f  # noqa
        want = occ(o) if o["fmt"] == "C" else list(range(*A))
    elif m == "occupancy":
        sp = legal_start(o, case["sp"], lambda c, v: empty(o, v))
        it = lambda: f.iterOccupancy(**kw, **({} if sp is None else {"start_pos": box(sp)}))  # noqa
        want = occ(o)
    elif m == "range":
        sp = legal_start(o, case["sp"], lambda c, v: empty(o, v) or (lo is not None and c < lo))
        it = lambda: f.iterRange(lo, hi, **kw, **({} if sp is None else {"start_pos": box(sp)}))  # noqa
        want = [c for c in occ(o) if inr(c, lo, hi)]
    elif m == "active":
        sp = legal_start(o, case["sp"], lambda c, v: empty(o, v) or c < A[0])
        it = lambda: f.iterActive(**kw, **({} if sp is None else {"start_pos": box(sp)}))  # noqa
        want = [c for c in occ(o) if inr(c, *A)]
    elif m in ("shape", "shaperef"):
        it = lambda: (f.iterShapeRef if ref else f.iterShape)(**kw)  # noqa
        want = list(range(S))
    elif m in ("activeshape", "activeshaperef"):
        it = lambda: (f.iterActiveShapeRef if ref else f.iterActiveShape)(**kw)  # noqa
        want = list(range(*A))
    elif m in ("rangeshape", "rangeshaperef"):
        if ref:
            step = abs(step)
        it = lambda: (f.iterRangeShapeRef if ref else f.iterRangeShape)(lo, hi, step, **kw)  # noqa
        want = list(range(lo, hi, step))
    elif m == "reversed":
        it = lambda: reversed(f)  # noqa
        want = [c for c, _ in reversed(o["spec"])]
    else:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            lazy = f.getRange(lo, end_coord=hi) if case["box"] else \
                f.getRange(lo, size=max(0, hi - lo))
        e = hi if case["box"] else max(lo, hi)
        it = lambda: lazy  # noqa
        want = [c for c in (occ(o) if o["fmt"] == "C" else range(*A)) if lo <= c < e]
    what = f"{m} lo={lo} hi={hi} step={step} start_pos={sp} active={A} shape={S}"
    for rnd in range(2):
        saved = f.getSavedPos()
        got = []
        for c, p in it():
            got.append(c)
            check(len(got) < 5000, "{} does not end", what)
            w = f"{what} at {c}"
            if ref:
                check(stored(f, c) is p, "{}: the reference is not stored in the fiber", w)
            check_payload(p, f, o, c, w)
            if sp is not None:
                check_eq(f.getSavedPos(), f.coords.index(c), w + " saved position")
            elif m in ("occupancy", "range", "active"):
                check_eq(f.getSavedPos(), saved, w + " saved position")
        check_eq(got, want, what)
        if not ref:
            same(f, t, before, what)
        else:
            check_eq(f.coords, sorted({c for c, _ in o["spec"]} | set(want)),
                     f"coordinates stored after {what}")
            old = {c: v for c, v in o["spec"]}
            for c, p in zip(f.coords, f.payloads):
                if c in old:
                    check_eq(raw.rawtree(p) if o["depth"] > 1 else raw.unbox(p), old[c],
                             f"{what}: element at {c}")
                elif o["depth"] == 1:
                    check_eq(raw.unbox(p), o["default"], f"{what}: new element at {c}")
                else:
                    check_eq(raw.rawtree(p), [], f"{what}: new element at {c}")
            if t is not None:
                raw.rank_mirror(t, what)
        # a second pass sees the same: shape and active range were estimated before insertion
        if ref and o["shape"] is None:
            break
    ctx.label(m, o["fmt"], "sp" if sp else "nosp", "owned" if t else "unowned")
    ctx.nt(len(o["spec"]) >= 2 and (bool(want) or bool(o["spec"])))


# ---------------------------------------------------------------- dense co-iteration

@st.composite
def co(draw):
    k = draw(st.integers(1, 3))
    d = draw(st.sampled_from([1, 1, 2]))
    return {"fs": [draw(fiber(maxn=7, depth=d)) for _ in range(k)],
            "mode": draw(st.sampled_from(["shape", "active", "range"])), "ref": draw(st.booleans()),
            "lo": draw(st.integers(0, 7)), "hi": draw(st.integers(0, 9)),
            "step": draw(st.sampled_from([1, 1, 2, 3]))}


def run_co(case, ctx):
    O = case["fs"]
    bs = [build(o) for o in O]
    fs = [f for f, _ in bs]
    snaps = [raw.snap(t or f, ids=True) for f, t in bs]
    m, ref = case["mode"], case["ref"]
    F_ = F()
    if m == "shape":
        want = list(range(shape_of(O[0])))
        lazy = (F_.coiterShapeRef if ref else F_.coiterShape)(fs)
    elif m == "active":
        want = list(range(*active_of(O[0])))
        lazy = (F_.coiterActiveShapeRef if ref else F_.coiterActiveShape)(fs)
    else:
        want = list(range(case["lo"], case["hi"], case["step"]))
        lazy = (F_.coiterRangeShapeRef if ref else F_.coiterRangeShape)(
            fs, case["lo"], case["hi"], case["step"])
    what = f"coiter {m}{' ref' if ref else ''}"
    for rnd in range(2):
        got = []
        for c, ps in lazy:
            got.append(c)
            ps = P().get(ps)
            check(isinstance(ps, tuple) and len(ps) == len(fs), "{}: payload {!r}", what, ps)
            for p, f, o in zip(ps, fs, O):
                if ref:
                    check(stored(f, c) is p, "{} at {}: the reference is not stored", what, c)
                check_payload(p, f, o, c, f"{what} at {c}")
        check_eq(got, want, what)
        for (f, t), s, o in zip(bs, snaps, O):
            if not ref:
                same(f, t, s, what)
            else:
                check_eq(f.coords, sorted({c for c, _ in o["spec"]} | set(want)),
                         "coordinates after " + what)
                if t is not None:
                    raw.rank_mirror(t, what)
    ctx.label(m, "ref" if ref else "read", str(len(fs)))
    ctx.nt(bool(want) and any(len(o["spec"]) >= 2 for o in O))


# ---------------------------------------------------------------- lazy views

PREDS = ["all", "even", "odd", "mod3", "lt4", "stop4", "none", "pos0", "vpos"]


@st.composite
def view(draw):
    k = draw(st.sampled_from(["project", "project", "project", "prune"]))
    if k == "prune":
        return (k, draw(st.sampled_from(PREDS)), draw(st.one_of(st.none(), st.integers(0, 6))))
    a = draw(st.sampled_from([1, 1, 1, 2, 3, -1, -1, -2]))
    b = draw(st.integers(-6, 20))
    if draw(st.booleans()):
        lo = draw(st.integers(-6, 24))
        iv = (lo, lo + draw(st.integers(0, 14)))
    else:
        iv = None
    return (k, a, b, iv, draw(st.one_of(st.none(), st.integers(0, 6))),
            draw(st.sampled_from([None, "Z"])))


@st.composite
def views(draw):
    return {"f": draw(fiber()), "vs": draw(st.lists(view(), min_size=1, max_size=3)),
            "base": draw(st.sampled_from(["plain", "plain", "plain", "sub"])),
            "rngs": draw(st.lists(st.tuples(st.one_of(st.none(), st.integers(-8, 20)),
                                            st.one_of(st.none(), st.integers(-8, 20))),
                                  max_size=3))}


def pred(name):
    def val(p):
        return p.value if isinstance(p, P()) else 0
    return {"all": lambda i, c, p: True, "even": lambda i, c, p: c % 2 == 0,
            "odd": lambda i, c, p: c % 2 == 1, "mod3": lambda i, c, p: c % 3 == 0,
            "lt4": lambda i, c, p: c < 4, "stop4": lambda i, c, p: True if c < 4 else None,
            "none": lambda i, c, p: False, "pos0": lambda i, c, p: i == 0,
            "vpos": lambda i, c, p: val(p) > 0}[name]


def run_views(case, ctx):
    o = case["f"]
    f, t = build(o)
    before = raw.snap(t or f, ids=True)
    A = active_of(o)
    # model: list of (coordinate now, original coordinate), and the active range
    cur = [(c, c) for c in (occ(o) if o["fmt"] == "C" else range(*A))]
    x, lazy, what = f, False, "f"
    active = A
    if case["base"] == "sub":
        g = F()([c for c, _ in o["spec"]][::2], [1] * len(o["spec"][::2]))
        x, lazy, what = f - g, True, "f - g"
        drop = set(g.coords)
        cur = [(c, oc) for c, oc in cur if c not in drop]
    for v in case["vs"]:
        if v[0] == "prune":
            name, sp = v[1], v[2]
            kw = {}
            if name == "pos0" and any(empty(o, w) for _, w in o["spec"]):
                name = "even"
            fn = pred(name)
            if sp is not None and not lazy and o["fmt"] == "C" and o["spec"] and name != "pos0":
                s = legal_start(o, sp, lambda c, w: empty(o, w) or not fn(0, c, stored(f, c)))
                # nothing before the start may stop the traversal either
                if all(fn(0, c, stored(f, c)) is not None for c, _ in o["spec"][:s]):
                    kw["start_pos"] = s
            x = x.prune(trans_fn=fn, **kw)
            new = []
            for i, (c, oc) in enumerate(cur):
                d = stored(f, oc)
                k = fn(i, c, d if d is not None else
                       P()(o["default"]) if o["depth"] == 1 else F()())
                if k is None:
                    break
                if k:
                    new.append((c, oc))
            cur = new
            what += f".prune({name}, {kw})"
        else:
            _, a, b, iv, sp, rid = v
            if lazy:
                a = abs(a)
            kw = {}
            if iv is not None:
                kw["interval"] = iv
                if sp is not None and not lazy and a > 0 and o["fmt"] == "C" and o["spec"]:
                    n = len(o["spec"])
                    ok = [j for j in range(n) if j == 0 or a * o["spec"][j - 1][0] + b < iv[0]]
                    kw["start_pos"] = ok[sp % len(ok)]
            if rid:
                kw["rank_id"] = rid
            tf = (lambda a, b: lambda c: a * c + b)(a, b)
            x = x.project(trans_fn=tf, **kw)
            cur = sorted((tf(c), oc) for c, oc in cur)
            if iv is not None:
                cur = [(c, oc) for c, oc in cur if iv[0] <= c < iv[1]]
                active = tuple(iv)
            elif active[0] < active[1]:
                ends = tf(active[0]), tf(active[1] - 1)
                active = (min(ends), max(ends) + 1)
            else:
                active = None          # an empty range has no image
            what += f".project({a}c+{b}, {kw})"
        lazy = True
        if active is None:
            break
    check(x.isLazy(), "{} is not lazy", what)
    if active is not None:
        check_eq(x.getActive(), active, "active range of " + what)
    for rnd in range(2):
        got = raw.collect(x, what)
        check_eq([c for c, _ in got], [c for c, _ in cur], what + f" pass {rnd}")
        for (c, p), (_, oc) in zip(got, cur):
            check_payload(p, f, o, oc, f"{what} at {c}")
        same(f, t, before, what)
    # materialised
    eager = F().fromLazy(x)
    check(not eager.isLazy(), "fromLazy gives a lazy fiber")
    want = []
    for c, oc in cur:
        s = stored(f, oc)
        if s is not None and not empty(o, dict((k, w) for k, w in o["spec"])[oc]):
            want.append((c, raw.content(s, o["default"]) if o["depth"] > 1 else raw.unbox(s)))
    gote = [(c, raw.content(p, o["default"]) if isinstance(p, F()) else raw.unbox(p))
            for c, p in zip(eager.coords, eager.payloads)]
    check_eq(gote, want, "fromLazy of " + what)
    # the count of a lazy fiber is that of its non-empty elements
    check_eq(len(x), len(want), "len of " + what)
    # ranges of the view and of the materialised fiber (coordinates may be negative)
    full = [(c, oc) for c, oc in cur if any(c == d for d, _ in want)]
    for lo, hi in case.get("rngs", []):
        clip = [(c, oc) for c, oc in full if (lo is None or c >= lo) and (hi is None or c < hi)]
        for y, n in ((x, "view"), (eager, "eager")):
            got = [(c, p) for c, p in y.iterRange(lo, hi)]
            w = f"iterRange({lo}, {hi}) of the {n} of {what}"
            check_eq([c for c, _ in got], [c for c, _ in clip], w)
            if n == "view":
                for (c, p), (_, oc) in zip(got, clip):
                    check_payload(p, f, o, oc, f"{w} at {c}")
    if active is not None:
        check_eq([c for c, _ in x.iterActive()],
                 [c for c, _ in full if active[0] <= c < active[1]], "iterActive of " + what)
    there = {c: p for c, p in zip(eager.coords, eager.payloads)}
    for lo, hi in case.get("rngs", []):
        if lo is None or hi is None or hi > 15:
            continue
        had = list(eager.coords)
        got = [(c, p) for c, p in eager.iterRangeShape(lo, hi, 1 + len(want) % 2)]
        w = f"iterRangeShape({lo}, {hi}) of the eager fiber of {what}"
        check_eq([c for c, _ in got], list(range(lo, hi, 1 + len(want) % 2)), w)
        for c, p in got:
            if c in there:
                check(p is there[c], "{} at {} is {!r}", w, c, p)
            else:
                check_eq(raw.content(p) if isinstance(p, F()) else raw.unbox(p),
                         {} if o["depth"] > 1 else o["default"], f"{w} at {c}")
        check_eq(eager.coords, had, f"coordinates after {w}")
    same(f, t, before, "materialising " + what)
    ctx.label(*[v[0] for v in case["vs"]], o["fmt"], case["base"])
    ctx.nt(len(o["spec"]) >= 2 and len(cur) >= 1)


# ------------------------------------------------------- tuple coordinates

@st.composite
def tup(draw):
    import itertools
    full = list(itertools.product(range(3), repeat=2))
    cs = sorted(draw(st.lists(st.sampled_from(full), max_size=7, unique=True)))
    return {"cs": cs, "vals": [draw(st.sampled_from([1, 2, 0])) for _ in cs],
            "fn": draw(st.sampled_from(["wrap", "lin", "shift", "nest"])),
            "shape": draw(st.booleans()), "from": draw(st.sampled_from(["tuple", "int"]))}


def run_tup(case, ctx):
    cs = case["cs"]
    if case["from"] == "int":
        cs = [3 * a + b for a, b in cs]
        f = F()(cs, list(case["vals"]), **({"shape": 9} if case["shape"] else {}))
        fn = {"wrap": lambda c: (c, c + 1), "lin": lambda c: 2 * c, "shift": lambda c: c + 1,
              "nest": lambda c: ((c, 0), c)}[case["fn"]]
        kw = {}
    else:
        f = F()([tuple(c) for c in cs], list(case["vals"]),
                **({"shape": (3, 3)} if case["shape"] else {}))
        fn = {"wrap": lambda c: (c, 0), "lin": lambda c: 3 * c[0] + c[1],
              "shift": lambda c: (c[0] + 1, c[1] + 1), "nest": lambda c: (c[0], (c[1], 0))}[
                  case["fn"]]
        # without elements or a shape nothing tells the coordinates are tuples
        kw = {} if cs or case["shape"] else {"coord_ex": (0, 0)}
    if not cs and not case["shape"] and case["from"] == "tuple":
        return
    lazy = f.project(trans_fn=fn, **kw)
    want = [(fn(c), v) for c, v in zip(f.coords, case["vals"]) if v]
    for _ in range(2):
        check_eq([(c, raw.val(p)) for c, p in raw.collect(lazy)], want, "projection")
    if case["shape"]:
        # the dense walk of a fiber whose shape is known
        full = list(range(9)) if case["from"] == "int" else [(a, b) for a in range(3)
                                                             for b in range(3)]
        check_eq(list(f.iterShapeCoords()), full, "iterShapeCoords")
        have = dict(zip(f.coords, case["vals"]))
        before = raw.fsnap(f)
        check_eq([(c, raw.val(p)) for c, p in f.iterUncompressed()],
                 [(c, have.get(c, 0)) for c in full], "iterUncompressed")
        check_eq(raw.fsnap(f), before, "fiber after iterUncompressed")
        if case["from"] == "int" and cs:
            a, n = cs[len(cs) // 2] - 1, 4
            for kw in ({"size": n}, {"end_coord": a + n}):
                r = f.getRange(a, trans_fn=lambda c: c, **kw)
                check_eq([(c, raw.val(p)) for c, p in r],
                         [(c, v) for c, v in zip(cs, case["vals"]) if v and a <= c < a + n],
                         f"getRange({a}, {kw})")
    ctx.nt(len(want) >= 2)


SUBS = [
    Sub("plain", run_plain, plain, quick=10000, thorough=300000),
    Sub("co", run_co, co, quick=3000, thorough=100000),
    Sub("views", run_views, views, quick=8000, thorough=250000),
    Sub("tuples", run_tup, tup, quick=800, thorough=20000),
]
