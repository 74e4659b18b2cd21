"""Building objects from case literals, and reading them back raw: only public
attributes (`coords`, `payloads`, `value`) and accessors are used."""
from .core import Violation, check


def lib():
    import fibertree
    return fibertree


_m = {}


def F():
    if "F" not in _m:
        from fibertree.core.fiber import Fiber
        _m["F"] = Fiber
    return _m["F"]


def P():
    if "P" not in _m:
        from fibertree.core.payload import Payload
        _m["P"] = Payload
    return _m["P"]


def T():
    if "T" not in _m:
        from fibertree.core.tensor import Tensor
        _m["T"] = Tensor
    return _m["T"]


def M():
    if "M" not in _m:
        from fibertree.core.metrics import Metrics
        _m["M"] = Metrics
    return _m["M"]


# ---------------------------------------------------------------- building

def fresh(v):
    """An equal number that is another object (small integers exist only once)."""
    if type(v) in (int, float):
        return type(v)(repr(v))
    return v


def mk_fiber(spec, depth, default=0, shape=None, active=None):
    """Unowned fiber from a tree spec."""
    Fiber = F()
    kw = {}
    if shape is not None:
        kw["shape"] = shape[0]
    if active is not None:
        kw["active_range"] = active
    if depth == 1:
        return Fiber([fresh(c) for c, _ in spec], [fresh(v) for _, v in spec], default=default, **kw)
    sub = shape[1:] if shape is not None else None
    return Fiber([fresh(c) for c, _ in spec],
                 [mk_fiber(s, depth - 1, default, sub) for _, s in spec],
                 default=Fiber, **kw)


def mk_tensor(tc):
    """Tensor from a gens.tensor_case literal."""
    depth = len(tc["ranks"])
    prov = tc.get("prov")
    if prov in ("grown", "populated"):
        # the same tree, reached by writing to an empty tensor
        t = T()(rank_ids=list(tc["ranks"]), default=tc["default"], name=tc.get("name", ""),
                shape=list(tc["shape"]) if tc["shape"] is not None else None)
        if prov == "grown":
            grow(t.getRoot(), tc["spec"], depth)
        else:
            populate(t.getRoot(), tc["spec"], depth)
            grow(t.getRoot(), tc["spec"], depth)     # what populate does not keep
        return formats(t, tc)
    f = mk_fiber(tc["spec"], depth, tc["default"])
    t = T().fromFiber(rank_ids=list(tc["ranks"]), fiber=f,
                      shape=list(tc["shape"]) if tc["shape"] is not None else None,
                      default=tc["default"], name=tc.get("name", ""))
    formats(t, tc)
    if prov == "copy":
        import copy
        return copy.deepcopy(t)
    return t


def formats(t, tc):
    if tc.get("fmt"):
        for r, fm in zip(tc["ranks"], tc["fmt"]):
            t.setFormat(r, fm)
    for r, act in zip(t.ranks, tc.get("narrow") or []):
        for f in r.getFibers() if act else []:
            n = f.getShape(all_ranks=False)
            f.setActive((min(act[0], n), min(act[1], n)))
    return t


def grow(f, spec, depth):
    for c, v in spec:
        p = f.getPayloadRef(fresh(c))
        if depth == 1:
            p <<= fresh(v)
        else:
            grow(p, v, depth - 1)


def populate(f, spec, depth):
    a = F()([fresh(c) for c, _ in spec], [1] * len(spec))
    want = dict((c, v) for c, v in spec)
    for c, (p, _) in f << a:
        if depth == 1:
            p <<= fresh(want[c])
        else:
            populate(p, want[c], depth - 1)


# ---------------------------------------------------------------- raw reading

def unbox(p):
    """Value of a leaf payload, checking that it is singly boxed."""
    check(type(p) is P(), "leaf payload is not a boxed value: {!r} ({})", p, type(p).__name__)
    v = p.value
    check(not isinstance(v, (P(), F())), "leaf box holds {!r}", type(v).__name__)
    return v


def val(p):
    """Value of a delivered payload: a box or, tolerated, a plain value."""
    v = p.value if isinstance(p, P()) else p
    check(not isinstance(v, P()), "doubly boxed value")
    return v


def isfiber(p):
    return isinstance(p, F())


def rawtree(f, what="fiber"):
    """[[coord, child]] with child a value or a nested list (no checks of order)."""
    check(isinstance(f, F()), "{} is not a fiber: {!r}", what, type(f).__name__)
    cs, ps = f.coords, f.payloads
    check(len(cs) == len(ps), "{} coords and payloads for one fiber", (len(cs), len(ps)))
    return [[c, rawtree(p) if isinstance(p, F()) else unbox(p)] for c, p in zip(cs, ps)]


def wellformed(f, depth, what="tree", ordered=True, path=()):
    """The C01 predicate on one tree: raises Violation."""
    check(isinstance(f, F()), "{}: at {} expected a fiber, found {}", what, path, type(f).__name__)
    cs, ps = f.coords, f.payloads
    check(isinstance(cs, list) and isinstance(ps, list),
          "{}: coords/payloads are {}/{}", what, type(cs).__name__, type(ps).__name__)
    check(len(cs) == len(ps), "{}: fiber {} has {} coords but {} payloads",
          what, path, len(cs), len(ps))
    if ordered:
        for a, b in zip(cs, cs[1:]):
            check(a < b, "{}: fiber {} has coordinates {} not strictly increasing", what, path, cs)
    for c, p in zip(cs, ps):
        check(not isinstance(c, P()), "{}: coordinate {} of {} is boxed", what, c, path)
        if depth == 1:
            check(not isinstance(p, F()), "{}: fiber found at leaf {}", what, path + (c,))
            check(type(p) is P(), "{}: leaf {} is an unboxed {}", what, path + (c,),
                  type(p).__name__)
            check(not isinstance(p.value, (P(), F())), "{}: leaf {} is boxed twice",
                  what, path + (c,))
        else:
            wellformed(p, depth - 1, what, ordered, path + (c,))


def rank_mirror(t, what="tensor"):
    """The C02 predicate: raises Violation."""
    root = t.getRoot()
    ranks = t.ranks
    if not ranks:
        check(isinstance(root, P()), "{}: rank-0 root is {}", what, type(root).__name__)
        return
    level = [root]
    for i, r in enumerate(ranks):
        have = list(r.getFibers())
        hid = {id(f) for f in have}
        check(len(hid) == len(have), "{}: rank {} lists a fiber twice", what, r.getId())
        want = {id(f) for f in level}
        check(len(want) == len(level), "{}: a fiber is stored twice at depth {}", what, i)
        check(hid == want, "{}: rank {} ({}) lists {} fibers, tree has {} at depth {} "
              "({} stale, {} missing)", what, r.getId(), i, len(have), len(level), i,
              len(hid - want), len(want - hid))
        for f in level:
            check(f.getOwner() is r, "{}: fiber at depth {} is owned by {}", what, i,
                  f.getOwner() and f.getOwner().getId())
        nxt = ranks[i + 1] if i + 1 < len(ranks) else None
        check(r.getNextRank() is nxt, "{}: rank {} is chained to {}", what, r.getId(),
              r.getNextRank() and r.getNextRank().getId())
        if nxt is not None:
            for f in level:
                for p in f.payloads:
                    check(isinstance(p, F()), "{}: payload at depth {} is not a fiber", what, i)
            level = [p for f in level for p in f.payloads]
    check(len(ranks[0].getFibers()) == 1 and ranks[0].getFibers()[0] is root,
          "{}: the first rank is not exactly the root", what)


def content(f, default=0, prefix=()):
    """{point: value} of the non-default leaves, read raw."""
    out = {}
    for c, p in zip(f.coords, f.payloads):
        if isinstance(p, F()):
            out.update(content(p, default, prefix + (c,)))
        else:
            v = unbox(p)
            if v != default:
                out[prefix + (c,)] = v
    return out


def tcontent(t):
    r = t.getRoot()
    if isinstance(r, P()):
        return {(): unbox(r)}
    return content(r, val(t.getDefault()))


def spec_content(spec, depth, default=0, prefix=()):
    out = {}
    for c, v in spec:
        if depth == 1:
            if v != default:
                out[prefix + (c,)] = v
        else:
            out.update(spec_content(v, depth - 1, default, prefix + (c,)))
    return out


def spec_empty(spec, depth, default=0):
    return not spec_content(spec, depth, default)


def has_explicit(spec, depth, default=0):
    """Holds an explicit default or an empty sub-fiber."""
    if depth == 1:
        return any(v == default for _, v in spec)
    return any(not s or has_explicit(s, depth - 1, default) for _, s in spec)


# ---------------------------------------------------------------- snapshots

def attrs_snap(a):
    d = a.getDefault() if _default_set(a) else None
    return (repr(a.getId()), a.getShape(), a.getEstimatedShape(), a.getFormat(), dsnap(d))


def _default_set(a):
    try:
        a.getDefault()
        return True
    except AssertionError:
        return False


def dsnap(d):
    """Comparable form of a default value."""
    if isinstance(d, P()):
        d = d.value
    if isinstance(d, F()):
        return "Fiber"
    if isinstance(d, type):
        return "Fiber" if issubclass(d, F()) else d.__name__
    if isinstance(d, tuple):
        return tuple(dsnap(x) for x in d)
    return d


def fsnap(f, meta=True, ids=False):
    """Structural snapshot of a fiber tree (explicit defaults included)."""
    out = []
    for c, p in zip(f.coords, f.payloads):
        x = fsnap(p, meta, ids) if isinstance(p, F()) else \
            ("v", type(p).__name__, getattr(p, "value", p)) + ((id(p),) if ids else ())
        out.append((c, x))
    m = ()
    if meta:
        m = (f.getActive(), attrs_snap(f.getRankAttrs()),
             f.isOrdered(), f.isUnique())
    if ids:
        m += (id(f), id(f.getOwner()))
    return ("F", len(f.coords), len(f.payloads), tuple(out), m)


def tsnap(t, ids=False):
    """Structural snapshot of a tensor with its ranks."""
    root = t.getRoot()
    if isinstance(root, P()):
        body = ("v", root.value) + ((id(root),) if ids else ())
    else:
        body = fsnap(root, True, ids)
    ranks = tuple((attrs_snap(r.getAttrs()), len(r.getFibers()))
                  + ((tuple(id(f) for f in r.getFibers()),) if ids else ())
                  for r in t.ranks)
    return (repr(t.getRankIds()), t.getName(), t.getColor(), t.isMutable(), body, ranks)


def snap(o, ids=False):
    return tsnap(o, ids) if isinstance(o, T()) else fsnap(o, True, ids)


def mutables(o):
    """id -> description of every mutable object of a fiber or tensor."""
    out = {}

    def fib(f, path):
        out[id(f)] = f"fiber at {path}"
        out[id(f.coords)] = f"coordinate list at {path}"
        out[id(f.payloads)] = f"payload list at {path}"
        out[id(f.getRankAttrs())] = f"rank attributes at {path}"
        if f.getOwner() is not None:
            out[id(f.getOwner())] = f"owning rank at {path}"
        for c, p in zip(f.coords, f.payloads):
            if isinstance(p, F()):
                fib(p, path + (c,))
            else:
                out[id(p)] = f"payload box at {path + (c,)}"

    if isinstance(o, T()):
        for r in o.ranks:
            out[id(r)] = f"rank {r.getId()}"
            out[id(r.getAttrs())] = f"attributes of rank {r.getId()}"
            out[id(r.getFibers())] = f"fiber list of rank {r.getId()}"
            if isinstance(r.getId(), list):
                out[id(r.getId())] = f"rank id list {r.getId()}"
        out[id(o)] = "tensor"
        root = o.getRoot()
        if isinstance(root, P()):
            out[id(root)] = "root box"
        else:
            fib(root, ())
    else:
        fib(o, ())
    return out


# ---------------------------------------------------------------- iteration

LIMIT = 5000


def collect(it, what="iteration"):
    """List of (coord, payload), bounded."""
    out = []
    for x in it:
        c, p = x
        out.append((c, p))
        check(len(out) < LIMIT, "{} yields more than {} elements", what, LIMIT)
    return out
