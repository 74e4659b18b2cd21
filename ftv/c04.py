"""C04: co-iteration operators against coordinate-set algebra."""
from .core import HYP, Sub, Violation, check, check_eq  # noqa
from hypothesis import strategies as st
import itertools

from . import gens, raw
from .raw import F, P, T

PROP = "C04"
RULE = ("fibers (leaf or fiber payloads, integer or tuple coordinates, owned by a tensor or not, "
        "compressed or uncompressed, explicit defaults and empty sub-fibers) combined by one "
        "operator; oracle: set algebra on the presented coordinates. Non-trivial: at least two "
        "operands present a coordinate and the coordinate lists differ.")
ASSUMPTIONS = ["uncompressed format is used with integer coordinates only"]

OPS = ["&", "|", "^", "-"]


# ---------------------------------------------------------------- operands

@st.composite
def operand(draw, depth=None, arity=1, fmt=True):
    depth = draw(st.sampled_from([1, 1, 1, 2])) if depth is None else depth
    default = draw(st.sampled_from([0] * 6 + [3, 1000, 0.5]))
    n = gens.wide(draw) or draw(st.integers(0, 8))
    o = {"depth": depth, "default": default, "arity": arity, "own": draw(st.booleans()),
         "fmt": "C", "active": None, "order": draw(st.booleans())}
    vals = gens.values(default)
    if depth == 1 and draw(st.integers(0, 9)) == 0:
        vals = st.sampled_from([(1, 2), (3,), 5, default])     # tuple-valued payloads
    if arity > 1:
        width = 3
        full = list(itertools.product(range(width), repeat=arity))
        cs = sorted(draw(st.lists(st.sampled_from(full), max_size=7, unique=True)))
        shape = (width,) * arity
    else:
        cs = draw(gens.coordset(n))
        shape = max(n, 1)
        if fmt and draw(st.integers(0, 3)) == 0:
            o["fmt"] = "U"
            if draw(st.booleans()):
                lo = draw(st.integers(0, shape))
                o["active"] = (lo, draw(st.integers(lo, shape)))
        elif draw(st.integers(0, 3)) == 0:
            # plays no part in what a compressed fiber presents
            lo = draw(st.integers(0, shape))
            o["active"] = (lo, draw(st.integers(lo, shape)))
    o["shape"] = shape
    if depth == 1:
        o["spec"] = [[c, draw(vals)] for c in cs]
    else:
        o["spec"] = [[c, draw(gens.spec([3], default))] for c in cs]
    return o


def build(o):
    f = raw.mk_fiber(o["spec"], o["depth"], o["default"],
                     shape=[o["shape"], 3][:o["depth"]])
    t = None
    if o["own"]:
        ids = ["K", "N"][:o["depth"]]
        t = T().fromFiber(rank_ids=ids, fiber=f, default=o["default"],
                          shape=[o["shape"], 3][:o["depth"]])
        f = t.getRoot()
        if o["fmt"] == "U":
            t.setFormat("K", "U")
    elif o["fmt"] == "U":
        f.getRankAttrs().setFormat("U")
    if o["active"] is not None:
        f.setActive(o["active"])
    return f, t


def presented(o):
    """Coordinates presented, from the literal alone."""
    if o["fmt"] == "U":
        lo, hi = o["active"] or (0, o["shape"])
        return list(range(lo, hi))
    if o["depth"] == 1:
        return [c for c, v in o["spec"] if v != o["default"]]
    return [c for c, s in o["spec"] if not raw.spec_empty(s, 1, o["default"])]


def stored(f, c):
    return f.payloads[f.coords.index(c)] if c in f.coords else None


def is_default(p, o, what):
    if o["depth"] == 1:
        check(not isinstance(p, F()), "{}: a fiber stands in for an absent leaf", what)
        check_eq(raw.val(p), o["default"], what + " (absent side)")
    else:
        check(isinstance(p, F()), "{}: absent side is a {}", what, type(p).__name__)
        check_eq(raw.content(p, o["default"]), {}, what + " (absent side)")


def delivered(p, f, o, c, present, seen, what):
    """p is what one side delivered at its own coordinate c."""
    s = stored(f, c) if present else None
    if s is not None:
        check(p is s, "{}: delivered {!r}, which is not the stored payload {!r}", what, p, s)
    else:
        is_default(p, o, what)
        if isinstance(p, (P(), F())):
            check(id(p) not in seen, "{}: the stand-in is not a fresh object", what)
            for q in f.payloads:
                check(p is not q, "{}: the stand-in is a stored payload", what)
            seen[id(p)] = p


def untouched(ops, snaps, what):
    for (f, t), s in zip(ops, snaps):
        now = raw.snap(t if t is not None else f, ids=True)
        if now != s:
            raise Violation(f"{what}: an operand changed from {s} to {now}")


def vandalise(ps, o):
    """Write through delivered stand-ins; must not reach the operands."""
    for p in ps:
        if isinstance(p, P()):
            p += 7
            p <<= 9


def elements(lazy, what):
    return raw.collect(lazy, what)


# ---------------------------------------------------------------- two operands

@st.composite
def pair(draw):
    op = draw(st.sampled_from(["&", "&"] + OPS[1:]))
    ar = draw(st.sampled_from([(1, 1)] * 6 + [(2, 2), (3, 3)]))
    if op == "&":
        ar = draw(st.sampled_from([(1, 1)] * 5 + [(2, 2), (1, 2), (2, 1), (1, 3), (3, 1), (2, 3),
                                                 (3, 2), (2, 4), (4, 2), (1, 4)]))
    a = draw(operand(arity=ar[0]))
    b = draw(operand(arity=ar[1]))
    mixed = ar[0] != ar[1]
    if mixed:
        a["fmt"] = b["fmt"] = "C"
        a["active"] = b["active"] = None
    return {"op": op, "a": a, "b": b, "twice": draw(st.booleans()),
            "same": draw(st.integers(0, 9)) == 0}


def pre(c, k):
    """Prefix of a coordinate of arity k (arity-1 coordinates are plain)."""
    if k == 1:
        return c[0] if isinstance(c, tuple) else c
    return c[:k]


def binop(op, a, b):
    return a & b if op == "&" else a | b if op == "|" else a ^ b if op == "^" else a - b


def run_pair(case, ctx):
    op, A, B = case["op"], case["a"], case["b"]
    a = build(A)
    if case["same"]:
        B = A
        b = a
    else:
        b = build(B)
    snaps = [raw.snap(t if t is not None else f, ids=True) for f, t in (a, b)]
    pa, pb = presented(A), presented(B)
    res = binop(op, a[0], b[0])
    la, lb = A["arity"], B["arity"]
    for rnd in range(2 if case["twice"] else 1):
        what = f"a {op} b" + (" (second pass)" if rnd else "")
        got = elements(res, what)
        cs = [c for c, _ in got]
        if op == "&":
            if la <= lb:
                want = [c for c in pb if pre(c, la) in pa]
            else:
                want = [c for c in pa if pre(c, lb) in pb]
        else:
            sa, sb = set(pa), set(pb)
            want = sorted({"|": sa | sb, "^": sa ^ sb, "-": sa - sb}[op])
        check_eq([tuple(c) if isinstance(c, tuple) else c for c in cs], want,
                 f"coordinates of {what}")
        seen = {}
        for c, p in got:
            w = f"{what} at {c}"
            p = P().get(p) if op != "-" else p
            if op == "-":
                delivered(p, a[0], A, c, True, seen, w)
                continue
            check(isinstance(p, tuple), "{}: payload is {!r}", w, p)
            if op == "&":
                check_eq(len(p), 2, w + " payload length")
                delivered(p[0], a[0], A, pre(c, la), True, seen, w)
                delivered(p[1], b[0], B, pre(c, lb), True, seen, w)
            else:
                check_eq(len(p), 3, w + " payload length")
                check_eq(p[0], ("A" if c in pa else "") + ("B" if c in pb else ""), w + " mask")
                delivered(p[1], a[0], A, c, c in pa, seen, w)
                delivered(p[2], b[0], B, c, c in pb, seen, w)
        vandalise([p for p in seen.values()], None)
        untouched((a, b), snaps, what)
    ctx.label(op, f"arity{la}{lb}", A["fmt"] + B["fmt"], f"d{A['depth']}{B['depth']}",
              "empty" if not A["spec"] or not B["spec"] else "nonempty")
    ctx.nt(bool(pa) and bool(pb) and pa != pb)


# ---------------------------------------------------------------- k operands

@st.composite
def many(draw):
    kind = draw(st.sampled_from(["intersection", "union", "leader"]))
    k = draw(st.sampled_from([2, 2, 3, 3, 4, 4, 5, 6]))
    if kind == "intersection":
        ars = [draw(st.sampled_from([1, 1, 1, 2]))] * k
        if draw(st.integers(0, 3)) == 0:
            ars = [draw(st.integers(1, 3)) for _ in range(k)]
    else:
        ars = [draw(st.sampled_from([1, 1, 1, 2]))] * k
    ops = [draw(operand(arity=x)) for x in ars]
    if len(set(ars)) > 1:
        for o in ops:
            o["fmt"], o["active"] = "C", None
    return {"kind": kind, "ops": ops, "stale": draw(st.booleans())}


def run_many(case, ctx):
    O, kind = case["ops"], case["kind"]
    fs = [build(o) for o in O]
    if case["stale"]:
        # earlier traversals may leave a saved position behind
        for f, _ in fs:
            if f.coords:
                f.getPayload(f.coords[-1], start_pos=0)
    snaps = [raw.snap(t if t is not None else f, ids=True) for f, t in fs]
    pres = [presented(o) for o in O]
    fibers = [f for f, _ in fs]
    F_ = F()
    if kind == "intersection":
        res = F_.intersection(*fibers)
    elif kind == "union":
        res = F_.union(*fibers)
    else:
        res = F_.intersection(*fibers, style="leader-follower")
    for rnd in range(2):
        what = f"{kind} of {len(O)}" + (" (second pass)" if rnd else "")
        got = elements(res, what)
        cs = [c for c, _ in got]
        seen = {}
        if kind == "intersection":
            top = max(o["arity"] for o in O)
            first = next(i for i, o in enumerate(O) if o["arity"] == top)
            # candidates come from the operands of the greatest arity
            want = [c for c in pres[first]
                    if all(pre(c, o["arity"]) in p for o, p in zip(O, pres))]
        elif kind == "union":
            want = sorted(set().union(*[set(p) for p in pres]))
        else:
            want = pres[0]
        check_eq(cs, want, f"coordinates of {what}")
        for c, p in got:
            w = f"{what} at {c}"
            p = P().get(p)
            check(isinstance(p, tuple), "{}: payload is {!r}", w, p)
            if kind == "union":
                mask, p = p[0], p[1:]
                check_eq(mask, "".join("ABCDEF"[i] for i, q in enumerate(pres) if c in q),
                         w + " mask")
            check_eq(len(p), len(O), w + " payload length")
            for i, (x, o) in enumerate(zip(p, O)):
                cc = pre(c, o["arity"])
                here = cc in pres[i]
                if kind == "leader" and i:
                    # the follower may deliver an explicit default it stores
                    s = stored(fibers[i], cc)
                    if s is not None:
                        check(x is s, "{}: operand {} delivered {!r}, not its stored payload {!r}",
                              w, i, x, s)
                        continue
                    here = False
                delivered(x, fibers[i], o, cc, here, seen, w)
        vandalise([p for p in seen.values()], None)
        untouched(fs, snaps, what)
    ctx.label(kind, str(len(O)), *{o["fmt"] for o in O})
    ctx.nt(sum(bool(p) for p in pres) >= 2 and any(p != pres[0] for p in pres))


# ---------------------------------------------------------------- expressions

@st.composite
def expr(draw, depth=2):
    if depth == 0 or draw(st.integers(0, 4)) == 0:
        return draw(st.integers(0, 3))
    op = draw(st.sampled_from(OPS + OPS + ["union", "inter"]))
    k = draw(st.integers(2, 3)) if len(op) > 1 else 2
    return (op,) + tuple(draw(expr(depth - 1)) for _ in range(k))


@st.composite
def nested(draw):
    d = draw(st.sampled_from([1, 1, 2]))
    e = (draw(st.sampled_from(OPS)), draw(expr()), draw(expr()))
    if draw(st.integers(0, 4)) == 0:
        e = (draw(st.sampled_from(["union", "inter"])),) + e[1:] + (draw(expr(1)),)
    return {"e": e,
            "ops": [draw(operand(depth=d, fmt=draw(st.booleans()))) for _ in range(4)]}


def run_nested(case, ctx):
    fs = [build(o) for o in case["ops"]]
    snaps = [raw.snap(t if t is not None else f, ids=True) for f, t in fs]
    pres = [set(presented(o)) for o in case["ops"]]
    used = set()

    def lazy(e):
        if isinstance(e, int):
            used.add(e)
            return fs[e][0]
        if len(e[0]) > 1:
            return (F().union if e[0] == "union" else F().intersection)(*map(lazy, e[1:]))
        return binop(e[0], lazy(e[1]), lazy(e[2]))

    def sets(e):
        if isinstance(e, int):
            return pres[e]
        if len(e[0]) > 1:
            xs = [sets(x) for x in e[1:]]
            return set.union(*xs) if e[0] == "union" else set.intersection(*xs)
        x, y = sets(e[1]), sets(e[2])
        return {"&": x & y, "|": x | y, "^": x ^ y, "-": x - y}[e[0]]

    def flat(e, c, p, out):
        """(operand, payload) pairs delivered for a coordinate."""
        p = P().get(p) if not isinstance(e, int) and e[0] != "-" else p
        if isinstance(e, int):
            out.append((e, p))
        elif e[0] == "-":
            flat(e[1], c, p, out)
        elif e[0] in ("&", "inter"):
            check_eq(len(p), len(e) - 1, f"payload length at {c} of {e}")
            for x, q in zip(e[1:], p):
                flat(x, c, q, out)
        else:
            check_eq(len(p), len(e), f"payload length at {c} of {e}")
            here = [c in sets(x) for x in e[1:]]
            check_eq(p[0], "".join(m for m, h in zip("ABC", here) if h), f"mask at {c} of {e}")
            for x, q, h in zip(e[1:], p[1:], here):
                if h:
                    flat(x, c, q, out)
                else:
                    absent(x, q, f"{e} at {c}")

    def absent(e, p, what):
        """p is the default of what e delivers."""
        if isinstance(e, int):
            is_default(p, case["ops"][e], f"{what}: operand {e}")
            if isinstance(p, (P(), F())):
                check(id(p) not in seen and all(p is not q for q in fs[e][0].payloads),
                      "{}: the stand-in for operand {} is not a fresh object", what, e)
                seen[id(p)] = p
            return
        if e[0] == "-":
            return absent(e[1], p, what)
        p = P().get(p)
        union = e[0] in ("|", "^", "union")
        check(isinstance(p, tuple) and len(p) == len(e) - 1 + union,
              "{}: the stand-in for {} is {!r}", what, e, p)
        if union:
            check_eq(P().get(p[0]), "", f"{what}: mask of the stand-in for {e}")
        for x, q in zip(e[1:], p[union:]):
            absent(x, q, what)

    seen = {}
    res = lazy(case["e"])
    what = f"{case['e']}"
    got = elements(res, what)
    check_eq([c for c, _ in got], sorted(sets(case["e"])), f"coordinates of {what}")
    for c, p in got:
        out = []
        flat(case["e"], c, p, out)
        for i, x in out:
            delivered(x, fs[i][0], case["ops"][i], c, True, {}, f"{what} at {c}, operand {i}")
    check_eq([c for c, _ in elements(res, what)], [c for c, _ in got], "second pass of " + what)
    untouched(fs, snaps, what)
    ctx.label(f"leaves{len(used)}")
    ctx.nt(len(used) >= 2 and sum(bool(pres[i]) for i in used) >= 2)


# ---------------------------------------------------------------- exhaustive

def small(tier):
    """Every pair of leaf fibers over n coordinates, each absent / explicit 0 / stored."""
    n = 4 if tier == "quick" else 5
    specs = list(itertools.product([None, 0, 1], repeat=n))
    for x in specs:
        for y in specs:
            yield (x, y)


def run_small(case, ctx):
    x, y = case
    F_ = F()
    a = F_([i for i, v in enumerate(x) if v is not None], [v for v in x if v is not None])
    b = F_([i for i, v in enumerate(y) if v is not None], [2 * v for v in y if v is not None])
    pa = [i for i, v in enumerate(x) if v]
    pb = [i for i, v in enumerate(y) if v]
    before = (list(a.coords), [id(p) for p in a.payloads], list(b.coords),
              [id(p) for p in b.payloads])
    for op in OPS:
        got = []
        for c, p in binop(op, a, b):
            if op == "-":
                got.append((c, raw.val(p), None, None))
            else:
                p = P().get(p)
                got.append((c,) + tuple(q if isinstance(q, str) else raw.val(q) for q in p))
            check(len(got) < 40, "a {} b does not end", op)
        want = []
        for c in range(len(x)):
            ina, inb = c in pa, c in pb
            if op == "&" and ina and inb:
                want.append((c, 1, 2))
            elif op == "-" and ina and not inb:
                want.append((c, 1, None, None))
            elif (op == "|" and (ina or inb)) or (op == "^" and ina != inb):
                want.append((c, "A" * ina + "B" * inb, int(ina), 2 * inb))
        check_eq(got, want, f"a {op} b")
    after = (list(a.coords), [id(p) for p in a.payloads], list(b.coords),
             [id(p) for p in b.payloads])
    check_eq(after, before, "operands")
    ctx.nt(bool(pa) and bool(pb) and pa != pb)


def small3(tier):
    n = 3 if tier == "quick" else 4
    for t in itertools.product(range(1 << n), repeat=3):
        yield (n,) + t


def run_small3(case, ctx):
    n, *ms = case
    F_ = F()
    sets = [[i for i in range(n) if m >> i & 1] for m in ms]
    fs = [F_(list(s), [10 * (k + 1) + i for i in s]) for k, s in enumerate(sets)]
    dense = [[10 * (k + 1) + i if i in s else 0 for i in range(n)] for k, s in enumerate(sets)]

    def out(res):
        return [(c,) + tuple(q if isinstance(q, str) else raw.val(q) for q in P().get(p))
                for c, p in raw.collect(res)]

    want = [(c,) + tuple(d[c] for d in dense) for c in range(n) if all(d[c] for d in dense)]
    check_eq(out(F_.intersection(*fs)), want, "intersection")
    want = [(c, "".join("ABC"[k] for k in range(3) if dense[k][c])) + tuple(d[c] for d in dense)
            for c in range(n) if any(d[c] for d in dense)]
    check_eq(out(F_.union(*fs)), want, "union")
    want = [(c,) + tuple(d[c] for d in dense) for c in range(n) if dense[0][c]]
    check_eq(out(F_.intersection(*fs, style="leader-follower")), want, "leader-follower")
    ctx.nt(all(ms) and len(set(ms)) > 1)


SUBS = [
    Sub("pair", run_pair, pair, quick=12000, thorough=400000),
    Sub("many", run_many, many, quick=7000, thorough=250000),
    Sub("nested", run_nested, nested, quick=4000, thorough=150000),
    Sub("small", run_small, exhaustive=small, quick=0,
        rule="both operands present a coordinate and differ"),
    Sub("small3", run_small3, exhaustive=small3, quick=0,
        rule="all three operands present a coordinate and differ"),
]
