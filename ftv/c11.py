"""C11 Arithmetic on boxes and on fibers agrees with arithmetic on the values."""
import operator
import struct
from .core import HYP, Sub, Violation, check, check_eq  # noqa
from hypothesis import strategies as st
from . import gens, raw
from .raw import F, P, T

PROP = "C11"
RULE = ("every operator x operand-kind x value pair of a fixed table (exhaustive) plus drawn "
        "values, sequences of in-place operators on one box, and fiber +, * with fibers and "
        "scalars, both sides, in value-returning and in-place form, compared with the same "
        "operator on the bare values / per point on the contents. Non-trivial: the operands "
        "differ and neither is 0 (boxes); both fibers hold points and the contents overlap "
        "in part (fibers).")
ASSUMPTIONS = ["operators neither class defines or documents (%, **, unary minus, >>, ^) are out",
               "fiber + is documented to treat empty elements as zero: the absolute oracle for + "
               "is used with default 0; with another default only the two forms are compared",
               "scalar + walks integer shapes (iterShape has no tuple coordinates)",
               "an unowned fiber does not know the depth below a missing sub-fiber"]

BIN = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv,
       "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge,
       "==": operator.eq, "!=": operator.ne, "&": operator.and_, "|": operator.or_,
       "<<": operator.lshift, "//": operator.floordiv}
INP = {"+=": operator.iadd, "-=": operator.isub, "*=": operator.imul, "/=": operator.itruediv,
       "//=": operator.ifloordiv,
       "&=": operator.iand, "|=": operator.ior, "<<=": None}
VALUE = {"+=": operator.add, "-=": operator.sub, "*=": operator.mul, "/=": operator.truediv,
         "//=": operator.floordiv,
         "&=": operator.and_, "|=": operator.or_, "<<=": lambda a, b: b}
# operand kinds: a box, an element holding a box, a bare scalar, a box read out of a fiber
# (by reference), an element delivered by iterating a fiber
PAIRS = ["BB", "BS", "SB", "EE", "ES", "SE", "BE", "EB", "RS", "SR", "RB", "IS", "SI", "II", "RI"]


def CP():
    from fibertree.core.coord_payload import CoordPayload
    return CoordPayload


def make(kind, v):
    """(object, its box or None)"""
    if kind == "B":
        b = P()(v)
        return b, b
    if kind == "E":
        e = CP()(7, v)
        return e, e.payload
    if kind in "RI":
        f = F()([2, 5], [v, 1], default=None)
        if kind == "R":
            b = f.getPayloadRef(2)
            return b, b
        e = [x for x in f.iterOccupancy(tick=False)][0]
        e2 = e if isinstance(e, CP()) else CP()(*e)
        return e2, e2.payload
    return v, None


def bits(v):
    """Comparable form in which nan == nan, 0.0 != -0.0 and 1 != 1.0 != True."""
    if isinstance(v, float):
        return ("float", struct.pack(">d", v) if v == v else "nan")
    return (type(v).__name__, v)


def attempt(fn, *a):
    try:
        return ("value", fn(*a))
    except (ZeroDivisionError, TypeError, ValueError, OverflowError) as e:
        return ("raises", type(e))


def run_bin(case, ctx):
    op, kinds, v, w = case["op"], case["kinds"], case["a"], case["b"]
    a, abox = make(kinds[0], v)
    b, bbox = make(kinds[1], w)
    want = attempt(BIN[op], v, w)
    got = attempt(BIN[op], a, b)
    what = f"{kinds[0]}({v!r}) {op} {kinds[1]}({w!r})"
    if want[0] == "raises":
        check(got[0] == "raises" and got[1] is want[1], "{}: {} but the values raise {}", what,
              got, want[1].__name__)
    else:
        if got[0] == "raises":
            raise Violation(f"{what}: raises {got[1].__name__}, the values give {want[1]!r}")
        r = got[1]
        check(not isinstance(r, CP()) and not raw.isfiber(r), "{}: returned {!r}", what, r)
        check_eq(bits(raw.val(r)), bits(want[1]), what)
        check(r is not abox and r is not bbox and r is not a and r is not b or
              not isinstance(r, P()), "{}: the result is an operand's box", what)
    for o, box, x in ((a, abox, v), (b, bbox, w)):
        if box is not None:
            check_eq(bits(raw.unbox(box)), bits(x), f"{what}: operand afterwards")
            check(o is box or o.payload is box, "{}: the element was rebound", what)
    ctx.label(op, kinds)
    ctx.nt(v != w and v != 0 and w != 0)


def run_seq(case, ctx):
    kind, v = case["kind"], case["a"]
    x, box = make(kind, v)
    x0 = x
    others = []
    for op, k, w in case["ops"]:
        o, obox = make(k, w)
        want = attempt(VALUE[op], v, w)
        what = f"{kind}({v!r}) {op} {k}({w!r})"
        got = attempt(INP[op] if op != "<<=" else operator.ilshift, x, o)
        if want[0] == "raises":
            check(got[0] == "raises" and got[1] is want[1], "{}: {} but the values raise {}",
                  what, got, want[1].__name__)
        else:
            if got[0] == "raises":
                raise Violation(f"{what}: raises {got[1].__name__}, the values give {want[1]!r}")
            check(got[1] is x, "{}: a new object, not the same", what)
            check(x is x0 and (x is box or x.payload is box), "{}: not the same box", what)
            v = want[1]
            if op != "<<=":
                ctx.nt(v != 0)
        check_eq(bits(raw.unbox(box)), bits(v), what)
        others.append((o, obox, w, what))
        for oo, ob, ow, ww in others:
            if ob is not None:
                check_eq(bits(raw.unbox(ob)), bits(ow), f"{ww}: the right operand later")
        ctx.label(op, kind + k)


INTS = [0, 1, -1, 2, 3, 7, -5, 64]
FLOATS = [0.0, 0.5, -2.5, 1e300, float("inf"), float("nan"), -0.0]


def num():
    return st.one_of(st.sampled_from(INTS + FLOATS), st.integers(-70, 70),
                     st.integers(-2**70, 2**70), st.floats(width=64), st.booleans())


def small(op, b):
    """Keep shift counts sane."""
    return max(-3, min(b, 70)) if op == "<<" and isinstance(b, int) else b


@st.composite
def bins(draw):
    op = draw(st.sampled_from(sorted(BIN)))
    return {"op": op, "kinds": draw(st.sampled_from(PAIRS)), "a": draw(num()),
            "b": small(op, draw(num()))}


def table(tier):
    vs = [0, 1, -3, 6, 2.5, 0.0, -0.0, True] if tier == "quick" else INTS + FLOATS + [True, False]
    for op in BIN:
        for k in PAIRS:
            for a in vs:
                for b in vs:
                    yield {"op": op, "kinds": k, "a": a, "b": small(op, b)}


@st.composite
def seqs(draw):
    return {"kind": draw(st.sampled_from("BERI")), "a": draw(num()),
            "ops": draw(st.lists(st.tuples(st.sampled_from(sorted(INP)),
                                           st.sampled_from("BSERI"), num()),
                                 min_size=1, max_size=8))}


def seq_table(tier):
    vs = [0, 1, -3, 6, 2.5, True]
    for op in INP:
        for k in "BERI":
            for o in "BSERI":
                for a in vs:
                    for b in vs:
                        yield {"kind": k, "a": a, "ops": [(op, o, b)]}


def run_unary(case, ctx):
    v = case["a"]
    for k in "BR":
        b, _ = make(k, v)
        check_eq(bool(b), bool(v), f"bool({k}({v!r}))")
        check_eq(attempt(int, b), attempt(int, v), f"int({k}({v!r}))")
        check_eq(bits(b.v()), bits(v), f"{k}({v!r}).v()")
    ctx.nt(v != 0)


# ---------------------------------------------------------------- fibers

@st.composite
def fibers(draw):
    depth = draw(st.sampled_from((1, 1, 1, 2, 2, 3)))
    own = [draw(st.booleans()), draw(st.booleans())]
    # a missing sub-fiber's default is only known to an owned fiber
    default = draw(st.sampled_from((0, 0, 0, 1) if depth == 1 or own[0] and own[1] else (0,)))
    shape = draw(gens.wideshapes(depth, 1, 6))
    kind, op = draw(st.sampled_from(("ff", "ff", "fs"))), draw(st.sampled_from("+*"))
    if kind + op == "ff+":
        default = 0
    o = {"own": own, "default": default, "shape": shape,
         "known": draw(st.booleans()), "kind": kind, "op": op}
    fills = [gens.rspec(shape, extra=[default]),
             gens.spec(shape, default=default, floats=True)]
    o["a"] = draw(st.one_of(fills))
    o["b"] = draw(st.one_of(fills + [st.just(o["a"]), st.just([])]))
    o["self"] = draw(st.integers(0, 15)) == 0
    o["fmt"] = draw(st.sampled_from("CCU")) if default == 0 and o["known"] else "C"
    o["s"] = draw(st.sampled_from([0, 1, 2, -1, -3, 1.5, 0.5, 1000]))
    o["box"] = draw(st.booleans())
    o["flat"] = depth == 2 and kind + op != "fs+" and draw(st.integers(0, 4)) == 0
    if depth == 3 and kind + op == "ff+":
        o["own"][0] = True                 # the depth below a missing sub-fiber is not known
    if o["kind"] == "fs" and o["op"] == "+" and depth > 1:
        o["own"][0], o["known"] = True, True
    if o["flat"]:
        o["own"], o["known"], o["fmt"] = [True, True], True, "C"
    elif o["fmt"] == "C" and draw(st.integers(0, 3)) == 0:
        # the active range of a compressed fiber plays no part in arithmetic
        o["active"] = sorted([draw(st.integers(0, shape[0])), draw(st.integers(0, shape[0]))])
    return o


def build(case, which):
    depth, sp = len(case["shape"]), case[which]
    i = 0 if which == "a" else 1
    shape = case["shape"] if case["known"] else None
    if not case["own"][i]:
        f = raw.mk_fiber(sp, depth, case["default"], shape=shape)
        if case["fmt"] == "U":
            f.getRankAttrs().setFormat("U")
        if case.get("active"):
            f.setActive(tuple(case["active"]))
        return f, None
    t = raw.mk_tensor({"ranks": gens.RANKS[:depth], "shape": shape, "default": case["default"],
                       "spec": sp, "fmt": case["fmt"] * depth})
    if case["flat"]:
        t = t.flattenRanks()
    if case.get("active"):
        t.getRoot().setActive(tuple(case["active"]))
    return t.getRoot(), t


def points(shape):
    if not shape:
        yield ()
        return
    for c in range(shape[0]):
        for r in points(shape[1:]):
            yield (c,) + r


def run_fibers(case, ctx):
    d, depth = case["default"], len(case["shape"])
    flat = case["flat"]
    fd = 1 if flat else depth
    ca = raw.spec_content(case["a"], depth, d)
    cb = raw.spec_content(case["b"], depth, d)
    if flat:
        ca = {(p,): v for p, v in ca.items()}
        cb = {(p,): v for p, v in cb.items()}
    a, ta = build(case, "a")
    check_eq(raw.content(a, d), ca, "operand as built")
    before = raw.snap(a)
    op = case["op"]
    if case["kind"] == "ff":
        if case["self"]:
            b, tb, cb = a, None, ca
        else:
            b, tb = build(case, "b")
        if op == "+":
            want = {p: ca.get(p, d) + cb.get(p, d) for p in set(ca) | set(cb)}
        else:
            want = {p: ca[p] * cb[p] for p in set(ca) & set(cb)}
        others = [b]
        forms = [("f {} g", lambda: BIN[op](a, b))]
        ctx.nt(bool(ca) and bool(cb) and bool(set(ca) & set(cb)) and set(ca) != set(cb))
        ctx.label("disjoint" if not set(ca) & set(cb) else "overlap")
    else:
        s = case["s"]
        sb = P()(s) if case["box"] else s
        if op == "+":
            shape = case["shape"] if case["known"] else \
                [max((c for c, _ in case["a"]), default=-1) + 1]
            pts = points(shape)
            want = {(p,) if flat else p: 0 for p in pts}
            want = {p: ca.get(p, d) + s for p in want}
        else:
            want = {p: v * s for p, v in ca.items()}
        others = []
        forms = [("f {} s", lambda: BIN[op](a, sb)), ("s {} f", lambda: BIN[op](sb, a))]
        ctx.nt(bool(ca) and s not in (0, 1))
    want = {p: v for p, v in want.items() if v != d}
    obefore = [raw.snap(o) for o in others]
    for name, form in forms:
        what = name.format(op)
        r = form()
        check(raw.isfiber(r), "{}: returned {}", what, type(r).__name__)
        raw.wellformed(r, fd, what)
        check_eq(raw.content(r, d), want, what)
        check_eq(raw.val(r.getDefault()) if fd == 1 else 0, d if fd == 1 else 0,
                 f"{what}: default of the result")
        check_eq(raw.snap(a), before, f"{what}: left operand afterwards")
        check_eq([raw.snap(o) for o in others], obefore, f"{what}: other operand afterwards")
    # in place, on a fiber built afresh
    x, tx = build(case, "a")
    old = list(zip(x.coords, x.payloads))
    if case["kind"] == "ff":
        o = x if case["self"] else b
    else:
        o = sb
    what = f"f {op}= " + ("g" if case["kind"] == "ff" else "s")
    y = INP[op + "="](x, o)
    check(y is x, "{}: a new fiber, not the same", what)
    raw.wellformed(x, fd, what)
    check_eq(raw.content(x, d), want, f"{what} (the value-returning form gives the want)")
    for c, p in old:
        if c in x.coords:
            check(x.payloads[x.coords.index(c)] is p, "{}: the payload at {} was replaced",
                  what, c)
    if tx is not None:
        raw.rank_mirror(tx, what)
        check_eq(raw.tcontent(tx), want, f"{what}: content of the tensor")
    if case["kind"] == "ff" and not case["self"]:
        check_eq([raw.snap(o) for o in others], obefore, f"{what}: other operand afterwards")
    elif case["kind"] == "fs":
        check_eq(raw.val(o), case["s"], f"{what}: the scalar afterwards")
    ctx.label(case["kind"] + op, f"d{depth}", "own" if case["own"][0] else "free", case["fmt"],
              "flat" if flat else "int")


def run_chain(case, ctx):
    """Chains of fiber arithmetic: algebraic identities over the same operands."""
    depth, d = len(case["shape"]), 0
    fs = [raw.mk_fiber(s, depth, 0, shape=case["shape"]) for s in case["specs"]]
    cs = [raw.spec_content(s, depth) for s in case["specs"]]
    acc, model = fs[0], dict(cs[0])
    acc2 = raw.mk_fiber(case["specs"][0], depth, 0, shape=case["shape"])
    for op, i in case["ops"]:
        if isinstance(i, tuple):
            s = i[0]
            acc = BIN[op](acc, s)
            acc2 = INP[op + "="](acc2, s)
            if op == "*":
                model = {p: v * s for p, v in model.items()}
            else:
                model = {p: model.get(p, 0) + s for p in points(case["shape"])}
        else:
            g = fs[i % len(fs)]
            c = cs[i % len(fs)]
            acc = BIN[op](acc, g)
            acc2 = INP[op + "="](acc2, g)
            if op == "+":
                model = {p: model.get(p, 0) + c.get(p, 0) for p in set(model) | set(c)}
            else:
                model = {p: model[p] * c[p] for p in set(model) & set(c)}
        model = {p: v for p, v in model.items() if v != 0}
        check_eq(raw.content(acc, 0), model, f"chain ... {op} {i}")
        check_eq(raw.content(acc2, 0), model, f"chain ... {op}= {i}")
    ctx.nt(len(case["ops"]) >= 2 and bool(model))
    for f, c in zip(fs, cs):
        check_eq(raw.content(f, 0), c, "operand of the chain afterwards")


@st.composite
def chains(draw):
    depth = draw(st.sampled_from((1, 1, 2)))
    shape = draw(gens.shapes(depth, 1, 5))
    sc = st.tuples(st.sampled_from((1, 2, -1, -2)))
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        op = draw(st.sampled_from("+*+"))
        ops.append((op, draw(st.one_of(st.integers(0, 2), st.integers(0, 2), sc))
                    if op == "*" or depth == 1 else draw(st.integers(0, 2))))
    return {"shape": shape, "specs": [draw(gens.rspec(shape)) for _ in range(3)], "ops": ops}


SUBS = [
    Sub("binary", run_bin, bins, quick=2500, exhaustive=table),
    Sub("inplace", run_seq, seqs, quick=2000, exhaustive=seq_table),
    Sub("unary", run_unary, lambda: st.fixed_dictionaries({"a": num()}), quick=200),
    Sub("fibers", run_fibers, fibers, quick=5000),
    Sub("chains", run_chain, chains, quick=1200),
]
