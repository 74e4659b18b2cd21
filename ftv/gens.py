"""Generators of plain-literal cases (Hypothesis strategies)."""
from .core import HYP  # noqa: F401  (puts hypothesis on the path)
from hypothesis import strategies as st

#
# A tree spec of depth d is a list of [coord, child] pairs with ascending coords;
# at depth 1 a child is a number, above it is a spec of depth d-1.
#

LEAVES = (1, 2, 3, 4, 5, 7, -1, -2, 300, -1000, (1 << 53) + 1)


def values(default=0, explicit=True, floats=False):
    vs = [v for v in LEAVES if v != default]
    if floats:
        vs += [0.5, 2.5, -1.25, 1e-9]
    if default != 0:
        vs.append(0)
    if explicit:
        # one in four or so of the stored leaves is an explicit default
        vs = vs + [default] * max(1, len(vs) // 3)
    return st.sampled_from(vs)


def coordset(n):
    """Subset of range(n), all densities alike."""
    if n <= 0:
        return st.just([])
    if n > 64:
        # few elements far apart
        marks = st.sampled_from([m for m in MARKS if m < n])
        return st.sets(st.one_of(marks, marks, st.integers(0, n - 1), st.integers(n - 4, n - 1)),
                       max_size=9).map(sorted)
    full = (1 << n) - 1
    some = st.integers(1, full)
    return st.one_of(
        st.just(0),
        some, some, some,
        st.builds(lambda a, b: a & b, some, some),
        st.builds(lambda a, b: a | b, some, some),
        st.builds(lambda a, b: a | b, some, some),
        st.just(full),
    ).map(lambda m: [i for i in range(n) if m >> i & 1])


@st.composite
def spec(draw, shape, default=0, explicit=True, empty_sub=True, floats=False, vals=None):
    """Tree spec with coords below shape[level]."""
    vals = vals if vals is not None else values(default, explicit, floats)
    return _spec(draw, list(shape), vals, empty_sub)


WIDE = [17, 24, 33, 40, 300, 1000]
MARKS = (0, 1, 2, 16, 63, 64, 127, 255, 256, 257, 299, 500, 998, 999)


def wide(draw, sizes=WIDE, rare=14):
    """Now and then the size of one large rank, the same all over a case."""
    return draw(st.shared(st.sampled_from([0] * rare + list(sizes)), key="wide"))


def widen(draw, shape, **kw):
    n = wide(draw, **kw)
    if n:
        shape = list(shape)
        shape[draw(st.shared(st.integers(0, 3), key="widelevel")) % len(shape)] = n
    return shape


def _spec(draw, shape, vals, empty_sub):
    cs = draw(coordset(shape[0]))
    out = []
    for c in cs:
        if len(shape) == 1:
            out.append([c, draw(vals)])
        else:
            sub = _spec(draw, shape[1:], vals, empty_sub)
            if sub or empty_sub:
                out.append([c, sub])
    return out


def shapes(depth, lo=1, hi=6):
    """Per-rank shape, smaller for deeper trees."""
    hi_d = {1: hi + 4, 2: hi, 3: max(lo, hi - 2), 4: max(lo, hi - 3)}[depth]
    hi_d = max(lo, hi_d)
    return st.lists(st.one_of(st.integers(lo, hi_d), st.integers(min(max(lo, 3), hi_d), hi_d)),
                    min_size=depth, max_size=depth)


@st.composite
def wideshapes(draw, depth, lo=1, hi=6):
    return widen(draw, draw(shapes(depth, lo, hi)))


RANKS = ["M", "K", "N", "J"]


@st.composite
def tensor_case(draw, depths=(1, 2, 3), defaults=(0,), explicit=True, empty_sub=True,
                floats=False, fmt="C", shape_known=None, lo=1, hi=6, wide=True, narrow=True):
    """dict literal that raw.mk_tensor understands."""
    depth = draw(st.sampled_from(depths))
    shape = draw(shapes(depth, lo, hi))
    if wide:
        shape = widen(draw, shape, sizes=WIDE if wide is True else wide)
    default = draw(st.sampled_from(defaults))
    if default == 3 and len(defaults) > 1 and draw(st.integers(0, 3)) == 0:
        # not one of the small integers that Python keeps only once
        default = draw(st.sampled_from([1000, 1000, 0.5]))
    mode = draw(st.integers(0, 7))
    if mode == 0 and explicit:
        # mostly the numbers that emptiness could be confused about
        sp = draw(spec(shape, default, vals=st.sampled_from([0, default, default, 1]),
                       empty_sub=empty_sub))
    elif mode == 1:
        sp = draw(rspec(shape, extra=[0, default] if explicit else [],
                        vals=[v for v in LEAVES if v != default], empty_sub=empty_sub))
    else:
        sp = draw(spec(shape, default, explicit, empty_sub, floats))
    known = draw(st.booleans()) if shape_known is None else shape_known
    t = {"ranks": RANKS[:depth], "shape": shape if known else None, "dims": shape,
         "default": default, "spec": sp}
    if draw(st.integers(0, 4)) == 0:
        t["prov"] = draw(st.sampled_from(["grown", "grown", "copy", "populated"]))
    if fmt == "any":
        t["fmt"] = draw(st.lists(st.sampled_from("CU"), min_size=depth, max_size=depth))
    if narrow and draw(st.integers(0, 5)) == 0:
        # active ranges that leave elements out (they matter to active and uncompressed
        # traversals and to splits only)
        t["narrow"] = [None if t.get("fmt", "C" * depth)[i] == "U" else
                    draw(st.sampled_from([None, (0, 0), (0, 1), (1, 3), (2, 9)]))
                    for i in range(depth)]
    return t


@st.composite
def rspec(draw, shape, vals=(1, 2, 3, -1, -2, 5, 0, 300), extra=(), empty_sub=True):
    """Tree spec filled by a seeded generator at a drawn density: denser than `spec`."""
    import random
    seed = draw(st.integers(0, 1 << 20))
    dens = [draw(st.sampled_from([0.3, 0.6, 0.8, 0.9, 1.0])) for _ in shape]
    empties = draw(st.booleans()) and empty_sub
    rnd = random.Random(seed)
    pool = list(vals) + list(extra)

    def fill(level):
        out = []
        n = shape[level]
        few = range(n)
        if n > 64:
            few = {rnd.choice([rnd.choice(MARKS), rnd.randrange(n)]) for _ in range(rnd.randrange(12))}
        for c in sorted(x for x in few if x < n):
            if n <= 64 and rnd.random() > dens[level]:
                continue
            if level + 1 == len(shape):
                out.append([c, rnd.choice(pool)])
            else:
                sub = fill(level + 1)
                if sub or empties:
                    out.append([c, sub])
        return out

    return fill(0)
