"""Transform calls as literals: generator, interpreter.  Shared by C02, C09, C10, C14."""
from .core import HYP  # noqa
from hypothesis import strategies as st

from . import raw
from .raw import P

STYLES = ["tuple", "pair", "absolute", "relative", "linear"]

CFN = {"id": lambda i, c, p: c, "+3": lambda i, c, p: c + 3, "*2": lambda i, c, p: c * 2,
       "rev": lambda i, c, p: 20 - c, "perm": lambda i, c, p: c ^ 1}
CMAP = {"id": lambda c: c, "+3": lambda c: c + 3, "*2": lambda c: c * 2,
        "rev": lambda c: 20 - c, "perm": lambda c: c ^ 1}
PFN = {"+1": lambda i, c, p: p + 1, "box": lambda i, c, p: P()(4), "int": lambda i, c, p: 6,
       "neg": lambda i, c, p: p * -1}
PMAP = {"+1": lambda v: v + 1, "box": lambda v: 4, "int": lambda v: 6, "neg": lambda v: -v}


def mfns():
    def val(p):
        return p.value if isinstance(p, P()) else p
    return {None: None,
            "sum": lambda ps: sum(ps[1:], ps[0]),
            "first": lambda ps: ps[0],
            "last": lambda ps: ps[-1],
            "max": lambda ps: P()(max(val(p) for p in ps)),
            "poly": lambda ps: P()(sum((i + 1) * val(p) for i, p in enumerate(ps)))}


MVAL = {None: sum, "sum": sum, "first": lambda vs: vs[0], "last": lambda vs: vs[-1],
        "max": max, "poly": lambda vs: sum((i + 1) * v for i, v in enumerate(vs))}

KINDS = ["uniform", "nonuniform", "equal", "unequal", "/", "//", "swizzle", "swap", "flatten",
         "merge", "unflatten", "flatsplit", "updcoords", "updpayloads", "deepcopy"]


@st.composite
def xform(draw, depth, kinds=KINDS, known=True):
    k = draw(st.sampled_from(kinds))
    if depth == 0:
        return ("deepcopy",)
    d = draw(st.integers(0, depth - 1))
    if k in ("swap", "swizzle", "flatten", "merge", "unflatten") and depth == 1:
        k = draw(st.sampled_from([x for x in kinds if x not in
                                  ("swap", "swizzle", "flatten", "merge", "unflatten")]
                                 or ["deepcopy"]))
    halo = st.sampled_from([0, 0, 0, 1, 2])
    tail = lambda: (draw(st.booleans()), draw(halo), draw(halo),  # noqa
                    draw(st.sampled_from(["depth", "rankid"])))
    if k == "uniform":
        return (k, d, draw(st.integers(1, 5))) + tail()
    if k == "nonuniform":
        return (k, d, draw(st.lists(st.integers(0, 8), min_size=1, max_size=4,
                                    unique=True).map(sorted))) + tail()
    if k == "equal":
        return (k, d, draw(st.integers(1, 4))) + tail()
    if k == "unequal":
        return (k, d, draw(st.lists(st.integers(1, 3), min_size=1, max_size=4))) + tail()
    if k in ("/", "//"):
        return (k, draw(st.integers(1, 4)))
    if k == "swizzle":
        return (k, tuple(draw(st.permutations(range(depth)))))
    if k == "swap":
        return (k, draw(st.integers(0, depth - 2)))
    if k in ("flatten", "merge", "unflatten"):
        d = draw(st.integers(0, depth - 2))
        lv = draw(st.integers(1, depth - 1 - d))
        if k == "unflatten":
            return (k, d, lv, draw(st.integers(1, lv)))
        # linear coordinates need a shape that was given, not estimated
        style = draw(st.sampled_from(STYLES if known else STYLES[:4]))
        if k == "flatten":
            if style in ("absolute", "relative"):
                style = "tuple"
            return (k, d, lv, style)
        return (k, d, lv, style, draw(st.sampled_from([None, "sum", "first", "max", "poly"])))
    if k == "flatsplit":
        return (k, d, draw(st.integers(1, 5)))
    if k == "updcoords":
        return (k, d, draw(st.sampled_from(sorted(CFN))))
    if k == "updpayloads":
        return (k, draw(st.sampled_from(sorted(PFN))))
    return ("deepcopy",)


def apply(t, x):
    """Apply one transform literal to tensor t through the tensor-level API."""
    import copy
    k = x[0]
    if k in ("uniform", "nonuniform", "equal", "unequal"):
        d, arg, rel, pre, post, via = x[1:]
        kw = {"relativeCoords": rel, "pre_halo": pre, "post_halo": post}
        if via == "depth":
            kw["depth"] = d
        else:
            kw["rankid"] = t.getRankIds()[d]
        fn = {"uniform": t.splitUniform, "nonuniform": t.splitNonUniform,
              "equal": t.splitEqual, "unequal": t.splitUnEqual}[k]
        if isinstance(arg, list):
            arg = list(arg)
        return fn(arg, **kw)
    if k == "/":
        return t / x[1]
    if k == "//":
        return t // x[1]
    if k == "swizzle":
        ids = t.getRankIds()
        return t.swizzleRanks([ids[i] for i in x[1]])
    if k == "swap":
        return t.swapRanks(depth=x[1])
    if k == "flatten":
        return t.flattenRanks(depth=x[1], levels=x[2], coord_style=x[3])
    if k == "merge":
        return t.mergeRanks(depth=x[1], levels=x[2], coord_style=x[3], merge_fn=mfns()[x[4]])
    if k == "unflatten":
        return t.flattenRanks(depth=x[1], levels=x[2], coord_style="tuple") \
                .unflattenRanks(depth=x[1], levels=x[3])
    if k == "flatsplit":
        return t.splitUniform(x[2], depth=x[1]) \
                .flattenRanks(depth=x[1], levels=1, coord_style="absolute")
    if k == "updcoords":
        return t.updateCoords(CFN[x[2]], depth=x[1], new_shape=64)
    if k == "updpayloads":
        return t.updatePayloads(PFN[x[1]], depth=len(t.getRankIds()) - 1)
    if k == "deepcopy":
        return copy.deepcopy(t)
    raise AssertionError(k)
