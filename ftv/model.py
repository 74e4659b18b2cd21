"""Reference model of the rank transforms: point maps, rank ids, shapes, formats."""
from . import xform


class St:
    """What a tensor should be: rank ids, shape (None if estimated), formats, {point: value}."""

    def __init__(self, ids, shape, pts, default=0, fmt=None):
        self.ids, self.shape, self.pts, self.default = list(ids), shape, dict(pts), default
        self.fmt = list(fmt) if fmt else ["C"] * len(self.ids)

    def new(self, ids, shape, pts, fmt):
        return St(ids, shape, pts, self.default, fmt)

    @property
    def depth(self):
        return len(self.ids)


def aslist(i):
    return list(i) if isinstance(i, list) else [i]


def astup(c):
    return c if isinstance(c, tuple) else (c,)


def combine(cs, style, shape):
    """The stated combination of the coordinates (or of the shapes) of flattened ranks."""
    if style == "tuple":
        return tuple(x for c in cs for x in astup(c))
    if style == "pair":
        out = cs[-1]
        for c in reversed(cs[:-1]):
            out = (c, out)
        return out
    if style == "absolute":
        return cs[-1]
    if style == "relative":
        return sum(cs)
    out = 0
    for c, s in zip(cs, shape):
        out = out * s + c
    return out


def isint(st, d):
    return all(isinstance(p[d], int) for p in st.pts)


def swizzle(st, perm):
    return st.new([st.ids[i] for i in perm],
                  [st.shape[i] for i in perm] if st.shape else None,
                  {tuple(p[i] for i in perm): v for p, v in st.pts.items()},
                  [st.fmt[i] for i in perm])


def swap(st, d):
    perm = list(range(st.depth))
    perm[d], perm[d + 1] = perm[d + 1], perm[d]
    return swizzle(st, perm)


def groups(st, d, lv, style):
    """Colliding points: image -> [values in the order of the original points]."""
    lo, hi = d, d + lv + 1
    shp = st.shape[lo:hi] if st.shape else None
    out = {}
    for p in sorted(st.pts):
        q = p[:lo] + (combine(p[lo:hi], style, shp),) + p[hi:]
        out.setdefault(q, []).append(st.pts[p])
    return out


def collapse(st, d, lv, style, pts):
    lo, hi = d, d + lv + 1
    ids = st.ids[:lo] + [[x for i in st.ids[lo:hi] for x in aslist(i)]] + st.ids[hi:]
    shape = None
    if st.shape:
        s = st.shape[lo:hi]
        if style in ("tuple", "pair", "absolute"):
            new = combine(s, style, None)
        elif style == "relative":
            new = s[0]
        else:
            new = 1
            for x in s:
                new *= x
        shape = st.shape[:lo] + [new] + st.shape[hi:]
    return st.new(ids, shape, pts, st.fmt[:lo] + ["C"] + st.fmt[hi:])


def legal_flatten(st, d, lv, style):
    """Styles that need integers, a shape, or no collisions."""
    if style in ("linear", "relative"):
        if not all(isint(st, i) for i in range(d, d + lv + 1)):
            return False
        if st.shape and not all(isinstance(s, int) for s in st.shape[d:d + lv + 1]):
            return False
    if style == "linear" and not st.shape:
        return False
    return True


def merge(st, d, lv, style, fn):
    if lv > 1 and style in ("absolute", "relative"):
        # one rank at a time, lowest first: a default-valued intermediate result is no point
        return merge(merge(st, d + 1, lv - 1, style, fn), d, 1, style, fn)
    f = xform.MVAL[fn]
    pts = {}
    for q, vs in groups(st, d, lv, style).items():
        v = f(vs) if len(vs) > 1 else vs[0]
        if v != st.default:
            pts[q] = v
    return collapse(st, d, lv, style, pts)


def flatten(st, d, lv, style):
    """None if points collide (not a flatten then)."""
    g = groups(st, d, lv, style)
    if any(len(vs) > 1 for vs in g.values()):
        return None
    return collapse(st, d, lv, style, {q: vs[0] for q, vs in g.items()})


def unflatten(st, d, lv):
    """None unless rank d is a flattened (tuple or pair) rank of lv + 1 or more ranks."""
    cur = st
    for i in range(lv):
        k = d + i
        cid = cur.ids[k]
        if not isinstance(cid, list) or len(cid) < 2:
            return None
        if any(not isinstance(p[k], tuple) for p in cur.pts):
            return None
        if cur.shape and not isinstance(cur.shape[k], tuple):
            return None
        ids = cur.ids[:k] + [cid[0], cid[1] if len(cid) == 2 else cid[1:]] + cur.ids[k + 1:]

        def cut(x):
            return (x[0], x[1] if len(x) == 2 else x[1:])

        if any(len(p[k]) < 2 for p in cur.pts):
            return None
        pts = {p[:k] + cut(p[k]) + p[k + 1:]: v for p, v in cur.pts.items()}
        shape = cur.shape
        if shape:
            shape = shape[:k] + list(cut(shape[k])) + shape[k + 1:]
        cur = cur.new(ids, shape, pts, cur.fmt[:k] + ["C", "C"] + cur.fmt[k + 1:])
    return cur


def split_ids(st, d):
    i = st.ids[d]
    up, low = f"{i}.1", f"{i}.0"
    return st.ids[:d] + [up, low] + st.ids[d + 1:]


def split_uniform(st, d, step, rel):
    pts = {}
    for p, v in st.pts.items():
        u = p[d] // step * step
        pts[p[:d] + (u, p[d] - u if rel else p[d]) + p[d + 1:]] = v
    shape = st.shape
    if shape:
        shape = shape[:d] + [shape[d], shape[d]] + shape[d + 1:]
    return st.new(split_ids(st, d), shape, pts, st.fmt[:d] + [st.fmt[d]] * 2 + st.fmt[d + 1:])


def split_nonuniform(st, d, bounds, rel):
    pts = {}
    for p, v in st.pts.items():
        us = [b for b in bounds if b <= p[d]]
        if us:
            u = us[-1]
            pts[p[:d] + (u, p[d] - u if rel else p[d]) + p[d + 1:]] = v
    shape = st.shape
    if shape:
        shape = shape[:d] + [shape[d], shape[d]] + shape[d + 1:]
    return st.new(split_ids(st, d), shape, pts, st.fmt[:d] + [st.fmt[d]] * 2 + st.fmt[d + 1:])
