"""C20: encoding in a compression format loses nothing."""
import bisect
import contextlib
import io
import itertools

from .core import HYP, Sub, Violation, check, check_eq  # noqa
from hypothesis import strategies as st

from . import c01, gens, hist, raw, xform
from .raw import F, P, T

PROP = "C20"
RULE = ("tensors of depth 1-3 (dense to all-zero, empty fibers, explicit zeros, transformed, "
        "mutated) encoded under every descriptor over {U, C, B}, with the tensor's own shape or "
        "a larger imposed one; arrays decoded by layout alone, every encoded fiber scanned, "
        "looked up and measured. Non-trivial: at least two stored non-zero values.")
ASSUMPTIONS = [
    "default 0 (a zero means nothing is there), cumulative occupancies, rank ids distinct when "
    "lower-cased; a shape of plain integers that bounds the coordinates",
    "fiber handles of scanned payloads are positions in the next rank's list of fibers",
    "a fiber's words: coordinates or 32-bit mask words, occupancy entries if the next rank's "
    "fibers are counted, and payload entries (values at the leaves; references to child fibers "
    "next to their occupancies for C and B)",
]


class Cache(dict):
    """Stands in for boltons' LRU: an unbounded cache."""
    miss_count = hit_count = 0

    def get(self, k, default=None):
        if k in self:
            self.hit_count += 1
        else:
            self.miss_count += 1
        return dict.get(self, k, default)


class Null(io.TextIOBase):
    def write(self, s):
        return len(s)


NULL = Null()


def quiet():
    return contextlib.redirect_stdout(NULL)


def encode(t, desc, shape):
    from fibertree import Codec
    ids = t.getRankIds()
    codec = Codec(tuple(desc), [True] * len(desc))
    out = codec.get_output_dict(ids)
    fibers = [[] for _ in range(len(desc) + 1)]
    with quiet():
        codec.encode(-1, t.getRoot(), ids, out, fibers, shape=shape)
    cache = Cache()
    for d, rank in enumerate(fibers):
        for i, f in enumerate(rank):
            f.setName(f"T_{([''] + ids)[d]}_{i}")
            f.cache = cache
    return out, fibers


class Decoder:
    """Content from the per-rank arrays by the documented layout alone."""

    def __init__(self, out, ids, desc, dims):
        self.desc, self.dims = desc, dims
        self.c = [list(out["coords_" + r.lower()]) for r in ids]
        self.p = [list(out["payloads_" + r.lower()]) for r in ids]
        self.ci = [0] * len(ids)
        self.pi = [0] * len(ids)
        self.root = list(out["payloads_root"])
        self.fibers = [[] for _ in ids]     # decoded fibers in serial order
        self.content = {}

    def take(self, kind, d, n):
        arr, pos = (self.c, self.ci) if kind == "coords" else (self.p, self.pi)
        check(pos[d] + n <= len(arr[d]),
              f"rank {d} ({self.desc[d]}): the {kind} array holds {len(arr[d])} entries, more "
              f"are needed")
        pos[d] += n
        return arr[d][pos[d] - n:pos[d]]

    def fiber(self, d, occ, prefix):
        """Decode the next fiber of rank d; occ is its occupancy if the rank above stores it."""
        fmt, last = self.desc[d], d + 1 == len(self.desc)
        if fmt == "U":
            coords = list(range(self.dims[d]))
        elif fmt == "C":
            coords = self.take("coords", d, occ)
            check(all(type(c) is int for c in coords), f"rank {d}: coordinates {coords}")
            check(coords == sorted(set(coords)), f"rank {d}: coordinates {coords} out of order")
        else:
            mask = self.take("coords", d, self.dims[d])
            check(all(m in (0, 1) for m in mask), f"rank {d}: mask {mask}")
            coords = [i for i, m in enumerate(mask) if m]
            check_eq(len(coords), occ, f"occupancy stored for the mask {mask} of rank {d}")
        rec = {"prefix": prefix, "coords": coords, "kids": [], "payloads": None}
        self.fibers[d].append(rec)
        rec["index"] = len(self.fibers[d]) - 1
        if last:
            rec["payloads"] = self.take("payloads", d, len(coords))
            for c, v in zip(coords, rec["payloads"]):
                check(not isinstance(v, P()) and isinstance(v, (int, float)),
                      f"payload {v!r} is not a plain value")
                if v != 0:
                    self.content[prefix + (c,)] = v
            return
        occs = [None] * len(coords)
        if self.desc[d + 1] != "U":
            ends = self.take("payloads", d, len(coords))
            rec["payloads"] = ends
            occs = [b - a for a, b in zip([0] + ends, ends)]
            check(all(o >= 0 for o in occs), f"rank {d}: segment ends {ends} decrease")
        for c, o in zip(coords, occs):
            rec["kids"].append(len(self.fibers[d + 1]))
            self.fiber(d + 1, o, prefix + (c,))

    def decode(self):
        occ = None
        if self.desc[0] != "U":
            check_eq(len(self.root), 1, f"entries of payloads_root {self.root}")
            occ = self.root[0]
        else:
            check_eq(self.root, [], "payloads_root above an uncompressed rank")
        self.fiber(0, occ, ())
        check_eq((self.ci, self.pi), ([len(x) for x in self.c], [len(x) for x in self.p]),
                 "entries decoded of each coordinate and payload array")
        return self.content


def words(desc, d, n, dim):
    last = d + 1 == len(desc)
    counted = not last and desc[d + 1] != "U"
    if desc[d] == "U":
        return dim if last or counted else 0
    first = n if desc[d] == "C" else -(-dim // 32)
    return first + (2 * n if counted else n if last else 0)


def scan(fiber, base=0, limit=None):
    """Handles of a slice."""
    out = []
    fiber.setupSlice(base)
    while True:
        h = fiber.nextInSlice()
        if h is None:
            return out
        out.append(h)
        check(len(out) <= 10000, "the scan does not end")


def scans(fibers, bases):
    """Interleaved scans of several fibers: one list of (coord, payload) handles for each."""
    out = [[] for _ in fibers]
    for f, b in zip(fibers, bases):
        if b:
            f.setupSlice(b)
        else:
            f.setupSlice()
    live = list(range(len(fibers)))
    while live:
        for i in list(live):
            h = fibers[i].nextInSlice()
            if h is None:
                live.remove(i)
            else:
                out[i].append((fibers[i].handleToCoord(h), fibers[i].handleToPayload(h)))
                check(len(out[i]) <= 10000, "the scan does not end")
    return out


def check_encoding(t, content, desc, shape, dims, bases, ctx, full):
    ids = t.getRankIds()
    what = f"{''.join(desc)}, shape {shape}"
    before = raw.tsnap(t) if full else None
    out, enc = encode(t, desc, shape)
    if full:
        check_eq(raw.tsnap(t), before, f"{what}: the tensor after encoding")
    dec = Decoder(out, ids, desc, dims)
    try:
        got = dec.decode()
    except Violation as e:
        raise Violation(f"{what}: {e}\n{out}")
    check_eq(got, content, f"{what}: content decoded from {out}")
    check_eq([len(r) for r in enc], [1] + [len(r) for r in dec.fibers],
             f"{what}: encoded fibers of each rank")
    check(enc[0][0].getPayloads() == [enc[1][0]], f"{what}: the root's fiber")
    check_eq(enc[0][0].getSize(), len(dec.root), f"{what}: size of the root")
    found = {}
    with quiet():
        for d, (rank, recs) in enumerate(zip(enc[1:], dec.fibers)):
            last = d + 1 == len(desc)
            bs = [b % (dims[d] + 1) if desc[d] == "C" or dims[d] == 0 else b % dims[d]
                  for _, b in zip(rank, itertools.cycle(bases or [0]))]
            for starts in (bs, [0] * len(rank)) if any(bs) else (bs,):
                for f, rec, got, base in zip(rank, recs, scans(rank, starts), starts):
                    name = f"{what}: rank {d} fiber {rec['index']} {rec['coords']}"
                    ix = [i for i, c in enumerate(rec["coords"]) if c >= base]
                    check_eq([c for c, _ in got], [rec["coords"][i] for i in ix],
                             f"{name}: coordinates scanned from {base}")
                    if last:
                        vals = [f.payloadToValue(p) for _, p in got]
                        check_eq(vals, [rec["payloads"][i] for i in ix],
                                 f"{name}: values scanned from {base}")
                        if base == 0:
                            found.update((rec["prefix"] + (c,), v)
                                         for (c, _), v in zip(got, vals) if v != 0)
                    else:
                        kids = [f.payloadToFiberHandle(p) for _, p in got]
                        check_eq(kids, [rec["kids"][i] for i in ix],
                                 f"{name}: fiber handles scanned from {base}")
            for f, rec in zip(rank, recs):
                name = f"{what}: rank {d} fiber {rec['index']} {rec['coords']}"
                check_eq(f.getSize(), words(desc, d, len(rec["coords"]), dims[d]),
                         f"{name}: size in words")
                if desc[d] == "C":
                    for q in range(-2, max(dims[d], *rec["coords"], 0) + 3):
                        i = bisect.bisect_left(rec["coords"], q)
                        w = i if i < len(rec["coords"]) else None
                        check_eq(f.coordToHandle(q), w, f"{name}: handle looked up for {q}")
        check_eq(found, content, f"{what}: elements scanned from the root")


def make(case):
    if case["ops"]:
        t, root, _ = c01.build({"t": case["t"], "route": case["route"]})
        for o in case["ops"]:
            try:
                hist.apply(root, len(case["t"]["ranks"]), o, case["t"]["default"], True)
            except hist.Illegal:
                continue
    else:
        t = raw.mk_tensor(case["t"])
    for x in case["xs"]:
        t = xform.apply(t, x)
    return t


def run(case, ctx):
    try:
        t = make(case)
    except AssertionError:
        if case["xs"]:
            return                      # a transform that does not apply here: C08-C10's matter
        raise
    ids = t.getRankIds()
    if not 1 <= len(ids) <= 3 or any(not isinstance(r, str) for r in ids) or \
            len({r.lower() for r in ids}) != len(ids):
        return
    own = t.getShape()
    content = raw.tcontent(t)
    stored = level(t)
    if any(type(n) is not int for n in own) or \
            any(not (type(c) is int and 0 <= c < n) for cs, n in zip(stored, own) for c in cs):
        ctx.label("shapeless")
        return
    if any(r.getFormat() == "U" for r in t.ranks):
        ctx.label("fmtU")
    imposed = [n + e for n, e in zip(own, case["extra"])] if case["extra"] else None
    descs = case["descs"]
    if descs is None:
        descs = ["".join(x) for x in itertools.product("UCB", repeat=len(ids))]
    for i, desc in enumerate(descs):
        desc = desc[:len(ids)]
        for shape in (None, imposed) if imposed else (None,):
            check_encoding(t, content, desc, shape, shape or own, case["bases"], ctx, i == 0)
        ctx.label(*(f"{a}>{b}" for a, b in zip("^" + desc, desc)))
    ctx.label(f"depth{len(ids)}", "imposed" if imposed else "own",
              "empty" if not content else "full", *(x[0] for x in case["xs"]))
    if case["ops"]:
        ctx.label("mutated")
    ctx.nt(len(content) >= 2)


def level(t):
    """Coordinates stored at each depth."""
    out, fs = [], [t.getRoot()]
    for _ in t.getRankIds():
        out.append([c for f in fs for c in f.coords])
        fs = [p for f in fs for p in f.payloads if raw.isfiber(p)]
    return out


@st.composite
def built(draw):
    t = draw(gens.tensor_case(defaults=(0,), fmt=draw(st.sampled_from([None, None, "any"])),
                              hi=5, wide=[17, 33, 65], shape_known=draw(st.integers(0, 4)) > 0))
    if draw(st.booleans()):
        t["spec"] = draw(gens.rspec(t["dims"]))
    if t["shape"] and draw(st.integers(0, 2)) == 0:
        t["shape"] = [n + draw(st.integers(0, 2)) for n in t["shape"]]
    return rest(draw, {"t": t, "xs": [], "ops": []})


def rest(draw, c):
    c["extra"] = draw(st.one_of(st.none(), st.lists(st.integers(0, 3), min_size=3, max_size=3)))
    c["bases"] = draw(st.lists(st.integers(0, 7), max_size=4))
    n = len(c["t"]["ranks"]) if not c["xs"] else 0
    c["descs"] = None
    if max(c["t"]["dims"]) > 16:
        # every way of storing the ranks at hand, but not all together
        c["descs"] = ["UCB"[i % 3:] + "UCB"[:i % 3] for i in range(3)] + ["BBB", "CCC"]
        c["descs"] = [x[:n] for x in c["descs"]] if n else None
    return c


@st.composite
def changed(draw):
    t = draw(gens.tensor_case(defaults=(0,), hi=5, wide=[17], depths=(1, 2, 2, 3),
                              shape_known=draw(st.integers(0, 4)) > 0))
    c = {"t": t, "xs": [], "ops": []}
    n = len(t["ranks"])
    if draw(st.booleans()):
        ks = ["uniform", "nonuniform", "equal", "unequal", "/", "swizzle", "swap", "deepcopy",
              "updcoords", "updpayloads", "merge"]
        x = draw(xform.xform(n, ks, known=t["shape"] is not None))
        if x[0] == "merge":
            x = x[:3] + ("absolute",) + x[4:]
        c["xs"] = [x]
    else:
        c["ops"] = draw(st.lists(hist.op(n, hist.KINDS), min_size=1, max_size=5))
        c["route"] = draw(st.sampled_from(["tensor", "empty", "nest"]))
    return rest(draw, c)


@st.composite
def long(draw):
    """Long ranks: several mask words, several probes per lookup."""
    depth = draw(st.sampled_from([1, 1, 2]))
    n = draw(st.sampled_from([31, 32, 33, 63, 64, 65, 127, 128, 129, 160, 200, 300]))
    lens = [n] if depth == 1 else draw(st.sampled_from([[2, n], [n, 2]]))

    def fiber(dims):
        k = dims[0]
        if k == 2:
            cs = [c for c in range(2) if draw(st.integers(0, 3))]
        else:
            cs = sorted(draw(st.sets(st.integers(0, k - 1), max_size=40)))
        return [[c, fiber(dims[1:]) if len(dims) > 1 else 1 + c % 7] for c in cs]

    t = {"ranks": ["M", "K"][:depth], "shape": lens if draw(st.booleans()) else None,
         "dims": lens, "default": 0, "spec": fiber(lens)}
    c = rest(draw, {"t": t, "xs": [], "ops": []})
    c["bases"] = draw(st.lists(st.integers(0, 310), max_size=4))
    c["descs"] = draw(st.lists(st.sampled_from(["".join(x) for x in itertools.product("UCB", "UCB")]
                                               ), min_size=1, max_size=4))
    return c


def small(tier):
    """Every tree of a 2x2 tensor (absent, empty, explicit zero, value), all descriptors."""
    leafs = [[]] + [[[0, v]] for v in (0, 1)] + [[[1, 2]], [[0, 0], [1, 2]], [[0, 1], [1, 2]]]
    kids = [None] + leafs
    base = {"xs": [], "ops": [], "bases": [1], "descs": None}
    for shape in ([3], [2], None):
        for leaf in leafs:
            for extra in (None, [2]):
                yield {"t": {"ranks": ["K"], "shape": shape, "dims": [2], "default": 0,
                             "spec": leaf}, "extra": extra, **base}
    for a in kids:
        for b in kids:
            tree = [[i, x] for i, x in enumerate((a, b)) if x is not None]
            for shape in ([2, 3], None):
                for extra in (None, [1, 2, 0]):
                    yield {"t": {"ranks": ["M", "K"], "shape": shape, "dims": [2, 3],
                                 "default": 0, "spec": tree}, "extra": extra, **base}


def lookups(tier):
    """Every coordinate-list fiber over eight coordinates."""
    for bits in range(256):
        spec = [[c, c + 1] for c in range(8) if bits >> c & 1]
        yield {"t": {"ranks": ["K"], "shape": [8], "dims": [8], "default": 0, "spec": spec},
               "xs": [], "ops": [], "bases": [bits % 9, bits % 8], "extra": None, "descs": None}


SUBS = [
    Sub("small", run, exhaustive=small, quick=0, thorough=0,
        rule="all one- and two-level trees of up to two sub-fibers over six leaf fibers"),
    Sub("lookups", run, exhaustive=lookups, quick=0, thorough=0,
        rule="all sets of eight coordinates: every lookup and scan start"),
    Sub("built", run, built, quick=1500, thorough=40000),
    Sub("changed", run, changed, quick=1500, thorough=40000,
        rule="after one transform, or a history of up to five mutations"),
    Sub("long", run, long, quick=500, thorough=10000,
        rule="ranks of up to 300 positions"),
]
