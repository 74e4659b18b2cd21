"""C18: format footprints add up from the tree exactly."""
import copy

from .core import HYP, Sub, Violation, check, check_eq  # noqa
from hypothesis import strategies as st

from . import c01, gens, hist, raw, xform
from .raw import F, P, T

PROP = "C18"
RULE = ("random tensors (built, transformed, mutated; explicit empties; any rank formats) and "
        "random partial specifications; every fiber, rank, tensor and sub-tree footprint is "
        "recomputed from a raw walk. Non-trivial: at least two fibers and a specification with "
        "a non-zero per-element width.")
ASSUMPTIONS = [
    "occupancy of a fiber: the elements it stores",
    "rank ids are strings; coordinates lie within a given shape",
    "ranks of unknown shape: an uncompressed fiber's size is the shape the fiber reports",
]

INTS = ["rhbits", "fhbits", "cbits", "pbits"]
FULL = {"rhbits": 0, "fhbits": 0, "cbits": 0, "pbits": 0, "format": "C", "layout": "contiguous"}


@st.composite
def specs(draw, n):
    """One partial specification per rank (or None), and one for the root."""
    bits = st.sampled_from([0, 1, 2, 3, 5, 7, 11, 32, 64, 100, 1000])
    out = []
    for _ in range(n):
        if draw(st.integers(0, 7)) == 0:
            out.append(None)
            continue
        s = {}
        for k in INTS:
            if draw(st.integers(0, 4)):
                s[k] = draw(bits)
        f = draw(st.sampled_from([None, "C", "U", "U"]))
        if f:
            s["format"] = f
        lay = draw(st.sampled_from([None, "contiguous", "interleaved"]))
        if lay:
            s["layout"] = lay
        out.append(s)
    root = draw(st.sampled_from([None, {}, {"hbits": 3}, {"pbits": 5}, {"hbits": 64,
                                                                        "pbits": 13}]))
    return {"ranks": out, "root": root, "shared": draw(st.integers(0, 5)) == 0,
            "other": draw(st.booleans())}


@st.composite
def built(draw):
    t = draw(gens.tensor_case(defaults=(0, 0, 3), fmt="any", hi=5, wide=[17, 40, 300],
                              shape_known=draw(st.integers(0, 4)) > 0))
    if draw(st.booleans()):
        t["spec"] = draw(gens.rspec(t["dims"], extra=[t["default"]]))
    if draw(st.integers(0, 3)):
        # extra room above the largest coordinate
        if t["shape"]:
            t["shape"] = [n + draw(st.integers(0, 2)) for n in t["shape"]]
    return {"t": t, "xs": [], "ops": [], "s": draw(specs(len(t["ranks"]))),
            "q": draw(st.lists(st.lists(st.integers(0, 7), max_size=2), max_size=4))}


@st.composite
def changed(draw):
    c = draw(built())
    n = len(c["t"]["ranks"])
    if draw(st.booleans()):
        ks = ["uniform", "nonuniform", "equal", "unequal", "/", "swizzle", "swap", "deepcopy",
              "updcoords", "updpayloads", "merge"]
        x = draw(xform.xform(n, ks, known=c["t"]["shape"] is not None))
        if x[0] == "merge":
            x = x[:3] + ("absolute",) + x[4:]
        c["xs"] = [x]
    else:
        c["ops"] = draw(st.lists(hist.op(n, hist.KINDS), min_size=1, max_size=5))
        c["route"] = draw(st.sampled_from(["tensor", "empty", "nest"]))
    c["s"] = draw(specs(4))
    return c


# ---------------------------------------------------------------- oracle

class Want:
    """Footprints recomputed from the tree."""

    def __init__(self, t, full):
        self.t, self.full = t, full
        self.ids = t.getRankIds()
        self.shape = [r.getAttrs().getShape() for r in t.ranks]
        self.default = raw.val(t.getDefault())

    def size(self, f, d):
        """Elements of a fiber at depth d (f None: absent)."""
        if self.full[self.ids[d]]["format"] == "C":
            return len(f.coords) if f is not None else 0
        if self.shape[d] is not None:
            return self.shape[d]
        return f.getShape(all_ranks=False)

    def fiber(self, f, d):
        s = self.full[self.ids[d]]
        return s["fhbits"] + (s["cbits"] + s["pbits"]) * self.size(f, d)

    def level(self, d):
        out = [self.t.getRoot()]
        for _ in range(d):
            out = [p for f in out for p in f.payloads]
        return out

    def rank(self, d):
        return self.full[self.ids[d]]["rhbits"] + sum(self.fiber(f, d) for f in self.level(d))

    def nonempty(self, f):
        for p in f.payloads:
            if raw.isfiber(p):
                if self.nonempty(p):
                    return True
            elif raw.unbox(p) != self.default:
                return True
        return False

    def subtree(self, f, d):
        total = self.fiber(f, d)
        if d + 1 == len(self.ids):
            return total
        if self.full[self.ids[d]]["format"] == "C":
            for p in f.payloads if f is not None else []:
                if self.nonempty(p):
                    total += self.subtree(p, d + 1)
        else:
            kids = dict(zip(f.coords, f.payloads)) if f is not None else {}
            for c in range(self.shape[d]):
                total += self.subtree(kids.get(c), d + 1)
        return total

    def bounded(self):
        """Every uncompressed rank has a known shape that bounds its coordinates."""
        for d, r in enumerate(self.ids):
            if self.full[r]["format"] == "U":
                if self.shape[d] is None or isinstance(self.shape[d], tuple):
                    return False
                if any(not 0 <= c < self.shape[d] for f in self.level(d) for c in f.coords):
                    return False
        return True


def find(t, point):
    f = t.getRoot()
    for c in point:
        if f is None or c not in f.coords:
            return None
        f = f.payloads[f.coords.index(c)]
    return f


def make(case):
    if case["ops"]:
        t, root, _ = c01.build({"t": case["t"], "route": case["route"]})
        for o in case["ops"]:
            try:
                hist.apply(root, len(case["t"]["ranks"]), o, case["t"]["default"], True)
            except hist.Illegal:
                continue
    else:
        t = raw.mk_tensor(case["t"])
    for x in case["xs"]:
        t = xform.apply(t, x)
    return t


def spec_of(case, ids):
    s = case["s"]
    spec = {}
    given = [None if x is None else dict(x) for x in s["ranks"][:len(ids)]]
    given += [None] * (len(ids) - len(given))
    if s["shared"] and len(given) > 1 and given[0] is not None:
        given[1] = given[0]             # one dictionary for two ranks (a YAML anchor)
    for r, x in zip(ids, given):
        if x is not None:
            spec[r] = x
    if s["root"] is not None:
        spec["root"] = dict(s["root"])
    if s["other"]:
        spec["Q"] = {"pbits": 17}
    full = {r: dict(FULL, **spec.get(r, {})) for r in ids}
    full["root"] = dict({"hbits": 0, "pbits": 0}, **spec.get("root", {}))
    return spec, full


def run(case, ctx):
    from fibertree.model import Format
    try:
        t = make(case)
    except AssertionError:
        if case["xs"]:
            return                      # a transform that does not apply here: C08-C10's matter
        raise
    ids = t.getRankIds()
    if not ids or any(not isinstance(r, str) for r in ids) or len(set(ids)) != len(ids):
        return
    spec, full = spec_of(case, ids)
    want = Want(t, full)
    bounded = want.bounded()
    before = raw.tsnap(t)
    queries = []
    for d, r in enumerate(ids):
        queries.append((f"getRank({r!r})", lambda f, r=r: f.getRank(r), want.rank(d)))
    root = full["root"]["hbits"] + full["root"]["pbits"]
    queries.append(("getRoot()", lambda f: f.getRoot(), root))
    queries.append(("getTensor()", lambda f: f.getTensor(),
                    root + sum(want.rank(d) for d in range(len(ids)))))
    points = {()}
    level = [((), t.getRoot())]
    for d in range(len(ids) - 1):
        level = [(p + (c,), x) for p, f in level for c, x in zip(f.coords, f.payloads)]
        points |= {p for p, _ in level}
    leaf = full[ids[-1]]
    for p, f in level:
        # the "sub-tree" of a stored value is its element
        queries += [(f"getSubTree{p + (c,)}", lambda x, q=p + (c,): x.getSubTree(*q),
                     leaf["cbits"] + leaf["pbits"]) for c in f.coords[:2]]
    absent = 0
    for q in case["q"]:
        q = tuple(q[:len(ids) - 1])
        if all(s is None or c < s for c, s in zip(q, want.shape)):
            absent += find(t, q) is None
            points.add(q)
    for p in sorted(points):
        f, d = find(t, p), len(p)
        if f is not None or want.shape[d] is not None or full[ids[d]]["format"] == "C":
            queries.append((f"getFiber{p}", lambda x, p=p: x.getFiber(*p), want.fiber(f, d)))
            if bounded:
                queries.append((f"getSubTree{p}", lambda x, p=p: x.getSubTree(*p),
                                want.subtree(f, d)))
    fm = Format(t, spec)
    for what, q, w in queries + queries[::-1]:
        check_eq(q(fm), w, f"{what} of spec {full}")
    for r in ids:
        got = {"rhbits": fm.getRHBits(r), "fhbits": fm.getFHBits(r), "cbits": fm.getCBits(r),
               "pbits": fm.getPBits(r), "format": fm.getFormat(r), "layout": fm.getLayout(r)}
        check_eq(got, full[r], f"specification of rank {r}")
        check_eq([fm.getElem(r, k) for k in ("coord", "payload", "elem")],
                 [full[r]["cbits"], full[r]["pbits"], full[r]["cbits"] + full[r]["pbits"]],
                 f"element sizes of rank {r}")
    check_eq(raw.tsnap(t)[4], before[4], "the tree after its footprint was taken")
    # a second tensor measured with the same specification
    if case["xs"] or case["ops"]:
        t2 = copy.deepcopy(t)
        check_eq(Format(t2, spec).getTensor(), Format(t, spec).getTensor(), "copy's footprint")
    ctx.label(f"depth{len(ids)}", "bounded" if bounded else "loose",
              *("spec" + full[r]["format"] for r in ids), *(x[0] for x in case["xs"]))
    if absent:
        ctx.label("absent")
    if case["ops"]:
        ctx.label("mutated")
    nf = sum(len(want.level(d)) for d in range(len(ids)))
    ctx.nt(nf >= 2 and any(full[r]["cbits"] + full[r]["pbits"] for r in ids))


def small(tier):
    """Every tree of a 2x2 tensor (absent, empty, explicit zero) with every format pair."""
    leafs = [[]] + [[[0, v]] for v in (0, 1)] + [[[1, 1]]] + [[[0, 0], [1, 1]], [[0, 1], [1, 1]]]
    kids = [None] + leafs
    for a in kids:
        for b in kids:
            tree = [[i, x] for i, x in enumerate((a, b)) if x is not None]
            for f0 in "CU":
                for f1 in "CU":
                    for known in (True, False):
                        yield {"t": {"ranks": ["M", "K"], "shape": [2, 3] if known else None,
                                     "dims": [2, 3], "default": 0, "spec": tree},
                               "xs": [], "ops": [],
                               "s": {"ranks": [{"rhbits": 1000, "fhbits": 100, "cbits": 1,
                                                "pbits": 2, "format": f0},
                                               {"rhbits": 7000, "fhbits": 10000, "cbits": 20,
                                                "pbits": 30, "format": f1}], "root": None,
                                     "shared": False, "other": False},
                               "q": [[0], [1]]}


SUBS = [
    Sub("small", run, exhaustive=small, quick=0, thorough=0,
        rule="all 2-level trees of up to two sub-fibers over six leaf fibers, all format pairs"),
    Sub("built", run, built, quick=3000, thorough=80000),
    Sub("changed", run, changed, quick=3000, thorough=80000,
        rule="after one transform, or a history of up to five mutations"),
]
