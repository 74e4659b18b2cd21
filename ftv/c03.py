"""C03: point access behaves like a map from points to values."""
from .core import HYP, Sub, Violation, check, check_eq  # noqa
from hypothesis import strategies as st

from . import gens, raw
from .raw import F, P, T

PROP = "C03"
RULE = ("accessor histories on a tensor against a dict from full points to values; handles "
        "obtained earlier stay live and are written through later. Non-trivial: at least two "
        "writes through references and two reads, of which at least one read an existing and "
        "one an absent point or a prefix.")
ASSUMPTIONS = ["start_pos is legal when it is 0 or a position whose coordinate does not exceed "
               "the one looked up"]

V = st.sampled_from([0, 0, 0, 1, 2, 3, -1, 5, 300, 1000, (1 << 53) + 1])
WRITES = st.sampled_from(["none", "set", "set", "setbox", "add", "sub", "mul"])


@st.composite
def point(draw, depth, n):
    return tuple(draw(st.integers(0, n)) for _ in range(depth))


@st.composite
def case(draw):
    tc = draw(gens.tensor_case(depths=(1, 1, 1, 2, 2, 2, 3, 3, 4), defaults=(0, 0, 3), hi=5,
                               floats=draw(st.booleans()), fmt=draw(st.sampled_from(["C", "any"]))))
    if tc["shape"] is None:
        tc.pop("fmt", None)
    tc["unowned"] = False
    depth = len(tc["ranks"])
    n = 6 if depth < 3 else 4
    ops = []
    for _ in range(draw(st.integers(3, 14))):
        k = draw(st.sampled_from(["read", "read", "readd", "prefix", "via", "ref", "ref", "ref",
                                  "refprefix", "pos", "posref", "startread", "startref",
                                  "startpos", "startposref", "handle", "readw", "seq", "other",
                                  "other"]))
        pt = draw(point(depth, n))
        if k in ("read",):
            ops.append((k, pt))
        elif k == "readd":
            ops.append((k, pt, draw(st.sampled_from([None, 99, 0, 3, 1000]))))
        elif k in ("prefix", "refprefix"):
            m = draw(st.integers(1, depth))
            ops.append((k, pt[:m]))
        elif k == "via":
            ops.append((k, pt, draw(st.integers(0, depth - 1))))
        elif k == "readw":
            ops.append((k, pt, draw(V)))
        elif k == "ref":
            ops.append((k, pt, draw(WRITES), draw(V), draw(st.integers(0, depth - 1))))
        elif k in ("pos", "posref"):
            ops.append((k, pt[:draw(st.integers(1, depth))]))
        elif k in ("startread", "startref", "startpos", "startposref"):
            ops.append((k, pt[:draw(st.integers(1, depth))], draw(st.integers(0, 6)),
                        draw(st.booleans()), draw(WRITES), draw(V)))
        elif k == "other":
            # the other ways to write: each must be visible to every later read
            w = draw(st.sampled_from(["setpos", "append", "lookup", "insert", "update", "clear",
                                      "item"]))
            m = draw(st.integers(0, depth - 1))
            ops.append((k, w, pt[:depth - 1] if w in ("setpos", "item", "append", "lookup",
                                                      "insert") else pt[:m],
                        draw(st.integers(0, 8)), draw(V),
                        draw(st.sampled_from(["+1", "neg", "const", "box"]))))
        elif k == "handle":
            ops.append((k, draw(st.integers(0, 9)), draw(WRITES), draw(V)))
        else:
            cs = draw(st.lists(st.integers(0, n + 2), min_size=1, max_size=5).map(sorted))
            ops.append((k, pt[:-1], cs, draw(st.sampled_from(["get", "getna", "pos", "ref"]))))
    # the level whose coordinates are pairs
    tup = draw(st.sampled_from([None, None, None] + list(range(depth))))
    return {"t": tc, "ops": ops, "tup": tup}


def pairs_at(case, lv):
    """The case with the coordinates of level lv replaced by pairs, in the same order."""
    enc = lambda c: (c // 3, c % 3)     # noqa

    def tree(spec, d):
        return [[enc(c) if d == lv else c, tree(s, d + 1) if isinstance(s, list) else s]
                for c, s in spec]

    def path(p):
        return tuple(enc(c) if d == lv else c for d, c in enumerate(p))
    t = dict(case["t"], spec=tree(case["t"]["spec"], 0), shape=None)
    t.pop("fmt", None)
    t.pop("narrow", None)
    ops = []
    for o in case["ops"]:
        o = list(o)
        if o[0] == "other":
            o[2] = path(o[2])
            if o[1] in ("lookup", "insert") and len(o[2]) == lv:
                o[3] = enc(o[3])
        elif o[0] != "handle":
            o[1] = path(o[1])
            if o[0] == "seq" and len(o[1]) == lv:
                o[2] = [enc(c) for c in o[2]]
        ops.append(tuple(o))
    return dict(case, t=t, ops=ops)


def act(p, a, v):
    """Apply a write to a box; returns the function on values."""
    if a == "set":
        p <<= v
        return p, lambda x: v
    if a == "setbox":
        p <<= P()(v)
        return p, lambda x: v
    if a == "add":
        p += v
        return p, lambda x: x + v
    if a == "sub":
        p -= v
        return p, lambda x: x - v
    if a == "mul":
        p *= v
        return p, lambda x: x * v
    return p, lambda x: x


def run(case, ctx):
    if case.get("tup") is not None:
        case = pairs_at(case, case["tup"])
        ctx.label("pairs")
    tc = case["t"]
    depth, dflt = len(tc["ranks"]), tc["default"]
    t = raw.mk_tensor(tc)
    root = t.getRoot()
    model = raw.spec_content(tc["spec"], depth, dflt)
    handles = []
    reads = writes = hits = misses = 0

    def stored(pt):
        f = root
        for c in pt:
            if not isinstance(f, F()) or c not in f.coords:
                return None
            f = f.payloads[f.coords.index(c)]
        return f

    def under(pre):
        return {p[len(pre):]: v for p, v in model.items() if p[:len(pre)] == pre}

    def level(pre):
        """Stored fiber at a prefix, or None."""
        return stored(pre) if pre else root

    def settle(pt, fn):
        new = fn(model.get(pt, dflt))
        model.pop(pt, None)
        if new != dflt:
            model[pt] = new

    for i, o in enumerate(case["ops"]):
        k = o[0]
        before = raw.tsnap(t, ids=True)
        pure = True
        what = f"step {i} {o}"
        if k == "read":
            got = raw.val(t.getPayload(*o[1]))
            check_eq(got, model.get(o[1], dflt), what)
            check_eq(raw.val(root.getPayload(*o[1])), got, what + " through the root")
            reads += 1
            hits += o[1] in model
            misses += o[1] not in model
        elif k == "readd":
            s = stored(o[1])
            got = t.getPayload(*o[1], allocate=False, default=o[2])
            if s is None:
                check_eq(raw.val(got) if got is not None else None, o[2], what)
                misses += 1
            else:
                check(got is s, "{}: not the stored payload", what)
                hits += 1
            reads += 1
        elif k == "readw":
            # a payload read at an absent point is not connected to the tree
            s = stored(o[1])
            if s is not None:
                continue
            p = t.getPayload(*o[1])
            p += o[2]
            p <<= o[2] + 1
            misses += 1
        elif k == "via":
            sub = t.getPayload(*o[1][:o[2]]) if o[2] else root
            check_eq(raw.val(sub.getPayload(*o[1][o[2]:])), model.get(o[1], dflt), what)
            reads += 1
        elif k == "prefix":
            got = t.getPayload(*o[1])
            s = stored(o[1])
            if len(o[1]) == depth:
                check_eq(raw.val(got), model.get(o[1], dflt), what)
            else:
                check(isinstance(got, F()), "{}: a prefix reads as {}", what, type(got).__name__)
                check_eq(raw.content(got, dflt), under(o[1]), what)
            if s is not None:
                check(got is s, "{}: the value read is not the stored payload", what)
            reads += 1
            misses += 1
        elif k == "pos":
            f = level(o[1][:-1])
            if f is None:
                continue
            want = f.coords.index(o[1][-1]) if o[1][-1] in f.coords else None
            check_eq(f.getPosition(o[1][-1]), want, what)
            if want is not None:
                check(f[want].payload is f.payloads[want] and f[want].coord == o[1][-1],
                      "{}: element by position is {}", what, f[want])
            reads += 1
        elif k in ("startread", "startpos", "startref", "startposref"):
            f = level(o[1][:-1])
            if f is None:
                continue
            c = o[1][-1]
            legal = [0] + [j for j, x in enumerate(f.coords) if x <= c and j > 0]
            sp = legal[o[2] % len(legal)]
            if o[3]:
                sp = P()(sp)
            leaf = len(o[1]) == depth
            exists = c in f.coords
            if k == "startread":
                got = f.getPayload(c, start_pos=sp)
                if leaf:
                    check_eq(raw.val(got), model.get(o[1], dflt), what)
                else:
                    check_eq(raw.content(got, dflt), under(o[1]), what)
                if exists:
                    check(got is f.payloads[f.coords.index(c)], "{}: not the stored payload", what)
                got = f.getPayload(c, start_pos=sp, allocate=False, default=77)
                if not exists:
                    check_eq(raw.val(got), 77, what)
            elif k == "startpos":
                check_eq(f.getPosition(c, start_pos=sp),
                         f.coords.index(c) if exists else None, what)
            elif k == "startposref":
                pure = False
                got = f.getPositionRef(c, start_pos=sp)
                check(c in f.coords, "{}: no element was created", what)
                check_eq(got, f.coords.index(c), what)
            else:
                pure = False
                got = f.getPayloadRef(c, start_pos=sp)
                check(got is stored(o[1]), "{}: the reference is not the stored payload", what)
                if leaf:
                    check_eq(raw.val(got), model.get(o[1], dflt), what + " value of the reference")
                    got2, fn = act(got, o[4], o[5])
                    check(got2 is got, "{}: the in-place operator replaced the box", what)
                    settle(o[1], fn)
                    handles.append((got, o[1]))
                    writes += o[4] != "none"
            reads += 1
        elif k == "ref":
            pure = False
            pt, a, v, m = o[1:]
            if m:
                got = t.getPayloadRef(*pt[:m]).getPayloadRef(*pt[m:])
            else:
                got = t.getPayloadRef(*pt)
            check(got is stored(pt), "{}: the reference is not the stored payload", what)
            check_eq(raw.unbox(got), model.get(pt, dflt), what + " value of the reference")
            got2, fn = act(got, a, v)
            check(got2 is got, "{}: the in-place operator replaced the box", what)
            settle(pt, fn)
            handles.append((got, pt))
            writes += a != "none"
        elif k == "refprefix":
            pure = False
            got = t.getPayloadRef(*o[1])
            check(got is stored(o[1]), "{}: the reference is not the stored payload", what)
            if len(o[1]) < depth:
                check_eq(raw.content(got, dflt), under(o[1]), what)
        elif k == "posref":
            f = level(o[1][:-1])
            if f is None:
                continue
            pure = False
            got = f.getPositionRef(o[1][-1])
            check(o[1][-1] in f.coords, "{}: no element was created", what)
            check_eq(got, f.coords.index(o[1][-1]), what)
        elif k == "other":
            w, pre, n, v, fn = o[1:]
            f = level(pre)
            if f is None:
                continue
            pure = False
            gone = []                       # points whose box is replaced
            if w in ("setpos", "item"):
                if not f.coords:
                    continue
                n %= len(f.coords)
                pt = pre + (f.coords[n],)
                if w == "setpos":
                    f[n] = P()(v) if fn == "box" else v
                    gone = [pt]
                    settle(pt, lambda x: v)
                else:
                    f[n] += v
                    settle(pt, lambda x: x + v)
            elif w == "append":
                tup = case.get("tup") == len(pre)
                c = (n, 0) if tup else n
                if f.coords:
                    c = (f.coords[-1][0] + n, 9) if tup else f.coords[-1] + 1 + n
                if f.coords and c <= f.coords[-1]:
                    continue
                f.append(c, P()(v) if fn == "box" else v)
                settle(pre + (c,), lambda x: v)
            elif w in ("lookup", "insert"):
                had = n in f.coords
                if w == "lookup":
                    got = f.insertOrLookup(n) if fn == "neg" else f.insertOrLookup(n, v)
                    check(got is stored(pre + (n,)), "{}: not the stored payload", what)
                    v = dflt if fn == "neg" else v
                elif had:
                    continue
                else:
                    f.insert(n, v)
                if not had:
                    settle(pre + (n,), lambda x: v)
            elif w == "update":
                g = {"+1": lambda x: x + 1, "neg": lambda x: x * -1, "const": lambda x: 6,
                     "box": lambda x: 4}[fn]
                d = depth - 1 - len(pre)
                if d and any(not r.payloads for r in [f]):
                    continue
                seen = []

                def update(j, c, p):
                    seen.append((c, raw.val(p)))
                    return P()(4) if fn == "box" else g(p)
                f.updatePayloads(update, depth=d)
                gone = [pre + q for q in under(pre)]
                check_eq(seen, [(q[-1], x) for q, x in sorted(under(pre).items())],
                         what + ": elements offered")
                for q in gone:
                    settle(q, g)
            else:
                f.clear()
                gone = [pre + q for q in under(pre)] + \
                    [pt for _, pt in handles if pt[:len(pre)] == pre]
                for q in gone:
                    model.pop(q, None)
            handles = [(h, pt) for h, pt in handles if pt not in gone]
            writes += 1
            ctx.label(w)
        elif k == "handle":
            if not handles:
                continue
            pure = False
            h, pt = handles[o[1] % len(handles)]
            check_eq(raw.unbox(h), model.get(pt, dflt), what + " through an old handle")
            h2, fn = act(h, o[2], o[3])
            settle(pt, fn)
            writes += o[2] != "none"
        elif k == "seq":
            # ascending lookups, each starting where the previous one stopped
            f = level(o[1])
            if f is None:
                continue
            f.setSavedPos(0)
            for c in o[2]:
                pt = tuple(o[1]) + (c,)
                w = f"{what} at {c} from position {f.getSavedPos()}"
                if o[3] == "get":
                    got = f.getPayload(c, start_pos=f.getSavedPos())
                    check_eq(raw.val(got) if depth == len(pt) else raw.content(got, dflt),
                             model.get(pt, dflt) if depth == len(pt) else under(pt), w)
                elif o[3] == "getna":
                    got = f.getPayload(c, start_pos=f.getSavedPos(), allocate=False)
                    check(got is stored(pt) if stored(pt) is not None else got is None
                          or raw.val(got) is None, "{}: {}", w, got)
                elif o[3] == "pos":
                    check_eq(f.getPosition(c, start_pos=f.getSavedPos()),
                             f.coords.index(c) if c in f.coords else None, w)
                else:
                    pure = False
                    got = f.getPayloadRef(c, start_pos=f.getSavedPos())
                    check(got is stored(pt), "{}: not the stored payload", w)
            reads += 1
        ctx.label(k)
        if pure:
            after = raw.tsnap(t, ids=True)
            if after != before:
                raise Violation(f"{what}: a read changed the tree from {before} to {after}")
        else:
            check(t.getRoot() is root, "{}: the root was replaced", what)
            check_eq(raw.content(root, dflt), model, f"content after {what}")
    raw.wellformed(root, depth)
    raw.rank_mirror(t)
    for h, pt in handles:
        check(h is stored(pt), "the handle for {} no longer is the stored payload", pt)
    ctx.nt(writes >= 2 and reads >= 2 and (hits or misses))


# ---------------------------------------------------------------- rank 0

@st.composite
def rank0(draw):
    return {"init": draw(V), "how": draw(st.sampled_from(["empty", "nest"])),
            "ops": draw(st.lists(st.tuples(WRITES, V), min_size=1, max_size=6))}


def run_rank0(case, ctx):
    if case["how"] == "nest":
        t = T().fromUncompressed(rank_ids=[], root=case["init"])
        v = case["init"]
    else:
        t = T()(rank_ids=[])
        v = 0
    for a, x in case["ops"]:
        check_eq(raw.val(t.getPayload()), v, "rank-0 read")
        r = t.getPayloadRef()
        r, fn = act(r, a, x)
        v = fn(v)
        check_eq(raw.val(t.getPayload()), v, "rank-0 read after a write")
        check(t.getPayloadRef() is r, "rank-0 reference is not stable")
        check_eq(raw.unbox(t.getRoot()), v, "rank-0 root")
    ctx.nt(len(case["ops"]) >= 2)


# ---------------------------------------------------- unordered fibers

@st.composite
def unordered(draw):
    cs = draw(st.lists(st.integers(0, 9), max_size=7, unique=True))
    return {"coords": cs, "vals": [draw(st.sampled_from([0, 1, 2, 3])) for _ in cs],
            "ops": draw(st.lists(st.tuples(st.sampled_from(["get", "pos", "ref", "set"]),
                                           st.integers(0, 10), V), min_size=1, max_size=8))}


def run_unordered(case, ctx):
    f = F()(list(case["coords"]), list(case["vals"]), ordered=False)
    model = dict(zip(case["coords"], case["vals"]))
    for k, c, v in case["ops"]:
        if k == "get":
            check_eq(raw.val(f.getPayload(c)), model.get(c, 0), f"read of {c}")
        elif k == "pos":
            check_eq(f.getPosition(c), f.coords.index(c) if c in model else None, f"pos of {c}")
        else:
            r = f.getPayloadRef(c)
            model.setdefault(c, 0)
            if k == "set":
                r <<= v
                model[c] = v
        check_eq({c: raw.unbox(p) for c, p in zip(f.coords, f.payloads)}, model, "elements")
        check_eq(len(f.coords), len(model), "number of elements")
    ctx.nt(len(case["coords"]) >= 2 and len(case["ops"]) >= 3)


SUBS = [
    Sub("history", run, case, quick=8000, thorough=300000),
    Sub("rank0", run_rank0, rank0, quick=300, thorough=3000),
    Sub("unordered", run_unordered, unordered, quick=800, thorough=20000),
]
