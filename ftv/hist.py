"""Mutation histories: op literals, their generator, and an interpreter that
applies one op to a tensor/fiber.  Shared by C01 and C02 (and C10's follow-up
mutations)."""
from .core import HYP  # noqa
from hypothesis import strategies as st

from . import gens, raw
from .core import Violation, check
from .raw import F, P

VALS = st.sampled_from([0, 0, 0, 1, 2, 3, -1, 7, 300, 1000])
FORMS = st.sampled_from(["int", "box"])


@st.composite
def small_spec(draw, depth, n=6, vals=VALS):
    return gens._spec(draw, [n] * depth, vals, True)


ACTS = st.sampled_from(["none", "set", "add", "sub", "mul", "setbox", "set", "add", "addbox",
                        "mulbox", "subelem", "setelem", "div", "floordiv"])
# what a populate body does with one offered leaf reference
LEAF_BODY = st.sampled_from(
    ["none", "set", "add", "set0", "set_then_0", "src", "acc_src", "elsewhere", "above", "zclear"])


@st.composite
def body(draw, depth):
    """Program for a populate loop at this depth: a list consumed cyclically."""
    if depth == 1:
        return draw(st.lists(st.tuples(LEAF_BODY, VALS), min_size=1, max_size=4))
    return draw(st.lists(st.one_of(
        st.tuples(st.just("nest"), body(depth - 1)),
        st.tuples(st.just("none")),
        st.tuples(st.just("assign"), small_spec(depth - 1, 4)),
        st.tuples(st.just("ref"), st.lists(st.integers(0, 5), min_size=depth - 1,
                                           max_size=depth - 1), VALS),
        st.tuples(st.just("assign_clear"), small_spec(depth - 1, 4)),
        st.tuples(st.just("src")),
    ), min_size=1, max_size=4))


@st.composite
def op(draw, depth, kinds):
    k = draw(st.sampled_from(kinds))
    coord = st.integers(0, 8)
    # target fiber: a level and position indices leading to it
    lvl = draw(st.integers(0, depth - 1))
    tgt = tuple(draw(st.integers(0, 5)) for _ in range(lvl))
    below = depth - lvl           # levels from the target fiber down
    if k == "ref":
        n = draw(st.integers(1, depth))
        return (k, tuple(draw(coord) for _ in range(n)), draw(ACTS), draw(VALS))
    if k == "posref":
        return (k, tgt, draw(coord), draw(st.sampled_from(["pos", "pay"])),
                draw(st.one_of(st.none(), st.integers(0, 5))))
    if k == "append":
        v = draw(VALS) if below == 1 else draw(small_spec(below - 1, 4))
        return (k, tgt, draw(st.integers(0, 9)), v, draw(FORMS))
    if k == "extend":
        sp = draw(small_spec(below, 4))
        return (k, tgt, draw(st.integers(0, 8)), sp)
    if k == "setitem":
        co = draw(st.one_of(st.none(), st.integers(-1, 9), st.just("same"), st.just("next"),
                            st.just("prev"), st.just("inc"), st.just("dec")))
        v = draw(st.one_of(st.none(), VALS)) if below == 1 else \
            draw(st.one_of(st.none(), small_spec(below - 1, 4)))
        form = draw(st.sampled_from(["cp", "val"]))
        return (k, tgt, draw(st.integers(-3, 7)), co, v, form)
    if k == "elem":
        return (k, tgt, draw(st.integers(-2, 6)), draw(st.sampled_from(["+", "-", "*", "<<", "/", "//", "+box", "*box", "<<elem"])),
                draw(VALS))
    if k in ("iadds", "imuls"):
        return (k, tgt, draw(st.sampled_from([0, 1, 2, -1])))
    if k in ("iaddf", "imulf"):
        return (k, tgt, draw(small_spec(below)))
    if k == "assign":
        return (k, tgt, draw(small_spec(below)), draw(st.booleans()))
    if k == "populate":
        return (k, tgt, draw(small_spec(below)), draw(body(below)),
                draw(st.sampled_from([None, None, None, 1, 2])))
    if k == "iterref":
        return (k, tgt, draw(st.sampled_from(["shape", "active", "range"])),
                draw(st.integers(0, 4)), draw(st.integers(0, 8)), draw(st.integers(1, 3)),
                draw(ACTS), draw(VALS))
    if k == "coiterref":
        t2 = tuple(draw(st.integers(0, 5)) for _ in range(lvl))
        return (k, tgt, t2, draw(st.sampled_from(["shape", "active", "range"])),
                draw(st.integers(0, 4)), draw(st.integers(0, 8)), draw(st.integers(1, 3)))
    if k == "updcoords":
        return (k, draw(st.integers(0, depth - 1)),
                draw(st.sampled_from(["id", "+3", "*2", "rev", "perm"])),
                draw(st.booleans()))
    if k == "updpayloads":
        return (k, draw(st.sampled_from(["+1", "box", "zero", "int", "neg"])))
    if k == "updfibers":
        # replace sub-fibers through updatePayloads at a non-leaf depth
        d = draw(st.integers(0, max(0, depth - 2)))
        return (k, d, draw(st.lists(st.one_of(
            st.just("same"), st.just("copy"), st.just("other"),
            small_spec(max(1, depth - 1 - d), 4)), min_size=1, max_size=3)))
    if k == "reroot":
        # Tensor.setRoot(): a fresh tree, or the tensor's own root
        return (k, draw(small_spec(depth, 4)), draw(st.booleans()))
    if k == "clear":
        return (k, tgt)
    if k == "tempwrite":
        n = draw(st.integers(1, max(1, depth - 1)))
        return (k, tuple(draw(coord) for _ in range(n)),
                tuple(draw(coord) for _ in range(depth - n)), draw(VALS),
                draw(st.sampled_from(["write", "write", "append", "set"])))
    if k in ("lookup", "insert"):
        v = draw(VALS) if below == 1 else draw(st.one_of(st.none(), small_spec(below - 1, 4)))
        return (k, tgt, draw(coord), v)
    raise AssertionError(k)


KINDS = ["ref", "ref", "ref", "posref", "append", "extend", "setitem", "setitem", "elem",
         "iadds", "imuls", "iaddf", "imulf", "assign", "populate", "populate", "populate",
         "iterref", "coiterref", "updcoords", "updpayloads", "updfibers", "clear", "lookup",
         "insert", "lookup",         "tempwrite", "reroot"]


def target(root, tgt):
    """Fiber reached by following positions (modulo occupancy), and its level."""
    f, lvl = root, 0
    for i in tgt:
        if not f.payloads:
            return f, lvl
        nxt = f.payloads[i % len(f.payloads)]
        if not raw.isfiber(nxt):
            return f, lvl
        f = nxt
        lvl += 1
    return f, lvl


def act(p, a, v):
    if a == "set":
        p <<= v
    elif a == "setbox":
        p <<= P()(v)
    elif a == "add":
        p += v
    elif a == "sub":
        p -= v
    elif a == "mul":
        p *= v
    elif a == "addbox":
        p += P()(v)
    elif a == "mulbox":
        p *= P()(v)
    elif a == "subelem":
        p -= elem(v)
    elif a == "setelem":
        p <<= elem(v)
    elif a == "div":
        p /= v or 2
    elif a == "floordiv":
        p //= v or 2


def elem(v):
    from fibertree.core.coord_payload import CoordPayload
    return CoordPayload(7, v)


class Illegal(Exception):
    """The op is outside the domain in the current state: skipped."""


def fit(spec, depth):
    """Trim/extend a spec drawn for another depth (the target may be shallower)."""
    return spec


def run_body(z, a, prog, depth, break_after, default):
    n = 0
    for i, (c, (z_ref, a_val)) in enumerate(z << a):
        step = prog[i % len(prog)]
        kind = step[0]
        if depth == 1:
            v = step[1]
            if kind == "set":
                z_ref <<= v
            elif kind == "add":
                z_ref += v
            elif kind == "set0":
                z_ref <<= default
            elif kind == "set_then_0":
                z_ref <<= default + 5
                z_ref <<= default
            elif kind == "src":
                z_ref <<= a_val
            elif kind == "acc_src":
                z_ref += a_val
            elif kind == "elsewhere":
                # an insertion below the current coordinate while the loop runs
                r = z.getPayloadRef(max(0, c - 1))
                r <<= v
                z_ref <<= v
            elif kind == "zclear":
                z.clear()
            elif kind == "above":
                r = z.getPayloadRef(c + 1)
                r <<= v
        else:
            if kind == "nest":
                run_body(z_ref, a_val, step[1], depth - 1, None, default)
            elif kind in ("assign", "assign_clear"):
                z_ref <<= raw.mk_fiber(step[1], depth - 1, default)
                if kind == "assign_clear":
                    z_ref.clear()
            elif kind == "ref":
                r = z_ref.getPayloadRef(*step[1])
                r <<= step[2]
            elif kind == "src":
                z_ref <<= a_val
        n += 1
        if break_after is not None and n >= break_after:
            break


def apply(root, depth, o, default=0, owned=True):
    """Apply one op to the tree at root.

    Returns "ok" or "reject": what the call must do, having checked that it did
    (an op that must be rejected is expected to raise, and the caller compares
    snapshots).  Raises Illegal if the op does not apply in this state.
    """
    Fiber = F()
    from fibertree.core.coord_payload import CoordPayload
    k = o[0]
    if k == "ref":
        coords = o[1][:depth]
        p = root.getPayloadRef(*coords)
        if len(coords) == depth:
            act(p, o[2], o[3])
        return "ok"
    if k == "reroot":
        raise Illegal             # not a fiber operation: handled by the caller
    if k == "updcoords":
        d, fn, newshape = o[1], o[2], o[3]
        fns = {"id": lambda i, c, p: c, "+3": lambda i, c, p: c + 3,
               "*2": lambda i, c, p: c * 2, "rev": lambda i, c, p: 20 - c,
               "perm": lambda i, c, p: c ^ 1}
        # a rank without a stored shape asks for one (documented note)
        root.updateCoords(fns[fn], depth=min(d, depth - 1), new_shape=40)
        return "ok"
    if k == "updpayloads":
        fn = {"+1": lambda i, c, p: p + 1, "box": lambda i, c, p: P()(4),
              "zero": lambda i, c, p: P()(default), "int": lambda i, c, p: 6,
              "neg": lambda i, c, p: p * -1}[o[1]]
        root.updatePayloads(fn, depth=depth - 1)
        return "ok"

    if k == "updfibers":
        if depth < 2:
            raise Illegal
        d, prog = min(o[1], depth - 2), o[2]
        below = depth - 1 - d
        n = [0]

        def replace(i, c, p):
            check(raw.isfiber(p), "updatePayloads at depth {} offered {}", d, type(p).__name__)
            step = prog[n[0] % len(prog)]
            n[0] += 1
            if step == "same":
                return p
            if step == "copy":
                return p.copy(preserve_owner=False)
            if step == "other":
                t = raw.T().fromFiber(rank_ids=gens.RANKS[:below],
                                      fiber=raw.mk_fiber(raw.rawtree(p), below, default),
                                      default=default)
                return t.getRoot().copy(preserve_owner=False)
            return raw.mk_fiber(step, below, default)
        root.updatePayloads(replace, depth=d)
        return "ok"

    if k == "tempwrite":
        # a fiber read at an absent coordinate is not part of the tree
        if depth == 1:
            raise Illegal
        sub = root.getPayload(*o[1])
        before = raw.fsnap(root, meta=False)
        stored, present = root, True
        for c in o[1]:
            if c not in stored.coords:
                present = False
                break
            stored = stored.payloads[stored.coords.index(c)]
        if present:
            raise Illegal
        check(not sub.coords, "an absent sub-fiber reads as {}", sub.coords)
        r = sub.getPayloadRef(*o[2])
        r <<= o[3]
        check(raw.fsnap(root, meta=False) == before,
              "writing to an absent sub-fiber's stand-in changed the tree")
        if o[4] == "append" and len(o[1]) == 1 and (not root.coords or root.coords[-1] < 40):
            root.append(40, sub)
        elif o[4] == "set" and len(o[1]) == 1 and root.coords:
            root[0] = sub
        return "ok"

    f, lvl = target(root, o[1])
    below = depth - lvl
    wanted = depth - len(o[1])
    if k == "posref":
        kw = {}
        # a legal shortcut: a position whose coordinate is not past the one asked for
        legal = [i for i, c in enumerate(f.coords) if c <= o[2]]
        if o[4] is not None and legal:
            kw["start_pos"] = legal[o[4] % len(legal)]
        if o[3] == "pos":
            f.getPositionRef(o[2], **kw)
        else:
            f.getPayloadRef(o[2], **kw)
        return "ok"
    if k == "append":
        if below != wanted:
            raise Illegal
        c, v, form = o[2], o[3], o[4]
        if below == 1:
            v = P()(v) if form == "box" else v
        else:
            v = raw.mk_fiber(v, below - 1, default)
        ok = not f.coords or f.coords[-1] < c
        return expect(ok, lambda: f.append(c, v))
    if k == "extend":
        if below != wanted:
            raise Illegal
        sp = [[c + o[2], v] for c, v in o[3]]
        g = raw.mk_fiber(sp, below, default)
        if raw.spec_empty(sp, below, default):
            f.extend(g)           # documented no-op
            return "ok"
        ok = not f.coords or f.coords[-1] < g.coords[0]
        return expect(ok, lambda: f.extend(g))
    if k == "setitem":
        if below != wanted:
            raise Illegal
        pos, co, v, form = o[2], o[3], o[4], o[5]
        n = len(f.coords)
        inside = -n <= pos < n
        rp = pos + n if pos < 0 else pos
        if isinstance(co, str):
            if not inside:
                co = 0
            elif co == "same":
                co = f.coords[rp]
            elif co == "next":
                co = f.coords[(rp + 1) % n]
            elif co == "prev":
                co = f.coords[rp - 1]
            else:
                co = f.coords[rp] + (1 if co == "inc" else -1)
        if v is not None and below > 1:
            v = raw.mk_fiber(v, below - 1, default)
        if v is None and (form == "val" or co is None):
            raise Illegal
        new = CoordPayload(co, v) if form == "cp" else v
        ok = inside
        if inside and form == "cp" and co is not None:
            if rp > 0 and co <= f.coords[rp - 1]:
                ok = False
            if rp + 1 < n and co >= f.coords[rp + 1]:
                ok = False
        return expect(ok, lambda: f.__setitem__(pos, new))
    if k == "elem":
        pos, sym, v = o[2], o[3], o[4]
        n = len(f.coords)
        if below != 1 or n == 0:
            raise Illegal

        def go():
            if sym == "+":
                f[pos] += v
            elif sym == "-":
                f[pos] -= v
            elif sym == "*":
                f[pos] *= v
            elif sym == "/":
                f[pos] /= v or 2
            elif sym == "//":
                f[pos] //= v or 2
            elif sym == "+box":
                f[pos] += P()(v)
            elif sym == "*box":
                f[pos] *= P()(v)
            elif sym == "<<elem":
                f[pos] <<= elem(v)
            else:
                f[pos] <<= P()(v)
        return expect(-n <= pos < n, go)
    if k == "iadds":
        if below > 1 and not owned:
            raise Illegal
        f += o[2]
        return "ok"
    if k == "imuls":
        f *= o[2]
        return "ok"
    if k in ("iaddf", "imulf"):
        if below != wanted:
            raise Illegal
        g = raw.mk_fiber(o[2], below, default)
        if k == "iaddf":
            f += g
        else:
            f *= g
        return "ok"
    if k == "assign":
        if below != wanted:
            raise Illegal
        g = raw.mk_fiber(o[2], below, default)
        if o[3]:
            t = raw.T().fromFiber(rank_ids=gens.RANKS[:below], fiber=g, default=default)
            g = t.getRoot()
        if owned and not o[2] and not o[3]:
            g = Fiber()           # an empty fiber that knows nothing of its rank
        f <<= g
        return "ok"
    if k == "populate":
        if below != wanted:
            raise Illegal
        a = raw.mk_fiber(o[2], below, default)
        run_body(f, a, o[3], below, o[4], default)
        return "ok"
    if k == "iterref":
        kind, s, e, step, a, v = o[2:]
        it = {"shape": lambda: f.iterShapeRef(), "active": lambda: f.iterActiveShapeRef(),
              "range": lambda: f.iterRangeShapeRef(s, e, step)}[kind]()
        for c, p in it:
            if below == 1:
                act(p, a, v)
        return "ok"
    if k == "coiterref":
        g, lvl2 = target(root, o[2])
        if lvl2 != lvl or (g is f and o[1] != o[2]):
            raise Illegal
        kind, s, e, step = o[3:]
        fs = [f, g]
        it = {"shape": lambda: Fiber.coiterShapeRef(fs),
              "active": lambda: Fiber.coiterActiveShapeRef(fs),
              "range": lambda: Fiber.coiterRangeShapeRef(fs, s, e, step)}[kind]()
        for c, ps in it:
            pass
        return "ok"
    if k == "clear":
        f.clear()
        return "ok"
    if k in ("lookup", "insert"):
        if below != wanted or (o[3] is None and (k == "insert" or not owned)):
            raise Illegal
        v = o[3]
        if below > 1 and v is not None:
            v = raw.mk_fiber(v, below - 1, default)
        if k == "lookup":
            had = f.payloads[f.coords.index(o[2])] if o[2] in f.coords else None
            got = f.insertOrLookup(o[2], v)
            check(o[2] in f.coords and got is f.payloads[f.coords.index(o[2])],
                  "insertOrLookup({}) does not return the stored payload", o[2])
            check(had is None or got is had, "insertOrLookup({}) replaced the payload", o[2])
            return "ok"
        return expect(o[2] not in f.coords, lambda: f.insert(o[2], v))
    raise AssertionError(k)


def expect(ok, fn):
    """Call fn; it must raise iff not ok."""
    try:
        fn()
    except Violation:
        raise
    except Exception as e:
        if ok:
            raise
        return "reject"
    if not ok:
        raise Violation("an operation that must be rejected was accepted")
    return "ok"
