"""C05: populate offers exactly a's coordinates and keeps only what was written."""
from .core import HYP, Sub, Violation, check, check_eq  # noqa
from hypothesis import strategies as st
import itertools

from . import gens, raw
from .raw import F, P, T

PROP = "C05"
RULE = ("nested loops `for c, (z_ref, a_val) in z << a` with a generated body; the destination is "
        "compared as a tree with a model of override semantics. Non-trivial: at least two "
        "references were offered, and either one was left at the default while another was not, "
        "or the destination already held elements.")
ASSUMPTIONS = ["loop bodies run to completion (no break), and touch z only through the offered "
               "references"]

ACTS = ["none", "set", "set", "setbox", "add", "sub", "mul", "zero", "setzero", "cancel"]
V = st.sampled_from([1, 2, 3, -1, 5, 300, 1000])


def leafact(ref, act, v, default):
    """Perform the action, return the new value as the model sees it."""
    if act == "set":
        ref <<= v
        return lambda x: v
    if act == "setbox":
        ref <<= P()(v)
        return lambda x: v
    if act == "add":
        ref += v
        return lambda x: x + v
    if act == "sub":
        ref -= P()(v)
        return lambda x: x - v
    if act == "mul":
        ref *= v
        return lambda x: x * v
    if act == "zero":
        ref <<= default
        return lambda x: default
    if act == "setzero":
        ref <<= v
        ref <<= P()(default)
        return lambda x: default
    if act == "cancel":
        ref += v
        ref -= v
        return lambda x: x
    return lambda x: x


# The model works on trees {coord: child}

def totree(spec, depth):
    if depth == 1:
        return {c: v for c, v in spec}
    return {c: totree(s, depth - 1) for c, s in spec}


def tree_empty(t, depth, default):
    if depth == 1:
        return all(v == default for v in t.values())
    return all(tree_empty(s, depth - 1, default) for s in t.values())


def raw2tree(f):
    return {c: raw2tree(p) if isinstance(p, F()) else raw.unbox(p)
            for c, p in zip(f.coords, f.payloads)}


class Cut(Exception):
    pass


@st.composite
def source(draw, depth, shape):
    a = {"default": draw(st.sampled_from([0] * 6 + [3, 1000, 0.5])), "own": draw(st.integers(0, 3)) > 0,
         "fmt": None, "active": None}
    a["spec"] = draw(gens.spec(shape, a["default"]))
    if a["own"] and draw(st.integers(0, 3)) == 0:
        a["fmt"] = draw(st.lists(st.sampled_from("CU"), min_size=depth, max_size=depth))
        if draw(st.booleans()):
            lo = draw(st.integers(0, shape[0]))
            a["active"] = (lo, draw(st.integers(lo, shape[0])))
    a["src"] = draw(st.sampled_from(["plain", "plain", "plain", "and", "sub", "or", "shift"]))
    if a["fmt"] is not None:
        a["src"] = "plain"
    if a["src"] in ("and", "sub", "or"):
        a["other"] = draw(gens.spec(shape, a["default"]))
    return a


@st.composite
def case(draw):
    depth = draw(st.sampled_from([1, 1, 1, 2, 2, 2, 3, 3, 4]))
    shape = draw(st.lists(st.integers(1, {1: 8, 2: 5, 3: 3, 4: 2}[depth]), min_size=depth,
                          max_size=depth))
    shape = gens.widen(draw, shape)
    zdef = draw(st.sampled_from([0] * 6 + [3, 1000, 0.5]))
    z = {"spec": draw(st.one_of(st.just([]), gens.spec(shape, zdef))), "default": zdef,
         "own": draw(st.integers(0, 3)) > 0, "known": draw(st.booleans())}
    if not z["own"]:
        # an unowned empty fiber knows nothing about the levels below it, others know one level
        z["own"] = depth > 1 and (not z["spec"] or (depth > 2 and zdef != 0))
    if z["own"] and z["known"] and draw(st.integers(0, 3)) == 0:
        z["fmt"] = draw(st.lists(st.sampled_from("CU"), min_size=depth, max_size=depth))
    if z["own"] and z["known"] and draw(st.integers(0, 4)) == 0:
        lo = draw(st.integers(0, shape[0]))
        z["active"] = (lo, draw(st.integers(lo, shape[0])))
    rounds = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        rounds.append({"a": draw(source(depth, shape)),
                       "leaf": draw(st.lists(st.tuples(st.sampled_from(ACTS), V), min_size=1,
                                             max_size=8)),
                       "down": draw(st.lists(st.sampled_from(["descend", "descend", "descend",
                                                              "descend", "skip", "assign"]),
                                             min_size=1, max_size=5)),
                       "start": draw(st.one_of(st.none(), st.integers(0, 4)))})
    # the level whose coordinates are pairs
    tup = draw(st.sampled_from([None] * 5 + list(range(depth))))
    return {"depth": depth, "shape": shape, "z": z, "rounds": rounds, "tup": tup}


def pairs_at(case, lv):
    """The case with the coordinates of level lv replaced by pairs, in the same order; nothing
    that counts or shifts coordinates is left in it."""
    def tree(spec, d=0):
        return [[(c // 3, c % 3) if d == lv else c, tree(s, d + 1) if isinstance(s, list) else s]
                for c, s in spec]
    rounds = []
    for rd in case["rounds"]:
        a = dict(rd["a"], spec=tree(rd["a"]["spec"]), fmt=None, active=None)
        if a["src"] == "shift":
            a["src"] = "plain"
        if "other" in a:
            a["other"] = tree(a["other"])
        rounds.append(dict(rd, a=a))
    z = dict(case["z"], spec=tree(case["z"]["spec"]), known=False)
    z.pop("fmt", None)
    z.pop("active", None)
    return dict(case, shape=None, z=z, rounds=rounds)


def mk(tc, depth, shape, known=True):
    f = raw.mk_fiber(tc["spec"], depth, tc["default"], shape=shape)
    if not tc["own"]:
        return f, None
    t = T().fromFiber(rank_ids=gens.RANKS[:depth], fiber=f, default=tc["default"],
                      shape=list(shape) if known and shape else None)
    for r, x in zip(gens.RANKS, tc.get("fmt") or []):
        t.setFormat(r, x)
    if tc.get("active") is not None:
        t.getRoot().setActive(tc["active"])
    return t.getRoot(), t


def run(case, ctx):
    if case.get("tup") is not None:
        case = pairs_at(case, case["tup"])
        ctx.label("pairs")
    depth, shape, zc = case["depth"], case["shape"], case["z"]
    z, zt = mk(zc, depth, shape, zc["known"])
    zdef = zc["default"]
    zmodel = totree(zc["spec"], depth)
    stats = {"offered": 0, "kept": 0, "dropped": 0, "hit": 0}
    assigned = False

    for ri, rd in enumerate(case["rounds"]):
        ac = rd["a"]
        a, at = mk(ac, depth, shape)
        src, keep = a, [(a, at)]
        atree = totree(ac["spec"], depth)
        if ac["src"] in ("and", "sub", "or"):
            b, bt = mk({"spec": ac["other"], "default": ac["default"], "own": ac["own"]}, depth,
                       shape)
            keep.append((b, bt))
            btree = totree(ac["other"], depth)
            src = a & b if ac["src"] == "and" else a - b if ac["src"] == "sub" else a | b
        elif ac["src"] == "shift":
            src = a.project(lambda c: c + 1)
        snaps = [raw.snap(t or f, ids=True) for f, t in keep]
        counters = {"leaf": 0, "down": 0}

        def full(tree, d):
            """Present coordinates of a model source."""
            return sorted(c for c, s in tree.items()
                          if (s != ac["default"] if d == 1 else
                              not tree_empty(s, d - 1, ac["default"])))

        def offered(af, tree, level):
            d = depth - level
            if ac["fmt"] and ac["fmt"][level] == "U":
                if level == 0 and ac["active"] is not None:
                    return list(range(*ac["active"]))
                return list(range(shape[level]))
            return full(tree, d)

        def loop(zf, zm, af, tree, level, source, want, path):
            d = depth - level
            prev = dict(zip(zf.coords, zf.payloads))
            kw = {}
            if level == 0 and rd["start"] is not None:
                # legal: everything before the start lies before a's first coordinate
                top = sum(c < want[0] for c in zf.coords) if want else 0
                kw["start_pos"] = min(rd["start"], top)
                lazy = zf.__lshift__(source, **kw)
            else:
                lazy = zf << source
            seen = []
            for c, (ref, av) in lazy:
                what = f"round {ri}, z << a at {path + (c,)}"
                seen.append(c)
                check(len(seen) <= len(want) and want[len(seen) - 1] == c,
                      "{}: offers {}, want {}", what, seen, want)
                stats["offered"] += 1
                # the source's payload
                sub = None
                if level == 0 and ac["src"] in ("and", "or"):
                    av = P().get(av)
                    parts = av[-2:]
                    for x, fib in zip(parts, (a, b)):
                        if c in fib.coords and c in full(totree_of[id(fib)], d):
                            check(x is fib.payloads[fib.coords.index(c)],
                                  "{}: the source's payload is {!r}", what, x)
                    pick = 0 if c in full(atree, d) else 1
                    av = parts[pick]
                    sub = ((atree, btree)[pick]).get(c, {})
                else:
                    oc = c - 1 if level == 0 and ac["src"] == "shift" else c
                    sub = tree.get(oc, {} if d > 1 else ac["default"])
                    if oc in tree and not (af.getOwner() is None and oc not in af.coords):
                        check(av is af.payloads[af.coords.index(oc)],
                              "{}: the source's payload is {!r}, not its stored one", what, av)
                    elif d > 1:
                        check_eq(raw.content(av, ac["default"]), {}, what + " source payload")
                    else:
                        check_eq(raw.val(av), ac["default"], what + " source payload")
                # the reference into z
                check(c in zf.coords and zf.payloads[zf.coords.index(c)] is ref,
                      "{}: the reference is not stored in z", what)
                if c in prev:
                    check(ref is prev[c], "{}: z's existing payload was replaced", what)
                    stats["hit"] += 1
                if zt is None and d > 1 and (zdef != 0 or d > 2) and c not in prev \
                        and len(zf.coords) == 1:
                    # nothing is left that knows the default of the level below
                    raise Cut()
                if d == 1:
                    cur = zm.get(c, zdef)
                    check_eq(raw.unbox(ref), cur, what + " value shown")
                    act, v = rd["leaf"][counters["leaf"] % len(rd["leaf"])]
                    counters["leaf"] += 1
                    new = leafact(ref, act, v, zdef)(cur)
                    if new == zdef:
                        zm.pop(c, None)
                        stats["dropped"] += 1
                    else:
                        zm[c] = new
                        stats["kept"] += 1
                else:
                    zs = zm.setdefault(c, {})
                    check_eq(raw2tree(ref), zs, what + " sub-fiber shown")
                    how = rd["down"][counters["down"] % len(rd["down"])]
                    counters["down"] += 1
                    if how == "assign" and ac["default"] == zdef:
                        ref <<= av
                        zs = prune(sub, d - 1, zdef)
                        zm[c] = zs
                        nonlocal assigned
                        assigned = True
                    elif how != "skip":
                        loop(ref, zs, av, sub, level + 1, av, offered(av, sub, level + 1),
                             path + (c,))
                    if tree_empty(zs, d - 1, zdef):
                        del zm[c]
                        stats["dropped"] += 1
                    else:
                        stats["kept"] += 1
            check_eq(seen, want, f"round {ri}: coordinates offered at {path}")
            for c, p in prev.items():
                if c not in seen:
                    check(c in zf.coords and zf.payloads[zf.coords.index(c)] is p,
                          "round {}: z's element at {}, which a does not present, changed", ri,
                          path + (c,))

        if ac["src"] == "and":
            want = [c for c in full(atree, depth) if c in full(btree, depth)]
        elif ac["src"] == "sub":
            want = [c for c in full(atree, depth) if c not in full(btree, depth)]
        elif ac["src"] == "or":
            want = sorted(set(full(atree, depth)) | set(full(btree, depth)))
        elif ac["src"] == "shift":
            want = [c + 1 for c in full(atree, depth)]
        else:
            want = offered(a, atree, 0)
        totree_of = {id(a): atree}
        if len(keep) > 1:
            totree_of[id(b)] = btree
        try:
            loop(z, zmodel, a, atree, 0, src, want, ())
        except Cut:
            ctx.label("cut")
            return

        what = f"after round {ri}"
        raw.wellformed(z, depth, what)
        got = raw2tree(z)
        if assigned:
            check_eq(prune(got, depth, zdef), prune(zmodel, depth, zdef), "content of z " + what)
            noholes(got, want, depth, zdef, what)
            zmodel = got
        else:
            check_eq(got, zmodel, "z " + what)
        if zt is not None:
            check(zt.getRoot() is z, "{}: z lost its place in the tensor", what)
            raw.rank_mirror(zt, "z " + what)
        for (f, t), s in zip(keep, snaps):
            now = raw.snap(t or f, ids=True)
            if now != s:
                raise Violation(f"{what}: the source changed from {s} to {now}")
        ctx.label(ac["src"], "U" if ac["fmt"] and "U" in ac["fmt"] else "C",
                  "owned" if zt else "unowned", f"d{depth}")
    ctx.nt(stats["offered"] >= 2 and ((stats["kept"] and stats["dropped"]) or stats["hit"]))


def prune(t, d, default):
    """Tree without default leaves and empty sub-trees."""
    if d == 1:
        return {c: v for c, v in t.items() if v != default}
    out = {c: prune(s, d - 1, default) for c, s in t.items()}
    return {c: s for c, s in out.items() if s}


def noholes(t, offered, d, default, what):
    for c in offered:
        if c in t:
            e = t[c] == default if d == 1 else tree_empty(t[c], d - 1, default)
            check(not e, "{}: an empty element is left behind at {}", what, c)


# ---------------------------------------------------------------- exhaustive

def small(tier):
    n = 2 if tier == "quick" else 3
    acts = ["none", "set", "zero", "add", "sub", "cancel"]
    for zs in itertools.product([None, 0, 1], repeat=n):
        for asr in itertools.product([None, 0] + acts, repeat=n):
            for own in (False, True):
                yield (zs, asr, own)


def run_small(case, ctx):
    zs, asr, own = case
    zf = F()([i for i, v in enumerate(zs) if v is not None], [v for v in zs if v is not None])
    zt = None
    if own:
        zt = T().fromFiber(rank_ids=["K"], fiber=zf, shape=[len(zs)])
        zf = zt.getRoot()
    af = F()([i for i, x in enumerate(asr) if x is not None],
             [0 if x == 0 else 7 + i for i, x in enumerate(asr) if x is not None])
    model = {i: v for i, v in enumerate(zs) if v is not None}
    seen = []
    for c, (ref, av) in zf << af:
        check_eq(raw.val(av), 7 + c, f"source payload at {c}")
        check_eq(raw.unbox(ref), model.get(c, 0), f"value shown at {c}")
        new = leafact(ref, asr[c], 1, 0)(model.get(c, 0))
        model.pop(c, None)
        if new:
            model[c] = new
        seen.append(c)
    check_eq(seen, [i for i, x in enumerate(asr) if x not in (None, 0)], "coordinates offered")
    check_eq({c: raw.unbox(p) for c, p in zip(zf.coords, zf.payloads)}, model, "z afterwards")
    raw.wellformed(zf, 1)
    ctx.nt(len(seen) >= 2)


SUBS = [
    Sub("programs", run, case, quick=10000, thorough=300000),
    Sub("small", run_small, exhaustive=small, quick=0, rule="two references offered"),
]
