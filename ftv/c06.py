"""C06: kernel results do not depend on the dataflow."""
from .core import HYP, Sub, Violation, check, check_eq  # noqa
from hypothesis import strategies as st
import itertools

from . import gens, raw
from .raw import F, P, T

PROP = "C06"
RULE = ("random sum-of-products expressions (1-4 operands over 1-4 index variables, any output "
        "index set) run in the library's idiom under a random loop order, tiling, intersection "
        "style and format assignment; oracle: dense evaluation. Non-trivial: the result has at "
        "least one non-zero value and the nest has at least two loops.")
ASSUMPTIONS = ["operands have default 0 (absent means zero in a sum of products)"]

IDX = ["I", "J", "K", "L"]


@st.composite
def expression(draw, nidx=None):
    n = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 3, 4])) if nidx is None else nidx
    idx = IDX[:n]
    k = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    ops = [draw(st.sets(st.sampled_from(idx), min_size=1)) for _ in range(k)]
    missing = set(idx) - set().union(*ops)
    for m in sorted(missing):
        ops[draw(st.integers(0, k - 1))].add(m)
    out = {i for i in idx if draw(st.integers(0, 2)) > 0}
    return {"idx": idx, "ops": ["".join(draw(st.permutations(sorted(o)))) for o in ops],
            "out": "".join(draw(st.permutations(sorted(out))))}


@st.composite
def kernel(draw, formats=True, maxdim=None, nidx=None):
    e = draw(expression(nidx))
    n = len(e["idx"])
    top = maxdim or {1: 10, 2: 6, 3: 4, 4: 3}[n]
    dims = {i: draw(st.sampled_from([top, top - 1, top - 2] + list(range(1, top + 1))))
            for i in e["idx"]}
    dims = {i: max(1, d) for i, d in dims.items()}
    big = gens.wide(draw, sizes=[17, 24, 33] + [300] * (n == 1), rare=24)
    if big and not maxdim:
        dims[draw(st.sampled_from(e["idx"]))] = big
    vals = st.sampled_from([1, 2, 3, -1, -2, 0, 1, 5, 0, 300, 1 << 40])
    case = {"e": e, "dims": dims, "data": [], "tiles": {}, "rel": draw(st.booleans()),
            "known": draw(st.booleans()), "u": [], "style": None}
    for o in e["ops"]:
        sh = [dims[i] for i in o]
        case["data"].append(draw(gens.spec(sh, vals=vals) if draw(st.integers(0, 4)) == 0
                                 else gens.rspec(sh)))
    loops = []
    for i in e["idx"]:
        tiles = draw(st.sampled_from([[], [], [1], [1, 1]]))
        tiles = sorted((draw(st.integers(1, dims[i] + 1)) for _ in tiles), reverse=True)
        case["tiles"][i] = tiles
        loops += [f"{i}{lv}" for lv in range(len(tiles) + 1)]
    case["order"] = draw(st.permutations(loops))
    case["style"] = draw(st.lists(st.sampled_from(["nested", "two-finger", "leader-follower"]),
                                  min_size=1, max_size=3))
    case["lead"] = draw(st.integers(0, 5))
    case["filter"] = draw(st.booleans())
    case["swap"] = draw(st.booleans())
    if formats and draw(st.integers(0, 3)) == 0 and case["known"]:
        case["u"] = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 5)), max_size=4))
    return case


def reference(e, dims, datas):
    """Dense evaluation: {output point: value} without zeros."""
    out = {}
    for pt in itertools.product(*[range(dims[i]) for i in e["idx"]]):
        env = dict(zip(e["idx"], pt))
        v = 1
        for o, d in zip(e["ops"], datas):
            v *= d.get(tuple(env[i] for i in o), 0)
            if not v:
                break
        if v:
            k = tuple(env[i] for i in e["out"])
            out[k] = out.get(k, 0) + v
    return {k: v for k, v in out.items() if v}


def prepare(case):
    """Tensors of the operands, tiled and swizzled; returns per operand (tensor, loop names)."""
    e, dims = case["e"], case["dims"]
    res = []
    for n, (o, sp) in enumerate(zip(e["ops"], case["data"])):
        f = raw.mk_fiber(sp, len(o))
        t = T().fromFiber(rank_ids=list(o), fiber=f, name="ABCD"[n],
                          shape=[dims[i] for i in o] if case["known"] else None)
        names = []
        for i in o:
            pos = len(names)
            tiles = case["tiles"][i]
            for lv, size in enumerate(tiles):
                if case["swap"]:
                    t = t.splitUniform(size, depth=pos + lv, relativeCoords=case["rel"])
                else:
                    t = t.splitUniform(size, rankid=t.getRankIds()[pos + lv],
                                       relativeCoords=case["rel"])
            names += [f"{i}{lv}" for lv in range(len(tiles) + 1)]
        want = [x for x in case["order"] if x in names]
        if want != names:
            ids = t.getRankIds()
            t = t.swizzleRanks([ids[names.index(x)] for x in want])
        for k, d in case["u"]:
            if k == n and d < len(want):
                t.setFormat(t.getRankIds()[d], "U")
        res.append((t, want))
    return res


def output(case):
    names = [x for x in case["order"] if x[0] in case["e"]["out"]]
    return T()(rank_ids=names, name="Z"), names


def execute(case, operands, Z, znames, hooks=None):
    """The loop nest."""
    order, F_ = case["order"], F()
    last = len(order)
    hooks = hooks or {}

    def coiter(fs, level):
        if len(fs) == 1:
            return fs[0], lambda p: (p,)
        style = case["style"][level % len(case["style"])]
        if style == "nested":
            lazy = fs[0]
            for f in fs[1:]:
                lazy = lazy & f

            def flat(p):
                out = []
                for _ in fs[1:]:
                    p, x = P().get(p)
                    out.insert(0, x)
                return (p, *out)
            return lazy, flat
        if style == "two-finger":
            return F_.intersection(*fs), lambda p: tuple(P().get(p))
        lead = case["lead"] % len(fs)
        perm = [lead] + [i for i in range(len(fs)) if i != lead]
        lazy = F_.intersection(*[fs[i] for i in perm], style="leader-follower")

        def unperm(p):
            p = P().get(p)
            out = [None] * len(fs)
            for i, x in zip(perm, p):
                out[i] = x
            return tuple(out)
        return lazy, unperm

    def nest(level, cur, z):
        if level == last:
            prod = cur[0]
            for x in cur[1:]:
                prod = prod * x
                if "mul" in hooks:
                    hooks["mul"]()
            if case["filter"] and prod == 0:
                return
            if "upd" in hooks:
                hooks["upd"](prod, len(cur))
            if "z" in hooks:
                hooks["z"](z, prod)
            z += prod
            return
        r = order[level]
        part = [i for i, (_, names) in enumerate(operands) if r in names]
        lazy, unpack = coiter([cur[i] for i in part], level)
        if r in znames:
            for c, (zr, p) in z << lazy:
                if "body" in hooks:
                    hooks["body"](level)
                nxt = list(cur)
                for i, x in zip(part, unpack(p)):
                    nxt[i] = x
                nest(level + 1, nxt, zr)
        else:
            for c, p in lazy:
                if "body" in hooks:
                    hooks["body"](level)
                nxt = list(cur)
                for i, x in zip(part, unpack(p)):
                    nxt[i] = x
                nest(level + 1, nxt, z)

    nest(0, [t.getRoot() for t, _ in operands], Z.getRoot())


def outcontent(case, Z, znames):
    """Content of the output with tiled coordinates put back together."""
    e = case["e"]
    got = {}
    for pt, v in raw.tcontent(Z).items():
        if not v:
            continue            # a rank-0 output holding zero
        env = dict(zip(znames, pt))
        key = []
        for i in e["out"]:
            lv = len(case["tiles"][i])
            cs = [env[f"{i}{x}"] for x in range(lv + 1)]
            if case["rel"]:
                c = sum(cs)
            else:
                c = cs[-1]
                for up, size in zip(cs, case["tiles"][i]):
                    check(up <= c < up + size, "output point {} lies in the wrong tile", env)
            key.append(c)
        key = tuple(key)
        check(key not in got, "output point {} appears in two tiles", key)
        got[key] = v
    return got


def run(case, ctx):
    e = case["e"]
    datas = [raw.spec_content(sp, len(o)) for o, sp in zip(e["ops"], case["data"])]
    ops = prepare(case)
    snaps = [raw.tsnap(t, ids=True) for t, _ in ops]
    Z, znames = output(case)
    execute(case, ops, Z, znames)
    want = reference(e, case["dims"], datas)
    got = outcontent(case, Z, znames)
    desc = f"{e['out']} = {' * '.join(e['ops'])}, loops {case['order']}, tiles {case['tiles']}"
    check_eq(got, want, f"result of {desc}")
    if znames:
        raw.wellformed(Z.getRoot(), len(znames))
    raw.rank_mirror(Z, "Z")
    for (t, _), s in zip(ops, snaps):
        if raw.tsnap(t, ids=True) != s:
            raise Violation(f"operand {t.getName()} was changed by the kernel")
    ctx.label(f"ops{len(e['ops'])}", f"idx{len(e['idx'])}", f"out{len(e['out'])}",
              "tiled" if any(case["tiles"].values()) else "untiled",
              *set(case["style"] if len(e["ops"]) > 1 else ["single"]), "U" if case["u"] else "C",
              "emptyop" if any(not d for d in datas) else "fullops")
    ctx.nt(bool(want) and len(case["order"]) >= 2)


# ------------------------------------------------ one data set, all loop orders

@st.composite
def sweep(draw):
    c = draw(kernel(formats=False, nidx=draw(st.sampled_from([1, 2, 2, 3]))))
    c["u"] = []
    return c


def run_sweep(case, ctx):
    """Every loop order, both styles, on the same operands."""
    e = case["e"]
    datas = [raw.spec_content(sp, len(o)) for o, sp in zip(e["ops"], case["data"])]
    want = reference(e, case["dims"], datas)
    loops = sorted(case["order"])
    orders = list(itertools.permutations(loops))
    step = max(1, len(orders) // 12)
    for order in orders[::step]:
        for style in ("nested", "two-finger", "leader-follower"):
            if len(e["ops"]) == 1 and style != "nested":
                continue
            k = dict(case, order=list(order), style=[style])
            Z, zn = output(k)
            execute(k, prepare(k), Z, zn)
            check_eq(outcontent(k, Z, zn), want,
                     f"{e['out']} = {' * '.join(e['ops'])}, loops {order}, {style}")
    ctx.nt(bool(want) and len(loops) >= 2)


SUBS = [
    Sub("kernels", run, kernel, quick=9000, thorough=250000),
    Sub("sweep", run_sweep, sweep, quick=500, thorough=15000),
]
