"""C16: traces are well-formed: one sorted, correctly addressed row per traced event."""
from .core import HYP, Sub, Violation, check, check_eq  # noqa
from hypothesis import strategies as st
import bisect

from . import c15, gens, nest, raw
from .raw import F, P, T, M

PROP = "C16"
RULE = ("random loop nests (depth 1-3; any operand trees, formats and shapes; co-iteration, "
        "projection, population, shape loops, probes) with random traces in files and in memory; "
        "oracle: an independent simulation of the nest on plain lists gives every row's "
        "coordinates and position. Non-trivial: the registered traces hold at least five rows.")
ASSUMPTIONS = [
    "co-iterated ranks share their name; loops run to completion",
    "positions in uncompressed followers, probes and destinations are not prescribed",
    "`-` and `^` emit no traces of their own",
]


def known(case):
    """Every trace the nest can emit: [(rank, type)]."""
    out = []
    for li, r in enumerate(case["ranks"]):
        out.append((r, "iter"))
        lab = 0
        if r in case["z"]["ranks"]:
            out += [(r, "populate_1"), (r, "populate_read_0"), (r, "populate_write_0")]
            lab = 2

        def walk(e):
            nonlocal lab
            k = e[0]
            if k == "f":
                if r in case["ops"][e[1]]["proj"]:
                    out.append((r + "x", f"project_{lab}"))
                    lab += 1
                return
            if k in ("inter", "union"):
                op = "and" if k == "inter" else "or"
                x = e[1]
                for y in e[2:]:
                    x = [op, x, y]
                return walk(x)
            if k == "lf":
                out.extend((r, f"intersect_{lab + i}") for i in range(len(e) - 1))
                lab += len(e) - 1
            elif k in ("and", "or"):
                out.extend((r, ("intersect_" if k == "and" else "union_") + str(lab + i))
                           for i in range(2))
                lab += 2
            elif k not in ("xor", "sub"):
                return
            for x in e[1:]:
                walk(x)
        walk(case["levels"][li])
    for lv, i, pc, tr in case["probes"]:
        if tr and case["ranks"][lv] in case["ops"][i]["ranks"]:
            out.append((nest.opid(case["ops"][i], case["ranks"][lv]), "probe"))
    return list(dict.fromkeys(out))


@st.composite
def traced(draw):
    case = draw(nest.nests())
    pool = known(case)
    if draw(st.integers(0, 2)) == 0:
        chosen = pool
    else:
        chosen = [pool[i] for i in sorted(draw(st.sets(st.integers(0, len(pool) - 1),
                                                       min_size=1, max_size=5)))]
    traces = [[r, t, draw(st.sampled_from(["file", "file", "mem", "both"]))] for r, t in chosen]
    for x in draw(st.lists(st.sampled_from([["M", "intersect_7"], ["K", "project_0"],
                                            ["N", "iter"], ["Q", "iter"], ["M", "iter"]]),
                           max_size=2)):
        if tuple(x) not in chosen and x not in [t[:2] for t in traces]:
            traces.append(x + ["file"])
    return {"kind": "nest", "case": case, "traces": traces,
            "flush": draw(st.sampled_from([2, 2, 3, 3, 4, 5, 6, 1000])),
            "flush2": draw(st.sampled_from([2, 3, 4, 7, 11, 1000])),
            "eat": draw(st.sampled_from([0, 0, 1, 2, 3, 5])), "stop": None}


def collect(prog, d, name, flush):
    """{(rank, type): (header, rows) or None} of one session, files and memory compared."""
    r = c15.execute(dict(prog, flush=flush), prefix=f"{d}/{name}")
    out = {}
    for rank, typ, how in prog["traces"]:
        got = mem = None
        if how != "mem":
            out[rank, typ] = got = nest.readtrace(f"{d}/{name}-{rank}-{typ}.csv")
        if how != "file":
            m = r.mem.get((rank, typ), [])
            for row in m[1:]:
                check(all(type(x) is int for x in row),
                      "in-memory {}-{}: row {!r}", rank, typ, row)
            mem = (list(m[0]), [list(x) for x in m[1:]]) if m else None
            if how == "both":
                check_eq(mem, got, f"in-memory trace {rank}-{typ} against the file")
            out[rank, typ] = mem
    return r, out


def run(prog, ctx):
    case = prog["case"]
    nest.reset()
    with nest.Scratch() as d:
        r, got = collect(prog, d, "a", prog["flush"])
        files = c15.files(d)
        r2, again = collect(prog, d, "b", prog["flush2"])
        for f, text in c15.files(d).items():
            if f.startswith("b-"):
                if files.get("a" + f[1:]) != text:
                    raise Violation(f"{f[2:]} with rows flushed every {prog['flush2']}: {text!r}, "
                                    f"every {prog['flush']}: {files.get('a' + f[1:])!r}")
        check_eq(again, got, f"traces with flush threshold {prog['flush2']}, not {prog['flush']}")
    sim = nest.Sim(case)
    # the simulation agrees with what the driver observed
    want = {x: len(b) for x, b in zip(case["ranks"], sim.bodies)}
    check_eq(r.bodies, want, "bodies executed")
    total = judge(case, sim, got, ctx)
    ctx.label(f"depth{len(case['ranks'])}", f"flush{prog['flush']}",
              *(t[1].rstrip("0123456789") for t in prog["traces"] if got.get((t[0], t[1]))
                and got[t[0], t[1]][1]),
              *(e[0] for e in case["levels"]))
    ctx.nt(total >= 5)


def judge(case, sim, got, ctx):
    total = 0
    ranks = case["ranks"]
    stamps = {}                         # path of a body -> stamp, from the iter traces
    parsed = {}
    for (rank, typ), res in got.items():
        what = f"trace {rank}-{typ}"
        loop = rank[0]
        rows = sim.rows.get((rank, typ), [])
        inserted = [] if not typ.startswith("populate_") or typ[9].isdigit() else \
            [e for e in sim.loose.get((loop, int(typ.rsplit("_", 1)[1])), []) if e["ins"]]
        if res is None:
            check(not rows and not any(e["write"] for e in inserted),
                  "{}: nothing was emitted, expected {} rows", what, len(rows))
            continue
        header, data = res
        check(loop in ranks, "{}: rank {} is no loop rank but has a header", what, loop)
        n = ranks.index(loop) + 1
        check_eq(header, [x + "_pos" for x in ranks[:n]] + ranks[:n] + ["fiber_pos"],
                 what + ": header")
        total += len(data)
        split = []
        for row in data:
            check_eq(len(row), 2 * n + 1, f"{what}: length of row {row}")
            split.append((tuple(row[:n]), tuple(row[n:2 * n]), row[-1]))
        parsed[rank, typ] = split
        last = None
        for s, c, p in split:
            if last is not None:
                check(last < s if typ == "iter" else last <= s,
                      "{}: stamp {} after {}", what, s, last)
            last = s
        free = {e["at"] for e in inserted}
        plain = [(c, p) for s, c, p in split if c[:-1] not in free]
        check_eq([c for c, p in plain], [c for c, p in rows], what + ": coordinates of the rows")
        for (c, p), (_, q) in zip(plain, rows):
            if q is not None:
                check_eq(p, q, f"{what}: position of the row at {c}")
        if typ == "iter":
            for s, c, p in split:
                stamps[c] = s
        for e in inserted:
            part = [(s, c[-1], p) for s, c, p in split if c[:-1] == e["at"]]
            inserting(case, e, typ, part, what)
            ctx.label("inserting", *(["staged"] if e["staged"] else []))
    # upper stamps address the body of the upper loop
    for (rank, typ), split in parsed.items():
        pre = {}
        for s, c, p in split:
            up = c[:-1]
            check(pre.setdefault(s[:-1], up) == up, "trace {}-{}: stamp {} stands for both {} "
                  "and {}", rank, typ, s[:-1], pre.get(s[:-1]), up)
            if up in stamps:
                check_eq(s[:-1], stamps[up], f"trace {rank}-{typ}: upper stamp of row {c}")
    for (rank, typ), split in parsed.items():
        # the access that serves an iteration carries the stamp of that iteration (operands of
        # an inner expression are fetched ahead)
        if outermost(case, rank, typ):
            free = {e["at"] for e in sim.loose.get((rank, 0), []) if e["ins"]}
            for s, c, p in split:
                if c in stamps and c[:-1] not in free:
                    check_eq(s, stamps[c], f"trace {rank}-{typ}: stamp of the row at {c}")
    return total


def outermost(case, rank, typ):
    if rank not in case["ranks"]:
        return False
    e = case["levels"][case["ranks"].index(rank)]
    base = 2 if rank in case["z"]["ranks"] else 0
    if typ == "populate_1":
        return True
    if not typ.startswith(("intersect_", "union_")) or e[0] in ("xor", "sub"):
        return False
    return int(typ.split("_")[1]) < base + (len(e) - 1 if e[0] == "lf" else 2)


def inserting(case, e, typ, part, what):
    """Destination side of a populate that inserts into stored elements."""
    z = case["z"]
    coords = [c for s, c, p in part]
    kind = typ.split("_")[1]
    sh = None
    if z["known"]:
        r = case["ranks"][len(e["at"])]
        sh = case["dims"][r] + 4
    for c in e[kind]:
        check(c in coords, "{}: no {} of coordinate {} of the destination at {}", what, kind, c,
              e["at"])
    legal = set(e["init"]) | set(e["write"]) | set(e["read"]) | set(e["final"])
    for c in coords:
        check(c in legal, "{}: coordinate {} is not in the destination at {}", what, c, e["at"])
    if sh is None:
        return
    stage = [c for s, c, p in part if p >= sh]
    check_eq(sorted(stage), sorted(e["staged"]), f"{what}: staged coordinates at {e['at']}")
    if kind == "write":
        check_eq(stage, e["staged"], f"{what}: order of the staged coordinates at {e['at']}")
        for c in e["staged"]:
            at = e["final"].index(c)
            check(any(x == c and p == at for s, x, p in part),
                  "{}: inserted coordinate {} is never written to its position {}", what, c, at)
        if not e["removed"]:
            mem = dict(enumerate(e["init"]))
            for s, c, p in part:
                mem[p] = c
            check_eq([mem.get(i) for i in range(len(e["final"]))], e["final"],
                     f"{what}: destination at {e['at']} after replaying the writes")


# ---------------------------------------------------------------- flattened ranks

@st.composite
def flats(draw):
    n = draw(st.sampled_from([2, 2, 3]))
    sh = [draw(st.integers(1, 4)) for _ in range(n)]
    nops = draw(st.integers(1, 2))
    return {"sh": sh, "ops": [draw(st.one_of(gens.rspec(sh), gens.spec(sh)))
                              for _ in range(nops)],
            "levels": draw(st.integers(1, n - 1)), "op": draw(st.sampled_from(["and", "or", "lf"])),
            "pop": draw(st.booleans()), "flush": draw(st.sampled_from([2, 3, 1000])),
            "lower": draw(st.booleans())}


def run_flat(case, ctx):
    """Coordinates of a flattened rank are written as offsets in the associated shape."""
    sh, lv = case["sh"], case["levels"]
    n = len(sh)
    ids = ["M", "K", "N"][:n]
    flat = "".join(ids[:lv + 1])
    rest = ids[lv + 1:]
    ts = []
    for i, sp in enumerate(case["ops"]):
        t = T().fromFiber(rank_ids=list(ids), fiber=raw.mk_fiber(sp, n), shape=list(sh),
                          name="AB"[i])
        t = t.flattenRanks(depth=0, levels=lv, coord_style="tuple")
        t.setRankIds([flat] + rest)
        ts.append(t)
    Z = T()(rank_ids=[flat], shape=[tuple(sh[:lv + 1])], name="Z")

    def lin(c):
        out = 0
        for x, s in zip(c, sh):
            out = out * s + x
        return out

    def content(sp):
        """Non-empty elements of the flattened rank: [(tuple, stored position, spec below)]."""
        out, pos = [], 0

        def walk(node, path, d):
            nonlocal pos
            for c, v in node:
                if d < lv:
                    walk(v, path + (c,), d + 1)
                else:
                    out.append((path + (c,), v))
        walk(sp, (), 0)
        return out
    lists = [content(sp) for sp in case["ops"]]

    def has(v):
        return not nest.empty(nest.tolist(v, n - lv - 1) if rest else v)
    stored = [[c for c, _ in raw_elems(t)] for t in ts]
    lists = [[(c, v) for c, v in x if has(v)] for x in lists]
    want = {}
    cs = [[c for c, _ in x] for x in lists]
    if len(ts) == 2:
        a, b = cs
        both = sorted(set(a) & set(b))
        alls = sorted(set(a) | set(b))
        deliver = {"and": both, "or": alls, "lf": a}[case["op"]]
        lab = 2 if case["pop"] else 0
        nm = "union_" if case["op"] == "or" else "intersect_"
        if case["op"] == "or":
            rows = (a, b)
        elif case["op"] == "lf":
            rows = (a, a)
        else:
            rows = fetched(a, b)
        for k in range(2):
            want[flat, nm + str(lab + k)] = [
                ((lin(c),), stored[k].index(c) if c in stored[k] else None) for c in rows[k]]
    else:
        deliver = cs[0]
    want[flat, "iter"] = [((lin(c),), None) for c in deliver]
    if case["pop"]:
        want[flat, "populate_1"] = [((lin(c),), None) for c in deliver]
        want[flat, "populate_write_0"] = [((lin(c),), i) for i, c in enumerate(deliver)]
    low = case["lower"] and rest
    if low:
        below = {c: v for c, v in lists[0]}
        want["N", "iter"] = [((lin(c), x), None) for c in deliver for x, v in below.get(c, []) if v]
    nest.reset()
    with nest.Scratch() as d:
        m = M()
        m.setNumCachedUses(case["flush"])
        m.beginCollect(d + "/t")
        m.associateShape(flat, tuple(sh[:lv + 1]))
        for r, t in want:
            m.trace(r, t)
        fs = [t.getRoot() for t in ts]
        if len(fs) == 1:
            it = fs[0]
        else:
            it = {"and": lambda: fs[0] & fs[1], "or": lambda: fs[0] | fs[1],
                  "lf": lambda: F().intersection(*fs, style="leader-follower")}[case["op"]]()
        seen = []
        for c, p in (Z.getRoot() << it if case["pop"] else it):
            seen.append(c)
            if case["pop"]:
                z, p = P().get(p)
                z += 1
            if low:
                f = p
                if len(fs) == 2:
                    f = P().get(p)[1 if case["op"] == "or" else 0]
                for x, v in f:
                    pass
        m.endCollect()
        check_eq(seen, deliver, "delivered coordinates")
        for (r, t), rows in want.items():
            res = nest.readtrace(f"{d}/t-{r}-{t}.csv")
            names = [flat] + (["N"] if r == "N" else [])
            if res is None:
                check(not rows, "trace {}-{}: nothing was emitted", r, t)
                continue
            check_eq(res[0], [x + "_pos" for x in names] + names + ["fiber_pos"],
                     f"trace {r}-{t}: header")
            k = len(names)
            check_eq([tuple(x[k:2 * k]) for x in res[1]], [c for c, _ in rows],
                     f"trace {r}-{t}: coordinates")
            stamps = [tuple(x[:k]) for x in res[1]]
            check(all(a < b if t == "iter" else a <= b for a, b in zip(stamps, stamps[1:])),
                  "trace {}-{}: stamps {}", r, t, stamps)
            for x, (c, q) in zip(res[1], rows):
                if q is not None:
                    check_eq(x[-1], q, f"trace {r}-{t}: position of the row at {c}")
    ctx.label(case["op"] if len(ts) == 2 else "single", "pop" if case["pop"] else "nopop")
    ctx.nt(len(deliver) >= 2)


def raw_elems(t):
    f = t.getRoot()
    return list(zip(f.coords, f.payloads))


def fetched(a, b):
    """Coordinates a two-finger intersection fetches on either side."""
    i = j = 0
    while i < len(a) and j < len(b):
        if a[i] == b[j]:
            i, j = i + 1, j + 1
        elif a[i] < b[j]:
            i += 1
        else:
            j += 1
    return a[:i + 1], b[:j + 1]


# ---------------------------------------------------------------- eager loads

@st.composite
def eagers(draw):
    n = draw(st.sampled_from([1, 2, 2, 3]))
    sh = [draw(st.integers(1, 4)) for _ in range(n)]
    top = draw(st.integers(0, n - 1))
    return {"sh": sh, "spec": draw(st.one_of(gens.rspec(sh), gens.spec(sh))), "at": top,
            "ranks": sorted(draw(st.sets(st.integers(top, n - 1), min_size=1))),
            "mem": draw(st.booleans()), "own": draw(st.booleans()) if top == 0 else False,
            "after": draw(st.booleans()), "flush": draw(st.sampled_from([2, 3, 1000]))}


def run_eager(case, ctx):
    """Fiber.trace(): one row per element of the sub-tree, wherever in the nest it is called."""
    sh, top = case["sh"], case["at"]
    n = len(sh)
    ids = ["M", "K", "N"][:n]
    t = T().fromFiber(rank_ids=list(ids), fiber=raw.mk_fiber(case["spec"], n), shape=list(sh))
    tree = nest.tolist(case["spec"], n)
    want = {ids[r]: [] for r in case["ranks"]}

    def walk(node, path, pos, d):
        for i, (c, v) in enumerate(node):
            if nest.empty(v):
                continue
            if d >= top and ids[d] in want:
                want[ids[d]].append((path + (c,), i))
            if d + 1 < n:
                walk(v, path + (c,), None, d + 1)
    walk(tree, (), None, 0)
    nest.reset()
    m = M()
    with nest.Scratch() as d:
        m.setNumCachedUses(case["flush"])
        m.beginCollect(d + "/t")
        for r in ids:
            m.registerRank(r)
        for r in want:
            m.trace(r, "eager")
            if case["mem"]:
                m.trace(r, "eager", consumable=True)
        own = [0] * n if case["own"] else None

        def loop(f, dep):
            if dep == top:
                f.trace("eager", iteration_num=own) if own is not None else f.trace("eager")
                if not case["after"]:
                    return
            if dep == n:
                return
            for c, p in f:
                if dep + 1 < n:
                    loop(p, dep + 1) if dep < top else inner(p, dep + 1)

        def inner(f, dep):
            for c, p in f:
                if dep + 1 < n:
                    inner(p, dep + 1)
        loop(t.getRoot(), 0)
        mem = {r: m.consumeTrace(r, "eager") for r in want} if case["mem"] else {}
        m.endCollect()
        total = 0
        for r, rows in want.items():
            k = ids.index(r) + 1
            res = nest.readtrace(f"{d}/t-{r}-eager.csv")
            check(res is not None, "eager trace of {}: no header", r)
            check_eq(res[0], [x + "_pos" for x in ids[:k]] + ids[:k] + ["fiber_pos"],
                     f"eager trace of {r}: header")
            check_eq([(tuple(x[k:2 * k]), x[-1]) for x in res[1]], rows, f"eager trace of {r}")
            stamps = [tuple(x[:k]) for x in res[1]]
            check(all(a <= b for a, b in zip(stamps, stamps[1:])), "eager trace of {}: stamps {}",
                  r, stamps)
            if case["mem"]:
                check_eq([list(x) for x in mem[r]], [res[0]] + res[1],
                         f"eager trace of {r} in memory")
            total += len(rows)
    ctx.label(f"depth{n}", f"at{top}", "own" if case["own"] else "auto")
    ctx.nt(total >= 2)


# ---------------------------------------------------------------- the collector on its own

def run_calls(ops, ctx):
    """Model of the collector: what every call answers and what every trace holds."""
    order, label, it, point = [], {}, [], []
    link = {}
    traces = {}                     # (rank, type, in memory) -> rows
    answers = []

    def loop(r):
        return r if r in order else link.get(r) if link.get(r) in order else None

    def header(r):
        n = order.index(loop(r)) + 1
        return [x + "_pos" for x in order[:n]] + order[:n] + ["fiber_pos"]

    def open_(r):
        for k, rows in traces.items():
            if k[0] == r and rows is None:
                traces[k] = [header(r)]
    for op, *a in ops:
        if op == "registerRank":
            r = a[0]
            order.append(r)
            label[r] = 0
            it.append(0)
            point.append(0)
            for x in [r] + [k for k, v in link.items() if v == r]:
                open_(x)
            answers.append((op, None))
        elif op == "matchRanks":
            r, x = sorted(a, key=len)
            link[x] = r
            if r in order:
                open_(x)
            answers.append((op, None))
        elif op == "trace":
            traces[tuple(a)] = [header(a[0])] if loop(a[0]) else None
        elif op == "addUse":
            r, c, pos, typ, own = a
            i = order.index(loop(r))
            if r in order:
                point[i] = c
            for k in (False, True):
                if (r, typ, k) in traces:
                    traces[r, typ, k].append((own or it)[:i + 1] + point[:i] + [c, pos])
        elif op == "incIter":
            it[order.index(loop(a[0]))] += 1
            answers.append((op, None))
        elif op == "endIter":
            it[order.index(loop(a[0]))] = 0
            label[a[0]] = 0
            answers.append((op, None))
        elif op == "getLabel":
            r = loop(a[0]) or a[0]
            label.setdefault(r, 0)
            answers.append((op, label[r]))
            label[r] += 1
        elif op == "getIndex":
            answers.append((op, order.index(loop(a[0]))))
        elif op == "getIter":
            answers.append((op, list(it)))
        elif op == "getPoint":
            answers.append((op, list(point)))
        elif op == "setNumCachedUses":
            answers.append((op, None))
    answers.append(("dump", "{}"))
    nest.reset()
    M().setNumCachedUses(3)
    with nest.Scratch() as d:
        got, mem = c15.direct(ops, d + "/t")
        check_eq(got, answers, "answers of the collector")
        for (r, typ, k), rows in traces.items():
            if k:
                check_eq(mem[r, typ], rows or [], f"in-memory trace {r}-{typ}")
            else:
                text = "".join(",".join(map(str, x)) + "\n" for x in rows or [])
                check_eq(c15.files(d).get(f"t-{r}-{typ}.csv", ""), text, f"trace {r}-{typ}")
    ctx.label(*(o[0] for o in ops))
    ctx.nt(any(len(x or []) >= 3 for x in traces.values()))


SUBS = [
    Sub("nests", run, traced, quick=6000, thorough=150000),
    Sub("calls", run_calls, c15.calls, quick=2500, thorough=60000,
        rule="non-trivial: a trace with at least two rows"),
    Sub("flat", run_flat, flats, quick=1200, thorough=25000,
        rule="non-trivial: at least two elements of the flattened rank delivered"),
    Sub("eager", run_eager, eagers, quick=1200, thorough=25000,
        rule="non-trivial: at least two rows"),
]
