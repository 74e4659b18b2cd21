"""C17: buffer traffic models charge exactly what their policy implies."""
from .core import HYP, Sub, Violation, check, check_eq  # noqa
from hypothesis import strategies as st
import itertools
import os

from . import c15, c16, gens, nest, raw
from .raw import F, P, T, M

PROP = "C17"
RULE = ("random read and write traces over 1-3 loop ranks (synthetic, and collected from random "
        "kernels) bound to a buffet or a cache of any capacity and line size; oracle: a direct "
        "evaluation of the window rule, a naive furthest-next-use simulation over the merged "
        "access list, and exhaustive search over replacement decisions for short read traces. "
        "Non-trivial: some line is accessed at least twice.")
ASSUMPTIONS = [
    "traces start with a header and are ordered by stamp, as collection emits them",
    "a read and a write with the same stamp: the read comes first (it is a load-modify-store)",
    "evict-on names the root or a loop rank outside the bound rank",
    "a filter trace is at least as deep as the trace it filters",
    "lines holding staged elements stay in the cache until their last use",
]

INF = float("inf")


def coords(case, row):
    """Coordinates of an access: recorded, or made up from its stamp."""
    if len(row) > 2:
        return row[2]
    return [2 * x + i + case.get("skew", 0) * sum(row[0][:i]) for i, x in enumerate(row[0])]


# ---------------------------------------------------------------- generation

@st.composite
def stamps(draw, ext, d, n):
    """Sorted stamps of a trace at depth d."""
    out = draw(st.lists(st.tuples(*[st.integers(0, e - 1) for e in ext[:d]]), max_size=n))
    return sorted(out)


@st.composite
def traffic(draw, writes=True, maxrows=14, nbind=(1, 1, 2, 3)):
    n = draw(st.integers(1, 3))
    ranks = nest.NAMES[:n]
    ext = [draw(st.integers(1, 4)) for _ in ranks]
    binds = []
    top = draw(st.sampled_from([1, 3, 7]))
    for b in range(draw(st.sampled_from(nbind))):
        lv = draw(st.integers(0, n - 1))
        if draw(st.booleans()):
            lv = n - 1
        own = [i for i in range(lv) if draw(st.booleans())] + [lv]
        # a tensor may be bound more than once: same name, other rank or type
        tensor = "ABC"[b]
        typ = draw(st.sampled_from(["coord", "payload", "elem"]))
        if b and draw(st.integers(0, 3)) == 0:
            prev = draw(st.sampled_from(binds))
            if typ != "elem" and prev["type"] not in ("elem", typ):
                tensor, own, lv = prev["tensor"], list(prev["own"]), prev["own"][-1]
                if any((x["tensor"], x["type"]) == (tensor, typ) for x in binds):
                    continue
        pos = st.integers(0, top)
        rd = [[list(s), draw(pos)] for s in draw(stamps(ext, lv + 1, maxrows))]
        wr = None
        if writes and draw(st.integers(0, 2)) == 0:
            wr = [[list(s), draw(pos)] for s in draw(stamps(ext, lv + 1, maxrows))]
            if draw(st.integers(0, 5)) == 0:
                rd = None
        binds.append({"tensor": tensor, "own": own, "type": typ, "read": rd, "write": wr,
                      "bits": draw(st.sampled_from([8, 16, 16, 32, 24])),
                      "evict": draw(st.sampled_from(["root"] + ranks[:lv]
                                               + (ranks[lv:lv + 1]
                                                  if draw(st.integers(0, 3)) == 0 else []))),
                      "shape": draw(st.sampled_from([8, 8, top, max(1, top - 1), 4, 2]))})
    first = {}
    for x in binds:
        y = first.setdefault(x["tensor"], x)
        x["shape"] = y["shape"]
    for x in binds:
        if x["evict"] == ranks[x["own"][-1]]:
            # nothing is staged where every access is evicted at once
            for y in binds:
                if y["tensor"] == x["tensor"]:
                    y["shape"] = 8
    case = {"ranks": ranks, "binds": binds, "line": draw(st.sampled_from([32, 32, 64, 100, 128])),
            "cap": draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4, 5, 1000])),
            "part": draw(st.sampled_from([0, 0, 0, 7])),
            "alias": draw(st.integers(0, 3)) == 0, "outer": draw(st.booleans()),
            "skew": draw(st.sampled_from([0, 1, 2])),
            "order": draw(st.permutations(range(len(binds)))), "flip": draw(st.booleans()),
            "jitter": draw(st.lists(st.integers(0, 7), min_size=4, max_size=4))}
    return case


def setup(case, d):
    """Write the traces; returns bindings, formats, trace file names, loop-rank map."""
    from fibertree.model import Format
    ranks = case["ranks"]
    formats, fns, bindings = {}, {}, []
    specs = {}
    for b in case["binds"]:
        specs.setdefault(b["tensor"], []).append(b)
    lmap = {}
    for name, bs in specs.items():
        own = bs[0]["own"]
        ids = [ranks[i] for i in own]
        if case["alias"]:
            lmap[ids[-1] + "x"] = ids[-1]
            ids[-1] += "x"
            if case.get("outer"):
                # ranks above have names of their own, too
                for i, r in enumerate(ids[:-1]):
                    lmap[r + "x"] = r
                    ids[i] += "x"
        t = T()(rank_ids=ids, shape=[16] * (len(ids) - 1) + [bs[0]["shape"]], name=name)
        sp = {"layout": "interleaved" if bs[0]["type"] == "elem" else "contiguous"}
        for b in bs:
            if b["type"] == "elem":
                sp["cbits"], sp["pbits"] = 8, b["bits"] - 8
            else:
                sp[b["type"][0] + "bits"] = b["bits"]
        formats[name] = Format(t, {ids[-1]: sp})
        for b in bs:
            lv = own[-1]
            for acc in ("read", "write"):
                if b[acc] is None:
                    continue
                fn = f"{d}/{name}-{b['type']}-{acc}.csv"
                with open(fn, "w") as f:
                    f.write(",".join([r + "_pos" for r in ranks[:lv + 1]] + ranks[:lv + 1]
                                     + ["fiber_pos"]) + "\n")
                    for row in b[acc]:
                        f.write(",".join(map(str, row[0] + coords(case, row) + [row[1]])) + "\n")
                fns[name, ids[-1], b["type"], acc] = fn
            bindings.append({"tensor": name, "rank": ids[-1], "type": b["type"],
                             "evict-on": b["evict"] + "x" if case.get("outer")
                             and b["evict"] + "x" in ids and case["alias"] else b["evict"]})
    if case.get("flip"):
        fns = dict(reversed(fns.items()))
    pos = {id(b): i for i, b in enumerate(x for bs in specs.values() for x in bs)}
    bindings = [bindings[pos[id(case["binds"][i])]] for i in case["order"]]
    return bindings, formats, fns, lmap


def merged(case, b):
    """The binding's accesses in order: (stamp, coords, pos, is_write)."""
    rows = [(tuple(r[0]), w, i, coords(case, r), r[1])
            for w, acc in enumerate(("read", "write")) for i, r in enumerate(b[acc] or [])]
    # stable merge by stamp, reads first
    return [(s, c, p, bool(w)) for s, w, i, c, p in sorted(rows)]


def lines(case, b):
    per = case["line"] // b["bits"]
    return [(s, tuple(c[i] for i in b["own"][:-1]) + (p // per,), w,
             b["write"] is not None and p >= b["shape"]) for s, c, p, w in merged(case, b)]


# ---------------------------------------------------------------- oracles

def buffet(case):
    out = {}
    for b in case["binds"]:
        t = out.setdefault(b["tensor"], {})
        for acc in ("read", "write"):
            if b[acc] is not None:
                t.setdefault(acc, 0)
        k = 0 if b["evict"] == "root" else case["ranks"].index(b["evict"]) + 1
        groups = {}
        for s, line, w, staged in lines(case, b):
            groups.setdefault((s[:k], line), []).append((w, staged))
        for g in groups.values():
            if not g[0][0]:
                t["read"] += case["line"]
            if any(w and not staged for w, staged in g):
                t["write"] += case["line"]
    return out


def sequence(case):
    """All accesses of all bindings in execution order: outer ranks first, then binding order."""
    seq = []
    order = [case["binds"][i] for i in case["order"]]
    order.sort(key=lambda b: b["own"][-1])
    for i, b in enumerate(order):
        for j, (s, line, w, staged) in enumerate(lines(case, b)):
            pad = s + (-1,) * (len(case["ranks"]) - len(s))
            seq.append((pad, i, j, (b["tensor"], b["type"], line), w, staged, (pad, i)))
    seq.sort(key=lambda x: x[:3])
    return [x[3:] for x in seq]


def belady(case, capacity, limit=4000, strict=False):
    """Every outcome of furthest-next-use replacement with bypass; staged lines are pinned.

    The next use of a line is the next access in execution order, except that a read and a write
    of one binding at one stamp (a load-modify-store) are not ordered against each other.
    Returns [{tensor: {access: bits}}], or None if there are too many outcomes."""
    line = case["line"]
    seq = sequence(case)
    nxt, last = [None] * len(seq), {}
    for i in range(len(seq) - 1, -1, -1):
        nxt[i] = last.get(seq[i][0])
        last[seq[i][0]] = i
    names = list(dict.fromkeys(b["tensor"] for b in case["binds"]))
    at = {(t, w): 2 * i + w for i, t in enumerate(names) for w in (False, True)}
    # state: ({line: next use}, dirty lines, pinned lines, counts)
    states = {(frozenset(), frozenset(), frozenset(), (0,) * (2 * len(names)))}

    def bump(counts, k):
        return counts[:k] + (counts[k] + 1,) + counts[k + 1:]
    for i, (key, w, staged, where) in enumerate(seq):
        wb = w and not staged
        new = set()
        for here, dirty, pins, counts in states:
            if key in here or key in pins:
                if wb:
                    dirty |= {key}
                if nxt[i] is None:
                    if key in dirty:
                        counts = bump(counts, at[key[0], True])
                    here, dirty, pins = here - {key}, dirty - {key}, pins - {key}
                elif staged:
                    here, pins = here - {key}, pins | {key}
                new.add((here, dirty, pins, counts))
                continue
            if not w:
                counts = bump(counts, at[key[0], False])
            if nxt[i] is None:
                new.add((here, dirty, pins, bump(counts, at[key[0], True]) if wb else counts))
                continue

            def stay(here, dirty, pins, counts):
                if staged:
                    return here, dirty, pins | {key}, counts
                return here | {key}, dirty | {key} if wb else dirty, pins, counts
            if (len(here) + len(pins) + 1) * line <= capacity or (staged and not here):
                new.add(stay(here, dirty, pins, counts))
                continue
            # who goes?  next use of everything that may go
            use = {k: next_of(seq, i, k) for k in here}
            if not staged:
                use[key] = nxt[i]
            far = max(use.values())
            group = {}
            for k, j in use.items():
                if seq[j][3] == seq[far][3]:
                    # same binding, same stamp: the latest read or the latest write
                    kind = None if strict else seq[j][1]
                    if j > group.get(kind, (-1,))[0]:
                        group[kind] = j, k
            for j, k in group.values():
                if k == key:
                    new.add((here, dirty, pins,
                             bump(counts, at[key[0], True]) if wb else counts))
                else:
                    c = bump(counts, at[k[0], True]) if k in dirty else counts
                    new.add(stay(here - {k}, dirty - {k}, pins, c))
        states = new
        if len(states) > limit:
            return None
    kinds = {b["tensor"]: [] for b in case["binds"]}
    for b in case["binds"]:
        kinds[b["tensor"]] += [acc for acc in ("read", "write") if b[acc] is not None]
    out = []
    for *_, counts in states:
        x = {t: {acc: counts[at[t, acc == "write"]] * line for acc in kinds[t]} for t in names}
        if x not in out:
            out.append(x)
    return out


def next_of(seq, i, key):
    for j in range(i, len(seq)):
        if seq[j][0] == key:
            return j


def best(keys, slots):
    """Fewest fills over every replacement decision (reads only)."""
    states = {frozenset(): 0}
    for k in keys:
        new = {}
        for s, cost in states.items():
            if k in s:
                opts = [(s, cost)]
            else:
                opts = [(s, cost + 1)]
                if len(s) < slots:
                    opts.append((s | {k}, cost + 1))
                elif slots:
                    opts += [((s - {v}) | {k}, cost + 1) for v in s]
            for t, c in opts:
                if c < new.get(t, INF):
                    new[t] = c
        states = new
    return min(states.values())


# ---------------------------------------------------------------- checks

def model(case, which, capacity, change=None):
    from fibertree.model.traffic import Traffic
    with nest.Scratch() as d:
        bindings, formats, fns, lmap = setup(case if change is None else change, d)
        before = c15.files(d)
        fn = Traffic.buffetTraffic if which == "buffet" else Traffic.cacheTraffic
        kw = {"loop_ranks": lmap} if case["alias"] else {}
        got, over = fn(bindings, formats, fns, capacity, case["line"], **kw)
        after = c15.files(d)
        extra = set(after) - set(before)
        check(not extra, "temporary files left behind: {}", sorted(extra))
        check(after == before, "input traces were changed")
    return got, over


def used(case):
    """(distinct lines, accesses) per tensor and kind."""
    out = {}
    for b in case["binds"]:
        for s, line, w, staged in lines(case, b):
            t = out.setdefault(b["tensor"], [set(), 0, 0])
            t[0].add((b["type"], line))
            t[1 + w] += 1
    return out


def bounds(case, got, what):
    for b in case["binds"]:
        check(b["tensor"] in got, "{}: no entry for tensor {}", what, b["tensor"])
    for t, (ls, rd, wr) in used(case).items():
        r, w = got[t].get("read", 0), got[t].get("write", 0)
        check(r <= rd * case["line"], "{}: {} bits read for {} accesses of {}", what, r, rd, t)
        check(w <= wr * case["line"], "{}: {} bits written for {} accesses of {}", what, w, wr, t)
        if wr == 0:
            check(r >= len(ls) * case["line"], "{}: {} bits read for {} distinct lines of {}",
                  what, r, len(ls), t)


def again(case):
    """Another trace with every position moved within its line."""
    out = dict(case, binds=[dict(b) for b in case["binds"]])
    j = itertools.cycle(case["jitter"])
    for b in out["binds"]:
        per = case["line"] // b["bits"]
        for acc in ("read", "write"):
            if b[acc] is None:
                continue
            rows = []
            for s, p, *c in b[acc]:
                q = p // per * per + next(j) % per
                if b["write"] is not None and (q >= b["shape"]) != (p >= b["shape"]):
                    q = p
                rows.append([s, q] + c)
            b[acc] = rows
    return out


def interesting(case):
    for b in case["binds"]:
        ls = [(x[1]) for x in lines(case, b)]
        if len(set(ls)) < len(ls):
            return True
    return False


def run_buffet(case, ctx):
    capacity = case["cap"] * case["line"] + case["part"]
    got, over = model(case, "buffet", capacity)
    check_eq(got, buffet(case), "buffet traffic")
    bounds(case, got, "buffet")
    huge, over2 = model(case, "buffet", 10 ** 9)
    check_eq(huge, got, "buffet traffic at an unbounded capacity")
    check_eq(over2, 0, "overflows at an unbounded capacity")
    check_eq(model(case, "buffet", capacity, again(case))[0], got,
             "buffet traffic with positions moved within their lines")
    label(case, ctx)


def label(case, ctx):
    ctx.label(f"loops{len(case['ranks'])}", f"binds{len(case['binds'])}",
              "alias" if case["alias"] else "plain",
              *("rw" if b["read"] is not None and b["write"] is not None else
                "w" if b["read"] is None else "r" for b in case["binds"]))
    if any(x[3] for b in case["binds"] for x in lines(case, b)):
        ctx.label("staged")
    ctx.nt(interesting(case))


def run_cache(case, ctx):
    capacity = case["cap"] * case["line"] + case["part"]
    got, over = model(case, "cache", capacity)
    want = belady(case, capacity)
    if want is not None:
        check(got in want, "cache traffic at {} lines: got {}, want {}", case["cap"], got, want)
        ctx.label("tied" if len(want) > 1 else "determined")
    bounds(case, got, "cache")
    if all(b["write"] is None for b in case["binds"]):
        keys = [x[0] for x in sequence(case)]
        if len(set(keys)) <= 9:
            total = sum(t["read"] for t in got.values())
            check_eq(total, best(keys, case["cap"]) * case["line"],
                     f"fills of the cache at {case['cap']} lines against every replacement choice")
            ctx.label("exhaustive")
    check_eq(model(case, "cache", capacity, again(case))[0], got,
             "cache traffic with positions moved within their lines")
    label(case, ctx)
    ctx.label(f"cap{min(case['cap'], 6)}")


def run_sweep(case, ctx):
    """The cache never gets worse with capacity."""
    last = None
    for lines_ in range(0, 7):
        got, over = model(case, "cache", lines_ * case["line"])
        tot = (sum(t.get("read", 0) for t in got.values()),
               sum(t.get("read", 0) + t.get("write", 0) for t in got.values()))
        if last is not None:
            check(tot[0] <= last[0] and tot[1] <= last[1],
                  "cache of {} lines: {} bits read, {} in total; one line fewer: {}", lines_,
                  tot[0], tot[1], last)
        last = tot
    label(case, ctx)


def run_ties(case, ctx):
    """Furthest next use with a read before a write of the same stamp."""
    capacity = case["cap"] * case["line"] + case["part"]
    got, over = model(case, "cache", capacity)
    want = belady(case, capacity, strict=True)
    check_eq(got, want[0], "cache traffic when a read precedes a write of the same stamp")


# ---------------------------------------------------------------- traces of real kernels

@st.composite
def kernels(draw):
    case = draw(nest.nests())
    pool = c16.known(case)
    picks = []
    for _ in range(draw(st.sampled_from([1, 2, 2, 3]))):
        r, t = draw(st.sampled_from(pool))
        if t == "populate_write_0" and draw(st.integers(0, 2)):
            t = "populate_read_0"
        picks.append({"rank": r, "trace": t, "own": draw(st.lists(st.booleans(), min_size=3,
                                                                  max_size=3)),
                      "type": draw(st.sampled_from(["coord", "payload", "elem"])),
                      "bits": draw(st.sampled_from([8, 16, 16, 32])),
                      "evict": draw(st.integers(0, 3)), "filter": draw(st.integers(0, 3)) == 0})
    return {"case": case, "picks": picks, "line": draw(st.sampled_from([32, 32, 64, 48])),
            "cap": draw(st.sampled_from([0, 1, 2, 2, 3, 4, 1000])),
            "part": draw(st.sampled_from([0, 0, 5])), "alias": draw(st.booleans()),
            "order": draw(st.permutations(range(len(picks)))),
            "jitter": draw(st.lists(st.integers(0, 7), min_size=4, max_size=4))}


def rows_of(got):
    header, rows = got
    n = (len(header) - 1) // 2
    return [[list(r[:n]), r[-1], list(r[n:2 * n])] for r in rows]


def run_kernel(prog, ctx):
    from fibertree.model.traffic import Traffic
    case = prog["case"]
    ranks = case["ranks"]
    nest.reset()
    pool = c16.known(case)
    with nest.Scratch() as d:
        r, got = c16.collect({"kind": "nest", "case": case, "stop": None, "eat": 0,
                              "traces": [[a, b, "file"] for a, b in pool]}, d, "a", 1000)
        binds = []
        for k, x in enumerate(prog["picks"]):
            rank, typ = x["rank"], x["trace"]
            if got.get((rank, typ)) is None:
                continue
            fn = f"{d}/a-{rank}-{typ}.csv"
            rw = typ in ("populate_read_0", "populate_write_0")
            lv = ranks.index(rank[0])
            if len(got[rank, typ][0]) != 2 * lv + 3:
                continue                # accesses outside the bodies of the outer ranks
            out = {"read": None, "write": None}
            if typ != "populate_write_0":
                fil = (ranks[-1], "iter")
                if x["filter"] and got.get(fil):
                    Traffic.filterTrace(fn, f"{d}/a-{fil[0]}-{fil[1]}.csv", f"{d}/f{k}.csv")
                    check_filter(d, fn, f"{d}/a-{fil[0]}-{fil[1]}.csv", f"{d}/f{k}.csv")
                    fn = f"{d}/f{k}.csv"
                    ctx.label("filtered")
                out["read"] = rows_of(nest.readtrace(fn))
            if rw:
                out["write"] = rows_of(got[rank, "populate_write_0"])
            own = [i for i in range(lv) if x["own"][i]] + [lv]
            binds.append(dict(out, tensor="ABC"[k], own=own, type=x["type"], bits=x["bits"],
                              evict=(["root"] + ranks[:lv])[min(x["evict"], lv)],
                              shape=case["dims"][rank[0]]))
            ctx.label(typ.rstrip("0123456789"))
    if not binds:
        return
    low = [i for i in prog["order"] if i < len(binds)]
    if any(s != sorted(s) for b in binds for acc in ("read", "write") if b[acc] is not None
           for s in [[x[0] for x in b[acc]]]):
        raise Violation("a collected trace is not ordered by stamp")
    sub = {"ranks": ranks, "binds": binds, "line": prog["line"], "cap": prog["cap"],
           "part": prog["part"], "alias": prog["alias"], "order": low, "jitter": prog["jitter"]}
    run_buffet(sub, ctx)
    run_cache(sub, ctx)


# ---------------------------------------------------------------- filter and combination

@st.composite
def filters(draw):
    d1 = draw(st.integers(1, 3))
    d2 = draw(st.integers(d1, 3))
    hi = draw(st.sampled_from([1, 2, 3]))

    def rows(d, n, order):
        out = draw(st.lists(st.tuples(st.lists(st.integers(0, hi), min_size=d, max_size=d),
                                      st.lists(st.integers(0, hi), min_size=d, max_size=d),
                                      st.integers(0, 12)), max_size=n))
        if order == "stamp":
            out.sort(key=lambda r: r[0])
        elif order == "point":
            pts = sorted(r[1] for r in out)
            st_ = sorted(r[0] for r in out)
            out = [(a, b, r[2]) for a, b, r in zip(st_, pts, out)]
        return [list(r) for r in out]
    kinds = st.sampled_from(["stamp", "point", "point"])
    return {"in": rows(d1, 10, draw(kinds)), "fil": rows(d2, 12, draw(kinds)),
            "d": [d1, d2], "big": draw(st.booleans())}


def write_rows(fn, d, rows, add=0):
    ranks = nest.NAMES[:d]
    with open(fn, "w") as f:
        f.write(",".join([r + "_pos" for r in ranks] + ranks + ["fiber_pos"]) + "\n")
        for s, c, p in rows:
            f.write(",".join(map(str, list(s) + [x + add for x in c] + [p])) + "\n")


def check_filter(d, inp, fil, out):
    with open(inp) as f:
        a = f.readlines()
    with open(fil) as f:
        b = f.readlines()
    with open(out) as f:
        got = f.readlines()

    def point(line):
        x = line.strip().split(",")[:-1]
        return tuple(map(int, x[len(x) // 2:]))
    n = len(point(a[1])) if len(a) > 1 else 0
    pts = {point(x)[:n] for x in b[1:]}
    want = a[:1] + [x for x in a[1:] if point(x) in pts]
    check_eq(got, want, "filtered trace")
    return len(want) - 1, len(a) - 1


def run_filter(case, ctx):
    from fibertree.model.traffic import Traffic
    with nest.Scratch() as d:
        # coordinates of one and of two digits
        add = 8 if case["big"] else 0
        write_rows(f"{d}/in.csv", case["d"][0], case["in"], add)
        write_rows(f"{d}/fil.csv", case["d"][1], case["fil"], add)
        before = c15.files(d)
        Traffic.filterTrace(f"{d}/in.csv", f"{d}/fil.csv", f"{d}/out.csv")
        after = c15.files(d)
        kept, total = check_filter(d, f"{d}/in.csv", f"{d}/fil.csv", f"{d}/out.csv")
        out = after.pop("out.csv")
        check_eq(after, before, "files after filterTrace, apart from its output")
        # filtering is idempotent, and a trace filtered by itself is unchanged
        Traffic.filterTrace(f"{d}/out.csv", f"{d}/fil.csv", f"{d}/out2.csv")
        check_eq(c15.files(d)["out2.csv"], out, "trace filtered twice")
        Traffic.filterTrace(f"{d}/in.csv", f"{d}/in.csv", f"{d}/out3.csv")
        check_eq(c15.files(d)["out3.csv"], before["in.csv"], "trace filtered by itself")
    ctx.label(f"depth{case['d'][0]}{case['d'][1]}", "all" if kept == total else "some" if kept
              else "none")
    ctx.nt(0 < kept < total)


@st.composite
def pairs(draw):
    d = draw(st.integers(1, 3))
    hi = draw(st.sampled_from([1, 2, 11]))

    def rows(n):
        out = draw(st.lists(st.tuples(st.lists(st.integers(0, hi), min_size=d, max_size=d),
                                      st.lists(st.integers(0, 12), min_size=d, max_size=d),
                                      st.integers(0, 12)), max_size=n))
        return [list(r) for r in sorted(out, key=lambda r: r[0])]
    which = draw(st.sampled_from(["both", "both", "both", "read", "write"]))
    return {"d": d, "read": rows(10) if which != "write" else None,
            "write": rows(10) if which != "read" else None}


def run_combine(case, ctx):
    from fibertree.model.traffic import Traffic
    combine = getattr(Traffic, "_combineTraces", None)
    if combine is None:
        return
    with nest.Scratch() as d:
        args = {}
        for acc in ("read", "write"):
            if case[acc] is not None:
                args[acc + "_fn"] = f"{d}/{acc}.csv"
                write_rows(f"{d}/{acc}.csv", case["d"], case[acc])
        before = c15.files(d)
        combine(comb_fn=f"{d}/comb.csv", **args)
        after = c15.files(d)
        got = after.pop("comb.csv").splitlines()
        check_eq(after, before, "files after combination, apart from its output")
    rows = [(r[0], 0, i, r) for i, r in enumerate(case["read"] or [])] + \
        [(r[0], 1, i, r) for i, r in enumerate(case["write"] or [])]
    want = [",".join(map(str, r[0] + r[1] + [r[2], bool(w)])) for _, w, _, r in sorted(rows)]
    check_eq(got[1:], want, "combined trace")
    ranks = nest.NAMES[:case["d"]]
    check_eq(got[0], ",".join([r + "_pos" for r in ranks] + ranks + ["fiber_pos", "is_write"]),
             "header of a combined trace")
    stamps_ = [tuple(r[0]) for acc in ("read", "write") for r in case[acc] or []]
    ctx.label("tie" if len(set(stamps_)) < len(stamps_) else "plain",
              "both" if len(args) == 2 else "one")
    ctx.nt(len(args) == 2 and len(set(stamps_)) < len(stamps_))


SUBS = [
    Sub("buffet", run_buffet, traffic, quick=1500, thorough=40000),
    Sub("cache", run_cache, traffic, quick=2000, thorough=60000),
    Sub("reads", run_cache, lambda: traffic(writes=False, maxrows=20), quick=1500,
        thorough=50000, rule="read-only traces: exhaustive search over replacement decisions"),
    Sub("sweep", run_sweep, traffic, quick=500, thorough=10000),
    Sub("kernels", run_kernel, kernels, quick=1200, thorough=30000,
        rule="bindings fed with traces collected from random loop nests"),
    Sub("filter", run_filter, filters, quick=1500, thorough=40000,
        rule="non-trivial: the filter keeps some rows and drops some"),
    Sub("combine", run_combine, pairs, quick=800, thorough=20000,
        rule="non-trivial: both traces, with equal stamps"),
    Sub("ties", run_ties, exhaustive=lambda tier: [], quick=0, thorough=0,
        rule="a read and a write at one stamp ordered against each other (known finding, re-run "
             "from known_findings.json)"),
]
