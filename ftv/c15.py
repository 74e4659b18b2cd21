"""C15: metrics collection is transparent, exact and session-isolated."""
from .core import HYP, Sub, Violation, check, check_eq  # noqa
from hypothesis import strategies as st
import os

from . import c06, gens, nest, raw
from .raw import F, P, T, M

PROP = "C15"
RULE = ("random kernels (the C06 sum-of-products family and random loop nests with any "
        "co-iteration, population, projection and shape loop) run with collection off and on, "
        "any traces registered as files or in memory; oracle: identical outputs and delivered "
        "values, operation and iteration counts kept by the driver itself, and identical "
        "reports after any earlier sessions. Non-trivial: the innermost body ran at least "
        "twice with collection on.")
ASSUMPTIONS = [
    "co-iterated ranks share their name and each loop rank is iterated to completion (the "
    "documented way of collecting); one kernel per session",
    "`+=` counts an add only when it accumulates onto a non-zero value, as documented",
]


# ---------------------------------------------------------------- programs

def types(draw, ranks, projected):
    out = []
    for _ in range(draw(st.integers(0, 6))):
        r = draw(st.sampled_from(ranks * 4 + projected * 3 + ["Q"]))
        k = draw(st.sampled_from(["iter", "iter", "intersect_", "union_", "populate_",
                                  "populate_read_", "populate_write_", "project_", "probe"]))
        if k[-1] == "_":
            k += str(draw(st.integers(0, 3)))
        t = [r, k, draw(st.sampled_from(["file", "file", "mem", "both"]))]
        if [t[0], t[1]] not in [x[:2] for x in out]:
            out.append(t)
    return out


@st.composite
def program(draw, kind=None):
    k = kind or draw(st.sampled_from(["nest", "kernel"]))
    if k == "nest":
        c = draw(nest.nests())
        ranks = c["ranks"]
        proj = sorted({r + "x" for o in c["ops"] for r in o["proj"]})
    else:
        c = draw(c06.kernel(maxdim=5))
        ranks = list(c["order"])
        proj = []
    return {"kind": k, "case": c, "traces": types(draw, ranks, proj),
            "flush": draw(st.sampled_from([2, 2, 3, 4, 5, 7, 1000])),
            "eat": draw(st.sampled_from([0, 0, 1, 2, 3, 7])),
            "stop": None}


# ---------------------------------------------------------------- direct use of the interface

LOOPS = ["M", "K", "N"]
ALIAS = {"M": "Mx", "K": "Kx", "N": "Nx"}


@st.composite
def calls(draw):
    """A legal sequence of calls on the collector, as a code generator would emit them."""
    n = draw(st.integers(1, 3))
    loops = LOOPS[:n]
    every = loops + [ALIAS[r] for r in loops]
    types = ["iter", "t0", "t1"]
    out = []
    for r in loops:
        if draw(st.integers(0, 2)) == 0:
            out.append(["matchRanks", r, ALIAS[r]] if draw(st.booleans())
                       else ["matchRanks", ALIAS[r], r])
    k = draw(st.integers(2, 30))
    reg, linked, asked = [], set(), set()
    matched = {ALIAS[x] for o in out for x in o[1:] if x in ALIAS}
    for _ in range(k):
        reach = reg + [a for a in matched if a[0] in reg]
        kinds = ["trace", "trace"]
        if len(reg) < n:
            kinds += ["registerRank"] * 2
        if reach:
            kinds += ["addUse"] * 8 + ["incIter"] * 4 + ["endIter", "getIndex"]
        kinds += ["getLabel"]
        if n > len(reg) or reg:
            kinds += ["setNumCachedUses", "getIter", "getPoint"]
        if any(a[2] for a in asked):
            kinds += ["consumeTrace"]
        if any(r in reg and ALIAS[r] not in matched for r in loops):
            kinds += ["matchRanks"]
        op = draw(st.sampled_from(kinds))
        if op == "trace":
            t = (draw(st.sampled_from(every)), draw(st.sampled_from(types)), draw(st.booleans()))
            if t in asked:
                continue
            asked.add(t)
            out.append([op] + list(t))
        elif op == "registerRank":
            r = draw(st.sampled_from([x for x in loops if x not in reg]))
            reg.append(r)
            out.append([op, r])
        elif op == "addUse":
            hot = [list(a[:2]) for a in sorted(asked) if a[0] in reach]
            r, t = draw(st.sampled_from(hot)) if hot and draw(st.integers(0, 3)) else \
                [draw(st.sampled_from(sorted(reach))), draw(st.sampled_from(types))]
            own = draw(st.lists(st.integers(0, 5), min_size=3, max_size=3)) \
                if draw(st.integers(0, 5)) == 0 else None
            out.append([op, r, draw(st.integers(0, 9)), draw(st.integers(0, 9)), t, own])
        elif op in ("incIter", "endIter", "getIndex"):
            out.append([op, draw(st.sampled_from(sorted(reach)))])
        elif op == "getLabel":
            out.append([op, draw(st.sampled_from(every))])
        elif op == "matchRanks":
            r = draw(st.sampled_from([r for r in loops if r in reg and ALIAS[r] not in matched]))
            matched.add(ALIAS[r])
            out.append([op, r, ALIAS[r]])
        elif op == "consumeTrace":
            out.append([op] + list(draw(st.sampled_from(sorted(a[:2] for a in asked if a[2])))))
        elif op == "setNumCachedUses":
            out.append([op, draw(st.sampled_from([2, 2, 3, 4, 1000]))])
        else:
            out.append([op])
    return out


def direct(ops, prefix):
    """Make the calls; returns (answers, in-memory rows per trace)."""
    m = M()
    answers, mem = [], {}
    m.beginCollect(prefix)
    for op, *a in ops:
        if op == "trace":
            m.trace(a[0], a[1], consumable=a[2])
            if a[2]:
                mem.setdefault((a[0], a[1]), [])
        elif op == "addUse":
            m.addUse(a[0], a[1], a[2], type_=a[3], iteration_num=a[4] and list(a[4]))
        elif op == "consumeTrace":
            mem[a[0], a[1]].extend(m.consumeTrace(*a))
        else:
            r = getattr(m, op)(*a)
            answers.append((op, list(r) if isinstance(r, list) else r))
    for rank, typ in mem:
        mem[rank, typ].extend(m.consumeTrace(rank, typ))
    answers.append(("dump", repr(m.dump())))
    m.endCollect()
    return answers, mem


class Run:
    """What one execution of a program showed."""


def execute(prog, prefix=None, collect=True, onbody=None, end="end", extra=()):
    """Build everything afresh and run the program once."""
    case = prog["case"]
    r = Run()
    if prog["kind"] == "nest":
        ops, Z = nest.tensors(case)
        ranks = case["ranks"]
        log = nest.Log(len(ranks))
        r.counts = log.counts
        seen = log.seen
        bodies = [0] * len(ranks)
    else:
        pairs = c06.prepare(case)
        ops = []
        for t, names in pairs:
            if names:
                t.setRankIds(list(names))
            ops.append(t)
        Z, znames = c06.output(case)
        ranks = list(case["order"])
        r.counts = {"mul": 0, "add": 0, "update": 0}
        seen = []
        bodies = [0] * len(ranks)
    cls = M()
    r.mem = {}
    r.exc = None

    def eat():
        for rank, typ, how in prog["traces"]:
            if how != "file":
                r.mem.setdefault((rank, typ), []).extend(cls.consumeTrace(rank, typ))

    def tick():
        n = sum(bodies)
        if onbody:
            onbody(n)
        if collect and prog["eat"] and n % prog["eat"] == 0:
            eat()
        if prog["stop"] is not None and n >= prog["stop"]:
            raise nest.Stop()

    def hook(_):
        for i, b in enumerate(log.bodies):
            bodies[i] = len(b)
        tick()

    if collect:
        cls.setNumCachedUses(prog["flush"])
        cls.beginCollect(prefix)
        for op, *args in extra:
            getattr(cls, op)(*args)
        for rank, typ, how in prog["traces"]:
            if how != "mem":
                cls.trace(rank, typ)
            if how != "file":
                cls.trace(rank, typ, consumable=True)
    try:
        if prog["kind"] == "nest":
            nest.drive(case, ops, Z, log, hook=hook)
        else:
            def body(level):
                bodies[level] += 1
                tick()

            def mul():
                r.counts["mul"] += 1

            def upd(z, prod):
                seen.append(P().get(prod))
                r.counts["update"] += 1
                r.counts["add"] += z.value != 0
            kernel(case, pairs, Z, znames, body, mul, upd)
    except nest.Stop as e:
        r.exc = e
    if collect:
        if end == "end":
            eat()
            cls.endCollect()
        elif end == "dirty":
            try:
                cls.endCollect()
            except AssertionError:
                pass                # unconsumed in-memory traces
        # "abort": the session is simply left open
    r.bodies = dict(zip(ranks, bodies))
    r.inner = bodies[-1]
    r.seen = [repr(x) for x in seen]
    r.Z = raw.tsnap(Z, ids=False)
    r.ops = [raw.tsnap(t, ids=False) for t in ops]
    r.dump = cls.dump() if collect else None
    return r


def kernel(case, pairs, Z, znames, body, mul, upd):
    """c06's loop nest with its hooks; the update hook needs the destination."""
    c06.execute(case, pairs, Z, znames, hooks={"body": body, "mul": mul, "z": upd})


def files(d):
    out = {}
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f)) as h:
            out[f] = h.read()
    return out


# ---------------------------------------------------------------- on = off, exact counts

def run_program(prog, ctx):
    from fibertree.model.compute import Compute
    nest.reset()
    off = execute(prog, collect=False)
    off2 = execute(prog, collect=False)
    check_eq((off2.Z, off2.seen), (off.Z, off.seen), "harness: two runs without collection")
    with nest.Scratch() as d:
        on = execute(prog, prefix=d + "/t")
        check(not M().isCollecting(), "still collecting after endCollect()")
        check_eq(on.seen, off.seen, "values seen by the kernel with collection on")
        check_eq(on.bodies, off.bodies, "bodies executed with collection on")
        if on.Z != off.Z:
            raise Violation(f"output with collection on {on.Z!r}, off {off.Z!r}")
        for i, (a, b) in enumerate(zip(on.ops, off.ops)):
            if a != b:
                raise Violation(f"operand {i} after the kernel with collection on {a!r}, "
                                f"off {b!r}")
        dump = on.dump
        check(isinstance(dump, dict), "dump() gave {!r}", dump)
        for op in ("mul", "add", "update"):
            check_eq(Compute.numOps(dump, op), on.counts[op], f"number of {op} operations")
        names = set(files(d))
        want = set()
        for rank, typ, how in prog["traces"]:
            reached = rank in on.bodies
            if how != "mem":
                want.add(f"t-{rank}-{typ}.csv")
                if typ == "iter" and reached:
                    check_eq(Compute.numIters(f"{d}/t-{rank}-{typ}.csv"), on.bodies[rank],
                             f"iterations of rank {rank}")
            if how != "file" and typ == "iter" and reached:
                check_eq(max(0, len(on.mem[rank, typ]) - 1), on.bodies[rank],
                         f"rows of the in-memory iter trace of rank {rank}")
        extra = names - want
        check(not extra, "files nobody asked for: {}", extra)
    ctx.label(prog["kind"], f"traces{min(len(prog['traces']), 4)}", f"depth{len(on.bodies)}",
              *(t[1].rstrip("0123456789") for t in prog["traces"]),
              *(k for k, v in on.counts.items() if v))
    ctx.nt(on.inner >= 2)


# ---------------------------------------------------------------- sessions

@st.composite
def history(draw):
    prog = draw(program())
    before = []
    for _ in range(draw(st.integers(1, 3))):
        p = prog if draw(st.integers(0, 2)) == 0 else draw(program())
        p = dict(p, traces=draw(st.sampled_from([p["traces"], prog["traces"],
                                                 p["traces"] + [["K", "iter", "both"]]])),
                 stop=draw(st.sampled_from([None, None, 1, 2, 3, 5, 8])),
                 flush=draw(st.sampled_from([2, 3, 1000])))
        p["traces"] = [t for n, t in enumerate(p["traces"])
                       if t[:2] not in [x[:2] for x in p["traces"][:n]]]
        extra = draw(st.lists(st.sampled_from([
            ["matchRanks", "M", "K"], ["matchRanks", "K", "N"], ["matchRanks", "Q", "M"],
            ["associateShape", "M", (2, 3)], ["associateShape", "K", (4, 4)],
            ["registerRank", "N"], ["registerRank", "Q"], ["getLabel", "K"], ["getLabel", "M"],
            ["incCount", "Compute", "payload_add", 3], ["incCount", "Other", "x", 1]]),
            max_size=2))
        before.append({"prog": p, "extra": extra,
                       "end": draw(st.sampled_from(["end", "abort", "abort", "dirty"])),
                       "same": draw(st.integers(0, 2)) > 0,
                       "keep": draw(st.booleans()),
                       "collect": draw(st.integers(0, 4)) > 0})
    return {"prog": prog, "before": before, "drop": draw(st.integers(1, 6)),
            "api": draw(calls()) if draw(st.integers(0, 3)) == 0 else None}


def run_history(case, ctx):
    prog = case["prog"]
    nest.reset()
    api = case["api"]

    def once(path, onbody=None):
        if api is not None:
            M().setNumCachedUses(prog["flush"])
            answers, mem = direct(api, path)
            return len(answers), (answers, files(os.path.dirname(path)), mem)
        r = execute(prog, prefix=path, onbody=onbody)
        return r.inner, (r.dump, files(os.path.dirname(path)), r.mem, r.seen, r.Z)
    with nest.Scratch() as d:
        os.mkdir(d + "/a")
        inner, want = once(d + "/a/t")
        os.mkdir(d + "/b")
        os.mkdir(d + "/c")
        nest.reset()
        kept = []
        for b in case["before"]:
            try:
                r = execute(b["prog"], prefix=d + ("/b/t" if b["same"] else "/c/t"),
                            collect=b["collect"], end=b["end"], extra=b["extra"])
            except (AssertionError, KeyError, IndexError, TypeError):
                # the garbage session tripped over its own set-up: it ends here
                r = None
            if r is not None and b["keep"]:
                kept.append(r.exc)          # suspended loops stay alive
        r = None
        stale = set(os.listdir(d + "/b"))

        def onbody(n):
            if n == case["drop"]:
                kept.clear()                # ... and are closed during the session
        got = list(once(d + "/b/t", onbody)[1])
        got[1] = {f: v for f, v in got[1].items() if f in want[1] or f not in stale}
        for what, a, b in zip(("metrics", "trace files", "in-memory traces", "delivered values",
                               "output"), got, want):
            if a != b:
                raise Violation(f"{what} of the same kernel differ after earlier sessions: "
                                f"{a!r}, in a fresh process {b!r}")
    ctx.label("calls" if api is not None else prog["kind"], f"before{len(case['before'])}",
              *(b["end"] for b in case["before"]),
              *(x[0] for b in case["before"] for x in b["extra"]))
    ctx.nt(inner >= 2)


@st.composite
def tuplesessions(draw):
    sh = draw(st.lists(st.integers(1, 4), min_size=3, max_size=3))
    return {"sh": sh, "specs": [draw(gens.rspec(sh)) for _ in range(2)],
            "other": draw(st.integers(1, 5)),
            "traced": draw(st.booleans()), "assoc": draw(st.booleans()),
            "end": draw(st.booleans())}


def run_tuplesessions(case, ctx):
    """Loops over a flattened rank, after a session that associated a shape with it."""
    def once(spec, path, shape, traced, mem, end=True):
        t = T().fromFiber(rank_ids=["M", "K", "N"], fiber=raw.mk_fiber(spec, 3),
                          shape=list(case["sh"]))
        t = t.flattenRanks(depth=0, levels=1, coord_style="tuple")
        t.setRankIds(["MK", "N"])
        m = M()
        m.setNumCachedUses(1000)
        m.beginCollect(path)
        if shape is not None:
            m.associateShape("MK", shape)
        if traced:
            m.trace("MK", "iter")
        if mem:
            m.trace("N", "iter", consumable=True)
        rows, seen = [], []
        for c, f in t.getRoot():
            for n, v in f:
                seen.append((c, n, v.value))
            if mem:
                rows += m.consumeTrace("N", "iter")
        if end:
            m.endCollect()
        return seen, rows, m.dump(), files(os.path.dirname(path))
    own = tuple(case["sh"][:2]) if case["assoc"] else None
    traced = case["traced"] and case["assoc"]
    with nest.Scratch() as d:
        os.mkdir(d + "/a")
        os.mkdir(d + "/b")
        os.mkdir(d + "/c")
        nest.reset()
        want = once(case["specs"][0], d + "/a/t", own, traced, True)
        nest.reset()
        once(case["specs"][1], d + "/c/t", (case["sh"][0], case["other"] + 4), True, False,
             case["end"])
        got = once(case["specs"][0], d + "/b/t", own, traced, True)
    nest.reset()
    for what, a, b in zip(("delivered values", "rows of the rank below", "metrics", "files"),
                          got, want):
        check_eq(a, b, f"{what} of a loop over a flattened rank after another session")
    ctx.label("associated" if own else "bare", "left open" if not case["end"] else "ended",
              *(["traced"] if traced else []))
    ctx.nt(len(want[0]) >= 2)


# ---------------------------------------------------------------- operators

OPS = ["+", "-", "*", "r+", "r-", "r*", "+=", "-=", "*=", "<<=", "/", "//", "//=", "/=", "<", "==",
       "&", "|", "&=", "|="]


@st.composite
def opseq(draw):
    n = draw(st.integers(1, 4))
    pool = [[draw(st.sampled_from(["box", "elem", "ref"])),
             draw(st.sampled_from([0, 0, 1, 2, -3, 5, 2.5, 0.0]))] for _ in range(n)]
    steps = draw(st.lists(st.tuples(
        st.sampled_from(OPS + ["+=", "*", "+", "<<="]), st.integers(0, n - 1),
        st.one_of(st.integers(0, n - 1).map(lambda i: ["v", i]),
                  st.sampled_from([0, 1, 2, -2, 3]).map(lambda v: ["c", v])),
        st.booleans()), max_size=10))
    return {"pool": pool, "steps": steps}


def run_ops(case, ctx):
    """Scalar programs over boxes, fiber elements and references into a fiber."""
    from fibertree.model.compute import Compute

    def go():
        fib = F()([0, 1, 2, 3], [7, 7, 7, 7])
        pool = []
        for i, (kind, v) in enumerate(case["pool"]):
            if kind == "box":
                pool.append(P()(v))
            elif kind == "elem":
                fib.payloads[i].value = v
                pool.append(fib[i])
            else:
                x = fib.getPayloadRef(10 + i)
                x <<= v
                pool.append(x)
        return fib, pool

    def val(x):
        if isinstance(x, P()):
            return x.value
        return val(x.payload) if hasattr(x, "payload") else x

    def steps(pool, count):
        trail = []
        for op, i, (kind, a), store in case["steps"]:
            x = pool[i]
            y = pool[a] if kind == "v" else a
            old, yv = val(x), val(y)
            whole = isinstance(old, int) and isinstance(yv, int)
            if op in ("&", "|", "&=", "|=") and not whole:
                continue
            if op in ("/", "//", "/=", "//=") and yv == 0:
                continue
            if op[0] == "r" and kind == "v":
                continue
            if hasattr(x, "coord") and hasattr(y, "coord") and op == "<<=":
                continue                    # moves the coordinate along with the value
            if abs(old) > 1e6 or abs(yv) > 1e6:
                continue
            res = None
            if op in ("+", "r+"):
                res = x + y if op == "+" else y + x
                count["add"] += 1
            elif op in ("*", "r*"):
                res = x * y if op == "*" else y * x
                count["mul"] += 1
            elif op in ("-", "r-"):
                res = x - y if op == "-" else y - x
            elif op == "/":
                res = x / y
            elif op == "//":
                res = x // y
            elif op == "<":
                res = x < y
            elif op == "==":
                res = x == y
            elif op == "&":
                res = x & y
            elif op == "|":
                res = x | y
            else:
                count["update"] += 1
                if op == "+=":
                    count["add"] += old != 0
                    x += y
                elif op == "-=":
                    x -= y
                elif op == "*=":
                    count["mul"] += 1
                    x *= y
                elif op == "/=":
                    x /= y
                elif op == "//=":
                    x //= y
                elif op == "&=":
                    x &= y
                elif op == "|=":
                    x |= y
                else:
                    x <<= y
                pool[i] = x
            if store and isinstance(res, P()):
                pool[i] = res
            trail.append((repr(val(res)), [repr(val(p)) for p in pool]))
        return trail

    nest.reset()
    c0 = {"add": 0, "mul": 0, "update": 0}
    fib, pool = go()
    off = steps(pool, c0)
    fib2, pool = go()
    M().beginCollect()
    count = {"add": 0, "mul": 0, "update": 0}
    on = steps(pool, count)
    dump = M().dump()
    M().endCollect()
    check_eq(on, off, "values with collection on")
    check_eq(raw.fsnap(fib2), raw.fsnap(fib), "fiber with collection on")
    for op in count:
        check_eq(Compute.numOps(dump, op), count[op], f"number of {op} operations")
    # nothing is counted once the session is over
    steps(go()[1], c0)
    for op in count:
        check_eq(Compute.numOps(dump, op), count[op], f"number of {op} operations afterwards")
    ctx.label(*(s[0] for s in case["steps"]), *(p[0] for p in case["pool"]))
    ctx.nt(sum(count.values()) >= 2)


SUBS = [
    Sub("programs", run_program, program, quick=5000, thorough=150000),
    Sub("sessions", run_history, history, quick=1800, thorough=50000),
    Sub("tuples", run_tuplesessions, tuplesessions, quick=400, thorough=8000,
        rule="two or more values delivered"),
    Sub("ops", run_ops, opseq, quick=3000, thorough=60000,
        rule="non-trivial: at least two counted operations"),
]
