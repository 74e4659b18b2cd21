"""Random loop nests over random operands: generator, driver (the library) and simulator (plain
lists).  Shared by C15 and C16.

A case is a literal:
  ranks   loop ranks, outermost first;  dims: rank -> shape
  ops     operands: ranks (a sub-list of the loop ranks), spec, fmt per rank, known shape,
          proj: rank -> [kind, k, interval] where the operand's rank is the loop rank + "x"
          and is projected onto it
  levels  one expression per loop rank (see EXPR below)
  z       destination: ranks, spec, fmt, known
  act     what the innermost body does
  probes  random accesses made in the bodies
EXPR: ["f", i] | [op, E, E] for and/or/xor/sub | [op, E...] for inter/union/lf |
      [one of SOLO, i, *arguments] | [one of CO, i...] | [one of CORANGE, lo, hi, step, i...]
  quiet   untraced looks at operands made in the bodies: [level, operand, kind]
"""
from .core import HYP, Violation, check, check_eq  # noqa
from hypothesis import strategies as st
import bisect
import os
import shutil
import tempfile

from . import gens, raw
from .raw import F, P, T, M

NAMES = ["M", "K", "N"]
SOLO = ("shape", "ashape", "occ", "active", "shaperef", "ashaperef", "range", "rshape",
        "rshaperef", "rpos")
CO = ("coshape", "coashape", "coshaperef", "coashaperef")
CORANGE = ("corange", "corangeref")
QUIET = ["occ", "shape", "active", "ashape", "range", "rshape", "shaperef", "ashaperef",
         "rshaperef", "count", "str", "eq", "empty", "getshape", "copy", "position", "len"]


def members(e):
    """The operands of a dense co-iteration."""
    return list(e[4:] if e[0] in CORANGE else e[1:])


# ---------------------------------------------------------------- generation

def leaves(e):
    if e[0] == "f" or e[0] in SOLO:
        return [e[1]]
    if e[0] in CO + CORANGE:
        return members(e)
    return [i for x in e[1:] for i in leaves(x)]


def kept(e):
    """Operands whose payloads the expression delivers."""
    if e[0] == "sub":
        return kept(e[1])
    if e[0] in ("f",) + SOLO + CO + CORANGE:
        return leaves(e)
    return [i for x in e[1:] for i in kept(x)]


@st.composite
def window(draw, hi):
    """[start, end, step] with 0 <= start."""
    lo = draw(st.integers(0, min(2, hi)))
    return [lo, draw(st.integers(lo, hi)), draw(st.sampled_from([1, 1, 2, 3]))]


@st.composite
def tree(draw, parts, rank, ops, sub):
    """Expression over the participants (in any order)."""
    parts = list(draw(st.permutations(parts)))
    if len(parts) == 1:
        return ["f", parts[0]]
    plain = all(rank not in ops[i]["proj"] for i in parts)
    kinds = ["and", "and", "or", "inter", "union", "xor"]
    if sub:
        kinds += ["sub", "sub"]
    if all(rank not in ops[i]["proj"] for i in parts[1:]):
        kinds += ["lf", "lf"]
    if plain and ops[parts[0]]["known"]:
        kinds += ["co"]
    k = draw(st.sampled_from(kinds))
    if k == "co":
        k = draw(st.sampled_from(("coshape", "coshape") + CO + CORANGE))
        if k in CO:
            return [k] + parts
        return [k] + draw(window(5)) + parts
    if k in ("inter", "union", "lf"):
        return [k] + [["f", i] for i in parts]
    cut = draw(st.integers(1, len(parts) - 1))
    if k == "sub":
        return [k, draw(tree(parts[:cut], rank, ops, False)),
                draw(tree(parts[cut:], rank, ops, False))]
    return [k, draw(tree(parts[:cut], rank, ops, False)), draw(tree(parts[cut:], rank, ops, False))]


@st.composite
def nests(draw, depths=(1, 2, 2, 3), maxops=3, probes=True, shaperef=True):
    n = draw(st.sampled_from(depths))
    ranks = NAMES[:n]
    hi = {1: 8, 2: 5, 3: 4}[n]
    dims = {r: draw(st.sampled_from([hi, hi - 1, 2, 1, 3])) for r in ranks}
    big = gens.wide(draw, sizes=[17, 24, 40] + [300] * (n == 1), rare=24)
    if big:
        dims[draw(st.sampled_from(ranks))] = big
    nops = draw(st.integers(1, maxops if draw(st.integers(0, 4)) else maxops + 3 - n))
    sets = [set(draw(st.sets(st.sampled_from(ranks), min_size=1))) for _ in range(nops)]
    for r in ranks:
        if not any(r in s for s in sets):
            sets[draw(st.integers(0, nops - 1))].add(r)
    ops = []
    for s in sets:
        rs = [r for r in ranks if r in s]
        sh = [dims[r] for r in rs]
        known = draw(st.integers(0, 3)) > 0
        sp = draw(st.one_of(gens.rspec(sh), gens.rspec(sh), gens.spec(sh)))
        fmt = ["C"] * len(rs)
        if known and draw(st.integers(0, 3)) == 0:
            fmt = draw(st.lists(st.sampled_from("CU"), min_size=len(rs), max_size=len(rs)))
        proj = {}
        if draw(st.integers(0, 3)) == 0:
            r = draw(st.sampled_from(rs))
            k = draw(st.integers(-2, 3))
            iv = draw(st.sampled_from([None, None, [0, dims[r]], [1, dims[r] + 1], [0, 1]]))
            proj[r] = [draw(st.sampled_from(["+", "+", "+", "-"])), k, iv]
        ops.append({"ranks": rs, "spec": sp, "fmt": fmt, "known": known, "proj": proj})
    # a reversed projection needs a range to reverse
    for o in ops:
        for r, (kind, k, iv) in o["proj"].items():
            if kind == "-" and not o["known"]:
                o["known"] = True
    zr = [r for r in ranks if draw(st.integers(0, 2)) > 0]
    live = set(range(nops))
    levels = []
    for li, r in enumerate(ranks):
        parts = [i for i in sorted(live) if r in ops[i]["ranks"]]
        # dropping an operand must leave something to drive the deeper loops
        deeper = ranks[li + 1:]
        sub = len(parts) > 1 and not deeper
        e = draw(tree(parts, r, ops, sub))
        if e[0] == "f" and r not in zr and r not in ops[e[1]]["proj"]:
            i = e[1]
            kinds = ["f", "f", "occ", "active"]
            if ops[i]["known"]:
                kinds += ["shape", "ashape", "shape", "rshape"]
                kinds += ["shaperef", "ashaperef", "rshaperef"] if shaperef else []
            kinds += ["range", "rpos"]
            e = [draw(st.sampled_from(kinds)), i]
            if e[0] in ("range", "rshape", "rshaperef"):
                e += draw(window(dims[r]))
            if e[0] == "rpos":
                e += [draw(st.integers(0, 2)), draw(st.sampled_from([None, 1, 2, 9]))]
        levels.append(e)
        live &= set(kept(e)) | {i for i in live if r not in ops[i]["ranks"]}
    z = {"ranks": zr, "known": draw(st.booleans()), "fmt": "C"}
    sh = [dims[r] for r in zr]
    z["spec"] = [] if not zr or draw(st.booleans()) else \
        draw(st.one_of(gens.rspec(sh), gens.spec(sh)))
    if zr and z["known"] and draw(st.integers(0, 5)) == 0:
        z["fmt"] = "U"
    case = {"ranks": ranks, "dims": dims, "ops": ops, "levels": levels, "z": z,
            "act": draw(st.sampled_from(["+=", "+=", "+=", "<<=", "*=", "+", "none", "some",
                                         "neg", "-="])),
            "probes": []}
    if probes and draw(st.integers(0, 3)) == 0:
        case["probes"] = draw(st.lists(st.tuples(
            st.integers(0, n - 1), st.integers(0, nops - 1), st.integers(0, 5),
            st.booleans()), max_size=2))
    if probes and draw(st.integers(0, 2)) == 0:
        case["quiet"] = draw(st.lists(st.tuples(
            st.integers(0, n - 1), st.integers(0, nops - 1), st.sampled_from(QUIET)),
            min_size=1, max_size=3))
    return case


def opid(o, r):
    return r + "x" if r in o["proj"] else r


# ---------------------------------------------------------------- the library's run

def tensors(case):
    ops = []
    for n, o in enumerate(case["ops"]):
        d = len(o["ranks"])
        t = T().fromFiber(rank_ids=[opid(o, r) for r in o["ranks"]],
                          fiber=raw.mk_fiber(o["spec"], d), name="ABCDE"[n],
                          shape=[case["dims"][r] for r in o["ranks"]] if o["known"] else None)
        for r, fm in zip(o["ranks"], o["fmt"]):
            t.setFormat(opid(o, r), fm)
        ops.append(t)
    z = case["z"]
    sh = [case["dims"][r] + 4 for r in z["ranks"]] if z["known"] else None
    if not z["ranks"]:
        Z = T()(rank_ids=[], name="Z")
    elif z["spec"]:
        Z = T().fromFiber(rank_ids=list(z["ranks"]), name="Z", shape=sh,
                          fiber=raw.mk_fiber(z["spec"], len(z["ranks"])))
    else:
        Z = T()(rank_ids=list(z["ranks"]), shape=sh, name="Z")
    if z["fmt"] == "U":
        for r in z["ranks"]:
            Z.setFormat(r, "U")
    return ops, Z


def solo(f, e, **kw):
    """Start the iteration e of one fiber."""
    k, a = e[0], list(e[2:])
    if k == "rpos":
        pos = min(a[0], len(f.coords) - 1)
        return f.iterRange(None, a[1], start_pos=pos if pos >= 0 else None, **kw)
    if k == "range":
        return f.iterRange(a[0], a[1], **kw)
    fn = {"shape": f.iterShape, "ashape": f.iterActiveShape, "occ": f.iterOccupancy,
          "active": f.iterActive, "shaperef": f.iterShapeRef, "ashaperef": f.iterActiveShapeRef,
          "rshape": f.iterRangeShape, "rshaperef": f.iterRangeShapeRef}[k]
    return fn(*a, **kw)


def quiet(case, f, o, r, kind):
    """Look at an operand without counting: a loop that does not tick, or a plain query."""
    if kind in SOLO:
        if kind.endswith("ref"):
            # on a fiber of the same rank, so that the operands stay as they are
            rest = o["ranks"][o["ranks"].index(r):]
            t = T()(rank_ids=[opid(o, x) for x in rest], shape=[case["dims"][x] for x in rest])
            f = t.getRoot()
        elif not o["known"] and "shape" in kind:
            return
        for _ in solo(f, [kind, 0] + {"range": [1, 3], "rshape": [0, 3, 2],
                                      "rshaperef": [0, 3, 2]}.get(kind, []), tick=False):
            pass
        return
    {"count": f.countValues, "str": f.__str__, "eq": lambda: f == f, "empty": f.isEmpty,
     "getshape": f.getShape, "copy": f.copy, "position": lambda: f.getPosition(1),
     "len": f.__len__}[kind]()


class Stop(Exception):
    pass


class Log:
    def __init__(self, n):
        self.bodies = [[] for _ in range(n)]     # per level: coordinates so far
        self.counts = {"mul": 0, "add": 0, "update": 0}
        self.seen = []                           # everything the kernel saw
        self.total = 0


def trans(pr):
    kind, k, _ = pr
    return (lambda c: c + k) if kind == "+" else (lambda c: k - c)


def drive(case, ops, Z, log, hook=None, stop=None):
    """Run the nest on the library's objects, exactly as a user would write it."""
    ranks, F_ = case["ranks"], F()
    n = len(ranks)

    def expr(e, r, cur):
        k = e[0]
        if k == "f":
            o, f = case["ops"][e[1]], cur[e[1]]
            if r in o["proj"]:
                iv = o["proj"][r][2]
                return f.project(trans_fn=trans(o["proj"][r]), rank_id=r,
                                 interval=tuple(iv) if iv else None)
            return f
        if k in CO + CORANGE:
            fn = {"coshape": F_.coiterShape, "coashape": F_.coiterActiveShape,
                  "coshaperef": F_.coiterShapeRef, "coashaperef": F_.coiterActiveShapeRef,
                  "corange": F_.coiterRangeShape, "corangeref": F_.coiterRangeShapeRef}[k]
            return fn([cur[i] for i in members(e)], *(e[1:4] if k in CORANGE else ()))
        xs = [expr(x, r, cur) for x in e[1:]]
        if k == "and":
            return xs[0] & xs[1]
        if k == "or":
            return xs[0] | xs[1]
        if k == "xor":
            return xs[0] ^ xs[1]
        if k == "sub":
            return xs[0] - xs[1]
        if k == "inter":
            return F_.intersection(*xs)
        if k == "union":
            return F_.union(*xs)
        return F_.intersection(*xs, style="leader-follower")

    def loop(e, r, cur):
        if e[0] in SOLO:
            return solo(cur[e[1]], e)
        return expr(e, r, cur)

    def unpack(e, p, out):
        k = e[0]
        if k == "f" or k in SOLO:
            out[e[1]] = p
            return
        if k == "sub":
            return unpack(e[1], p, out)
        t = P().get(p)
        if k in CO + CORANGE:
            for i, x in zip(members(e), t):
                out[i] = x
            return
        if k in ("and", "inter", "lf"):
            for x, q in zip(e[1:], t):
                unpack(x, q, out)
            return
        for x, q in zip(e[1:], t[1:]):
            unpack(x, q, out)

    def act(cur, z):
        vals = [cur[i] for i in sorted(cur) if not isinstance(cur[i], F())]
        prod = vals[0] if vals else P()(2)
        log.seen.append(tuple(P().get(v) for v in vals))
        for v in vals[1:]:
            prod = prod * v
            log.counts["mul"] += 1
        a = case["act"]
        if a == "some" and log.total % 2:
            return
        if a == "+=" or a == "some":
            log.counts["update"] += 1
            log.counts["add"] += z.value != 0
            z += prod
        elif a == "neg":
            log.counts["update"] += 1
            log.counts["mul"] += 1
            log.counts["add"] += z.value != 0
            z += prod * -1
        elif a == "-=":
            log.counts["update"] += 1
            z -= prod
        elif a == "<<=":
            log.counts["update"] += 1
            z <<= prod
        elif a == "*=":
            log.counts["update"] += 1
            log.counts["mul"] += 1
            z *= prod
        elif a == "+":
            log.counts["add"] += 1
            log.counts["update"] += 1
            s = z + prod
            z <<= s

    def nest(level, cur, z, at):
        if level == n:
            act(cur, z)
            return
        r, e = ranks[level], case["levels"][level]
        pop = r in case["z"]["ranks"]
        it = loop(e, r, cur)
        for c, p in (z << it if pop else it):
            zn = z
            if pop:
                zn, p = P().get(p)
            log.bodies[level].append(at + (c,))
            log.total += 1
            if hook:
                hook(log)
            if stop is not None and log.total >= stop:
                raise Stop()
            nxt = {i: x for i, x in cur.items() if r not in case["ops"][i]["ranks"]}
            out = {}
            unpack(e, p, out)
            nxt.update(out)
            for lv, i, pc, tr in case["probes"]:
                if lv == level and i in cur and r in case["ops"][i]["ranks"]:
                    # the element may be absent; the access is still made
                    v = cur[i].getPayload(pc, trace="probe" if tr else None)
                    log.seen.append(repr(P().get(v)) if not isinstance(v, F()) else len(v))
            for lv, i, kind in case.get("quiet", ()):
                if lv == level and i in cur and r in case["ops"][i]["ranks"]:
                    quiet(case, cur[i], case["ops"][i], r, kind)
            nest(level + 1, nxt, zn, at + (c,))

    nest(0, {i: t.getRoot() for i, t in enumerate(ops)}, Z.getRoot(), ())


# ---------------------------------------------------------------- the simulation

def tolist(spec, depth):
    return [[c, v if depth == 1 else tolist(v, depth - 1)] for c, v in spec]


def empty(x):
    if isinstance(x, list):
        return all(empty(v) for _, v in x)
    return x == 0


def find(lst, c):
    """(position, present)"""
    i = bisect.bisect_left([x[0] for x in lst], c)
    return i, i < len(lst) and lst[i][0] == c


class Sim:
    """rows[(rank, type)] = [(upper coords + coord, acceptable positions or None)]; loose holds
    the destination-side traces of inserting populates, per populate."""

    def __init__(self, case):
        self.case = case
        self.rows = {}
        self.bodies = [[] for _ in case["ranks"]]
        self.label = {r: 0 for r in case["ranks"]}
        self.reached = set()            # loop ranks entered
        self.linked = set()             # projected ranks whose projection was started
        self.loose = {}                 # (rank, populate label) -> it inserted at least once
        self.total = 0
        self.ops = [tolist(o["spec"], len(o["ranks"])) for o in case["ops"]]
        z = case["z"]
        self.z = tolist(z["spec"], len(z["ranks"])) if z["ranks"] else 0
        box = [None, self.z]
        self.at = ()
        self.nest(0, dict(enumerate(self.ops)), box)
        self.z = box[1]

    def row(self, rank, typ, c, pos):
        self.rows.setdefault((rank, typ), []).append((self.at + (c,), pos))

    def lab(self, rank):
        self.label[rank] += 1
        return self.label[rank] - 1

    # -- streams of (coord, {op: child}, position in the fiber read)

    def children(self, i, lst, r):
        """What the operand's own fiber presents, with stored positions."""
        o = self.case["ops"][i]
        d = o["ranks"].index(r)
        leaf = d + 1 == len(o["ranks"])
        if o["fmt"][d] == "U":
            for c in range(self.case["dims"][r]):
                p, here = find(lst, c)
                yield c, {i: lst[p][1] if here else (0 if leaf else [])}, c
            return
        for p, (c, v) in enumerate(lst):
            if not empty(v):
                yield c, {i: v}, p

    def stream(self, e, r, cur):
        k = e[0]
        if k == "f":
            i = e[1]
            o = self.case["ops"][i]
            if r not in o["proj"]:
                yield from self.children(i, cur[i], r)
                return
            kind, _, iv = o["proj"][r]
            self.linked.add(r + "x")
            typ = f"project_{self.lab(r)}"
            items = list(self.children(i, cur[i], r))
            if kind == "-":
                items.reverse()
            n = 0
            for old, ch, p in items:
                c = trans(o["proj"][r])(old)
                if iv and c >= iv[1]:
                    break
                if iv and c < iv[0]:
                    continue
                self.row(r + "x", typ, old, p)
                yield c, ch, n
                n += 1
            return
        if k in CO + CORANGE:
            cs = range(*e[1:4]) if k in CORANGE else range(self.case["dims"][r])
            for n, c in enumerate(cs):
                out = {}
                for i in members(e):
                    out[i] = self.value(i, cur[i], r, c, k.endswith("ref"))
                yield c, out, n
            return
        if k in ("inter", "union"):
            op = "and" if k == "inter" else "or"
            x = e[1]
            for y in e[2:]:
                x = [op, x, y]
            yield from self.stream(x, r, cur)
            return
        if k == "lf":
            labs = [self.lab(r) for _ in e[1:]]
            n = 0
            for c, ch, p in self.stream(e[1], r, cur):
                self.row(r, f"intersect_{labs[0]}", c, p)
                out = dict(ch)
                for lb, y in zip(labs[1:], e[2:]):
                    i = y[1]
                    q, here = find(cur[i], c)
                    o = self.case["ops"][i]
                    leaf = o["ranks"][-1] == r
                    u = o["fmt"][o["ranks"].index(r)] == "U"
                    self.row(r, f"intersect_{lb}", c, q if here and not u else None)
                    out[i] = cur[i][q][1] if here else (0 if leaf else [])
                yield c, out, n
                n += 1
            return
        # two operands
        if k in ("and", "or"):
            la, lb = self.lab(r), self.lab(r)
            ta, tb = (("intersect_" if k == "and" else "union_") + str(x) for x in (la, lb))
        a, b = self.stream(e[1], r, cur), self.stream(e[2], r, cur)
        x, y = next(a, None), next(b, None)
        n = 0
        while (x and y) if k == "and" else (x or y) if k != "sub" else x:
            here = "A" if not y or (x and x[0] < y[0]) else "B" if not x or y[0] < x[0] else "AB"
            if k in ("and", "or"):
                if "A" in here:
                    self.row(r, ta, x[0], x[2])
                if "B" in here:
                    self.row(r, tb, y[0], y[2])
            give = {"and": here == "AB", "or": True, "xor": here != "AB", "sub": here == "A"}[k]
            if give:
                out = {}
                if k == "sub":
                    out.update(x[1])
                else:
                    out.update(x[1] if "A" in here else self.absent(e[1], r))
                    out.update(y[1] if "B" in here else self.absent(e[2], r))
                yield (x if "A" in here else y)[0], out, n
                n += 1
            if "A" in here:
                x = next(a, None)
            if "B" in here:
                y = next(b, None)
        if k == "and":
            # the element that was fetched but found nobody to match
            if x:
                self.row(r, ta, x[0], x[2])
            if y:
                self.row(r, tb, y[0], y[2])

    def absent(self, e, r):
        return {i: 0 if self.case["ops"][i]["ranks"][-1] == r else [] for i in kept(e)}

    def value(self, i, lst, r, c, insert):
        p, here = find(lst, c)
        if here:
            return lst[p][1]
        v = 0 if self.case["ops"][i]["ranks"][-1] == r else []
        if insert:
            lst.insert(p, [c, v])
        return v

    def loop(self, e, r, cur):
        k = e[0]
        if k in SOLO and "shape" in k:
            i = e[1]
            for c in range(*e[2:]) if k[0] == "r" else range(self.case["dims"][r]):
                yield c, {i: self.value(i, cur[i], r, c, k.endswith("ref"))}, c
        elif k in SOLO:
            i = e[1]
            lo, hi = {"range": e[2:4], "rpos": [None] + e[3:]}.get(k, [None, None])
            for p, (c, v) in enumerate(list(cur[i])):
                if k == "rpos" and p < min(e[2], len(cur[i]) - 1):
                    continue
                if (lo is None or c >= lo) and (hi is None or c < hi) and not empty(v):
                    yield c, {i: v}, p
        else:
            yield from self.stream(e, r, cur)

    def populate(self, box, inner, r):
        la, lb = self.lab(r), self.lab(r)
        lst = box[1]
        u = self.case["z"]["fmt"] == "U"
        leaf = self.case["z"]["ranks"][-1] == r
        ins = False
        first = True
        staged = []
        key = (r, la)
        ev = {"at": self.at, "read": [], "write": [], "staged": staged, "removed": False,
              "init": [c for c, _ in lst]}
        n = 0
        for c, ch, p in inner:
            if first:
                ins = bool(lst) and not u and c < lst[-1][0]
                first = False
            self.row(r, f"populate_{lb}", c, p)
            q, here = find(lst, c)
            if here:
                if not ins:
                    self.row(r, f"populate_read_{la}", c, None if u else q)
                ev["read"].append(c)
            else:
                lst.insert(q, [c, 0 if leaf else []])
            entry = lst[q]
            yield c, ch, n, entry
            n += 1
            q = [x is entry for x in lst].index(True)
            if empty(entry[1]):
                ev["removed"] |= here
                del lst[q]
            else:
                if not ins:
                    self.row(r, f"populate_write_{la}", c, None if u else q)
                elif not here:
                    staged.append(c)
                ev["write"].append(c)
        ev["final"] = [c for c, _ in lst]
        ev["ins"] = ins
        self.loose.setdefault(key, []).append(ev)

    def nest(self, level, cur, box):
        case = self.case
        if level == len(case["ranks"]):
            self.act(cur, box)
            return
        r, e = case["ranks"][level], case["levels"][level]
        self.reached.add(r)
        it = self.loop(e, r, cur)
        if r in case["z"]["ranks"]:
            it = self.populate(box, it, r)
        else:
            it = ((c, ch, p, box) for c, ch, p in it)
        for c, ch, p, nbox in it:
            # the position of a plain fiber's element, else the number delivered before
            self.row(r, "iter", c, p)
            self.bodies[level].append(self.at + (c,))
            self.total += 1
            for lv, i, pc, tr in case["probes"]:
                if lv == level and i in cur and r in case["ops"][i]["ranks"] and tr:
                    o = case["ops"][i]
                    if r in o["proj"] and r + "x" not in self.linked:
                        continue
                    q, here = find(cur[i], pc)
                    u = o["fmt"][o["ranks"].index(r)] == "U"
                    self.row(opid(o, r), "probe", pc, q if here and not u else None)
            nxt = {i: x for i, x in cur.items() if r not in case["ops"][i]["ranks"]}
            nxt.update(ch)
            save = self.at
            self.at = save + (c,)
            self.nest(level + 1, nxt, nbox)
            self.at = save
        self.label[r] = 0

    def act(self, cur, box):
        vals = [cur[i] for i in sorted(cur) if not isinstance(cur[i], list)]
        prod = 2 if not vals else 1
        for v in vals:
            prod *= v
        a = self.case["act"]
        if a == "some" and self.total % 2:
            return
        if a in ("+=", "some", "+"):
            box[1] += prod
        elif a in ("neg", "-="):
            box[1] -= prod
        elif a == "<<=":
            box[1] = prod
        elif a == "*=":
            box[1] *= prod


# ---------------------------------------------------------------- sessions

_PRISTINE = None


def reset():
    """Put the collection state back to what a fresh process has."""
    global _PRISTINE
    import copy
    cls = M()
    if _PRISTINE is None:
        _PRISTINE = {k: copy.deepcopy(v) for k, v in vars(cls).items()
                     if not k.startswith("__") and not callable(v)
                     and not isinstance(v, (classmethod, staticmethod, property))}
    for k, v in _PRISTINE.items():
        setattr(cls, k, copy.deepcopy(v))


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="ftv-")
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def readtrace(path):
    """(header, rows) of a trace file; None when the file is empty or missing."""
    if not os.path.exists(path):
        return None
    with open(path) as f:
        lines = f.read().split("\n")
    check(lines[-1] == "", "trace {} does not end with a newline", os.path.basename(path))
    lines = [x.split(",") for x in lines[:-1]]
    if not lines:
        return None
    rows = []
    for x in lines[1:]:
        try:
            rows.append([int(v) for v in x])
        except ValueError:
            raise Violation(f"trace {os.path.basename(path)}: row {x!r} is not numeric")
    return lines[0], rows
