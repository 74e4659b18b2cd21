"""Runner: shards the generated checks of one property over processes, shrinks a
failure, writes the replay file and the evidence file.

Exit codes: 0 held on everything explored, 1 violation (with VIOLATION line),
2 error of the harness itself.
"""
import ast
import hashlib
import importlib
import json
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

from .core import CaseTimeout, Ctx, HYP, REPO, Sub, Violation  # noqa

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("FTV_NPROC", min(8, os.cpu_count() or 1)))
CASE_CPU_S = 30          # a legal case needs milliseconds
SHRINK_WALL_S = 45
# total wall limit: past it no new shard is started (reported, never a violation)
WALL_LIMIT = {"quick": 600, "thorough": 6 * 3600}


def _import_repo():
    import warnings
    warnings.simplefilter("ignore")
    import fibertree
    f = os.path.abspath(fibertree.__file__)
    if not f.startswith(os.path.abspath(REPO) + os.sep):
        raise SystemExit(f"fibertree imported from {f}, not from {REPO}")


class LibraryError(Violation):
    pass


def _in_repo(tb):
    for fr in traceback.extract_tb(tb):
        if os.path.abspath(fr.filename).startswith(os.path.abspath(REPO) + os.sep):
            return True
    return False


def reset_library():
    """Put the library's process-global state back to a fresh process's."""
    from fibertree.core.metrics import Metrics
    if Metrics.isCollecting():
        try:
            Metrics.endCollect()
        except Exception:
            pass


def run_case(sub, case, ctx=None):
    """Run one case; raises Violation iff the property fails on it."""
    ctx = ctx or Ctx()

    def on_alarm(sig, frm):
        raise CaseTimeout()

    old = signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        sub.run(case, ctx)
    except Violation:
        raise
    except CaseTimeout:
        raise Violation(f"no answer within {CASE_CPU_S} s of CPU time "
                        "(does not terminate)") from None
    except (KeyboardInterrupt, GeneratorExit):
        raise
    except BaseException as e:     # includes SystemExit raised by the library
        if type(e).__module__.startswith("hypothesis"):
            raise
        if _in_repo(e.__traceback__):
            last = [fr for fr in traceback.extract_tb(e.__traceback__)
                    if REPO in fr.filename][-1]
            raise LibraryError(
                f"library raised {type(e).__name__}: {e} "
                f"(in {os.path.basename(last.filename)}:{last.name}) on a legal input") from e
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        reset_library()
    return ctx


def norm(case):
    """The case as it will be read back from a replay file."""
    return ast.literal_eval(repr(case))


class Shard:
    def __init__(self, prop, sub, out):
        self.prop, self.sub, self.out = prop, sub, out
        self.n = 0
        self.labels = {}
        self.hashes = set()
        self.samples = []
        self.best = None
        self.fail_at = None
        self.error = None
        self.next_sample = 1
        self.nt = 0

    def save(self):
        d = dict(sub=self.sub.name, n=self.n, labels=self.labels, hashes=self.hashes,
                 samples=self.samples, best=self.best, error=self.error)
        with open(self.out + ".tmp", "wb") as f:
            pickle.dump(d, f)
        os.rename(self.out + ".tmp", self.out)

    def one(self, case):
        if self.fail_at is not None and time.time() - self.fail_at > SHRINK_WALL_S:
            self.save()
            os._exit(0)
        self.n += 1
        ctx = Ctx()
        try:
            run_case(self.sub, case, ctx)
        except Violation as e:
            r = repr(case)
            if self.best is None or len(r) < len(self.best[0]):
                self.best = (r, str(e))
            if self.fail_at is None:
                self.fail_at = time.time()
                open(self.out + ".failed", "w").close()
            self.save()
            raise
        for lb in ctx.labels:
            self.labels[lb] = self.labels.get(lb, 0) + 1
        if ctx.nontrivial:
            r = repr(case)
            h = hashlib.blake2b(r.encode(), digest_size=8).digest()
            if h not in self.hashes:
                self.hashes.add(h)
                self.nt += 1
                if self.nt >= self.next_sample and len(self.samples) < 4:
                    self.samples.append(r if len(r) < 3000 else r[:3000] + "...")
                    self.next_sample = self.nt * 4 + 3


def run_shard(sh, kind, n, seed, idx, nsh, tier):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sub = sh.sub
    try:
        if kind == "exh":
            for i, case in enumerate(sub.exhaustive(tier)):
                if i % nsh == idx:
                    try:
                        sh.one(case)
                    except Violation:
                        break
        elif kind == "corpus":
            for case in n:
                try:
                    sh.one(case)
                except Violation:
                    break
        else:
            import hypothesis
            from hypothesis import HealthCheck, Phase, given, settings

            @hypothesis.seed(seed)
            @settings(max_examples=n, deadline=None, database=None,
                      report_multiple_bugs=False, print_blob=False,
                      phases=[Phase.generate, Phase.shrink],
                      suppress_health_check=list(HealthCheck))
            @given(sub.strategy())
            def t(case):
                sh.one(case)

            try:
                t()
            except Violation:
                pass
            except hypothesis.errors.HypothesisException as e:
                if sh.best is None:
                    raise
    except BaseException:
        sh.error = traceback.format_exc()
    sh.save()


def load_corpus(prop):
    """corpus/<id>.py: list literal of {sub, case, why}."""
    p = os.path.join(VERIF, "corpus", prop + ".py")
    if not os.path.exists(p):
        return []
    return ast.literal_eval(open(p).read())


def load_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f["property"] == prop]


def write_replay(prop, sub, case_repr, msg):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{sub}.json")
    with open(p, "w") as f:
        json.dump({"property": prop, "sub": sub, "case": case_repr, "message": msg}, f, indent=1)
    return p


def main(argv):
    sys.dont_write_bytecode = True
    if argv and argv[0] == "replay":
        return replay(argv[1])
    if argv and argv[0] == "selftest":
        import fibertree          # noqa
        import hypothesis         # noqa
        print("fibertree from", fibertree.__file__, "hypothesis", hypothesis.__version__)
        return 0
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = set(argv[2:])
    seed0 = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    _import_repo()
    mod = importlib.import_module("ftv." + prop.lower())
    subs = [s for s in mod.SUBS if not only or s.name in only]
    byname = {s.name: s for s in subs}
    scratch = tempfile.mkdtemp(prefix=f"ftv-{prop}-")
    os.chdir(scratch)        # whatever the library writes lands here
    try:
        return drive(prop, tier, seed0, t0, mod, subs, byname, scratch, only)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def drive(prop, tier, seed0, t0, mod, subs, byname, scratch, only):
    scale = float(os.environ.get("FTV_SCALE", "1"))
    tasks = []
    corpus = {}
    for e in load_corpus(prop):
        if e["sub"] in byname:
            corpus.setdefault(e["sub"], []).append(e["case"])
    for name, cases in corpus.items():
        tasks.append((byname[name], "corpus", cases, 0, 0, 1))
    for si, s in enumerate(subs):
        if s.exhaustive is not None:
            for i in range(NPROC):
                tasks.append((s, "exh", 0, 0, i, NPROC))
        if s.strategy is not None:
            total = int((s.quick if tier == "quick" else s.thorough) * scale)
            nsh = 8 if total <= 40000 else max(8, total // 5000)
            for i in range(nsh):
                n = total // nsh + (1 if i < total % nsh else 0)
                if n:
                    sd = int.from_bytes(hashlib.blake2b(
                        f"{seed0}/{prop}/{s.name}/{i}".encode(), digest_size=6).digest(), "big")
                    tasks.append((s, "gen", n, sd, i, nsh))
    # interleave the sub-checks so that a failure anywhere shows early
    tasks = ([t for t in tasks if t[1] == "corpus"]
             + sorted([t for t in tasks if t[1] != "corpus"],
                      key=lambda t: t[4] // NPROC))
    running, results, skipped = {}, [], 0
    failing = False
    ti = 0
    fail_wall = None
    while ti < len(tasks) or running:
        while ti < len(tasks) and len(running) < NPROC and not failing:
            if time.time() - t0 > WALL_LIMIT[tier]:
                skipped += len(tasks) - ti
                ti = len(tasks)
                break
            s, kind, n, sd, i, nsh = tasks[ti]
            out = os.path.join(scratch, f"r{ti}.pkl")
            wd = os.path.join(scratch, f"w{ti}")
            os.mkdir(wd)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.chdir(wd)
                    # the library prints; keep that out of our output
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    run_shard(Shard(prop, s, out), kind, n, sd, i, nsh, tier)
                except BaseException:
                    traceback.print_exc()
                    os._exit(3)
                os._exit(0)
            running[pid] = (out, s, wd)
            ti += 1
        if failing:
            ti = len(tasks)
        if not running:
            break
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if any(os.path.exists(o + ".failed") for o, _, _ in running.values()):
                failing = True
                if fail_wall is None:
                    fail_wall = time.time()
                # let the failing shards shrink, stop the others
                for p, (o, s, wd) in list(running.items()):
                    if not os.path.exists(o + ".failed"):
                        os.kill(p, signal.SIGKILL)
                if time.time() - fail_wall > SHRINK_WALL_S + CASE_CPU_S + 30:
                    for p in running:
                        os.kill(p, signal.SIGKILL)
            time.sleep(0.02)
            continue
        out, s, wd = running.pop(pid)
        shutil.rmtree(wd, ignore_errors=True)
        if os.path.exists(out):
            d = pickle.load(open(out, "rb"))
            results.append(d)
            if d["best"] is not None:
                failing = True
        elif not failing:
            results.append(dict(sub=s.name, n=0, labels={}, hashes=set(), samples=[],
                                best=None, error=f"shard died, wait status {st}"))
    return report(prop, tier, seed0, t0, mod, subs, byname, results, skipped, only, failing)


def report(prop, tier, seed0, t0, mod, subs, byname, results, skipped, only, failing):
    per, hashes, labels, samples = {}, {}, {}, {}
    viols, errors = [], []
    for d in results:
        per[d["sub"]] = per.get(d["sub"], 0) + d["n"]
        hashes.setdefault(d["sub"], set()).update(d["hashes"])
        lb = labels.setdefault(d["sub"], {})
        for k, v in d["labels"].items():
            lb[k] = lb.get(k, 0) + v
        sm = samples.setdefault(d["sub"], [])
        if len(sm) < 2:
            sm.extend(d["samples"][:2 - len(sm)])
        if d["best"] is not None:
            viols.append((d["sub"],) + tuple(d["best"]))
        if d["error"]:
            errors.append((d["sub"], d["error"]))

    # known findings: each is one recorded input; it must still fail the recorded way
    known = []
    for f in load_findings(prop):
        if f.get("status") != "open" or (only and f["sub"] not in only):
            continue
        try:
            run_case(byname[f["sub"]], ast.literal_eval(f["case"]))
        except Violation as e:
            if f["signature"] in str(e):
                known.append(f["what"])
                print(f"KNOWN-FINDING: property={prop} {f['what']}")
            else:
                viols.append((f["sub"], f["case"],
                              f"known finding now fails differently: {e}"))
        else:
            print(f"note: known finding no longer occurs: {f['what']}")

    # the final word on a violation is a run that bypasses Hypothesis
    confirmed = []
    for sub, case, msg in sorted(viols, key=lambda v: len(v[1])):
        try:
            run_case(byname[sub], ast.literal_eval(case))
        except Violation as e:
            confirmed.append((sub, case, str(e)))
        except BaseException:
            errors.append((sub, traceback.format_exc()))
        else:
            errors.append((sub, f"failure did not reproduce: {case}\n{msg}"))
        if len(confirmed) >= 3:
            break

    ev = {
        "property": prop, "tier": tier, "seed": seed0, "level": "exploration",
        "coverage": {
            "evaluations": sum(per.values()),
            "distinct_nontrivial": sum(len(h) for h in hashes.values()),
            "rule": mod.RULE + " || " + " | ".join(
                f"{s.name}: {s.rule}" for s in subs if s.rule),
            "samples": [{"check": k, "case": c} for k, v in samples.items() for c in v],
            "per_check": {k: {"evaluations": per[k], "distinct_nontrivial": len(hashes[k]),
                              "labels": dict(sorted(labels[k].items()))} for k in per},
            "shards_skipped_for_time": skipped,
            "known_findings_seen": known,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    nl = "\n" if only or os.environ.get("FTV_VERBOSE") else None
    if nl:
        for k in per:
            print(f"  {k}: {per[k]} cases, {len(hashes[k])} distinct non-trivial;",
                  ", ".join(f"{a}={b}" for a, b in sorted(labels[k].items())))
    print(f"{prop} {tier} seed={seed0}: {ev['coverage']['evaluations']} cases, "
          f"{ev['coverage']['distinct_nontrivial']} distinct non-trivial, {ev['wall_s']} s")
    if skipped:
        print(f"note: {skipped} shards not started, wall limit reached (inconclusive there)")
    if confirmed:
        for sub, case, msg in confirmed[:1]:
            p = write_replay(prop, sub, case, msg)
            print(f"  {sub}: {msg}\n  case: {case[:2000]}")
            print(f"VIOLATION property={prop} replay={p}")
        return 1
    if errors:
        for sub, e in errors[:2]:
            print(f"HARNESS ERROR in {sub}:\n{e}", file=sys.stderr)
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    _import_repo()
    mod = importlib.import_module("ftv." + d["property"].lower())
    sub = {s.name: s for s in mod.SUBS}[d["sub"]]
    case = ast.literal_eval(d["case"])
    scratch = tempfile.mkdtemp(prefix="ftv-replay-")
    os.chdir(scratch)
    try:
        run_case(sub, case)
    except Violation as e:
        if os.environ.get("FTV_VERBOSE"):
            traceback.print_exc()
        print(f"  {d['sub']}: {e}\n  case: {d['case'][:2000]}")
        print(f"VIOLATION property={d['property']} replay={os.path.abspath(path)}")
        return 1
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    print("replay: the property holds on this case")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
