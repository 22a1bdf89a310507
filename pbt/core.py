"""Runner: generated-input search with Hypothesis, sharded over processes."""
import argparse
import collections
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings

import numpy as np

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from hypothesis import errors as herrors
from hypothesis.internal.conjecture import engine as _engine

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")

# Per-case limit: ordinary cases take well under ten seconds.
CASE_LIMIT = {"quick": 150, "thorough": 300}
# After this many seconds no new case is started (the evidence says so).
BUDGET = {"quick": 420, "thorough": 3000}
SHRINK_SECONDS = 40


class Violation(AssertionError):
    """Raised by a check: the code under test broke the property."""


class CaseTimeout(Exception):
    pass


class OutOfBudget(Exception):
    pass


class Reject(Exception):
    """The generated case is outside the property's domain."""


class HarnessError(Exception):
    """The oracle could not be evaluated; never a verdict about the code."""


def require(cond, msg="", *details):
    if not cond:
        raise Violation(" ".join([str(msg)] + [repr(d) for d in details])[:4000])


class Ctx:
    """Collects what one case exercised."""

    def __init__(self, tier):
        self.tier = tier
        self.labels = []
        self.trivial = True
        self.seen = None

    def nontrivial(self, flag=True):
        if flag:
            self.trivial = False

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def reject(self, why=""):
        raise Reject(why)


class Clause:
    def __init__(self, name, strategy, check, quick, thorough, rule, shards):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.examples = {"quick": quick, "thorough": thorough}
        self.rule = rule
        self.shards = shards


class Property:
    def __init__(self, pid, boost=1):
        self.pid = pid
        self.boost = boost
        self.clauses = []
        self.assumptions = []

    def clause(self, name, strategy, quick, thorough=None, rule="", shards=None):
        if thorough is None:
            thorough = quick * 15

        def deco(fn):
            self.clauses.append(
                Clause(name, strategy, fn, quick * self.boost, thorough, rule, shards)
            )
            return fn

        return deco


# --------------------------------------------------------------------------
def _canon(spec):
    return json.dumps(spec, sort_keys=True, default=_np_default)


def _np_default(o):
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.bool_):
        return bool(o)
    raise TypeError(type(o))


def _alarm(_sig, _frm):
    raise CaseTimeout("case did not finish within the per-case limit")


def execute(clause, spec, ctx, limit):
    """Run one case.  Returns None or raises."""
    s = int(hashlib.sha256(_canon(spec).encode()).hexdigest()[:8], 16)
    np.random.seed(s)
    random.seed(s)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            sink = io.StringIO()
            with contextlib.redirect_stdout(sink):
                clause.check(json.loads(_canon(spec)), ctx)
    finally:
        signal.alarm(0)


_PASS_THROUGH = (
    Reject, OutOfBudget, HarnessError, MemoryError, KeyboardInterrupt, SystemExit,
    herrors.HypothesisException,
)


def run_shard(clause, tier, seed, n_examples, deadline):
    """Search one shard; returns a picklable summary."""
    out = {
        "clause": clause.name, "evaluations": 0, "rejected": 0,
        "nontrivial": set(), "labels": collections.Counter(), "samples": [],
        "failure": None, "error": None, "stopped": False, "slowest": 0.0,
    }
    limit = CASE_LIMIT[tier]
    last = {}

    def body(spec):
        if time.time() > deadline:
            if not last:
                out["stopped"] = True
                raise OutOfBudget()
        ctx = Ctx(tier)
        t0 = time.time()
        try:
            execute(clause, spec, ctx, limit)
        except Reject:
            out["rejected"] += 1
            hypothesis.reject()
        except _PASS_THROUGH:
            raise
        except BaseException as e:  # noqa: a crash of the code is a violation
            out["evaluations"] += 1
            last["spec"] = json.loads(_canon(spec))
            last["msg"] = f"{type(e).__name__}: {e}"
            last["tb"] = traceback.format_exc()
            if isinstance(e, CaseTimeout):
                # never shrink a hang
                raise OutOfBudget()
            raise
        out["evaluations"] += 1
        out["slowest"] = max(out["slowest"], time.time() - t0)
        for lab in set(ctx.labels):
            out["labels"][clause.name + ":" + lab] += 1
        if not ctx.trivial:
            key = hashlib.sha256(_canon([clause.name, spec]).encode()).hexdigest()[:16]
            if key not in out["nontrivial"]:
                out["nontrivial"].add(key)
                if len(out["samples"]) < 3:
                    out["samples"].append(
                        {"clause": clause.name, "case": json.loads(_canon(spec)),
                         "labels": sorted(set(ctx.labels))}
                    )

    test = given(clause.strategy)(body)
    test = settings(
        max_examples=n_examples, database=None, deadline=None, print_blob=False,
        phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck), verbosity=hypothesis.Verbosity.quiet,
    )(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except OutOfBudget:
        pass
    except HarnessError:
        out["error"] = traceback.format_exc()
    except (MemoryError, KeyboardInterrupt):
        out["error"] = traceback.format_exc()
    except herrors.Unsatisfiable:
        pass
    except herrors.Flaky:
        # The recorded case failed once; believe it only if it fails again.
        again = False
        for _ in range(3):
            try:
                execute(clause, last["spec"], Ctx(tier), limit)
            except _PASS_THROUGH:
                pass
            except BaseException:
                again = True
                break
        if not again:
            out["error"] = "flaky case: " + json.dumps(last)[:3000]
            last.clear()
    except herrors.HypothesisException:
        out["error"] = traceback.format_exc()
    except BaseException:
        if not last:
            out["error"] = traceback.format_exc()
    if last and out["error"] is None:
        out["failure"] = dict(last)
    return out


def _worker(tasks, results, clauses, tier, deadline, scratch, stop):
    os.chdir(scratch)
    # compiled optimisers print to the file descriptor
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    _engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
    while True:
        item = tasks.get()
        if item is None:
            return
        ci, seed, n = item
        if stop.is_set():
            results.put(("skip", ci))
            continue
        try:
            res = run_shard(clauses[ci], tier, seed, n, deadline)
        except BaseException:
            res = {"clause": clauses[ci].name, "error": traceback.format_exc()}
        if res.get("failure"):
            stop.set()
        results.put(("done", res))


def load(pid):
    mod = importlib.import_module("props." + pid.lower())
    return mod.P


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                rec = json.loads(line[len("finding:"):])
                if rec["property"] == pid:
                    out.append(rec)
    return out


def cli(argv, scratch, repo):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--clause")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--stats", action="store_true")
    args = ap.parse_args(argv)
    tier = "thorough" if args.tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    pid = args.property
    t0 = time.time()
    if pid == "selftest":
        import lingam  # noqa: F401  (the code and the search library both load)

        print("ok: lingam from", os.path.dirname(lingam.__file__), "hypothesis",
              hypothesis.__version__)
        return 0

    try:
        import lingam

        want = os.path.realpath(os.path.join(repo, "lingam"))
        got = os.path.realpath(os.path.dirname(lingam.__file__))
        if want != got:
            print(f"harness error: lingam imported from {got}, not {want}")
            return 2
        prop = load(pid)
    except Exception:
        traceback.print_exc()
        print("harness error: could not load the code or the check")
        return 2

    if args.replay:
        return replay(prop, args.replay, tier)

    clauses = prop.clauses
    if args.clause:
        clauses = [c for c in clauses if c.name == args.clause]

    known = load_known(pid)
    findings = []
    for rec in known:
        cl = next((c for c in prop.clauses if c.name == rec["clause"]), None)
        if cl is None:
            continue
        try:
            execute(cl, rec["spec"], Ctx(tier), CASE_LIMIT[tier])
        except _PASS_THROUGH:
            pass
        except BaseException:
            findings.append(rec)
            print(f"KNOWN-FINDING: property={pid} {rec['what']}")

    jobs = args.jobs or max(1, min(8, os.cpu_count() or 1))
    items = []
    for ci, c in enumerate(clauses):
        n = max(1, int(c.examples[tier] * args.scale))
        k = c.shards or max(1, min(jobs, n // 4))
        k = min(k, n)
        for s in range(k):
            m = n // k + (1 if s < n % k else 0)
            h = hashlib.sha256(f"{pid}/{c.name}/{s}/{seed}".encode()).hexdigest()
            items.append((ci, int(h[:12], 16), m))
    # interleave: heaviest shards first is unknown, so keep clause order rotated
    items.sort(key=lambda it: it[1])

    ctxm = mp.get_context("fork")
    tasks, results, stop = ctxm.Queue(), ctxm.Queue(), ctxm.Event()
    deadline = t0 + BUDGET[tier]
    for it in items:
        tasks.put(it)
    for _ in range(jobs):
        tasks.put(None)
    procs = [
        ctxm.Process(
            target=_worker,
            args=(tasks, results, clauses, tier, deadline, scratch, stop),
        )
        for _ in range(jobs)
    ]
    for p in procs:
        p.start()

    done = []
    failures = []
    errors = []
    pending = len(items)
    grace = None
    while pending:
        try:
            kind, res = results.get(timeout=1.0)
        except Exception:
            dead = [p for p in procs if p.exitcode not in (None, 0)]
            if dead:
                errors.append(f"a worker died with exit code {dead[0].exitcode}")
                break
            if grace and time.time() > grace:
                break
            if time.time() > deadline + CASE_LIMIT[tier] + SHRINK_SECONDS + 60:
                errors.append("workers did not finish")
                break
            continue
        pending -= 1
        if kind == "done":
            done.append(res)
            if res.get("failure"):
                failures.append(res)
                if grace is None:
                    grace = time.time() + 5
            if res.get("error"):
                errors.append(res["error"])
    for p in procs:
        if p.is_alive():
            p.kill()
    for p in procs:
        p.join()

    labels = collections.Counter()
    nontrivial = set()
    samples = []
    evals = rejected = 0
    stopped = False
    per_clause = collections.Counter()
    slow = {}
    for r in done:
        if "evaluations" not in r:
            continue
        evals += r["evaluations"]
        rejected += r["rejected"]
        per_clause[r["clause"]] += r["evaluations"]
        labels.update(r["labels"])
        nontrivial |= r["nontrivial"]
        stopped = stopped or r["stopped"]
        slow[r["clause"]] = max(slow.get(r["clause"], 0), r["slowest"])
    by_clause = collections.defaultdict(list)
    for r in done:
        for s in r.get("samples", []):
            by_clause[r["clause"]].append(s)
    for c in clauses:
        samples.extend(by_clause.get(c.name, [])[:2])

    rc = 0
    violations = []
    known_keys = {(r["clause"], _canon(r["spec"])) for r in findings}
    if failures:
        failures.sort(key=lambda r: len(_canon(r["failure"]["spec"])))
        for r in failures:
            f = r["failure"]
            if (r["clause"], _canon(f["spec"])) in known_keys:
                continue
            path = write_replay(pid, r["clause"], f)
            violations.append(
                {"clause": r["clause"], "replay": path, "message": f["msg"][:600]}
            )
            print(f"--- property {pid}, clause {r['clause']}: {f['msg'][:1500]}")
            tail = f["tb"].strip().splitlines()
            print("\n".join(tail[-14:]))
            print(f"case: {_canon(f['spec'])[:1500]}")
            print(f"VIOLATION property={pid} replay={path}")
            rc = 1
    if rc == 0 and errors:
        for e in errors[:5]:
            print("harness error:", e[-3000:])
        rc = 2

    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(nontrivial),
            "rule": " | ".join(f"{c.name}: {c.rule}" for c in clauses if c.rule),
            "rejected": rejected,
            "per_clause": dict(per_clause),
            "labels": dict(sorted(labels.items())),
            "stopped_by_time_budget": stopped,
            "samples": samples[:40] or [{"note": "none"}],
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
        "violation_details": violations,
        "known_findings_seen": [r["what"] for r in findings],
        "assumptions": prop.assumptions
        or ["the reference models in /verif/pbt implement the documented behaviour"],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{pid}.{os.getpid()}.tmp")
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1, default=_np_default)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))
    print(
        f"{pid} tier={tier} seed={seed}: {evals} cases, {len(nontrivial)} distinct "
        f"non-trivial, {rejected} rejected, {len(violations)} violations, "
        f"{ev['wall_s']} s" + (" (time budget reached)" if stopped else "")
    )
    if args.stats:
        for k, v in sorted(per_clause.items()):
            print(f"   {k}: {v} cases, slowest {slow.get(k, 0):.2f} s")
        for k, v in sorted(labels.items()):
            print(f"      {k} = {v}")
    return rc


def write_replay(pid, clause, failure):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(_canon(failure["spec"]).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{pid}-{clause}-{h}.json")
    with open(path, "w") as fh:
        json.dump(
            {"property": pid, "clause": clause, "spec": failure["spec"],
             "message": failure["msg"], "traceback": failure["tb"],
             "how": f"/verif/pbt/run.py {pid} --replay {path}"},
            fh, indent=1,
        )
    return path


def replay(prop, path, tier):
    rec = json.load(open(path))
    cl = next(c for c in prop.clauses if c.name == rec["clause"])
    try:
        execute(cl, rec["spec"], Ctx(tier), CASE_LIMIT[tier])
    except Reject as e:
        print(f"the case is outside the property's domain on this tree: {e}")
        return 0
    except (HarnessError, MemoryError):
        traceback.print_exc()
        return 2
    except BaseException:
        traceback.print_exc()
        print(f"VIOLATION property={prop.pid} replay={path}")
        return 1
    print("the case passes on this tree")
    return 0
