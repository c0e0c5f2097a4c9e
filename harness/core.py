"""
The engine of the checks: it generates cases (see gen.py), runs them against the code in /repo, shrinks failures, writes
replay files and evidence.

A property consists of one or more sub-checks. A sub-check is a pair of
  * a strategy, which generates *cases*: JSON values that fully describe the inputs (or the operation history), and
  * a body, body(case, ctx), which builds the objects from the case, runs the code under test and compares what it does with
    an independent oracle. It raises `Violation` (or lets any exception of the code under test escape) if the property fails.
"""
import contextlib
import glob
import hashlib
import importlib
import io
import json
import math
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter

from harness import gen

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

CHECK_MODULES = [
    "categorical", "sparse", "gaussian", "mixture", "factorised", "nonlinear", "cluster_graph", "purity", "templates", "rejection",
    "sampling", "utilities", "figures", "display", "units", "large", "clusters", "loops", "options",
]

PROPERTIES = {}  # id -> Property


class Violation(Exception):
    """The property does not hold for the case."""


class HarnessError(Exception):
    """The machinery itself failed: never a verdict on the code under test."""


class Discard(Exception):
    """The case is outside of the property's domain (it is counted as discarded)."""


class Ctx:
    """What a body reports about a case."""

    def __init__(self):
        self.tags = []
        self.nontrivial = False

    def tag(self, *names):
        self.tags.extend(names)


class Sub:
    def __init__(self, name, strategy, body, quick, thorough, rule, weight):
        self.name = name
        self.strategy = strategy
        self.body = body
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.weight = weight


class Property:
    def __init__(self, pid):
        self.pid = pid
        self.subs = {}
        self.assumptions = []


def prop(pid, assumptions=()):
    p = PROPERTIES.setdefault(pid, Property(pid))
    p.assumptions.extend(assumptions)
    return p


def check(pid, name, strategy, quick=2000, thorough=40000, rule="", weight=1.0):
    """
    Register body as sub-check `name` of property `pid`. `quick` and `thorough` are the total number of cases (over all the
    shards) to generate in the two tiers.
    """

    def deco(body):
        prop(pid).subs[name] = Sub(name, strategy, body, quick, thorough, rule, weight)
        return body

    return deco


# ----------------------------------------------------------------------------------------------------------------------
# set up


def setup_environment():
    sys.path = [p for p in sys.path if p not in ("", REPO)]
    sys.path.insert(0, REPO)
    scratch = tempfile.mkdtemp(prefix="verif_scratch_")
    for path in glob.glob("/opt/vp/mplconfig/fontlist-*.json"):  # saves matplotlib the search for fonts
        with contextlib.suppress(OSError):
            shutil.copy(path, scratch)
    os.environ["MPLCONFIGDIR"] = scratch
    os.environ["VERIF_SCRATCH"] = scratch
    warnings.simplefilter("ignore")
    import numpy as np  # pylint: disable=import-outside-toplevel

    np.seterr(all="ignore")
    import veroku  # pylint: disable=import-outside-toplevel

    where = os.path.realpath(os.path.dirname(veroku.__file__))
    if where != os.path.realpath(os.path.join(REPO, "veroku")):
        raise HarnessError(f"veroku is imported from {where}, not from {REPO}")
    return scratch


def load_checks():
    only = os.environ.get("VERIF_MODULES")
    for module in CHECK_MODULES:
        if only and module not in only.split(","):
            continue
        path = os.path.join(ROOT, "harness", "checks", module + ".py")
        if os.path.exists(path):
            importlib.import_module("harness.checks." + module)


# ----------------------------------------------------------------------------------------------------------------------
# running cases


def canonical(case):
    return json.dumps(case, sort_keys=True)


def case_hash(case):
    return hashlib.sha1(canonical(case).encode()).hexdigest()[:16]


CASE_SECONDS = 120  # the cases take milliseconds


class _Timeout(BaseException):
    pass


def _on_alarm(*_):
    raise _Timeout()


def run_body(sub, case):
    """
    Run one case (with a time limit). :return: (outcome, ctx, message) with outcome one of 'ok', 'discard', 'violation'.
    """
    ctx = Ctx()
    case = json.loads(json.dumps(case))  # the body gets what a replay would give it
    previous = signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(CASE_SECONDS)
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            warnings.simplefilter("ignore")
            sub.body(case, ctx)
        return "ok", ctx, ""
    except Discard:
        return "discard", ctx, ""
    except HarnessError:
        raise
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except _Timeout:
        return "violation", ctx, f"the code did not finish within {CASE_SECONDS} s"
    except Violation as exc:
        return "violation", ctx, str(exc)
    except BaseException as exc:  # an exception that escapes from a valid use of the code is a violation as well
        tb = traceback.extract_tb(exc.__traceback__)
        where = [f"{os.path.relpath(f.filename, REPO) if f.filename.startswith(REPO) else f.filename}:{f.lineno}"
                 for f in tb][-4:]
        return "violation", ctx, f"unexpected {type(exc).__name__}: {str(exc)[:500]} (at {' > '.join(where)})"
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, previous)


class _Stop(Exception):
    pass


def run_shard(task):
    """
    Generate and run the cases of one shard of a sub-check.
    """
    pid, sub_name, shard, seed_value, max_examples, time_limit, shrink_time = task
    sub = PROPERTIES[pid].subs[sub_name]
    out = {
        "sub": sub_name, "evaluations": 0, "discarded": 0, "duplicates": 0, "nontrivial": set(), "tags": Counter(),
        "samples": [], "failure": None, "error": None, "timed_out": False,
    }
    t_start = time.time()
    rng = gen.make_rng(seed_value)
    seen = set()
    try:
        for _ in range(max_examples):
            if time.time() - t_start > time_limit:
                out["timed_out"] = True
                break
            try:
                case, choices = gen.generate(sub.strategy, rng=rng)
            except gen.Invalid:
                out["discarded"] += 1
                continue
            digest = case_hash(case)
            if digest in seen:
                out["duplicates"] += 1
                continue
            seen.add(digest)
            outcome, ctx, message = run_body(sub, case)
            out["evaluations"] += 1
            out["tags"].update(set(ctx.tags))
            if outcome == "discard":
                out["discarded"] += 1
            elif ctx.nontrivial:
                out["nontrivial"].add(digest)
                if len(out["samples"]) < 3 and len(canonical(case)) < 3000:
                    out["samples"].append({"sub_check": sub_name, "tags": sorted(set(ctx.tags)), "case": case})
            if outcome == "violation":
                out["failure"] = shrink_failure(sub, case, choices, message, shrink_time)
                break
    except BaseException as exc:  # pylint: disable=broad-except
        out["error"] = f"{sub_name}: {type(exc).__name__}: {exc}\n{traceback.format_exc()[-3000:]}"
    out["nontrivial"] = sorted(out["nontrivial"])
    out["tags"] = dict(out["tags"])
    out["wall"] = time.time() - t_start
    return out


def shrink_failure(sub, case, choices, message, seconds):
    """
    Shrink a failing case. :return: the smallest failing case that was found.
    """
    best = {"case": case, "message": message}

    def interesting(candidate):
        try:
            smaller_case, used = gen.generate(sub.strategy, prefix=candidate)
            outcome, _, smaller_message = run_body(sub, smaller_case)
        except gen.Invalid:
            return None
        except HarnessError:
            return None
        if outcome != "violation":
            return None
        best["case"], best["message"] = smaller_case, smaller_message
        return used

    # interesting() is only called with candidates that are smaller than the best one so far
    gen.shrink(choices, interesting, seconds)
    return best


def derive_seed(seed_value, pid, sub_name, shard):
    digest = hashlib.sha256(f"{seed_value}|{pid}|{sub_name}|{shard}".encode()).digest()
    return int.from_bytes(digest[:8], "big")


# ----------------------------------------------------------------------------------------------------------------------
# known findings and the regression corpus


def known_findings():
    """
    The known (unrepaired) findings: lines `known: property=<id> sub=<sub-check> case=<hash> <what fails>`.
    Lines that start with `fixed:` document repairs and suppress nothing.
    """
    findings = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as handle:
            for line in handle:
                if line.startswith("known:"):
                    parts = line.split(None, 4)
                    fields = dict(p.split("=", 1) for p in parts[1:4])
                    findings.append((fields["property"], fields["sub"], fields["case"], parts[4].strip()))
    return findings


def corpus_cases(pid):
    folder = os.path.join(ROOT, "corpus", pid)
    if not os.path.isdir(folder):
        return []
    cases = []
    for name in sorted(os.listdir(folder)):
        if name.endswith(".json"):
            with open(os.path.join(folder, name), encoding="utf-8") as handle:
                cases.append((name, json.load(handle)))
    return cases


def write_replay(pid, sub_name, case, message):
    folder = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{pid}-{sub_name}-{case_hash(case)}.json")
    with open(path, "w", encoding="utf-8") as handle:
        json.dump({"property": pid, "sub": sub_name, "message": message, "case": case}, handle, indent=1, sort_keys=True)
        handle.write("\n")
    return path


# ----------------------------------------------------------------------------------------------------------------------
# commands


def run_check(pid):
    t_start = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed_value = int(os.environ.get("VERIF_SEED", "1"))
    if pid not in PROPERTIES:
        print(f"unknown property {pid}", file=sys.stderr)
        return 2
    the_prop = PROPERTIES[pid]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    only_sub = os.environ.get("VERIF_SUB")
    subs = [s for s in the_prop.subs.values() if not only_sub or s.name in only_sub.split(",")]
    wall_budget = float(os.environ.get("VERIF_BUDGET", "150" if tier == "quick" else "1500"))
    cores = max(1, min(8, int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 1))

    violations = []
    errors = []
    known = {(p, s, c): text for p, s, c, text in known_findings()}
    known_hit = {}

    def report(sub_name, case, message):
        key = (pid, sub_name, case_hash(case))
        if key in known:
            known_hit[key] = known[key]
            return
        violations.append((sub_name, case, message))

    # 1. the regression corpus
    corpus_run = 0
    for name, entry in corpus_cases(pid):
        if entry["sub"] not in the_prop.subs:
            errors.append(f"corpus file {name} names the unknown sub-check {entry['sub']}")
            continue
        corpus_run += 1
        outcome, _, message = run_body(the_prop.subs[entry["sub"]], entry["case"])
        if outcome == "violation":
            report(entry["sub"], entry["case"], message)

    # 2. generated cases
    tasks = []
    if not violations:
        total_weight = sum(s.weight for s in subs)
        for sub in subs:
            total = max(1, int((sub.quick if tier == "quick" else sub.thorough) * scale))
            shards = max(1, min(cores, int(math.ceil(total / 25.0))))
            per_shard = int(math.ceil(total / shards))
            limit = wall_budget * sub.weight / total_weight * cores / shards
            limit = min(limit, wall_budget)
            for shard in range(shards):
                tasks.append((pid, sub.name, shard, derive_seed(seed_value, pid, sub.name, shard), per_shard, limit,
                              20.0 if tier == "quick" else 60.0))
        # the shards of the different sub-checks are interleaved
        tasks.sort(key=lambda t: t[2])
    results = []
    if tasks:
        context = multiprocessing.get_context("fork")
        with context.Pool(processes=cores, maxtasksperchild=1) as pool:
            for result in pool.imap_unordered(run_shard, tasks, chunksize=1):
                results.append(result)
                if result["failure"] is not None:
                    before = len(violations)
                    report(result["sub"], result["failure"]["case"], result["failure"]["message"])
                    if len(violations) > before and len(violations) >= 1:
                        pool.terminate()
                        break
    evaluations = sum(r["evaluations"] for r in results)
    for result in results:
        if result["error"]:
            errors.append(result["error"])

    # 3. evidence
    per_sub = {}
    distinct = 0
    samples = []
    for sub in subs:
        sub_results = [r for r in results if r["sub"] == sub.name]
        hashes = set()
        tags = Counter()
        for result in sub_results:
            hashes.update(result["nontrivial"])
            tags.update(result["tags"])
        distinct += len(hashes)
        per_sub[sub.name] = {
            "evaluations": sum(r["evaluations"] for r in sub_results),
            "distinct_nontrivial": len(hashes),
            "discarded": sum(r["discarded"] for r in sub_results),
            "duplicates_skipped": sum(r["duplicates"] for r in sub_results),
            "rule": sub.rule,
            "classes": dict(sorted(tags.items())),
            "shards": len(sub_results),
            "shards_stopped_by_time": sum(1 for r in sub_results if r["timed_out"]),
        }
        for result in sub_results:
            if result["samples"]:
                samples.append(result["samples"][-1])
                break
    rule = ("Cases are JSON values drawn by random generators (seeded by VERIF_SEED; a duplicate within a shard is not evaluated again); distinct_nontrivial counts the "
            "different cases (by hash) per sub-check that satisfy that sub-check's rule. " +
            " ".join(f"[{s.name}] {s.rule}" for s in subs))
    evidence = {
        "property": pid, "tier": tier, "seed": seed_value, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct, "rule": rule, "samples": samples[:12],
            "sub_checks": per_sub, "corpus_cases_replayed": corpus_run,
        },
        "assumptions": list(the_prop.assumptions),
        "wall_s": round(time.time() - t_start, 3),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w", encoding="utf-8") as handle:
        json.dump(evidence, handle, indent=1, sort_keys=True, default=str)
        handle.write("\n")

    # 4. verdict
    for key, text in sorted(known_hit.items()):
        print(f"KNOWN-FINDING: property={pid} {text}")
    if violations:
        sub_name, case, message = min(violations, key=lambda v: len(canonical(v[1])))
        path = write_replay(pid, sub_name, case, message)
        print(f"[{sub_name}] {message}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        print("check error:\n" + "\n".join(errors)[:4000], file=sys.stderr)
        return 2
    if evaluations == 0 or distinct == 0:
        print("check error: no non-trivial case was generated", file=sys.stderr)
        return 2
    print(f"OK property={pid} tier={tier} seed={seed_value} evaluations={evaluations} distinct_nontrivial={distinct} "
          f"wall={time.time() - t_start:.1f}s")
    if os.environ.get("VERIF_VERBOSE"):
        for name, info in per_sub.items():
            print(f"  {name}: {info['evaluations']} cases, {info['distinct_nontrivial']} non-trivial, "
                  f"{info['discarded']} discarded, timed out {info['shards_stopped_by_time']}/{info['shards']} "
                  f"max wall {max(r['wall'] for r in results if r['sub'] == name):.1f}s\n     {info['classes']}")
    return 0


def run_replay(path):
    with open(path, encoding="utf-8") as handle:
        entry = json.load(handle)
    sub = PROPERTIES[entry["property"]].subs[entry["sub"]]
    outcome, _, message = run_body(sub, entry["case"])
    print(f"{entry['property']}/{entry['sub']}: {outcome} {message}")
    if outcome == "violation":
        print(f"VIOLATION property={entry['property']} replay={os.path.abspath(path)}")
        return 1
    return 0


def main(argv):
    scratch = None
    try:
        scratch = setup_environment()
        load_checks()
        if argv[:1] == ["check"]:
            return run_check(argv[1])
        if argv[:1] == ["replay"]:
            return run_replay(argv[1])
        if argv[:1] == ["list"]:
            for pid, the_prop in PROPERTIES.items():
                print(pid, ", ".join(the_prop.subs))
            return 0
        print(__doc__)
        return 2
    except Exception:  # pylint: disable=broad-except
        # If the code under test cannot even be imported, no property of it holds.
        traceback.print_exc()
        return 2
    finally:
        if scratch:
            shutil.rmtree(scratch, ignore_errors=True)
