"""Generated-input search against an explicit oracle, with shrinking and replay.

A property module registers *sub-checks*.  A sub-check is a Hypothesis strategy that
produces a plain picklable case, and a function that runs the code under test on the case
and compares it with an oracle.  The function raises ``Violation`` when the oracle is
contradicted and returns whether the case was non-trivial.
"""
import argparse
import base64
import importlib
import io
import json
import os
import pickle
import signal
import sys
import time
import traceback
import zlib
from multiprocessing import get_context

CASE_TIMEOUT_S = 150


class Violation(Exception):
    """The oracle is contradicted."""


class HarnessError(Exception):
    """Something in the machinery itself is wrong (never a violation)."""


class Sub:
    def __init__(self, name, strategy, func, quick, rule, factor, shards, examples):
        self.name, self.strategy, self.func = name, strategy, func
        self.quick, self.rule, self.factor = quick, rule, factor
        self.shards, self.examples = shards, examples


class Prop:
    """The sub-checks, assumptions and known-finding probes of one property."""

    def __init__(self, pid, assumptions=()):
        self.pid = pid
        self.subs = []
        self.probes = {}
        self.assumptions = list(assumptions)

    def sub(self, name, strategy, quick=300, rule="", factor=25, shards=4, examples=()):
        def deco(func):
            self.subs.append(
                Sub(name, strategy, func, quick, rule, factor, shards, list(examples))
            )
            return func

        return deco

    def probe(self, key):
        """Probe of a known finding: returns 'present', 'absent' or raises Violation."""

        def deco(func):
            self.probes[key] = func
            return func

        return deco


# --------------------------------------------------------------------------- describing
def describe(obj, depth=0, limit=24):
    import numpy as np

    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return {"object_array": [describe(o, depth + 1) for o in obj.ravel()[:8]]}
        flat = obj.ravel()
        vals = [describe(v) for v in flat[:limit].tolist()]
        out = {"dtype": str(obj.dtype), "shape": list(obj.shape), "values": vals}
        if flat.size > limit:
            out["truncated"] = int(flat.size)
        return out
    if isinstance(obj, np.generic):
        return describe(obj.item())
    if isinstance(obj, complex):
        return f"{obj!r}"
    if isinstance(obj, float):
        return obj if obj == obj and abs(obj) != float("inf") else repr(obj)
    if isinstance(obj, (int, str, bool, type(None))):
        return obj
    if isinstance(obj, dict):
        return {str(k): describe(v, depth + 1) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        out = [describe(v, depth + 1) for v in obj[:60]]
        return out
    return repr(obj)


# --------------------------------------------------------------------------- running one
class _Alarm(BaseException):
    pass


def _on_alarm(*_):
    raise _Alarm()


def run_case(sub, case):
    """Run one case; return (nontrivial) or raise Violation / HarnessError."""
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT_S)
    try:
        return bool(sub.func(case))
    except Violation:
        raise
    except _Alarm:
        raise Violation(f"no answer within {CASE_TIMEOUT_S} s") from None
    except (MemoryError, HarnessError) as exc:
        raise HarnessError(repr(exc)) from exc
    except Exception as exc:  # noqa: BLE001
        frames = traceback.extract_tb(exc.__traceback__)
        in_repo = any("/modopt/" in fr.filename for fr in frames)
        if isinstance(exc, (OSError, ImportError)) and not in_repo:
            raise HarnessError("".join(traceback.format_exception(exc))) from exc
        where = "".join(traceback.format_list(frames[-6:]))
        raise Violation(
            f"unexpected {type(exc).__name__} on a valid case: {exc}\n{where}"
        ) from exc
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _task(args):
    """Run one shard of one sub-check in a forked worker."""
    pid, sub_idx, n, seed, deadline, shard = args
    prop = _PROP
    sub = prop.subs[sub_idx]
    out = {
        "sub": sub.name, "evals": 0, "hashes": set(), "samples": [],
        "fail": None, "error": None, "truncated": False, "wall": 0.0,
    }
    t0 = time.time()
    import numpy as np

    np.seterr(all="ignore")
    import warnings

    warnings.simplefilter("ignore")
    saved = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    fails = []

    def one(case):
        if time.time() > deadline:
            out["truncated"] = True
            return
        blob = pickle.dumps(case)
        out["evals"] += 1
        if out["evals"] % 50 == 0:
            sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        try:
            nontrivial = run_case(sub, case)
        except Violation as exc:
            fails.append((blob, str(exc)))
            raise
        except HarnessError as exc:
            out["error"] = f"{sub.name}: {exc}"
            raise
        if nontrivial:
            out["hashes"].add(zlib.crc32(blob) | (zlib.adler32(blob) << 32))
            if len(out["samples"]) < 2:
                out["samples"].append(describe(pickle.loads(blob)))

    try:
        if shard == 0:
            for example in sub.examples:
                one(example() if callable(example) else example)
        _search(sub, one, n, seed)
    except Violation:
        pass
    except HarnessError:
        pass
    except BaseException as exc:  # noqa: BLE001
        if not fails and out["error"] is None:
            out["error"] = f"{sub.name}: " + "".join(traceback.format_exception(exc))
    finally:
        sys.stdout, sys.stderr = saved
    if fails:
        out["fail"] = fails[-1]
    out["wall"] = time.time() - t0
    return out


def _search(sub, one, n, seed):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = 25

    @hypothesis.seed(seed)
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
        report_multiple_bugs=False,
        print_blob=False,
    )
    @given(case=sub.strategy)
    def test(case):
        one(case)

    test()


_PROP = None


def load(pid):
    global _PROP
    mod = importlib.import_module(f"props.{pid.lower()}")
    _PROP = mod.PROP
    return _PROP


def _known(here, pid):
    """Parse known-findings.txt: lines 'finding: property=<id> key=<key> <what fails>'."""
    found = []
    path = os.path.join(here, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: "):
                words = line[len("finding: "):].strip().split(" ", 2)
                if words[0] == f"property={pid}" and words[1].startswith("key="):
                    found.append((words[1][4:], words[2]))
    return found


def _write_replay(here, prop, sub, seed, blob, msg):
    case = pickle.loads(blob)
    directory = os.path.join(here, "evidence", "replay")
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, f"{prop.pid}-{sub}.json")
    with open(path, "w") as fh:
        json.dump(
            {
                "property": prop.pid, "sub": sub, "seed": seed,
                "message": msg[:4000], "case": describe(case),
                "case_pickle": base64.b64encode(blob).decode(),
            },
            fh, indent=1, default=repr,
        )
    return path


def replay(prop, path):
    data = json.load(open(path))
    if data["property"] != prop.pid:
        raise HarnessError("replay file of another property")
    if data["sub"].startswith("known-"):
        key = data["sub"][len("known-"):]
        try:
            prop.probes[key]()
        except Violation as exc:
            print(exc)
            print(f"VIOLATION property={prop.pid} replay={path}")
            return 1
        return 0
    sub = next(s for s in prop.subs if s.name == data["sub"])
    case = pickle.loads(base64.b64decode(data["case_pickle"]))
    try:
        run_case(sub, case)
    except Violation as exc:
        print(exc)
        print(f"VIOLATION property={prop.pid} replay={path}")
        return 1
    print("replay: the property holds on this case")
    return 0


def main(here, repo, argv):
    par = argparse.ArgumentParser()
    par.add_argument("property")
    par.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    par.add_argument("--replay")
    par.add_argument("--only", help="run a single sub-check")
    par.add_argument("--scale", type=float, default=1.0)
    par.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", 8)))
    opts = par.parse_args(argv)
    t0 = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = zlib.crc32(os.environ["VERIF_SEED"].encode())
    tier = opts.tier if opts.tier in ("quick", "thorough") else "quick"
    try:
        prop = load(opts.property)
        import modopt

        if not os.path.abspath(modopt.__file__).startswith(os.path.abspath(repo) + "/"):
            raise HarnessError(f"modopt imported from {modopt.__file__}")
        if opts.replay:
            return replay(prop, opts.replay)
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        print("HARNESS-ERROR: could not load the check")
        return 2

    budget = 400 if tier == "quick" else 3000
    deadline = t0 + budget
    tasks = []
    for idx, sub in enumerate(prop.subs):
        if opts.only and sub.name != opts.only:
            continue
        n = sub.quick if tier == "quick" else sub.quick * sub.factor
        n = max(1, int(n * opts.scale))
        shards = min(sub.shards if tier == "quick" else max(8, sub.shards), n)
        for sh in range(shards):
            key = f"{seed}/{prop.pid}/{sub.name}/{sh}/{tier}"
            per = n // shards + (1 if sh < n % shards else 0)
            tasks.append((prop.pid, idx, per, zlib.crc32(key.encode()), deadline, sh))
    # interleave the shards so that the first shard of every sub-check runs first
    tasks.sort(key=lambda t: t[5])

    known_lines, violations, errors = [], [], []
    known = _known(here, prop.pid)
    if not opts.only:
        for key, text in known:
            buf = io.StringIO()
            saved = sys.stdout, sys.stderr
            sys.stdout, sys.stderr = buf, buf
            try:
                status = prop.probes[key]()
            except Violation as exc:
                status = exc
            except Exception as exc:  # noqa: BLE001
                status = Violation(f"unexpected {type(exc).__name__}: {exc}")
            finally:
                sys.stdout, sys.stderr = saved
            if isinstance(status, Violation):
                violations.append(("known-" + key, pickle.dumps({"key": key}), str(status)))
            elif status == "present":
                known_lines.append(f"KNOWN-FINDING: property={prop.pid} {text}")
            else:
                known_lines.append(f"note: known finding {key} no longer reproduces")

    stats = {}
    ctx = get_context("fork")
    pool = ctx.Pool(opts.jobs, maxtasksperchild=None)
    try:
        for res in pool.imap_unordered(_task, tasks, chunksize=1):
            rec = stats.setdefault(
                res["sub"], {"evals": 0, "hashes": set(), "samples": [], "trunc": False, "wall": 0}
            )
            rec["evals"] += res["evals"]
            rec["hashes"] |= res["hashes"]
            rec["samples"] += res["samples"]
            rec["trunc"] |= res["truncated"]
            rec["wall"] += res["wall"]
            if res["error"]:
                errors.append(res["error"])
            if res["fail"]:
                violations.append((res["sub"], *res["fail"]))
                break
    finally:
        pool.terminate()
        pool.join()

    replays = []
    for sub, blob, msg in violations:
        path = _write_replay(here, prop, sub, seed, blob, msg)
        replays.append((sub, path, msg))
    samples = []
    for name, rec in stats.items():
        samples += [{"sub": name, "case": s} for s in rec["samples"][:1]]
    rules = "; ".join(f"[{s.name}] {s.rule}" for s in prop.subs)
    evidence = {
        "property": prop.pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evals"] for r in stats.values()),
            "distinct_nontrivial": sum(len(r["hashes"]) for r in stats.values()),
            "rule": "cases drawn by Hypothesis strategies; distinct = distinct pickled case; "
            "non-trivial per sub-check: " + rules,
            "samples": samples,
            "per_subcheck": {
                n: {
                    "evaluations": r["evals"],
                    "distinct_nontrivial": len(r["hashes"]),
                    "truncated_by_time_budget": r["trunc"],
                    "cpu_s": round(r["wall"], 1),
                }
                for n, r in sorted(stats.items())
            },
            "known_findings": known_lines,
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    with open(os.path.join(here, "evidence", f"{prop.pid}.json"), "w") as fh:
        json.dump(evidence, fh, indent=1, default=repr)

    for name, rec in sorted(stats.items()):
        print(
            f"{prop.pid} {name}: {rec['evals']} cases, {len(rec['hashes'])} distinct "
            f"non-trivial, {rec['wall']:.1f} cpu-s"
            + (" (truncated by time budget)" if rec["trunc"] else "")
        )
    for line in known_lines:
        print(line)
    if violations:
        for sub, path, msg in replays:
            print(f"[{sub}] {msg}")
            print(f"VIOLATION property={prop.pid} replay={path}")
        return 1
    if errors:
        print("HARNESS-ERROR:", errors[0])
        return 2
    print(f"{prop.pid}: held on everything explored ({evidence['wall_s']} s)")
    return 0
