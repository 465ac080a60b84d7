"""Decides one property: spawns workers, merges their tallies, reports."""

from __future__ import annotations

import importlib
import json
import os
import signal
import sys
import time
import traceback

from pbt import core

WORKERS = 6
SOFT = {"quick": 240, "thorough": 540}  # no new cases after that
HARD = {"quick": 600, "thorough": 820}  # kill the workers after that
STALL = 330  # seconds without progress inside one case


def error(msg):
    print("CHECK-ERROR: " + msg, file=sys.stderr, flush=True)
    sys.exit(2)


def load(prop):
    try:
        importlib.import_module(f"pbt.props.{prop.lower()}")
    except ModuleNotFoundError as exc:
        error(f"no check for {prop}: {exc}")
    return core.REGISTRY[prop]


def replay(prop, subs, path):
    with open(path, encoding="utf-8") as fil:
        data = json.load(fil)
    sub = next(s for s in subs if s.name == data["subtest"])
    try:
        labels = sub.fn(data["case"])
    except Exception as exc:  # pylint: disable=broad-except
        if not isinstance(exc, core.Violation) and not core.from_sut(exc):
            traceback.print_exc()
            return 2
        print(core.describe(exc))
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("case passes", sorted(labels or ()))
    return 0


def spread(subs, tier, work):
    """Distribute the sub-tests over workers, heavy ones first.

    A sub-test that is heavier than the share of one worker is split in shards
    with seeds of their own.
    """
    jobs = [(s, s.quick if tier == "quick" else s.thorough) for s in subs]
    share = sum(n * s.weight for s, n in jobs) / WORKERS
    tasks = []
    for sub, total in jobs:
        cost = total * sub.weight
        shards = min(WORKERS, max(1, round(cost / share)), 1 + total // 100)
        for shard in range(shards):
            part = total // shards + (shard < total % shards)
            slug = sub.name.replace(" ", "_").replace("/", "_")
            out = os.path.join(work, f"{sub.prop}-{slug}-{shard}.json")
            tasks.append((part * sub.weight, sub, part, out, shard))
    tasks.sort(key=lambda t: -t[0])
    loads = [[0.0, []] for _ in range(min(WORKERS, len(tasks)))]
    for cost, sub, total, out, shard in tasks:
        target = min(loads, key=lambda x: x[0])
        target[0] += cost
        target[1].append((sub, total, out, shard))
    return [t for _, t in loads]


def main():
    args = sys.argv[1:]
    if not args:
        error("usage: check.sh PROPERTY [--replay FILE]")
    prop = args[0]
    home = os.environ.get("VERIF_HOME", os.getcwd())
    try:
        verif_seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        error("VERIF_SEED is not a number")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in SOFT:
        error(f"unknown VERIF_TIER {tier}")
    work = os.environ.get("VERIF_WORK") or "/tmp"
    start = time.monotonic()
    # the code under test pauses to show progress bars
    pause = time.sleep
    time.sleep = lambda *_: None
    subs = load(prop)
    import py_fatigue

    if not py_fatigue.__file__.startswith(core.SUT_ROOT):
        error(f"py_fatigue imported from {py_fatigue.__file__}")
    if len(args) >= 3 and args[1] == "--replay":
        sys.exit(replay(prop, subs, args[2]))
    if len(args) >= 3 and args[1] == "--only":
        subs = [s for s in subs if s.name in args[2].split(",")]

    evid_dir = os.path.join(home, "evidence")
    replay_dir = os.path.join(evid_dir, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    for old in os.listdir(replay_dir):
        if old.startswith(prop + "-"):
            os.unlink(os.path.join(replay_dir, old))

    groups = spread(subs, tier, work)
    from pbt.worker import worker_main

    # forked after the import: each worker has the code loaded but no threads
    procs = {}
    for tasks in groups:
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                worker_main(tasks, verif_seed, start + SOFT[tier])
                code = 0
            except BaseException:  # pylint: disable=broad-except
                for _, _, out, _ in tasks:
                    try:
                        with open(out + ".crash", "w") as fil:
                            fil.write(traceback.format_exc())
                    except OSError:
                        pass
            finally:
                os._exit(code)
        procs[pid] = tasks

    endings = {}
    stalled = {}
    while procs:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid:
            endings[pid] = (procs.pop(pid), status)
            continue
        pause(0.05)
        now = time.time()
        for pid, tasks in procs.items():
            if pid in stalled:
                continue
            marks = [
                os.stat(out + ".status").st_mtime
                for _, _, out, _ in tasks
                if os.path.exists(out + ".status")
            ]
            if marks and now - max(marks) > STALL:
                stalled[pid] = "stall"
                os.kill(pid, signal.SIGKILL)
            elif time.monotonic() - start > HARD[tier]:
                stalled[pid] = "hard"
                os.kill(pid, signal.SIGKILL)

    failures, errors, results = [], [], []
    for pid, (tasks, status) in endings.items():
        killed = os.WIFSIGNALED(status)
        sig = os.WTERMSIG(status) if killed else 0
        culprit_found = False
        for sub, _, out, _ in tasks:
            res = None
            if os.path.exists(out):
                with open(out, encoding="utf-8") as fil:
                    res = json.load(fil)
                results.append(res)
                if res["failure"]:
                    failures.append((sub, res["failure"]))
                if res["error"]:
                    errors.append(f"{sub.name}: {res['error']}")
            if res is not None and res["done"]:
                continue
            # unfinished: the first such sub-test was running
            if culprit_found:
                continue
            culprit_found = True
            if res is not None and res["failure"]:
                continue  # killed while minimising a failure
            reason = stalled.get(pid)
            case = None
            if os.path.exists(out + ".status"):
                with open(out + ".status", encoding="utf-8") as fil:
                    try:
                        case = json.load(fil)
                    except ValueError:
                        case = None
            native = sig in (
                signal.SIGSEGV,
                signal.SIGABRT,
                signal.SIGFPE,
                signal.SIGBUS,
                signal.SIGILL,
            )
            if case is not None and (native or reason == "stall"):
                msg = (
                    f"process died from signal {sig}"
                    if native
                    else f"no result within {STALL} s"
                )
                failures.append((sub, {"case": case, "message": msg}))
            elif reason == "hard":
                errors.append(f"{sub.name}: not finished in time")
            else:
                crash = ""
                if os.path.exists(out + ".crash"):
                    with open(out + ".crash", encoding="utf-8") as fil:
                        crash = fil.read()
                errors.append(
                    f"{sub.name}: worker ended with status {status} {crash}"
                )

    # ------------------------------------------------------------- evidence
    seen = set()
    labels = {}
    samples = []
    per_sub = {}
    for res in sorted(results, key=lambda r: r["sub"]):
        name = res["sub"]
        seen.update(f"{name}:{h}" for h in res["nontrivial"])
        mine = labels.setdefault(name, {})
        for lab, num in res["labels"].items():
            mine[lab] = mine.get(lab, 0) + num
        stat = per_sub.setdefault(
            name,
            {
                "evaluations": 0,
                "not_run_after_time_limit": 0,
                "samples": 0,
                "rule": res["rule"],
            },
        )
        stat["evaluations"] += res["evaluations"]
        stat["not_run_after_time_limit"] += res["skipped"]
        for sample in res["samples"]:
            if stat["samples"] < 6:
                samples.append({"subtest": name, **sample})
                stat["samples"] += 1
    for name, stat in per_sub.items():
        del stat["samples"]
        stat["distinct_nontrivial"] = sum(
            1 for key in seen if key.startswith(name + ":")
        )
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": verif_seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(seen),
            "rule": "; ".join(f"{s.name}: {s.rule}" for s in subs),
            "samples": samples[:60],
            "subtests": per_sub,
            "classes": labels,
        },
        "violations": len({s.name for s, _ in failures}),
        "wall_s": round(time.monotonic() - start, 2),
        "assumptions": [
            "the reference models in pbt/ref and the oracles are right",
            "cases are drawn from the stated generators, not exhaustively",
        ],
    }
    with open(
        os.path.join(evid_dir, prop + ".json"), "w", encoding="utf-8"
    ) as fil:
        json.dump(evidence, fil, indent=1)

    lines = []
    smallest = {}
    for sub, failure in failures:
        size = len(json.dumps(failure["case"]))
        if sub.name not in smallest or size < smallest[sub.name][0]:
            smallest[sub.name] = (size, sub, failure)
    for _, sub, failure in smallest.values():
        slug = sub.name.replace(" ", "_").replace("/", "_")
        path = os.path.join(replay_dir, f"{prop}-{slug}-{verif_seed}.json")
        with open(path, "w", encoding="utf-8") as fil:
            json.dump(
                {
                    "property": prop,
                    "subtest": sub.name,
                    "message": failure["message"],
                    "case": failure["case"],
                },
                fil,
                indent=1,
            )
        print(f"{prop} {sub.name}: {failure['message'][:1500]}")
        lines.append(f"VIOLATION property={prop} replay={path}")
    for msg in errors:
        print("CHECK-ERROR: " + msg, file=sys.stderr)
    print(
        f"{prop}: {evidence['coverage']['evaluations']} cases, "
        f"{len(seen)} distinct non-trivial, {evidence['violations']} violations, "
        f"{evidence['wall_s']} s"
    )
    for line in lines:
        print(line)
    sys.stdout.flush()
    if failures:
        sys.exit(1)
    if errors:
        sys.exit(2)
    if not seen:
        error("no non-trivial case was generated")
    sys.exit(0)


if __name__ == "__main__":
    main()
