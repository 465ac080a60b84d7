"""Runs sub-tests of one property inside a worker process."""

from __future__ import annotations

import hashlib
import json
import os
import signal
import time
import warnings
from collections import Counter

import hypothesis
from hypothesis import HealthCheck, Phase, given, seed, settings

from pbt import core

CASE_TIMEOUT = 150  # seconds; a case takes milliseconds
MAX_SAMPLES = 4


def derive_seed(*parts) -> int:
    text = ":".join(str(p) for p in parts).encode()
    return int.from_bytes(hashlib.sha256(text).digest()[:8], "big")


def dumps(case) -> str:
    return json.dumps(case, sort_keys=True)


class Stop(BaseException):
    """Leave Hypothesis at once."""


class Runner:
    """Generates the cases of one sub-test and keeps the tally."""

    def __init__(
        self, sub, verif_seed, max_examples, out_path, shard, deadline
    ):
        self.sub = sub
        self.verif_seed = verif_seed
        self.max_examples = max_examples
        self.out_path = out_path
        self.shard = shard
        self.deadline = deadline
        self.evaluations = 0
        self.skipped = 0
        self.seen: set[str] = set()
        self.labels: Counter = Counter()
        self.samples: list = []
        self.failure = None
        self.error = None

    # ---------------------------------------------------------------- state
    def write_status(self, text):
        with open(self.out_path + ".status", "w", encoding="utf-8") as fil:
            fil.write(text)

    def write_result(self, done):
        data = {
            "prop": self.sub.prop,
            "sub": self.sub.name,
            "rule": self.sub.rule,
            "evaluations": self.evaluations,
            "skipped": self.skipped,
            "nontrivial": sorted(self.seen),
            "labels": dict(self.labels),
            "samples": self.samples,
            "failure": self.failure,
            "error": self.error,
            "done": done,
        }
        tmp = self.out_path + ".tmp"
        with open(tmp, "w", encoding="utf-8") as fil:
            json.dump(data, fil)
        os.replace(tmp, self.out_path)

    # ----------------------------------------------------------------- case
    def evaluate(self, case):
        text = dumps(case)
        self.write_status(text)
        self.evaluations += 1
        signal.alarm(CASE_TIMEOUT)
        try:
            # the function under test gets its own copy of the case
            labels = self.sub.fn(json.loads(text))
        except core.CaseTimeout:
            self.failure = {
                "case": case,
                "message": f"no result within {CASE_TIMEOUT} s",
            }
            raise Stop() from None
        except core.Violation as exc:
            signal.alarm(0)
            self.failure = {"case": case, "message": str(exc)[:4000]}
            self.write_result(False)
            raise
        except Exception as exc:  # pylint: disable=broad-except
            signal.alarm(0)
            if core.from_sut(exc):
                msg = "unexpected exception: " + core.describe(exc)
                self.failure = {"case": case, "message": msg}
                self.write_result(False)
                raise core.Violation(msg) from exc
            raise
        finally:
            signal.alarm(0)
        labels = set(labels or ())
        if labels:
            digest = hashlib.sha256(text.encode()).hexdigest()[:16]
            fresh = digest not in self.seen
            self.seen.add(digest)
            new_label = any(lab not in self.labels for lab in labels)
            self.labels.update(labels)
            if fresh and len(text) < 1500:
                sample = {"labels": sorted(labels), "case": case}
                if len(self.samples) < MAX_SAMPLES:
                    self.samples.append(sample)
                elif new_label and len(self.samples) < 3 * MAX_SAMPLES:
                    self.samples.append(sample)

    def run(self):
        sub = self.sub
        hyp_seed = derive_seed(
            self.verif_seed, sub.prop, sub.name, self.shard
        )

        @seed(hyp_seed)
        @settings(
            max_examples=self.max_examples,
            database=None,
            deadline=None,
            derandomize=False,
            print_blob=False,
            report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=[HealthCheck.too_slow],
            verbosity=hypothesis.Verbosity.quiet,
        )
        @given(sub.strategy())
        def test(case):
            if self.failure is None and time.monotonic() > self.deadline:
                self.skipped += 1
                return
            self.evaluate(case)

        try:
            test()
        except Stop:
            pass
        except core.Violation:
            pass
        except BaseException as exc:  # pylint: disable=broad-except
            if self.failure is None:
                import traceback

                self.error = traceback.format_exc()[-6000:]
            elif isinstance(exc, (KeyboardInterrupt, SystemExit)):
                raise
        self.write_result(True)


def on_alarm(_signum, _frame):
    raise core.CaseTimeout()


def quiet_process():
    """No output of the code under test on stdout; warnings off."""
    import resource

    import numpy as np

    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    limit = 12 << 30
    resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    signal.signal(signal.SIGALRM, on_alarm)


def worker_main(tasks, verif_seed, deadline):
    """``tasks`` is a list of (sub-test, max_examples, result path,
    shard)."""
    quiet_process()
    for sub, max_examples, out_path, shard in tasks:
        Runner(
            sub, verif_seed, max_examples, out_path, shard, deadline
        ).run()
