"""Helpers for worker processes that run the real code."""

import copy
import json
import logging
import os
import signal
import sys


SCRATCH = os.environ.get("VP_SCRATCH", "")
DICT = "w_prefetch"  # this recorder wraps its traces


class NullLogger:
    def __getattr__(self, name):
        return lambda *a, **k: None


def quiet():
    """Replace goggles' networked logging before synthpix is imported."""
    import goggles

    goggles.get_logger = lambda *a, **k: NullLogger()
    logging.disable(logging.CRITICAL)


class Hang(BaseException):
    """Raised when a call of the code under test does not return in time."""


def _on_alarm(*_):
    raise Hang()


def timed(fn, seconds=10.0):
    """Call fn() in the main thread, raising Hang if it takes too long."""
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def outcome(fn, seconds=10.0):
    """(kind, value): kind is 'ok', 'hang' or the exception class name."""
    try:
        return "ok", timed(fn, seconds)
    except Hang:
        return "hang", None
    except BaseException as e:  # noqa: BLE001 - every ending is an observation
        if isinstance(e, (KeyboardInterrupt, SystemExit, GeneratorExit)):
            return type(e).__name__, None
        return type(e).__name__, None


def scratch():
    return os.environ["VP_SCRATCH"]


def serve(fn):
    """Entry point of a worker: fn(job) -> result, JSON files in argv."""
    job = json.load(open(sys.argv[1]))
    key = next((k for k in ("tests", "scenarios") if k in job), None)
    try:
        res = fn(copy.deepcopy(job))
    except Exception:  # noqa: BLE001
        # one item broke the recorder: record the others, and that this one did
        if key is None:
            raise
        res = None
        for k, item in enumerate(job[key]):
            try:
                os.environ["VP_SCRATCH"] = d = os.path.join(SCRATCH, f"again{k}")
                os.makedirs(d)
                r = fn({**job, key: [copy.deepcopy(item)]})
            except Exception as e:  # noqa: BLE001
                t = [dict(id=str(item.get("id", k)), cfg={}, ev=[dict(op="crash", kind=f"{type(e).__name__}: {e}"[:200])])]
                r = dict(traces=t, choices=0) if key == "scenarios" and fn.__module__ == "__main__" and DICT in sys.argv[0] else t
            if res is None:
                res = r
            elif isinstance(r, dict):
                res["traces"] += r["traces"]
                res["choices"] += r["choices"]
            else:
                res += r
    tmp = sys.argv[2] + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.replace(tmp, sys.argv[2])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)
