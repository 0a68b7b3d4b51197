"""Executes one job in a worker process: generates the case, runs the real code, returns the trace record."""
import importlib
import signal

MAX_COST = 60.0
FAMILIES = {}


class Hang(Exception):
    pass


def _alarm(signum, frame):
    raise Hang("no answer within the time limit")


def observe(job):
    mod = FAMILIES.get(job["family"])
    if mod is None:
        mod = FAMILIES[job["family"]] = importlib.import_module("fam_" + job["family"])
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(400)
    try:
        out = mod.observe(job)
        out = out if isinstance(out, list) else [out]
        for r in out:
            r["job"] = job["id"]
        return out
    finally:
        signal.alarm(0)
