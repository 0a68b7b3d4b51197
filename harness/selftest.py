"""Corrupts recorded traces and demands that TLC rejects them: python selftest.py <property> [n]

Takes the records of a property's jobs, changes one recorded value at a time and reports corruptions that are
accepted.  Not a registered check; it measures the binding."""
import copy
import os
import random
import shutil
import sys
import tempfile

import check
import props
import runner
import tlc


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path, x


def put(x, path, v):
    for k in path[:-1]:
        x = x[k]
    x[path[-1]] = v


def corrupt(v, r):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1
    try:
        f = float(v)
        return repr(f + 1e-4 * (1 + abs(f))) if f == f and abs(f) != float("inf") else "0.5"
    except ValueError:
        return v + "x"


def main():
    pid, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 40
    r = random.Random(0)
    work = tempfile.mkdtemp(dir=check.ROOT / "build")
    try:
        tlc.build(os.path.join(work, "classes"))
        prop = props.REGISTRY[pid]
        jobs = prop.jobs("quick", 1, {})
        r.shuffle(jobs)
        recs = [x for j in jobs[:8] for x in runner.observe(j)]
        bad = []
        for k in range(n):
            rec = copy.deepcopy(r.choice(recs))
            # choose a kind of leaf first, so that rare fields are corrupted as often as frequent ones
            by_kind = {}
            for path, v in leaves(rec["record"]["obs"]):
                by_kind.setdefault(tuple(p for p in path if not isinstance(p, int)), []).append((path, v))
            kind = r.choice(sorted(by_kind))
            path, v = r.choice(by_kind[kind])
            put(rec["record"]["obs"], path, corrupt(v, r))
            rec["record"]["id"] = f"{k}: {'/'.join(map(str, path))} {v}"
            bad.append(rec)
        groups = {}
        for x in bad:
            groups.setdefault(x["module"], []).append(x["record"])
        for module, rs in groups.items():
            v, _ = check.judge_chunk(module, rs, os.path.join(work, "classes"), work, depth=1)
            for k, fails in v.items():
                if not fails:
                    print("ACCEPTED", module, k)
        print(len(bad), "corruptions")
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
