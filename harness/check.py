"""Decides one property: drives the real code, has TLC judge the recorded behaviours.

Exit 0 if the property held on everything explored, 1 with a VIOLATION line otherwise (2: machinery failure).
"""
import json
import multiprocessing
import os
import pathlib
import shutil
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor

import props
import tlc

ROOT = pathlib.Path(__file__).resolve().parent.parent
WORKERS = max(2, min(8, os.cpu_count() or 2))


def known_findings():
    path = ROOT / "known_findings.json"
    return json.loads(path.read_text())["findings"] if path.exists() else []


# ------------------------------------------------------------------ observation
def observe_chunk(jobs):
    import runner

    return [r for j in jobs for r in runner.observe(j)]


def split(jobs, n):
    """Contiguous chunks of jobs with similar array shapes, which share compiled operations."""
    jobs = sorted(jobs, key=lambda j: (j["family"], str(j.get("sig", "")), j["id"]))
    size = max(1, -(-len(jobs) // n))
    return [jobs[i : i + size] for i in range(0, len(jobs), size)]


def observe_all(jobs):
    if not jobs:
        return []
    chunks = split(jobs, WORKERS * 3)
    ctx = multiprocessing.get_context("spawn")
    with ProcessPoolExecutor(min(WORKERS, len(chunks)), mp_context=ctx) as ex:
        out = [r for part in ex.map(observe_chunk, chunks) for r in part]
    return out


# ------------------------------------------------------------------ judgement
def judge_chunk(module, records, classes, work, cfg=None, depth=0):
    """Verdict of TLC for every record: id -> list of failing clauses."""
    path = tempfile.mktemp(suffix=".ndjson", dir=work)
    with open(path, "w") as f:
        for r in records:
            f.write(json.dumps(r, allow_nan=False) + "\n")
    stats = dict(states=0, transitions=0)
    try:
        res = tlc.run(module, classes, env={"TRACE": path}, cfg=cfg)
        verdicts = {c["id"]: c["fails"] for c in res["cases"]}
        stats = dict(states=res["states"], transitions=res["transitions"])
        if res["violated"]:
            raise tlc.TLCError(f"invariant {res['violated']} violated\n" + res["out"][-3000:])
        missing = [r["id"] for r in records if r["id"] not in verdicts]
        if missing:
            raise tlc.TLCError(f"no verdict for {missing[:3]}\n" + res["out"][-3000:])
        return verdicts, stats
    except tlc.TLCError as e:
        if len(records) == 1:
            msg = str(e)
            if "OutOfMemory" in msg or "time limit" in msg or "StackOverflow" in msg:
                raise
            if depth == 0:
                raise
            return {records[0]["id"]: ["the record cannot be read as a behaviour of the specification"],
                    "_error": [msg[-1500:]]}, stats
        mid = len(records) // 2
        verdicts = {}
        for part in (records[:mid], records[mid:]):
            v, s = judge_chunk(module, part, classes, work, cfg, depth + 1)
            verdicts.update(v)
            stats = {k: stats[k] + s[k] for k in stats}
        return verdicts, stats
    finally:
        if os.path.exists(path):
            os.unlink(path)


def cost(r):
    return r.get("cost", 1)


def judge_all(records, classes, work):
    import runner

    groups = {}
    for r in records:
        groups.setdefault(r["module"], []).append(r)
    tasks = []
    for module, rs in groups.items():
        # chunks of similar cost, at least as many as there are workers but not too small
        total = sum(cost(r["record"]) for r in rs)
        target = max(total / WORKERS, 6.0) if len(groups) == 1 else max(total / 4, 6.0)
        target = min(target, runner.MAX_COST)
        cur, acc = [], 0.0
        for r in sorted(rs, key=lambda r: -cost(r["record"])):
            cur.append(r["record"])
            acc += cost(r["record"])
            if acc >= target:
                tasks.append((module, cur))
                cur, acc = [], 0.0
        if cur:
            tasks.append((module, cur))
    verdicts, states, transitions = {}, 0, 0
    with ThreadPoolExecutor(WORKERS) as ex:
        for v, s in ex.map(lambda t: judge_chunk(t[0], t[1], classes, work), tasks):
            verdicts.update(v)
            states += s["states"]
            transitions += s["transitions"]
    return verdicts, states, transitions


# ------------------------------------------------------------------ main
def run_models(models, classes, work):
    """Exhaustive checks of the specification itself; returns counts, dumped behaviours and violations."""
    def one(spec):
        if "input" in spec:
            path = os.path.join(work, spec["module"] + ".ndjson")
            with open(path, "w") as f:
                f.writelines(json.dumps(x) + "\n" for x in spec["input"])
            spec["env"] = {**spec.get("env", {}), "MODELS": path}
        res = tlc.run(spec["module"], classes, env=spec.get("env"), cfg=spec.get("cfg"), heap=spec.get("heap", "3g"),
                      workers=spec.get("workers", 2), timeout=spec.get("timeout", 600), extra=spec.get("extra", ()))
        if res["violated"]:
            raise tlc.TLCError(f"{spec['module']}: the specification violates {res['violated']}\n" + res["out"][-4000:])
        return res

    with ThreadPoolExecutor(4) as ex:
        return list(ex.map(one, models))


def decide(pid, tier, seed):
    prop = props.REGISTRY[pid]
    t0 = time.time()
    build = ROOT / "build"
    build.mkdir(exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"{pid}_", dir=build)
    try:
        classes = os.path.join(work, "classes")
        tlc.build(classes)
        models = prop.models(tier, seed) if prop.models else []
        mc = run_models(models, classes, work)
        dumps = {m["module"]: r["dump"] for m, r in zip(models, mc)}
        jobs = prop.jobs(tier, seed, dumps)
        for kf in known_findings():
            if kf["property"] == pid and "job" in kf:
                jobs.append({**kf["job"], "known": kf["id"]})
        assert len({j["id"] for j in jobs}) == len(jobs), "job ids are not unique"
        records = observe_all(jobs)
        t1 = time.time()
        verdicts, states, transitions = judge_all(records, classes, work)
        t2 = time.time()
    finally:
        shutil.rmtree(work, ignore_errors=True)

    by_id = {r["record"]["id"]: next_job[r["job"]] for next_job in [{j["id"]: j for j in jobs}] for r in records}
    rec_by_id = {r["record"]["id"]: r for r in records}
    violations, known = [], []
    for rid, fails in verdicts.items():
        if rid == "_error":
            continue
        fails = [f for f in fails if prop.concerns(f)]
        job = by_id[rid]
        if job.get("known"):
            kf = next(k for k in known_findings() if k["id"] == job["known"])
            unexpected = [f for f in fails if not any(f.startswith(p) for p in kf["fails"])]
            if fails and not unexpected:
                known.append(kf)
                continue
            fails = unexpected
        if fails:
            violations.append((rid, fails))
    for kf in {k["id"]: k for k in known}.values():
        print(f"KNOWN-FINDING: property={pid} {kf['what']}")

    replays = ROOT / "replays"
    for rid, fails in violations[:5]:
        replays.mkdir(exist_ok=True)
        path = replays / f"{pid}-{''.join(c if c.isalnum() else '_' for c in rid)}.json"
        path.write_text(json.dumps(dict(property=pid, job=by_id[rid], fails=fails,
                                        module=rec_by_id[rid]["module"], record=rec_by_id[rid]["record"]), indent=1))
        print(f"VIOLATION property={pid} replay={path}")
        for f in fails[:4]:
            print(f"  {rid}: {f}")
    if "_error" in verdicts:
        print(verdicts["_error"][0])

    wall = time.time() - t0
    evidence = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=states + sum(r["states"] for r in mc), transitions=transitions + sum(r["transitions"] for r in mc),
            traces_validated_against_impl=len(records),
            spec_models=[dict(module=m["module"], states=r["states"], transitions=r["transitions"],
                              behaviours_dumped=len(r["dump"])) for m, r in zip(models, mc)],
            calls_by_kind={k: sum(1 for r in records if r["kind"] == k) for k in sorted({r["kind"] for r in records})},
            features=features(records),
            samples=[sample(r) for r in records[:: max(1, len(records) // 3)][:3]],
        ),
        assumptions=prop.assumptions, wall_s=round(wall, 2), violations=len(violations),
    )
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{pid}.json").write_text(json.dumps(evidence, indent=1))
    print(f"{pid} {tier}: {len(records)} traces, {states} trace states, "
          f"{sum(r['states'] for r in mc)} model states, {len(violations)} violations, "
          f"{wall:.0f}s (observe {t1 - t0:.0f}, judge {t2 - t1:.0f})")
    return 1 if violations else 0


def features(records):
    out = {}
    for r in records:
        for f in r.get("features", []):
            out[f] = out.get(f, 0) + 1
    return dict(sorted(out.items()))


def sample(r):
    text = json.dumps(r["record"])
    return dict(id=r["record"]["id"], kind=r["kind"], record=text[:1500])


def replay(path):
    case = json.loads(pathlib.Path(path).read_text())
    import runner

    (ROOT / "build").mkdir(exist_ok=True)
    work = tempfile.mkdtemp(prefix="replay_", dir=ROOT / "build")
    try:
        tlc.build(os.path.join(work, "classes"))
        v = {}
        for rec in runner.observe(case["job"]):
            if rec["record"]["id"] == case["record"]["id"]:
                v.update(judge_chunk(rec["module"], [rec["record"]], os.path.join(work, "classes"), work, depth=1)[0])
        print(json.dumps(v, indent=1))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 1 if any(v.values()) else 0


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    try:
        return decide(pid, tier, seed)
    except Exception:
        traceback.print_exc()
        print(f"ERROR {pid}: the check itself failed")
        return 2


if __name__ == "__main__":
    sys.exit(main())
