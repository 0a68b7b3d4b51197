"""Writes MANIFEST.json from the registry (run with harness/check.sh's environment not needed)."""
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "harness"))
import props  # noqa: E402

ids = [json.loads(x)["id"] for x in (ROOT / "properties.jsonl").read_text().splitlines() if x.strip()]
NOTE = ("Real executions (generated inputs, and inputs enumerated by TLC where a model module is listed in the evidence) are "
        "validated step by step against an explicit TLA+ specification evaluated by TLC with 36 digit decimal arithmetic; holds "
        "for the explored inputs only. Trusted: TLC, java/Dec.java, the JSON reader, the recording harness.")
checks = []
for pid in ids:
    if pid not in props.REGISTRY:
        continue
    p = props.REGISTRY[pid]
    checks.append(dict(
        property=pid, quick_cmd=f"bash harness/check.sh {pid} quick", thorough_cmd=f"bash harness/check.sh {pid} thorough",
        technique=p.technique or "TLA+ specification evaluated by TLC; trace validation of recorded executions",
        level="model_checking", level_note=NOTE))
out = dict(version=1, setup_cmd="bash harness/setup.sh", checks=checks,
           not_applicable=[dict(property=i, reason="check not built yet") for i in ids if i not in props.REGISTRY])
(ROOT / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
