"""Runs TLC and reads its output."""
import json
import os
import pathlib
import re
import shutil
import subprocess
import tempfile

ROOT = pathlib.Path(__file__).resolve().parent.parent
SPEC = ROOT / "spec"
TLA = "/opt/veriftools/tla/tla2tools.jar"
MODS = "/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


def build(dest):
    """Compile the module override into dest."""
    dest = pathlib.Path(dest)
    dest.mkdir(parents=True, exist_ok=True)
    subprocess.run(["javac", "-cp", TLA, "-d", str(dest), str(ROOT / "java" / "Dec.java")], check=True)


def run(module, classes, env=None, cfg=None, heap="2g", timeout=800, workers=1, extra=()):
    """Returns dict(out, cases, states, distinct, ok, violated). Raises TLCError for machinery failures."""
    meta = tempfile.mkdtemp(prefix="tlc_")
    try:
        cmd = ["java", f"-Djava.io.tmpdir={meta}", f"-Xmx{heap}", "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-XX:TieredStopAtLevel=4", "-cp", f"{TLA}:{MODS}:{classes}", "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-lncheck", "final", *extra,
               "-config", str(SPEC / (cfg or module + ".cfg")), str(SPEC / (module + ".tla"))]
        p = subprocess.run(cmd, capture_output=True, text=True, env={**os.environ, **(env or {})}, timeout=timeout,
                           cwd=meta)
    except subprocess.TimeoutExpired as e:
        raise TLCError(f"{module}: time limit") from e
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    cases = []
    for line in out.splitlines():
        m = re.match(r'^"(CASE|DUMP) (.*)"$', line)
        if m:
            cases.append((m.group(1), json.loads(json.loads('"' + m.group(2) + '"'))))
    st = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    res = dict(out=out, cases=[c for k, c in cases if k == "CASE"], dump=[c for k, c in cases if k == "DUMP"],
               states=int(st.group(2)) if st else 0, transitions=int(st.group(1)) if st else 0, rc=p.returncode)
    res["violated"] = re.findall(r"Invariant (\w+) is violated|property (\w+) is violated", out)
    if p.returncode != 0 and not (p.returncode in (12, 13) and res["violated"]):
        raise TLCError(f"{module}: exit {p.returncode}\n" + out[-3000:] + p.stderr[-1500:])
    return res
