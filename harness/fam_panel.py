"""Acceptance, rejection and warnings for datasets."""
import re
import warnings

import numpy as np
import pandas as pd

import concrete
import fam_filter
import gen
import observe as ob

TEXTS = {"Variable is missing": "missing", "Variable has no variance": "variance", "Variable has missings": "missings"}


def read_report(text):
    """Rows of the reported table as [period, variable, problem]."""
    out, period = [], None
    for line in text.splitlines():
        m = re.match(r"^(\d+)?\s*(.*\S)\s+(Variable .*\S)\s*$", line)
        if not m:
            continue
        if m.group(1) is not None:
            period = int(m.group(1))
        if period is None:
            continue
        out.append([period, m.group(2).strip(), TEXTS.get(m.group(3).strip(), m.group(3).strip())])
    return out


def read_warning(text, data, py):
    """Codes of the (individual, period) labels named in a warning."""
    body = text.split("\n", 1)[1] if "\n" in text else text
    try:
        named = eval(body, {"Timestamp": pd.Timestamp, "nan": float("nan"), "np": np})
    except Exception:   # noqa: BLE001
        return [[-1, -1]]
    ids = {r["id"] for r in data["rows"]}
    periods = {r["period"] for r in data["rows"]}
    out = []
    for a, b in named:
        ia = [i for i in ids if concrete.label(py["id_kind"], i) == a]
        ib = [i for i in periods if concrete.label(py["period_kind"], i) == b]
        out.append([ia[0] if ia else -1, ib[0] if ib else -1])
    return out


def record(m, data, py, purpose, params):
    from skillmodels.likelihood_function import get_maximization_inputs
    from skillmodels.simulate_data import simulate_dataset

    obs = dict(error="", exception="", problems=[], warned=[], n_warnings=0)
    df = concrete.data_df(data, py)
    try:
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            md = concrete.model_dict(m)
            if purpose == "estimation":
                get_maximization_inputs(md, df)
            else:
                simulate_dataset(md, concrete.params_df(params), data=df)
        texts = [str(w.message) for w in log if "NaN" in str(w.message) and "controls" in str(w.message)]
        obs["n_warnings"] = len(texts)
        for t in texts:
            obs["warned"] += read_warning(t, data, py)
    except Exception as e:   # noqa: BLE001
        obs["error"] = str(e).replace("\n", " ; ")[:600] or "no message"
        obs["exception"] = type(e).__name__
        obs["problems"] = read_report(str(e))
    return obs


def observe(job):
    purpose = job.get("purpose", "estimation")
    if "case" in job:
        m, params, d, py = (job["case"][k] for k in ("model", "params", "data", "py"))
    else:
        g = gen.Gen(job["seed"], **dict(job.get("profile", {}), p_typed=0))
        m = g.model()
        params = g.params(m)
        d, py = g.data(m)
        if job.get("defects"):
            g.break_data(m, d, purpose)
    obs = record(m, d, py, purpose, params)
    feats = fam_filter.features(m, gen.stringify(d)) + [f"labels:{py['id_kind']}/{py['period_kind']}", purpose]
    if obs["error"]:
        feats.append("rejected")
    if obs["warned"]:
        feats.append("rows discarded")
    return dict(module="TracePanel", record=dict(id=job["id"], model=m, data=gen.stringify(d), purpose=purpose, obs=obs, cost=0.3),
                kind="dataset processed", features=feats)
