"""Drivers of the real code: run public functions and write down what they return.

Nothing here judges a result.  Tables are read by their labels; every unexpected exception becomes part of
the record.
"""
import contextlib
import io
import math
import warnings

import numpy as np
import pandas as pd

import concrete
from gen import latent, num, updates


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def nums(arr):
    """Nested list of numerals."""
    arr = np.asarray(arr, dtype=float)
    if arr.ndim == 0:
        return num(arr)
    return [nums(a) for a in arr]


def err(e):
    return f"{type(e).__name__}: {e}"[:300].replace("\n", " ")


def block(df, period, meas, cols, N, K):
    """Rows of one update as array (N, K, len(cols)), read by id and mixture label."""
    sub = df[(df["period"] == period) & (df["measurement"].map(str) == meas)]
    if "mixture" in sub.columns:
        key = list(zip(sub["id"].tolist(), sub["mixture"].tolist()))
    else:
        key = [(i, 0) for i in sub["id"].tolist()]
    want = [(i, k) for i in range(N) for k in range(K)]
    pos = {k: j for j, k in enumerate(key)}
    ok = len(key) == len(want) and set(key) == set(want)
    vals = sub[cols].to_numpy(dtype=float)
    out = np.full((N, K, len(cols)), np.nan)
    for a, k in want:
        if (a, k) in pos:
            out[a, k] = vals[pos[a, k]]
    return out, ok


def states_table(df, facs):
    out = []
    for period in df["period"].unique().tolist():
        sub = df[df["period"] == period]
        ids = sub["id"].tolist()
        if sorted(ids) != list(range(len(ids))):
            return []
        sub = sub.set_index("id").loc[list(range(len(ids)))]
        out.append(dict(period=int(period), states=nums(sub[facs].to_numpy(dtype=float))))
    return out


def ranges_table(r, facs):
    out = []
    for f in facs:
        df = r[f]
        out.append([dict(period=int(p), min=num(df.loc[p, "minimum"]), max=num(df.loc[p, "maximum"])) for p in df.index.tolist()])
    return out


EMPTY = dict(error="", updates=[], filtered=[], ranges=[], anchored=[], anchored_ranges=[], unanchored=[],
             unanchored_ranges=[], again=[], fast=[], contributions=[], value="")


def likelihood(m, params, data_frame, fast=True, anchored=True, order=None, spec=None):
    """One evaluation of the likelihood with everything it reports."""
    from skillmodels.filtered_states import anchor_states_df
    from skillmodels.filtered_states import get_filtered_states
    from skillmodels.likelihood_function import get_maximization_inputs

    obs = {k: (list(v) if isinstance(v, list) else v) for k, v in EMPTY.items()}
    facs = latent(m)
    try:
        with quiet():
            md = spec if spec is not None else concrete.model_dict(m)
            inputs = get_maximization_inputs(md, data_frame)
            df = concrete.params_df(params, None if order is not None else inputs["params_template"].index)
            if order is not None:
                df = order(df)
            dbg = inputs["debug_loglike"](df)
            obs.update(debug_tables(m, dbg, facs))
            if fast:
                ll = inputs["loglike"](df)
                obs["fast"] = [dict(value=num(ll["value"]), contributions=nums(ll["contributions"]))]
            if anchored:
                fs = get_filtered_states(model_dict=md, data=data_frame, params=df)
                obs["anchored"] = states_table(fs["anchored_states"]["states"], facs)
                obs["anchored_ranges"] = ranges_table(fs["anchored_states"]["state_ranges"], facs)
                obs["unanchored"] = states_table(fs["unanchored_states"]["states"], facs)
                obs["unanchored_ranges"] = ranges_table(fs["unanchored_states"]["state_ranges"], facs)
                obs["again"] = states_table(
                    anchor_states_df(states_df=fs["unanchored_states"]["states"], model_dict=md, params=df), facs)
                if not obs["anchored"]:
                    obs["error"] = "filtered states have no rows for some individual"
    except Exception as e:   # noqa: BLE001  every failure of the code under test is a recorded event
        obs["error"] = err(e)
    return obs


def debug_tables(m, dbg, facs):
    obs = {}
    K = int(dbg["post_update_states"]["mixture"].max()) + 1
    contribs = dbg["all_contributions"]
    N = len(np.asarray(dbg["contributions"]))
    ups = []
    seen = list(dict.fromkeys(zip(contribs["period"].tolist(), contribs["measurement"].map(str).tolist())))
    for period, meas in seen:
        st, ok1 = block(dbg["post_update_states"], period, meas, facs, N, K)
        rs, ok2 = block(dbg["residuals"], period, meas, ["residual"], N, K)
        sd, ok3 = block(dbg["residual_sds"], period, meas, ["residual"], N, K)
        co, ok4 = block(contribs, period, meas, ["contribution"], N, 1)
        ups.append(dict(period=int(period), name=str(meas), ok=bool(ok1 and ok2 and ok3 and ok4), states=nums(st),
                        resid=nums(rs[:, :, 0]), sd=nums(sd[:, :, 0]), contrib=nums(co[:, 0, 0])))
    obs["updates"] = ups
    obs["filtered"] = states_table(dbg["filtered_states"], facs)
    obs["ranges"] = ranges_table(dbg["state_ranges"], facs)
    obs["contributions"] = nums(dbg["contributions"])
    obs["value"] = num(dbg["value"])
    return obs
