"""Chains of model edits with parameters."""
import copy
import warnings

import numpy as np
import pandas as pd

import concrete
import fam_filter
import fam_template
import gen

KNOWN = {"factors", "observed_factors", "controls", "stagemap", "anchoring", "estimation_options"}


def abstract(md, m0, funcs):
    """Specification dictionary -> abstract model; entries the model does not know are listed separately."""
    extra = [k for k in md if k not in KNOWN]
    first = {f["name"]: f for f in m0["factors"]}
    factors = []
    for name, spec in md["factors"].items():
        extra += [f"{name}: {k}" for k in spec if k not in ("measurements", "normalizations", "transition_function")]
        tf = spec["transition_function"]
        f = dict(name=name, meas=[[str(y) for y in x] for x in spec["measurements"]], meas_ok=True, bad_meas=[], cname="", pnames=[], terms=[])
        if isinstance(tf, str):
            f["kind"] = tf
        else:
            same = name in funcs and tf is funcs[name]
            src = first[name] if same else dict(cname=str(tf), pnames=[], terms=[])
            f.update(kind="custom", cname=src["cname"], pnames=src["pnames"], terms=src["terms"])
        n = spec.get("normalizations")
        off = dict(given=False, ok=True, list=[])
        f["norm"] = dict(given=n is not None, loadings=dict(off), intercepts=dict(off))
        for k, v in (n or {}).items():
            if k not in ("loadings", "intercepts"):
                extra.append(f"{name}: normalizations {k}")
                continue
            f["norm"][k] = dict(given=True, ok=True, list=[[[str(y), gen.num(x)] for y, x in d.items()] for d in v])
        factors.append(f)
    a = md.get("anchoring")
    unset = dict(given=False, ok=True, bad_outcomes=False, outcomes=[], free_controls="unset", free_constant="unset", free_loadings="unset",
                 ignore_constant="unset")
    if a is not None:
        unset["given"] = True
        unset["outcomes"] = [[f, str(o)] for f, o in a["outcomes"].items()]
        names = dict(free_controls="free_controls", free_constant="free_constant", free_loadings="free_loadings",
                     ignore_constant_when_anchoring="ignore_constant")
        for k, v in a.items():
            if k == "outcomes":
                continue
            if k not in names or not isinstance(v, bool):
                extra.append(f"anchoring {k}")
            else:
                unset[names[k]] = "true" if v else "false"

    def section(key):
        return dict(given=key in md, list=list(md.get(key, [])))

    opts = md.get("estimation_options")
    want = dict(m0["options"]["list"])
    lst = []
    for k, v in (opts or {}).items():
        same = k in want and concrete.option_value(want[k]) == v and type(concrete.option_value(want[k])) is type(v)
        lst.append([k, want[k] if same else str(v)])
    return dict(factors=factors, observed=section("observed_factors"), controls=section("controls"), stagemap=section("stagemap"),
                anchoring=unset, options=dict(given=opts is not None, list=lst)), extra


def read_params(df):
    return dict(
        index=[fam_template.full(t) for t in df.index.tolist()],
        value=[gen.num(v) for v in df["value"]],
        lower=[gen.num(v) for v in df["lower_bound"]] if "lower_bound" in df else [],
        upper=[gen.num(v) for v in df["upper_bound"]] if "upper_bound" in df else [],
    )


def initial_params(m, g):
    p = g.params(m)
    df = concrete.params_df(p)
    if g.flip(0.7):
        df["lower_bound"] = [g.u(-5, -1) if g.flip(0.6) else -np.inf for _ in range(len(df))]
    if g.flip(0.5):
        df["upper_bound"] = [g.u(1, 5) if g.flip(0.6) else np.inf for _ in range(len(df))]
    if g.flip(0.3):
        df = df.iloc[g.r.permutation(len(df))]
    if g.r2.random() < 0.2:         # not known yet
        df = df.copy()
        for col in df:
            df.loc[g.r2.random(len(df)) < 0.3, col] = np.nan
    return df


def call(op, md, params, form):
    import skillmodels.utilities as u

    f = getattr(u, op["name"])
    if op["name"] == "reduce_n_periods":
        args = (md, op["n"])
    elif op["name"].startswith("switch"):
        args = (md,)
    else:
        a = list(op["args"])
        if op["name"] == "remove_measurements":
            a = [concrete.enc(x) for x in a]
        args = (a[0] if len(a) == 1 and form and isinstance(a[0], str) else a, md)
    return f(*args) if params is None else f(*args, params)


def same(a, b):
    """Deep equality; functions by identity."""
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b or (type(a) is type(b) and a == b)


def overwrite(x):
    for v in list(x.values() if isinstance(x, dict) else x):
        if isinstance(v, (dict, list)):
            overwrite(v)
    if isinstance(x, dict):
        x["overwritten"] = 1
    else:
        x.append("overwritten")


def random_ops(g, m, n):
    """A chain of sensible edits; tracks the model only roughly, nonsensical ones are left out."""
    ops = []
    left = gen.latent(m)
    meas = sorted({y for f in m["factors"] for ys in f["meas"] for y in ys})
    controls = list(m["controls"]["list"])
    T = gen.n_periods(m)
    custom_uses = {f["name"]: {x for t in f["terms"] for x in t["factors"]} | {f["name"]} for f in m["factors"]}

    def closed(keep):
        return all(custom_uses[f] <= set(keep) | set(m["observed"]["list"]) for f in keep) and any(
            any(f["meas"]) for f in m["factors"] if f["name"] in keep)

    while len(ops) < n:
        kind = g.pick(["factors", "extract", "meas", "meas", "controls", "periods", "linear", "translog"])
        if kind in ("factors", "extract"):
            if len(left) < 2:
                continue
            keep = g.sample(left, g.int(1, len(left) - (kind == "factors")))
            if not closed(keep):
                kind = "meas"
            else:
                gone = [f for f in left if f not in keep]
                ops.append(dict(name="remove_factors", args=g.sample(gone, len(gone)), n=0) if kind == "factors"
                           else dict(name="extract_factors", args=g.sample(keep, len(keep)), n=0))
                left = [f for f in left if f in keep]
                T = 0
        if kind == "meas":
            ops.append(dict(name="remove_measurements", args=g.sample(meas, min(len(meas), g.int(1, 3))), n=0))
        elif kind == "controls" and controls:
            gone = g.sample(controls, g.int(1, len(controls)))
            controls = [c for c in controls if c not in gone]
            ops.append(dict(name="remove_controls", args=gone, n=0))
        elif kind == "periods":
            ops.append(dict(name="reduce_n_periods", args=[], n=g.int(1 if g.flip(0.2) else 2, 4)))
        elif kind == "linear":
            ops.append(dict(name="switch_translog_to_linear", args=[], n=0))
        elif kind == "translog":
            ops.append(dict(name="switch_linear_to_translog", args=[], n=0))
    return ops


def run_chain(m, df, ops, g):
    import skillmodels.utilities as u

    md = concrete.model_dict(m)
    funcs = {f: s["transition_function"] for f, s in md["factors"].items() if not isinstance(s["transition_function"], str)}
    events = []
    blank = dict(error="", model=m, extra=[], untouched=True, same_alone=True, params_untouched=True, warned=False, others=[],
                 params=dict(index=[], value=[], lower=[], upper=[]))
    for op in ops:
        if op["name"] == "update":
            others = [perturbed(df, g) for _ in range(g.int(1, 3))]
            before = df.copy(deep=True)
            ev = dict(blank, op=op, others=[read_params(o) for o in others])
            try:
                df2 = u.update_parameter_values(df, others[0] if len(others) == 1 and g.flip(0.5) else others)
                ev["params"] = read_params(df2)
                ev["params_untouched"] = bool(before.equals(df)) and all(read_params(o) == e for o, e in zip(others, ev["others"]))
                df = df2
            except Exception as e:   # noqa: BLE001
                ev["error"] = f"{type(e).__name__}: {e}"[:300]
                events.append(ev)
                break
            events.append(ev)
            continue
        ev = dict(blank, op=op)
        before, dfb = copy.deepcopy(md), df.copy(deep=True)
        try:
            with warnings.catch_warnings(record=True) as log:
                warnings.simplefilter("always")
                new, newp = call(op, md, df, g.flip(0.5))
            ev["warned"] = any("normaliz" in str(w.message) for w in log)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                alone = call(op, md, None, True)
            ev["same_alone"] = same(new, alone)
            overwrite(alone)          # what is returned belongs to the caller
            ev["untouched"] = same(before, md)
            ev["params_untouched"] = bool(dfb.equals(df)) and list(dfb.index) == list(df.index)
            ev["model"], ev["extra"] = abstract(new, m, funcs)
            ev["params"] = read_params(newp)
        except Exception as e:   # noqa: BLE001
            ev["error"] = f"{type(e).__name__}: {e}"[:300].replace("\n", " ")
            events.append(ev)
            break
        events.append(ev)
        md, df = new, newp
    return events


def perturbed(df, g):
    """Another parameter set with some common and some foreign labels."""
    keep = [i for i in range(len(df)) if g.flip(0.4)]
    out = df.iloc[g.sample(keep, len(keep))][["value"]].copy() if keep else df.iloc[:0][["value"]].copy()
    out["value"] = [float("nan") if g.flip(0.1) else g.n(2.0) for _ in range(len(out))]
    # only the values count
    for col in ("lower_bound", "upper_bound", "comment"):
        if g.flip(0.4):
            out[col] = [g.n(2.0) for _ in range(len(out))]
    if g.flip(0.5):
        idx = pd.MultiIndex.from_tuples([("transition", 77, "nobody", "x"), ("controls", 0, "none", "constant")], names=df.index.names)
        out = pd.concat([pd.DataFrame({"value": [1.0, 2.0]}, index=idx), out])
    return out


def observe(job):
    g = gen.Gen(job["seed"], **job.get("profile", {}))
    if "model" in job:
        m = job["model"]
    else:
        m = g.model()
    df = initial_params(m, g)
    first = read_params(df)
    if "ops" in job:
        ops = job["ops"]
    else:
        ops = random_ops(g, m, job.get("length", 4))
        if job.get("updates"):
            for _ in range(job["updates"]):
                ops.insert(g.int(0, len(ops)), dict(name="update", args=[], n=0))
    events = run_chain(m, df, ops, g)
    feats = sorted({e["op"]["name"] for e in events})
    return dict(module="TraceEdit", record=dict(id=job["id"], model=m, params=first, obs=events,
                                                cost=0.1 * len(events) * (1 + len(first["index"]) / 150)),
                kind="chain of edits" + (" enumerated by TLC" if "ops" in job else ""), features=feats + fam_filter.features(m, dict(rows=[])))
