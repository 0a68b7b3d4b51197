"""Sessions: histories of calls and in-place changes, replayed against spec/Session.tla.

The same calls are made in a process of their own, one after another in another order and with freshly built
arguments; which of those isolated results an event has to equal is decided by the specification.
"""
import copy
import hashlib
import json
import os
import subprocess
import sys

import numpy as np
import pandas as pd

import concrete
import gen
import observe as ob

EVALS = ["loglike", "debug_loglike", "debug_loglike", "gradient", "loglike_and_gradient"]
CALLS = ["filter", "simulate", "simulate", "edit", "measurements", "quasi", "scores", "heatmap", "curves", "density", "contours", "surfaces",
         "combined", "anchored", "update"]
BAD = ["params", "spec", "data", "policies", "period"]


# ------------------------------------------------------------------ fingerprints and summaries
def walk(x, out):
    """Labels and numbers of a nested object."""
    if isinstance(x, pd.DataFrame):
        out[0].append("frame" + repr([str(c) for c in x.columns]) + repr([str(d) for d in x.dtypes]) + repr(list(x.index.names)))
        out[0].append(repr([str(v) for v in x.index.tolist()]))
        for j in range(x.shape[1]):
            walk(x.iloc[:, j].to_numpy(), out)
    elif isinstance(x, pd.Series):
        walk(x.to_frame(), out)
    elif isinstance(x, pd.Index):
        out[0].append(repr([str(v) for v in x.tolist()]))
    elif isinstance(x, dict):
        for k in sorted(x, key=str):
            out[0].append("key" + str(k))
            walk(x[k], out)
    elif isinstance(x, (list, tuple)):
        out[0].append("list" + str(len(x)))
        for v in x:
            walk(v, out)
    elif isinstance(x, bool) or x is None or isinstance(x, str):
        out[0].append(repr(x))
    elif isinstance(x, (int, float, np.number)):
        out[1].append(float(x))
    elif hasattr(x, "to_plotly_json"):
        j = x.to_plotly_json()
        walk({"data": [{k: v for k, v in t.items() if k in ("x", "y", "z", "name", "type")} for t in j["data"]],
              "titles": [str(j.get("layout", {}).get(k, {}).get("title", "")) for k in ("xaxis", "yaxis")]}, out)
    elif callable(x):
        out[0].append("function")
    else:
        a = np.asarray(x)
        out[0].append("array" + str(a.shape))
        if a.dtype.kind in "ifub":
            out[1].extend(float(v) for v in a.ravel())
        else:
            for v in a.ravel():
                walk(v.item() if isinstance(v, np.generic) else (v if isinstance(v, (str, int, float, type(None))) else str(v)), out)


def walked(x):
    out = ([], [])
    walk(x, out)
    return out


def fingerprint(x):
    labels, numbers = walked(x)
    h = hashlib.sha256("\n".join(labels).encode())
    h.update(np.asarray(numbers, dtype=float).tobytes())
    return h.hexdigest()[:20]


def summary(x):
    labels, numbers = walked(x)
    a = np.asarray(numbers, dtype=float)
    few = a[:: max(1, len(a) // 24)][:40]
    fin = a[np.isfinite(a)]
    return dict(error="", shape=hashlib.sha256("\n".join(labels).encode()).hexdigest()[:20] + f"/{len(a)}/{len(fin)}",
                numbers=ob.nums(np.append(few, [fin.sum(), np.abs(fin).sum()])))


# ------------------------------------------------------------------ objects
def variant(g, m):
    """A specification with the same parameters but other content."""
    m = copy.deepcopy(m)
    opts = dict(m["options"]["list"])
    opts["sigma_points_scale"] = "2.5" if opts.get("sigma_points_scale") != "2.5" else "1.5"
    opts["bounds_distance"] = "0.02"
    m["options"] = dict(given=True, list=[[k, v] for k, v in opts.items()])
    if m["anchoring"]["given"]:
        a = m["anchoring"]
        a["ignore_constant"] = "false" if a["ignore_constant"] == "true" else "true"
        a["free_loadings"] = "true" if a["free_loadings"] == "false" else "false"
    if m["stagemap"]["given"]:
        m["stagemap"]["list"] = [0] * len(m["stagemap"]["list"])
    for f in m["factors"]:
        if f["kind"] in ("translog", "robust_translog"):
            f["kind"] = "robust_translog" if f["kind"] == "translog" else "translog"
        for k in ("loadings", "intercepts"):
            for t in f["norm"][k]["list"]:
                for pair in t:
                    pair[1] = gen.num(float(pair[1]) + 0.25)
    return m


def scenario(job):
    """Two models with two contents of every object, as plain data."""
    g = gen.Gen(job["seed"], **job["profile"])
    out = []
    for _ in range(2):
        m1 = g.model()
        m1["options"]["given"] = True
        p1, p2 = g.params(m1), g.params(m1)
        d1, py = g.data(m1)
        d2 = copy.deepcopy(d1)
        for r in d2["rows"]:
            for k, v in r["v"].items():
                if v == v and v != int(v):
                    r["v"][k] = round(v + g.n(0.5) + 0.0001, 4)
        out.append(dict(spec=[m1, variant(g, m1)], data=[d1, d2], par=[p1, p2], py=py))
    return out


def build(sc, what, version):
    if what == "spec":
        return concrete.model_dict(sc["spec"][version - 1])
    if what == "par":
        return concrete.params_df(sc["par"][version - 1])
    df = concrete.data_df(sc["data"][version - 1], sc["py"])
    for c in df.columns:
        if df[c].dtype.kind == "i":
            df[c] = df[c].astype(float)
    return df


def morph(obj, target):
    """Changes a nested specification in place, keeping its containers."""
    if isinstance(obj, dict):
        for k in [k for k in obj if k not in target]:
            del obj[k]
        for k, v in target.items():
            if k in obj and type(obj[k]) is type(v) and isinstance(v, (dict, list)):
                morph(obj[k], v)
            else:
                obj[k] = v
    else:
        if len(obj) == len(target):
            for j, v in enumerate(target):
                if type(obj[j]) is type(v) and isinstance(v, (dict, list)):
                    morph(obj[j], v)
                else:
                    obj[j] = v
        else:
            obj[:] = target


def set_in_place(obj, target):
    if isinstance(obj, dict):
        morph(obj, target)
    else:
        for j, c in enumerate(obj.columns):
            if target[c].dtype.kind == "f":
                obj.iloc[:, j] = target[c].to_numpy()


def spoil(x):
    """Overwrites a returned object as far as it can be overwritten."""
    try:
        if isinstance(x, pd.DataFrame):
            for j in range(x.shape[1]):
                spoil(x.iloc[:, j].to_numpy(copy=False))
                if x.dtypes.iloc[j].kind == "f":
                    x.iloc[:, j] = -77.5
            x["spoiled"] = 1
        elif isinstance(x, dict):
            for v in x.values():
                spoil(v)
            x["spoiled"] = 1
        elif isinstance(x, list):
            for v in x:
                spoil(v)
            x.clear()
        elif isinstance(x, tuple):
            for v in x:
                spoil(v)
        elif isinstance(x, np.ndarray) and x.dtype.kind == "f":
            x[...] = -77.5
        elif hasattr(x, "to_plotly_json"):
            x.update_layout(title="spoiled")
            x.data = []
    except (ValueError, TypeError):
        pass


# ------------------------------------------------------------------ calls
def arguments(fn, m, n, bad=None):
    """Further arguments: containers the caller might use again."""
    lat, T = gen.latent(m), gen.n_periods(m)
    allf = lat + m["observed"]["list"]
    if fn == "simulate":
        pols = [(max(T - 2, 0), lat[-1], 0.75, 0.2), (0, lat[0], -0.5, 0.0), (0, lat[-1], 0.25, 0.1), (T - 1, lat[0], 1.0, 0.0)]
        pols = pols[:1 + n % 4] if n % 2 else pols[::-1][n % 3:]
        return dict(policies=[dict(period=t, factor=f, effect_size=e, standard_deviation=s) for t, f, e, s in pols if t < T])
    if fn == "edit":
        return dict(which=n % 4)
    if fn in ("measurements", "quasi", "scores"):
        return dict(periods=[T - 1, 0] if n % 2 else [0, T - 1], factors=allf[::-1] if n % 3 else list(allf))
    if fn == "heatmap":
        return dict(layout_kwargs={"title": "a"}, heatmap_kwargs={"colorscale": "Viridis"}, **(dict(annotation_text_color="red") if n % 2 else {}))
    if fn == "curves":
        ranges = {f: pd.DataFrame({"minimum": [-1.5, -2.0], "maximum": [2.5, 1.0]}, index=pd.Index([1, 0], name="period")) for f in allf[::-1]}
        return dict(factor_mapping={lat[0]: "first"}, quantiles_of_other_factors=[0.5, 0.25], layout_kwargs={"title": "b", "legend": {"x": 0.5}},
                    column_order=allf[::-1] if n % 2 else list(allf), row_order=lat[::-1], legend_kwargs={"orientation": "h"}, title_kwargs={"text": "t"},
                    make_subplot_kwargs={"horizontal_spacing": 0.03}, state_ranges=ranges if n % 3 else None)
    if fn in ("density", "contours", "surfaces", "combined"):
        out = dict(factors=lat[::-1] if n % 2 else list(lat), layout_kwargs={"title": "c"})
        if n % 3:
            names = ["second", "first"][: 1 if fn in ("surfaces", "combined") else 2]
            r = np.random.default_rng(n)
            out["states"] = {k: pd.DataFrame({**{f: r.normal(size=6 * T).round(3) for f in lat}, "period": list(range(T)) * 6, "id": np.repeat(range(6), T)})
                             for k in names}
            if n % 3 == 2:
                out["states"] = list(out["states"].values())
        if fn == "combined":
            out["combine"] = dict(factor_order=lat[::-1], factor_mapping={lat[-1]: "last"}, make_subplot_kwargs={"horizontal_spacing": 0.04},
                                  legend_kwargs={"orientation": "h"}, title_kwargs={"text": "t"}, layout_kwargs={"height": 500})
        return out
    if fn == "anchored":
        r = np.random.default_rng(n)
        t = [T - 1] + list(range(T))
        return dict(states_df=pd.DataFrame({**{f: r.normal(size=len(t)).round(3) for f in lat[::-1]}, "period": t, "group": r.normal(size=len(t))},
                                           index=list(range(len(t)))[::-1]))
    if fn == "update":
        return dict(factor=-3.0, n=n % 2)
    return {}


def call(fn, m, spec, data, par, args):
    import skillmodels.correlation_heatmap as ch
    import skillmodels.utilities as ut
    import skillmodels.visualize_factor_distributions as vd
    import skillmodels.visualize_transition_equations as vt
    from skillmodels.filtered_states import anchor_states_df, get_filtered_states
    from skillmodels.simulate_data import simulate_dataset

    np.random.seed(11)
    if fn == "filter":
        return get_filtered_states(model_dict=spec, data=data, params=par)
    if fn == "simulate":
        return simulate_dataset(spec, par, data=data, **args)
    if fn == "edit":
        k = args["which"]
        if k == 0:
            return ut.reduce_n_periods(spec, 1, par)
        if k == 1:
            return ut.remove_measurements([y for f in m["factors"] for t in f["meas"] for y in t][:1], spec, par)
        if k == 2:
            return ut.switch_linear_to_translog(spec, par)
        return ut.extract_factors(gen.latent(m)[:1], spec, par) if not any(f["kind"] == "custom" for f in m["factors"]) else ut.switch_translog_to_linear(spec, par)
    if fn in ("measurements", "quasi", "scores"):
        name = dict(quasi="quasi_scores").get(fn, fn)
        more = dict(params=par) if fn == "scores" else {}
        return getattr(ch, f"get_{name}_corr")(data=data, model_dict=spec, **more, **args)
    if fn == "heatmap":
        corr = ch.get_measurements_corr(data=data, model_dict=spec, periods=0)
        before = corr.copy()
        fig = ch.plot_correlation_heatmap(corr, zmax=1.0, **args)
        return [fig, before.equals(corr)]
    if fn == "curves":
        own = ("quantiles_of_other_factors", "state_ranges", "layout_kwargs")
        plots = vt.get_transition_plots(model_dict=spec, params=par, data=data, period=0, n_points=4, **{k: args[k] for k in own})
        before = fingerprint(plots)
        fig = vt.combine_transition_plots(plots, **{k: v for k, v in args.items() if k not in own[:2]})
        return [plots, fig, before == fingerprint(plots)]
    if fn == "combined":
        args = dict(args)
        combine = args.pop("combine")
        kde, con = (f(data=data, model_dict=spec, params=par, period=0, **args) for f in (vd.univariate_densities, vd.bivariate_density_contours))
        sur = vd.bivariate_density_surfaces(data=data, model_dict=spec, params=par, period=0, n_points=4, **args)
        before = fingerprint([kde, con, sur])
        fig = vd.combine_distribution_plots(kde, con, sur, **combine)
        return [fig, before == fingerprint([kde, con, sur])]
    if fn == "anchored":
        return anchor_states_df(model_dict=spec, params=par, **args)
    if fn == "update":
        other = par.iloc[::2] * args["factor"]
        before = fingerprint(other)
        res = ut.update_parameter_values(par, [other, other * 2] if args["n"] else other)
        return [res, before == fingerprint(other)]
    if fn in ("density", "contours", "surfaces"):
        f = dict(density=vd.univariate_densities, contours=vd.bivariate_density_contours, surfaces=vd.bivariate_density_surfaces)[fn]
        more = {} if fn == "density" else dict(n_points=4)
        return f(data=data, model_dict=spec, params=par, period=0, **more, **args)
    raise AssertionError(fn)


def bad_call(how, m, spec, data, par):
    from skillmodels.likelihood_function import get_maximization_inputs
    from skillmodels.simulate_data import simulate_dataset
    from skillmodels.visualize_transition_equations import get_transition_plots

    if how == "params":
        get_maximization_inputs(spec, data)["debug_loglike"](par.iloc[1:])
    elif how == "spec":
        broken = copy.deepcopy(spec)
        broken["stagemap"] = [5] * (gen.n_periods(m) - 1)
        get_maximization_inputs(broken, data)
    elif how == "data":
        get_maximization_inputs(spec, data[data.columns[:0]])
    elif how == "policies":
        simulate_dataset(spec, par, data=data, policies=[dict(period=0, factor=gen.latent(m)[0], effect_size=1.0, standard_deviation=-1.0)])
    else:
        get_transition_plots(model_dict=spec, params=par, data=data, period=gen.n_periods(m) - 1)


def result_of(f):
    """(object, summary)"""
    try:
        with ob.quiet():
            x = f()
        return x, summary(x)
    except Exception as e:   # noqa: BLE001
        return None, dict(error=ob.err(e), shape="", numbers=[])


def shown(inputs):
    return {k: v for k, v in inputs.items() if k in ("constraints", "params_template")}


# ------------------------------------------------------------------ the two runs
def history(job):
    """The actions of the job with all function names filled in."""
    g = gen.Gen(job["seed"] + 1)
    hist = []
    for x in job["hist"]:
        x = dict(x)
        if x["fn"] == "?":
            pool = dict(eval=EVALS, call=CALLS, bad=BAD, make=[""])[x["act"]]
            x["fn"] = g.pick(pool)
        hist.append(x)
    return hist


def run_session(job, hist):
    from skillmodels.likelihood_function import get_maximization_inputs

    scs = scenario(job)
    ver = [dict(spec=1, data=1, par=1) for _ in scs]
    objs = [{k: build(sc, k, 1) for k in ("spec", "data", "par")} for sc in scs]
    fp = lambda: [{k: fingerprint(o[k]) for k in o} for o in objs]   # noqa: E731
    start = fp()
    handles, returned, events = [], [], []
    for x in hist:
        ev = dict(action=x, before="", after="", detail="", result=dict(error="", shape="", numbers=[]))
        a = x["a"] - 1
        if x["act"] == "make":
            got, ev["result"] = result_of(lambda: get_maximization_inputs(objs[a]["spec"], objs[a]["data"]))
            handles.append((a, got))
            if got is not None:
                ev["result"] = summary(shown(got))
            returned.append(shown(got) if got else {})
        elif x["act"] == "eval":
            b, fs = handles[x["h"] - 1]
            got, ev["result"] = result_of(lambda: fs[x["fn"]](objs[b]["par"]))
            returned.append(got)
        elif x["act"] == "call":
            args = arguments(x["fn"], scs[a]["spec"][0], job["seed"])
            ev["before"] = fingerprint(args)
            o = objs[a]
            got, ev["result"] = result_of(lambda: call(x["fn"], scs[a]["spec"][0], o["spec"], o["data"], o["par"], args))
            ev["after"] = fingerprint(args)
            returned.append(got)
        elif x["act"] == "set":
            k = x["fn"]
            ver[a][k] = 3 - ver[a][k]
            set_in_place(objs[a][k], build(scs[a], k, ver[a][k]))
            ev["detail"] = "" if repr(walked(objs[a][k])[1]) == repr(walked(build(scs[a], k, ver[a][k]))[1]) else " (not changed as intended)"
        elif x["act"] == "spoil":
            spoil(returned[x["h"] - 1])
        elif x["act"] == "bad":
            o = objs[a]
            got, ev["result"] = result_of(lambda: bad_call(x["fn"], scs[a]["spec"][0], o["spec"], o["data"], o["par"]))
            ev["detail"] = " " + ev["result"]["error"]
        ev["prints"] = fp()
        ev["kept"] = [fingerprint(r) for r in returned]
        events.append(ev)
    return start, events


def keys_of(hist):
    """Every call with the versions it may depend on (a superset is harmless: the specification selects)."""
    ver = [dict(spec=1, data=1, par=1) for _ in range(2)]
    handles, out = [], []
    for x in hist:
        if x["act"] == "set":
            ver[x["a"] - 1][x["fn"]] = 3 - ver[x["a"] - 1][x["fn"]]
        elif x["act"] == "make":
            v = ver[x["a"] - 1]
            handles.append(dict(a=x["a"], spec=v["spec"], data=v["data"]))
            out.append(dict(fn="make", a=x["a"], spec=v["spec"], data=v["data"], par=0))
        elif x["act"] == "eval":
            h = handles[x["h"] - 1]
            out.append(dict(fn=x["fn"], **h, par=ver[h["a"] - 1]["par"]))
        elif x["act"] == "call":
            out.append(dict(fn=x["fn"], a=x["a"], **ver[x["a"] - 1]))
    return list({json.dumps(k, sort_keys=True): k for k in out}.values())


def isolated(job, keys):
    from skillmodels.likelihood_function import get_maximization_inputs

    scs = scenario(job)
    out = []
    for k in reversed(keys):
        sc = scs[k["a"] - 1]
        m = sc["spec"][0]
        spec, data = build(sc, "spec", k["spec"]), build(sc, "data", k["data"])
        par = build(sc, "par", k["par"]) if k["par"] else None
        if k["fn"] == "make":
            _, r = result_of(lambda: shown(get_maximization_inputs(spec, data)))
        elif k["fn"] in EVALS:
            _, r = result_of(lambda: get_maximization_inputs(spec, data)[k["fn"]](par))
        else:
            _, r = result_of(lambda: call(k["fn"], m, spec, data, par, arguments(k["fn"], m, job["seed"])))
        out.append(dict(k, result=r))
    return out


def in_own_process(job, keys):
    """A fresh interpreter; the environment (path, flags) is inherited."""
    res = subprocess.run([sys.executable, os.path.abspath(__file__)], input=json.dumps(dict(job=job, keys=keys)), text=True,
                         capture_output=True, timeout=380)
    if res.returncode:
        raise RuntimeError("isolated run failed: " + res.stderr[-2000:])
    return json.loads(res.stdout.splitlines()[-1])


def observe(job):
    hist = history(job)
    iso = in_own_process(job, keys_of(hist))
    start, events = run_session(job, hist)
    rec = dict(id=job["id"], start=start, events=events, isolated=iso, cost=0.3)
    kinds = sorted({f"{x['act']} {x['fn']}".strip() for x in hist})
    return dict(module="TraceSession", record=rec, kind="session", features=kinds)


if __name__ == "__main__":
    req = json.loads(sys.stdin.read())
    print(json.dumps(isolated(req["job"], req["keys"])))
