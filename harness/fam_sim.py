"""Simulated datasets: the data generating process of spec/Simulate.tla."""
import hashlib

import numpy as np

import concrete
import fam_filter
import gen
import observe as ob


def quieten(g, m, p, how):
    """Sets standard deviations to zero: all of them ("none" random) or a random selection."""
    for k in p:
        cat, t, a, b = k.split("|")
        if cat in ("meas_sds", "shock_sds"):
            if how == "none" or (how == "some" and g.flip(0.5)):
                p[k] = 0.0
        elif cat == "initial_cholcovs" and how == "none":
            p[k] = 0.0
    if how == "some":
        for f in gen.latent(m):
            if g.flip(0.3):
                for k in p:
                    if k.startswith("initial_cholcovs") and k.split("|")[3].startswith(f + "-"):
                        p[k] = 0.0


def separate(g, m, p):
    """Components far apart with weights that are not small."""
    K, lat = gen.n_mixtures(m), gen.latent(m)
    if K > 1:
        w = [1.0, 1.6, 0.8][:K]
        w = [x / sum(w) for x in g.sample(w, K)]
        for k in range(K):
            p[f"mixture_weights|0|mixture_{k}|-"] = w[k]
            for f in lat:
                p[f"initial_states|0|mixture_{k}|{f}"] = round(k * 16.0 + g.n(0.5), 3)
    for k in range(K):
        for i, f in enumerate(lat):
            for j in range(i + 1):
                p[f"initial_cholcovs|0|mixture_{k}|{f}-{lat[j]}"] = g.u(0.2, 0.9) * (1 if i == j else g.pick([-1, 1]))


def like_first_period(g, m, p):
    """Parameters that are the same in several periods."""
    for k in p:
        cat, t, a, b = k.split("|")
        first = f"{cat}|0|{a}|{b}"
        if cat in ("shock_sds", "meas_sds", "transition") and first in p:
            p[k] = p[first]


def policies(g, m, random):
    out = []
    T = gen.n_periods(m)
    if T < 2:
        return out
    for _ in range(g.pick([0, 1, 1, 2, 3])):
        out.append(dict(period=g.int(0, T - 2), factor=g.pick(gen.latent(m)), effect=g.n(1.0),
                        sd=g.u(0.2, 1.0) if random and g.flip(0.5) else 0.0))
        if g.r2.random() < 0.3:
            out[-1]["effect"] = 0.0
    return out


def digest(res):
    h = hashlib.sha256()
    for df in [res["measurements"], res["unanchored_states"]["states"], res["anchored_states"]["states"]]:
        df = df[sorted(df.columns, key=str)].sort_values(["id", "period"])
        h.update(repr(list(df.columns)).encode())
        h.update(np.ascontiguousarray(df.to_numpy(dtype=float)).tobytes())
    return h.hexdigest()


def table(df, cols, T):
    out = []
    for t in range(T):
        sub = df[df["period"] == t]
        ids = sub["id"].tolist()
        ok = sorted(ids) == list(range(len(ids)))
        if ok:
            sub = sub.set_index("id").loc[list(range(len(ids)))]
        out.append(dict(period=t, ok=ok, values=ob.nums(sub[cols].to_numpy(dtype=float))))
    return out


EMPTY = dict(error="", exception="", states=[], states_ok=False, anchored=[], ranges=[], anchored_ranges=[], columns=[], meas=[],
             digests=["", "", ""])


def run(m, p, df, n, pols, seed, order=None, repeat=True):
    from skillmodels.simulate_data import simulate_dataset

    obs = dict(EMPTY)
    facs, T = gen.latent(m), gen.n_periods(m)
    try:
        with ob.quiet():
            params = concrete.params_df(p)
            if order is not None:
                params = order(params)
            kw = {}
            if df is not None:
                kw["data"] = df
            if n is not None:
                kw["n_obs"] = n
            if pols or seed % 2:
                kw["policies"] = [dict(period=q["period"], factor=q["factor"], effect_size=q["effect"], standard_deviation=q["sd"]) for q in pols]
            md = concrete.model_dict(m)
            np.random.seed(seed)
            res = simulate_dataset(md, params, **kw)
            obs["digests"] = [digest(res)] * 3
            if repeat:
                np.random.seed(seed)
                again = simulate_dataset(md, params, **kw)
                np.random.seed(seed + 1)
                other = simulate_dataset(md, params, **kw)
                obs["digests"] = [digest(res), digest(again), digest(other)]
            else:
                obs["digests"] = ["a", "a", "b"]
            st = res["unanchored_states"]["states"]
            obs["states"] = ob.states_table(st, facs)
            obs["states_ok"] = len(st) == sum(len(x["states"]) for x in obs["states"]) and sorted(st.columns) == sorted(facs + ["id", "period"])
            obs["anchored"] = ob.states_table(res["anchored_states"]["states"], facs)
            obs["ranges"] = ob.ranges_table(res["unanchored_states"]["state_ranges"], facs)
            obs["anchored_ranges"] = ob.ranges_table(res["anchored_states"]["state_ranges"], facs)
            meas = res["measurements"]
            cols = [c for c in meas.columns if c not in ("id", "period")]
            obs["columns"] = [str(c) for c in cols]
            obs["meas"] = table(meas, cols, T)
            if len(meas) != sum(len(x["values"]) for x in obs["meas"]):
                obs["meas"] = []
    except Exception as e:   # noqa: BLE001
        obs["error"] = ob.err(e)
        obs["exception"] = type(e).__name__
    return obs


def cases(job):
    g = gen.Gen(job["seed"], **job.get("profile", {}))
    m = g.model()
    mode = job.get("random", "none")
    for k in range(job.get("reps", 1)):
        p = g.params(m)
        if mode == "moments":
            separate(g, m, p)
            if g.r2.random() < 0.5:
                like_first_period(g, m, p)
        elif mode in ("none", "some"):
            quieten(g, m, p, mode)
        if gen.n_mixtures(m) > 1 and mode != "moments" and g.flip(0.3):     # components that never occur
            K = gen.n_mixtures(m)
            one = g.int(0, K - 1)
            for j in range(K):
                p[f"mixture_weights|0|mixture_{j}|-"] = float(j == one)
        pols = policies(g, m, mode != "none")
        needs = bool(m["observed"]["list"] or m["controls"]["list"])
        if mode == "moments":
            yield m, p, None, None, job.get("n", 3000), pols
            continue
        data = py = n = None
        if needs or g.flip(0.5):
            data, py = g.data(m)
            for r in data["rows"]:                 # measurements are not used
                for c in data["columns"]:
                    if c not in m["controls"]["list"] + m["observed"]["list"] and k % 2 == 0:
                        r["v"][c] = float("nan")
            if g.flip(0.3):
                keep = [c for c in data["columns"] if c in m["controls"]["list"] + m["observed"]["list"]]
                if keep:
                    data["columns"] = keep
                    for r in data["rows"]:
                        r["v"] = {c: r["v"][c] for c in keep}
            if g.flip(0.25):
                n = g.int(1, 9)
        else:
            n = g.pick([1, 2, 5])
        if mode == "some" and data is None:
            n = 12
        if job.get("refuse"):
            how = g.pick(["nothing", "nodata", "negative"])
            if how == "nothing":
                data = py = n = None
            elif how == "nodata":
                data, py, n = None, None, 4
            elif gen.n_periods(m) > 1:
                pols = pols + [dict(period=g.int(0, gen.n_periods(m) - 2), factor=g.pick(gen.latent(m)), effect=1.0, sd=-0.5)]
        yield m, p, data, py, n, pols


def observe(job):
    out = []
    opt = job.get("opt", {})
    for k, (m, p, d, py, n, pols) in enumerate(cases(job)):
        df = concrete.data_df(d, py) if d is not None else None
        order = fam_filter.shuffle_rows(job["seed"]) if opt.get("shuffle") else None
        big = job.get("random") == "moments"
        obs = run(m, p, df, n, pols, job["seed"] % 1000003 + k, order=order, repeat=not big or k == 0)
        N = n if d is None else len({r["id"] for r in d["rows"]})
        d0 = d if d is not None else dict(columns=[], rows=[])
        rec = dict(id=f"{job['id']}.{k}", model=m, params=gen.stringify(p), has_data=d is not None, has_n=n is not None, n=n or 0,
                   data=gen.stringify(d0), policies=gen.stringify(pols), obs=obs, moments=big,
                   cost=0.05 + 0.0003 * (N or 1) * gen.n_periods(m) * (len(m["factors"]) + 2))
        f = fam_filter.features(m, gen.stringify(d0))
        f.append("data given" if d is not None else "number of individuals given")
        if pols:
            f.append("policy")
        if obs["error"]:
            f.append("refused")
        f.append("random parts: " + job.get("random", "none"))
        out.append(dict(module="TraceSim", record=rec, kind="simulation", features=f))
    return out
