"""Likelihood evaluations: the belief state machine of spec/Filter.tla."""
import concrete
import gen
import observe as ob


def features(m, data):
    f = [f"kind:{x['kind']}" for x in m["factors"]]
    f = sorted(set(f))
    if m["observed"]["list"]:
        f.append("observed factors")
    if m["controls"]["list"]:
        f.append("controls")
    if m["anchoring"]["given"]:
        f.append("anchoring")
    if gen.n_mixtures(m) > 1:
        f.append("mixture")
    if m["stagemap"]["given"]:
        f.append("stagemap")
    if any(len(u[3]) > 1 for u in gen.updates(m)):
        f.append("shared measurement")
    if any(v == "nan" for r in data["rows"] for v in r["v"].values()):
        f.append("missing values")
    if gen.n_periods(m) > 10:
        f.append("more than ten periods")
    return f


def cases(job):
    """One model, one or several (params, data) pairs."""
    if "case" in job:
        c = job["case"]
        yield c["model"], {k: float(v) for k, v in c["params"].items()}, c["data"], c["py"]
        return
    g = gen.Gen(job["seed"], **job.get("profile", {}))
    m = g.model()
    for _ in range(job.get("reps", 1)):
        p = g.params(m)
        if job.get("opt", {}).get("transparent"):
            transparent(m, p)
        d, py = g.data(m)
        yield m, p, d, py


def transparent(m, p):
    """Parameters under which data show up unchanged in the residuals and states."""
    lat = gen.latent(m)
    for k in p:
        cat, t, a, b = k.split("|")
        if cat == "loadings":
            p[k] = 0.0 if not any(a.endswith("_" + f) for f in lat) else p[k]
        elif cat == "controls" and b == "constant":
            p[k] = 0.0
        elif cat == "transition":
            p[k] = {"constant": 0.0}.get(b, 0.0 if b in lat or "*" in b else p[k])


def shuffle_rows(seed):
    import numpy as np

    def order(df):
        r = np.random.default_rng(seed)
        n = len(df)
        pos = np.arange(n)
        how = ["all", "inner", "reversed", "neighbours", "sorted", "rotated"][seed % 6]
        if how == "all" or n < 4:
            pos = r.permutation(n)
        elif how == "inner":          # first and last row stay in place
            pos[1:-1] = r.permutation(pos[1:-1])
        elif how == "reversed":
            pos = pos[::-1]
        elif how == "neighbours":
            k = int(r.integers(n - 1))
            pos[k], pos[k + 1] = k + 1, k
        elif how == "sorted":
            pos = np.array(sorted(pos, key=lambda i: [str(x) for x in df.index[i]]))
        else:
            pos = np.roll(pos, int(r.integers(1, n)))
        df = df.iloc[pos].copy()
        df["lower_bound"] = -1.0
        df.insert(0, "some text", "a")
        return df

    return order


def observe(job):
    opt = job.get("opt", {})
    order = shuffle_rows(job["seed"]) if opt.get("shuffle") else None
    out = []
    for k, (m, p, d, py) in enumerate(cases(job)):
        obs = ob.likelihood(m, p, concrete.data_df(d, py), fast=opt.get("fast", True) and k == 0,
                            anchored=opt.get("anchored", True) and k == 0, order=order)
        d = gen.stringify(d)
        n_up = len(gen.updates(m))
        nl = len(m["factors"])
        N = len({r["id"] for r in d["rows"]})
        rec = dict(id=f"{job['id']}.{k}", model=m, params=gen.stringify(p), data=d, obs=obs,
                   cost=0.01 * N * gen.n_mixtures(m) * (n_up + gen.n_periods(m) * nl * nl * 2) + 0.05)
        out.append(dict(module="TraceFilter", record=rec, kind="likelihood evaluation", features=features(m, d)))
    return out
