"""Templates, constraints, bounds and rejections of model specifications."""
import numpy as np

import concrete
import fam_filter
import gen
import observe as ob


def resolve(loc, index):
    """Rows of the template a location of a constraint selects, in template order."""
    if isinstance(loc, str):
        loc = (loc,)
    if isinstance(loc, tuple):
        return [t for t in index if t[: len(loc)] == loc]
    out = []
    for x in loc:
        got = resolve(x, index)
        out += got if got else [x if isinstance(x, tuple) else (x,)]
    return out


def full(t):
    """4 tuple as JSON with the types the specification uses."""
    t = list(t)
    return [str(t[0]), int(t[1]), str(t[2]), str(t[3])] if len(t) == 4 else [str(x) for x in t]


def read_constraints(constr, index):
    out = dict(fixed=[], probabilities=[], increasing=[], equal=[], dangling=[], other=[])
    for c in constr:
        if c["type"] == "pairwise_equality":
            lists = [resolve(x, index) for x in c["locs"]]
            if not all(lists):
                out["dangling"].append(str(c["locs"]))
            if len({len(x) for x in lists}) != 1:
                out["dangling"].append("unequal numbers of parameters " + str(c["locs"]))
                continue
            out["equal"] += [[full(t) for t in group] for group in zip(*lists)]
            continue
        rows = resolve(c["loc"], index)
        if not rows:
            out["dangling"].append(str(c["loc"]))
        if c["type"] == "fixed":
            vals = c.get("value", "nothing")
            vals = list(vals) if np.ndim(vals) else [vals] * len(rows)
            if len(vals) != len(rows):
                out["other"].append(f"{len(vals)} values for {len(rows)} parameters")
            out["fixed"] += [[full(t), gen.num(v)] for t, v in zip(rows, vals)]
        elif c["type"] == "probability":
            out["probabilities"].append([full(t) for t in rows])
        elif c["type"] == "increasing":
            out["increasing"].append([full(t) for t in rows])
        else:
            out["other"].append(str(c["type"]))
    return out


EMPTY = dict(error="", exception="", index=[], level_names=[], lower=[], upper=[], empty_values=True, fixed=[],
             probabilities=[], increasing=[], equal=[], dangling=[], other=[])


def record(m, data_frame, spec=None):
    from skillmodels.likelihood_function import get_maximization_inputs

    obs = dict(EMPTY)
    try:
        with ob.quiet():
            md = spec if spec is not None else concrete.model_dict(m)
            inputs = get_maximization_inputs(md, data_frame)
            t = inputs["params_template"]
            index = t.index.tolist()
            obs["index"] = [full(x) for x in index]
            obs["level_names"] = [str(x) for x in t.index.names]
            obs["lower"] = ob.nums(t["lower_bound"])
            obs["upper"] = ob.nums(t["upper_bound"]) if "upper_bound" in t else []
            obs["empty_values"] = bool(t["value"].isna().all())
            obs.update(read_constraints(inputs["constraints"], index))
    except Exception as e:   # noqa: BLE001
        obs["error"] = str(e).replace("\n", " ; ")[:1500] or "no message"
        obs["exception"] = type(e).__name__
    return obs


def observe(job):
    if "case" in job:
        m, d, py = job["case"]["model"], job["case"].get("data"), job["case"].get("py")
        if d is None:
            d, py = gen.Gen(job["seed"], n_ids=(3, 3)).data(m)
    else:
        g = gen.Gen(job["seed"], **job.get("profile", {}))
        m = g.model()
        d, py = g.data(m)
        if job.get("defects"):
            m = g.broken(m)
    obs = record(m, concrete.data_df(d, py))
    feats = fam_filter.features(m, gen.stringify(d))
    if obs["error"]:
        feats.append("rejected")
    return dict(module="TraceTemplate", record=dict(id=job["id"], model=m, obs=obs, cost=0.25),
                kind="specification processed", features=feats)
