"""Objective functions and derivatives: spec/TraceGradient.tla."""
import concrete
import fam_filter
import gen
import observe as ob


def directions(g, m, p, n):
    """A dense direction and n single parameters."""
    def movable(k):
        return not (k.startswith("mixture_weights") and p[k] == 0.0)

    keys = [k for k in p if movable(k)]
    dense = [[k, g.pick(["1", "-1", "0.5", "-0.5", "0.25", "0.75"])] for k in keys]
    cats = sorted({k.split("|")[0] for k in keys})
    return [dense] + [[[g.pick([k for k in keys if k.startswith(c + "|")]), "1"]] for c in g.sample(cats, min(n, len(cats)))]


def evaluate(m, p, df, order=None, modes=("jacrev",)):
    from skillmodels.likelihood_function import get_maximization_inputs

    obs = dict(error="", objectives=[], gradients=[])
    try:
        with ob.quiet():
            md = concrete.model_dict(m)
            for j, mode in enumerate(modes):
                inp = get_maximization_inputs(md, df, mode) if mode != "default" else get_maximization_inputs(md, df)
                params = concrete.params_df(p, None if order is not None else inp["params_template"].index)
                if order is not None:
                    params = order(params)

                def obj(name, out):
                    obs["objectives"].append(dict(name=name, value=ob.num(out["value"]), contributions=ob.nums(out["contributions"])))

                def grad(name, out):
                    obs["gradients"].append(dict(name=name, values=ob.nums(out)))

                grad(f"jacobian ({mode})", inp["jacobian"](params))
                if j == 0:
                    obj("loglike", inp["loglike"](params))
                    obj("debug_loglike", inp["debug_loglike"](params))
                    grad("gradient", inp["gradient"](params))
                    val, gr = inp["loglike_and_gradient"](params)
                    obj("loglike_and_gradient", val)
                    grad("gradient of loglike_and_gradient", gr)
    except Exception as e:   # noqa: BLE001
        obs["error"] = ob.err(e)
    return obs


def observe(job):
    opt = job.get("opt", {})
    g = gen.Gen(job["seed"], **job.get("profile", {}))
    m = g.model()
    out = []
    for k in range(job.get("reps", 1)):
        p = g.params(m)
        d, py = g.data(m)
        order = fam_filter.shuffle_rows(job["seed"] + k) if opt.get("shuffle") else None
        obs = evaluate(m, p, concrete.data_df(d, py), order, modes=opt.get("modes", ["default"]))
        dirs = directions(g, m, p, opt.get("picks", 2))
        ds = gen.stringify(d)
        N = len({r["id"] for r in d["rows"]})
        nl = len(m["factors"])
        rec = dict(id=f"{job['id']}.{k}", model=m, params=gen.stringify(p), data=ds, directions=dirs, obs=obs,
                   cost=0.2 + 0.004 * (1 + 2 * len(dirs)) * N * gen.n_mixtures(m) * (len(gen.updates(m)) + gen.n_periods(m) * nl * nl * 2))
        out.append(dict(module="TraceGradient", record=rec, kind="objective and derivatives", features=fam_filter.features(m, ds)))
    return out
