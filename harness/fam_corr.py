"""Correlation tables and heatmaps."""
import concrete
import fam_filter
import gen
import observe as ob


def selection(g, names, p_all=0.4):
    r = g.r.random()
    if r < p_all or not names:
        return dict(kind="all", list=[])
    if r < p_all + 0.25:
        return dict(kind="one", list=[g.pick(names)])
    return dict(kind="list", list=g.sample(names, g.int(1, len(names))))


def argument(g, s):
    if s["kind"] == "all":
        return None
    return s["list"][0] if s["kind"] == "one" else list(s["list"])


def numbers(rows):
    return [[gen.num(x) for x in row] for row in rows]


def picture(g, corr):
    from skillmodels.correlation_heatmap import plot_correlation_heatmap

    n = len(corr)
    o = dict(rounding=g.pick([2, 2, 1, 3, 4]), upper=g.flip(0.5), diagonal=g.flip(0.5), trim=n >= 3 and g.flip(0.4), annotate=g.flip(0.8))
    kw = {}
    if o["rounding"] != 2 or g.flip(0.5):
        kw["rounding"] = o["rounding"]
    if not o["upper"] or g.flip(0.5):
        kw["show_upper_triangle"] = o["upper"]
    if not o["diagonal"] or g.flip(0.5):
        kw["show_diagonal"] = o["diagonal"]
    if o["trim"] or g.flip(0.5):
        kw["trim_heatmap"] = o["trim"]
    if not o["annotate"] or g.flip(0.5):
        kw["annotate"] = o["annotate"]
    # the automatic colour range needs a number below the (trimmed) diagonal
    kw.update(zmax=1.0)
    out = dict(options=o, error="", x=[], y=[], z=[], annotations=[])
    try:
        with ob.quiet():
            fig = plot_correlation_heatmap(corr, **kw)
        h = fig.data[0]
        out["x"], out["y"] = [str(v) for v in h.x], [str(v) for v in h.y]
        out["z"] = numbers(h.z)
        out["annotations"] = [dict(x=str(a.x), y=str(a.y), value=gen.num(float(a.text or "nan"))) for a in fig.layout.annotations]
    except Exception as e:   # noqa: BLE001
        out["error"] = ob.err(e)
    return out


def observe(job):
    from skillmodels import correlation_heatmap as ch

    g = gen.Gen(job["seed"], **dict(job.get("profile", {}), p_typed=0))
    m = g.model()
    out = []
    for k in range(job.get("reps", 3)):
        p = g.params(m)
        d, py = g.data(m)
        fn = g.pick(["measurements", "quasi", "scores"])
        facs = selection(g, gen.latent(m) + m["observed"]["list"])
        pers = selection(g, list(range(gen.n_periods(m))), 0.3)
        df, md, pdf = concrete.data_df(d, py), concrete.model_dict(m), concrete.params_df(p)
        if g.flip(0.5):
            pdf = fam_filter.shuffle_rows(job["seed"] + k)(pdf)
        kw = dict(data=df, model_dict=md, factors=argument(g, facs), periods=argument(g, pers))
        if fn == "scores":
            kw["params"] = pdf
        table = dict(error="", columns=[], index=[], values=[])
        pics = []
        try:
            with ob.quiet():
                corr = getattr(ch, f"get_{dict(quasi='quasi_scores').get(fn, fn)}_corr")(**kw)
            table.update(columns=[str(c) for c in corr.columns], index=[str(c) for c in corr.index], values=numbers(corr.to_numpy()))
        except Exception as e:   # noqa: BLE001
            table["error"] = ob.err(e)
        if not table["error"] and len(set(corr.columns)) == len(corr.columns) and len(corr) >= 2:
            pics = [picture(g, corr) for _ in range(2)]
        rec = dict(id=f"{job['id']}.{k}", model=m, params=gen.stringify(p), data=gen.stringify(d), fn=fn, factors=facs, periods=pers,
                   table=table, pictures=pics, cost=0.05 + 0.003 * len(table["values"]) ** 2)
        out.append(dict(module="TraceCorr", record=rec, kind=f"{fn} correlations", features=fam_filter.features(m, d) + [f"factors:{facs['kind']}", f"periods:{pers['kind']}"]))
    return out
