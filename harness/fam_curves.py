"""Plots of transition functions."""
import hashlib

import numpy as np

import concrete
import fam_filter
import gen
import observe as ob


def digest(tr):
    h = hashlib.sha256()
    for part in (tr.x, tr.y):
        h.update(np.ascontiguousarray(np.asarray(part, dtype=float)).tobytes())
    h.update(repr(tr.name or "").encode())
    return h.hexdigest()[:16]


def title(axis):
    return (axis.title.text or "") if axis is not None else ""


def name_of(tr):
    try:
        return gen.num(float(tr.name))
    except (TypeError, ValueError):
        return str(tr.name or "")


def orders(g, names):
    """(argument, the list it stands for)"""
    r = g.r.random()
    if r < 0.4:
        return None, list(names)
    if r < 0.55:
        x = g.pick(names)
        return x, [x]
    x = g.sample(names, g.int(1, len(names)))
    return list(x), x


def figure(g, m, plots):
    from skillmodels.visualize_transition_equations import combine_transition_plots

    lat = gen.latent(m)
    allf = lat + m["observed"]["list"]
    ca, cols = orders(g, allf)
    ra, rows = orders(g, lat)
    use = plots
    if g.flip(0.25) and len(plots) > 1 and ca is not None and ra is not None:     # a plot that is not there leaves its place empty
        drop = g.pick(sorted(plots))
        use = {k: v for k, v in plots.items() if k != drop}
    mapping = [[f, f"the {f}"] for f in allf if g.flip(0.4)]
    kw = {}
    if ca is not None:
        kw["column_order"] = ca
    if ra is not None:
        kw["row_order"] = ra
    if mapping or g.flip(0.3):
        kw["factor_mapping"] = dict(mapping)
    if g.flip(0.4):
        kw["sharex"] = g.flip(0.5)
    if g.flip(0.4):
        kw["sharey"] = g.flip(0.5)
    out = dict(error="", rows=rows, columns=cols, mapping=mapping, nrows=0, ncols=0, cells=[])
    try:
        with ob.quiet():
            fig = combine_transition_plots(use, **kw)
        grid = fig._grid_ref
        out["nrows"], out["ncols"] = len(grid), len(grid[0])
        place = {}
        for tr in fig.data:
            place.setdefault((tr.xaxis or "x", tr.yaxis or "y"), []).append(digest(tr))
        for r in range(1, out["nrows"] + 1):
            for c in range(1, out["ncols"] + 1):
                sub = fig.get_subplot(r, c)
                x, y = sub.xaxis, sub.yaxis
                key = ("x" + x.plotly_name[5:], "y" + y.plotly_name[5:])
                out["cells"].append(dict(row=r, col=c, digests=place.get(key, []), xtitle=title(x), ytitle=title(y)))
        if len(use) < len(plots):
            for e in out["cells"]:
                if (cols[e["col"] - 1], rows[e["row"] - 1]) == drop:
                    e["digests"] = [digest(t) for t in plots[drop].data] if e["digests"] == [] else ["not left empty"]
        if sum(len(v) for v in place.values()) != len(fig.data):
            out["error"] = "curves outside of the grid"
    except Exception as e:   # noqa: BLE001
        out["error"] = ob.err(e)
    return out


def observe(job):
    import pandas as pd
    from skillmodels.filtered_states import get_filtered_states
    from skillmodels.visualize_transition_equations import get_transition_plots

    g = gen.Gen(job["seed"], **job.get("profile", {}))
    m = g.model()
    T = gen.n_periods(m)
    lat = gen.latent(m)
    allf = lat + m["observed"]["list"]
    out = []
    for k in range(job.get("reps", 1)):
        p = g.params(m)
        d, py = g.data(m)
        df, md, pdf = concrete.data_df(d, py), concrete.model_dict(m), concrete.params_df(p)
        if g.flip(0.5):
            pdf = fam_filter.shuffle_rows(job["seed"] + k)(pdf)
        N = len({r["id"] for r in d["rows"]})
        period = g.int(0, T - 2)
        expect = False
        if g.flip(0.07):
            period, expect = g.pick([T - 1, T, T + 3]), True
        kw = dict(model_dict=md, params=pdf, data=df, period=period)
        n_points = g.int(2, 6)
        if g.flip(0.06):
            n_points = 50
        else:
            kw["n_points"] = n_points
        n_draws, ranges = 1, dict(given=False, list=[])
        mode = g.pick(["default", "list", "list", "tuple", "one", "average", "average"])
        qs = [0.25, 0.5, 0.75]
        if mode in ("list", "tuple"):
            qs = g.sample([0.0, 0.1, 0.25, 0.37, 0.5, 0.75, 0.9, 1.0], g.int(1, 4))
            kw["quantiles_of_other_factors"] = list(qs) if mode == "list" else tuple(qs)
        elif mode == "one":
            qs = [g.pick([0.0, 0.2, 0.5, 0.8, 1.0])]
            kw["quantiles_of_other_factors"] = qs[0] if g.flip(0.5) or qs[0] not in (0.0, 1.0) else int(qs[0])
        elif mode == "average":
            qs = []
            n_draws = g.int(1, N)
            kw.update(quantiles_of_other_factors=None, n_draws=n_draws)
        if g.flip(0.3):
            sr = {}
            for f in allf:
                lo = [g.n(1.0) for _ in range(T)]
                hi = [round(x + g.u(0.5, 3.0), 4) for x in lo]
                sr[f] = pd.DataFrame({"minimum": lo, "maximum": hi}, index=pd.Index(range(T), name="period"))
                if not expect:
                    ranges["list"].append(dict(min=gen.num(lo[period]), max=gen.num(hi[period])))
            if g.flip(0.5):         # only some periods, in another order
                keep = g.sample(range(T), g.int(1, T))
                keep += [t for t in [period] if t not in keep and t < T]
                sr = {f: df.loc[keep] for f, df in sr.items()}
            if g.flip(0.5):
                sr = {f: sr[f] for f in g.sample(allf, len(allf))}
            ranges["given"] = True
            kw["state_ranges"] = sr
        rec = dict(id=f"{job['id']}.{k}", model=m, params=gen.stringify(p), data=gen.stringify(d), period=period,
                   quantiles=dict(given=mode != "average", list=[gen.num(q) for q in qs]), n_points=n_points, n_draws=n_draws,
                   ranges=ranges, states=[], plots=[], figures=[], error="", refused=dict(expect=expect, got=False))
        try:
            with ob.quiet():
                st = get_filtered_states(model_dict=md, data=df, params=pdf)["anchored_states"]["states"]
                st = st[st["period"] == period].sort_values("id")
                rec["states"] = ob.nums(st[lat].to_numpy(dtype=float))
                plots = get_transition_plots(**kw)
            for (a, b), fig in plots.items():
                rec["plots"].append(dict(
                    input=str(a), output=str(b), xtitle=title(fig.layout.xaxis), ytitle=title(fig.layout.yaxis),
                    traces=[dict(name=name_of(t), x=ob.nums(t.x), y=ob.nums(t.y)) for t in fig.data],
                    digests=[digest(t) for t in fig.data]))
            rec["figures"] = [figure(g, m, plots) for _ in range(2)]
        except Exception as e:   # noqa: BLE001
            rec["error"] = ob.err(e)
            rec["refused"]["got"] = isinstance(e, ValueError)
        rec["cost"] = 0.05 + 0.0006 * n_points * len(allf) ** 2 * max(len(qs), N, 1) * (2 ** N / 8 if mode == "average" else 1)
        out.append(dict(module="TraceCurves", record=rec, kind="transition plots",
                        features=fam_filter.features(m, rec["data"]) + [f"quantiles: {mode}"] + (["ranges given"] if ranges["given"] else [])))
    return out
