"""Distribution plots."""
import hashlib

import numpy as np

import concrete
import fam_filter
import gen
import observe as ob
from fam_curves import title


def digest(tr):
    h = hashlib.sha256()
    for part in ("x", "y", "z"):
        v = tr[part] if part in tr else None
        if v is not None:
            try:
                a = np.asarray(v, dtype=float)
            except ValueError:
                a = np.asarray([hash(str(q)) % 1000003 for q in v], dtype=float)
            h.update(np.ascontiguousarray(a).tobytes())
    h.update(f"{tr.type}|{tr.name}|{getattr(tr, 'mode', '')}".encode())
    return h.hexdigest()[:16]


def random_states(g, m, n):
    import pandas as pd

    lat, T = gen.latent(m), gen.n_periods(m)
    parts = []
    dup = g.flip(0.4)
    for t in range(T):
        x = {f: [g.n(1.0, t * 0.4 + j) for _ in range(n)] for j, f in enumerate(lat)}
        df = pd.DataFrame(x)
        if len(lat) > 1:
            df[lat[1]] = (df[lat[1]] + g.pick([-1, 1, 0.4]) * df[lat[0]]).round(4)
        if dup and n > 3:      # individuals without data have identical states
            df.iloc[n - 1] = df.iloc[n - 2] = df.iloc[0]
        df["period"] = t
        df["id"] = np.arange(n)
        parts.append(df)
    out = pd.concat(parts)
    if g.flip(0.5):
        out = out[["id", "period"] + lat]
    out = out.sort_values(["period", "id"] if g.flip(0.5) else ["id", "period"]).reset_index(drop=True)
    return out


def sub(df, t, lat):
    return ob.nums(df[df["period"] == t].sort_values("id")[lat].to_numpy(dtype=float))


def kind(tr):
    return "hist" if tr.type == "histogram" else ("rug" if tr.mode == "markers" else "curve")


def one_trace(g, tr):
    k = kind(tr)
    x = np.asarray(tr.x, dtype=float)
    if k == "curve":
        idx = sorted({0, len(x) - 1, *[g.int(0, len(x) - 1) for _ in range(5)]})
        return dict(kind=k, name=str(tr.name), x=ob.nums(x[idx]), y=ob.nums(np.asarray(tr.y, dtype=float)[idx]))
    return dict(kind=k, name=str(tr.name), x=ob.nums(x), y=[])


def cells_of(g, a, b):
    pairs = [(i, j) for i in range(a) for j in range(b)]
    return g.sample(pairs, 14) if len(pairs) > 14 else pairs


def contour(g, tr):
    x, y, z = (np.asarray(q, dtype=float) for q in (tr.x, tr.y, tr.z))
    # plotly shows z[j][i] at x[i], y[j]
    return dict(x=ob.nums(x), y=ob.nums(y), z=[dict(x=i + 1, y=j + 1, v=gen.num(z[j, i])) for i, j in cells_of(g, len(x), len(y))])


def surface(g, tr):
    x, y, z = (np.asarray(q, dtype=float) for q in (tr.x, tr.y, tr.z))
    return dict(n=int(z.size), xmin=gen.num(x.min()), xmax=gen.num(x.max()), ymin=gen.num(y.min()), ymax=gen.num(y.max()),
                z=[dict(x=gen.num(x[i, j]), y=gen.num(y[i, j]), v=gen.num(z[i, j])) for i, j in cells_of(g, *z.shape)])


def figure(g, factors, kde, contours, surfaces):
    from skillmodels.visualize_factor_distributions import combine_distribution_plots

    r = g.r.random()
    kw = {}
    order = list(kde)
    if r < 0.2:
        order = [g.pick(factors)]
        kw["factor_order"] = order[0]
    elif r < 0.6:
        order = g.sample(factors, g.int(1, len(factors)))
        kw["factor_order"] = list(order)
    mapping = [[f, f"the {f}"] for f in factors if g.flip(0.4)]
    if mapping or g.flip(0.3):
        kw["factor_mapping"] = dict(mapping)
    with_s = surfaces is not None and all(len(f.data) for f in surfaces.values()) and g.flip(0.7)
    if with_s:
        kw["surface_plots"] = surfaces
    out = dict(error="", order=order, mapping=mapping, surfaces=with_s, nrows=0, ncols=0, cells=[])
    try:
        with ob.quiet():
            fig = combine_distribution_plots(kde, contours, **kw)
        grid = fig._grid_ref
        out["nrows"], out["ncols"] = len(grid), len(grid[0])
        place = {}
        for tr in fig.data:
            key = tr.scene if tr.type == "surface" else (tr.xaxis or "x", tr.yaxis or "y")
            place.setdefault(key, []).append(digest(tr))
        for r in range(1, out["nrows"] + 1):
            for c in range(1, out["ncols"] + 1):
                s = fig.get_subplot(r, c)
                if hasattr(s, "xaxis") and not hasattr(s, "camera"):
                    key = ("x" + s.xaxis.plotly_name[5:], "y" + s.yaxis.plotly_name[5:])
                    t = (title(s.xaxis), title(s.yaxis))
                else:
                    key, t = s.plotly_name, ("", "")
                out["cells"].append(dict(row=r, col=c, digests=place.get(key, []), xtitle=t[0], ytitle=t[1]))
    except Exception as e:   # noqa: BLE001
        out["error"] = ob.err(e)
    return out


def observe(job):
    from skillmodels import visualize_factor_distributions as v
    from skillmodels.filtered_states import get_filtered_states

    g = gen.Gen(job["seed"], **job.get("profile", {}))
    m = g.model()
    lat, obsf, T = gen.latent(m), m["observed"]["list"], gen.n_periods(m)
    out = []
    for k in range(job.get("reps", 1)):
        p = g.params(m)
        d, py = g.data(m)
        py["extra"] = False
        df, md, pdf = concrete.data_df(d, py), concrete.model_dict(m), concrete.params_df(p)
        N = len({r["id"] for r in d["rows"]})
        period = g.int(0, T - 1)
        mode = g.pick(job.get("modes", ["filtered", "frame", "dict", "list"]))
        many = mode in ("dict", "list")
        kw = dict(data=df, model_dict=md, params=pdf, period=period)
        names = ["none"]
        rec = dict(id=f"{job['id']}.{k}", model=m, data=gen.stringify(d), period=period, error="")
        if mode == "filtered":
            with ob.quiet():
                frames = [get_filtered_states(model_dict=md, data=df, params=pdf)["anchored_states"]["states"]]
        else:
            frames = [random_states(g, m, N if not many else g.int(5, 9)) for _ in range(g.int(*job.get("scenarios", (1, 3))) if many else 1)]
            if many and g.flip(0.5) and len(frames) < 8:
                names = g.sample(["baseline", "policy", "Policy", "a b", "2", "Baseline ", "policy "], len(frames))
            else:
                names = [str(i) for i in range(len(frames))] if many else names
            if mode == "dict":
                kw["states"] = dict(zip(names, frames))
            elif mode == "list":
                names = [str(i) for i in range(len(frames))]
                kw["states"] = list(frames)
            else:
                kw["states"] = frames[0]
        rec["scenarios"] = [dict(name=n, states=sub(f, period, lat)) for n, f in zip(names, frames)]
        # which factors
        observed = bool(obsf) and not many and g.flip(0.6)
        sel = dict(given=False, list=[])
        if g.flip(0.4):
            pool = lat + (obsf if not many else [])
            sel = dict(given=True, list=g.sample(pool, g.int(1, len(pool))))
            if not set(sel["list"]) & set(lat):
                sel["list"].append(g.pick(lat))
            kw["factors"] = list(sel["list"])
        if observed or g.flip(0.3):
            kw["observed_factors"] = observed
        factors = sel["list"] if sel["given"] else (lat + obsf if observed else lat)
        show = dict(show_curve=True, show_hist=False, show_rug=False)
        ukw = {}
        if g.flip(0.4):
            show = dict(show_curve=g.flip(0.7), show_hist=g.flip(0.5), show_rug=g.flip(0.4))
            ukw.update(show)
        ctype = g.pick(["kde", "kde", "normal"])
        if ctype != "kde" or g.flip(0.3):
            ukw["curve_type"] = ctype
        n_points = g.int(3, 6)
        bkw = dict(n_points=n_points) if g.flip(0.9) else {}
        n_points = n_points if bkw else 50
        rec.update(show, curve_type=ctype, n_points=n_points, factors=sel, observed=observed, single=[], single_error="",
                   contours=[], contours_error="", surfaces=[], surfaces_error="", surfaces_expect="refused" if many else "plots", figures=[])
        kde = cont = surf = None
        try:
            with ob.quiet():
                kde = v.univariate_densities(**kw, **ukw)
            rec["single"] = [dict(factor=str(f), xtitle=title(x.layout.xaxis), traces=[one_trace(g, t) for t in x.data],
                                  digests=[digest(t) for t in x.data]) for f, x in kde.items()]
        except Exception as e:   # noqa: BLE001
            rec["single_error"] = ob.err(e)
        try:
            with ob.quiet():
                cont = v.bivariate_density_contours(**kw, **bkw)
            rec["contours"] = [dict(first=str(a), second=str(b), xtitle=title(x.layout.xaxis), ytitle=title(x.layout.yaxis),
                                    traces=[contour(g, t) for t in x.data], digests=[digest(t) for t in x.data]) for (a, b), x in cont.items()]
        except Exception as e:   # noqa: BLE001
            rec["contours_error"] = ob.err(e)
        try:
            labels = g.flip(0.7)
            skw = dict(bkw) if labels and g.flip(0.5) else dict(bkw, showlabels=labels)
            with ob.quiet():
                surf = v.bivariate_density_surfaces(**kw, **skw)
            rec["surfaces"] = [dict(first=str(a), second=str(b), labels=labels, xtitle=title(x.layout.scene.xaxis), ytitle=title(x.layout.scene.yaxis),
                                    traces=[surface(g, t) for t in x.data], digests=[digest(t) for t in x.data]) for (a, b), x in surf.items()]
        except Exception as e:   # noqa: BLE001
            rec["surfaces_error"] = ob.err(e)
        if kde is not None and cont is not None:
            rec["figures"] = [figure(g, factors, kde, cont, surf) for _ in range(2)]
        rec["cost"] = 0.05 + 0.0006 * len(factors) ** 2 * 14 * 9 * len(frames)
        out.append(dict(module="TraceDensity", record=rec, kind="distribution plots",
                        features=fam_filter.features(m, rec["data"]) + [f"states: {mode}"] + (["observed factors plotted"] if set(factors) - set(lat) else [])))
    return out
