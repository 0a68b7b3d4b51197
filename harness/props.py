"""The jobs that decide each property, per tier."""
import itertools
import zlib

import gen


class Prop:
    def __init__(self, jobs, models=None, assumptions=(), clauses=None, technique=None):
        self.jobs, self.models, self.assumptions = jobs, models, list(assumptions)
        self.clauses, self.technique = clauses, technique

    def concerns(self, fail):
        return self.clauses is None or any(fail.startswith(c) for c in self.clauses)


REGISTRY = {}
BASE = [
    "floating point results are compared with 36 digit arithmetic up to 1e-7 relative error",
    "TLC, the override java/Dec.java (decimal arithmetic) and the JSON reader are trusted",
]


def sub(seed, *tags):
    return (seed * 1000003 + zlib.crc32("/".join(map(str, tags)).encode())) % (2**31)


def sig_of(seed, profile):
    g = gen.Gen(seed, **profile)
    m = g.model()
    return (len(m["factors"]), gen.n_mixtures(m), len(m["observed"]["list"]), len(m["controls"]["list"]))


def filter_jobs(pid, seed, groups):
    jobs = []
    for tag, n, profile, opt in groups:
        for k in range(n):
            s = sub(seed, pid, tag, k)
            jobs.append(dict(id=f"{tag}-{k}", family="filter", seed=s, profile=profile, opt=opt,
                             reps=opt.get("reps", 2), sig=sig_of(s, profile)))
    return jobs


def scale(tier, quick, thorough):
    return quick if tier == "quick" else thorough


def history_bases(pid, seed, n, rows, profile, values):
    """Small models whose data histories TLC enumerates."""
    out, k = [], 0
    while len(out) < n:
        prof = dict(HISTORY, **profile[len(out) % len(profile)])
        g = gen.Gen(sub(seed, pid, "base", k), **prof)
        k += 1
        m = g.model()
        ups = gen.updates(m)
        if not rows[0] <= len(ups) <= rows[1] or len({u[0] for u in ups}) < gen.n_periods(m):
            continue
        obs = [[gen.num(g.n(0.8)) for _ in m["observed"]["list"]] for _ in range(2 if m["observed"]["list"] else 1)]
        vals = [["nan"] + [gen.num(g.n(1.0)) for _ in range(values)] for _ in ups]
        par = gen.stringify(g.params(m))
        weights = g.pick({1: [["1"]], 2: [["0.3", "0.7"], ["0.95", "0.05"], ["0.5", "0.5"]],
                          3: [["0.2", "0.5", "0.3"], ["0.01", "0.09", "0.9"]]}[gen.n_mixtures(m)])     # that sum to one exactly
        par.update({f"mixture_weights|0|mixture_{j}|-": w for j, w in enumerate(weights)})
        out.append(dict(model=m, params=par, values=vals, observed=obs))
    return out


HISTORY = dict(n_latent=(1, 2), n_periods=(2, 3), n_observed=(0, 1), p_controls=0, p_observed=0.3, p_mixtures=0, p_anchoring=0, max_meas=2,
               p_no_meas=0.3, p_clip=0.1, kinds=["linear", "linear", "constant"])


NONLINEAR = ["translog", "log_ces", "custom", "linear_and_squares", "log_ces_general"]
# number of models, number of updates, profiles, number of values besides "missing"
HISTORIES = {
    "C01": [(4, (3, 4), [{}, dict(p_mixtures=1), dict(kinds=NONLINEAR, p_shared=0.5), dict(p_shared=0.6, n_latent=(2, 2))], 2)],
    "C03": [(3, (3, 4), [dict(p_mixtures=1), dict(p_mixtures=1, kinds=NONLINEAR)], 2)],
    "C04": [(3, (4, 5), [dict(p_anchoring=1), dict(p_anchoring=1, p_mixtures=1), dict(p_anchoring=1, kinds=NONLINEAR)], 1)],
    "C05": [(3, (5, 6), [dict(p_mixtures=0.5), dict(kinds=NONLINEAR), dict(p_anchoring=0.7, p_mixtures=0.5)], 1)],
}
for _h in HISTORIES.values():       # thorough
    _n, _rows, _prof, _v = _h[0]
    _h.append((4 * _n, (_rows[0], _rows[1] + 1), _prof, _v))


def history_bases_of(pid, tier, seed):
    n, rows, profile, values = HISTORIES[pid][tier != "quick"]
    return history_bases(pid, seed, n, rows, profile, values)


def history_models(pid):
    def models(tier, seed):
        return [dict(module="MCFilter", input=history_bases_of(pid, tier, seed), workers=4, heap="4g", timeout=800)]
    return models


def history_jobs(pid, tier, seed, dumps, opt):
    bases = history_bases_of(pid, tier, seed)
    out = []
    for b, base in enumerate(bases):
        hist = sorted((d for d in dumps.get("MCFilter", []) if d["base"] == b + 1), key=str)
        d, py = gen.history_data(base, hist)
        out.append(dict(id=f"histories-{b}", family="filter", seed=seed, opt=opt, case=dict(model=base["model"], params=base["params"], data=d, py=py)))
    return out


FULL = dict(fast=True, anchored=True)
DEBUG = dict(fast=False, anchored=False)
FIX = dict(n_ids=(4, 4))


def c01(tier, seed, dumps):
    n = scale(tier, 32, 600)
    return filter_jobs("C01", seed, [
        ("mixed", n // 2, dict(FIX, p_mixtures=0.25, kinds=["linear", "translog", "log_ces"], max_meas=3, p_shared=0.4), DEBUG),
        ("controls", n // 4, dict(FIX, p_mixtures=0.2, p_controls=1, kinds=["linear"], p_missing=0.05), dict(fast=True, anchored=False)),
        ("wide", n // 4, dict(FIX, p_mixtures=0.0, n_periods=(2, 2), max_meas=7, max_updates=60, p_shared=0.3, kinds=["linear"]), DEBUG),
        ("boundary", n // 4, dict(FIX, p_special=1, p_mixtures=0.2, n_latent=(1, 2), n_periods=(2, 3), p_shared=0.3), DEBUG),
        ("units", n // 8, dict(FIX, p_scale=0.5, p_mixtures=0.2, n_latent=(1, 2), n_periods=(2, 3), kinds=["linear", "log_ces"]), DEBUG),
        ("single", n // 8, dict(FIX, n_periods=(1, 1), max_meas=4, p_shared=0.4), dict(FULL, reps=1)),
        ("outliers", n // 8, dict(FIX, p_outlier=1, n_periods=(1, 2), p_mixtures=0.3, p_clip=0, n_latent=(1, 2), kinds=["linear", "constant"]), DEBUG),
    ]) + history_jobs("C01", tier, seed, dumps, DEBUG)


REGISTRY["C01"] = Prop(c01, models=history_models("C01"), assumptions=BASE)


def c02(tier, seed, dumps):
    n = scale(tier, 30, 600)
    return filter_jobs("C02", seed, [
        ("kinds", n // 2, dict(FIX, n_periods=(3, 4), p_observed=0.6, p_controls=0.2, p_mixtures=0.3, max_meas=1, p_no_meas=0.4, p_missing=0.3), DEBUG),
        ("dense", n // 4, dict(FIX, n_periods=(2, 3), n_latent=(2, 4), p_observed=0.5, p_controls=0, p_mixtures=0, max_meas=1, p_missing=0.3,
                               kinds=["translog", "robust_translog", "linear_and_squares", "log_ces_general", "log_ces", "custom"]), DEBUG),
        ("custom", n - n // 2 - n // 4, dict(FIX, n_periods=(2, 3), n_latent=(2, 3), p_observed=0.6, p_controls=0, p_mixtures=0.3, max_meas=1,
                                             kinds=["custom", "custom", "constant", "linear"]), DEBUG),
        ("scales", n // 4, dict(FIX, n_periods=(2, 3), n_latent=(1, 3), p_observed=0.3, p_controls=0, p_mixtures=0.2, max_meas=1, p_missing=0.3,
                                units=[1, 250.0, 1e5, 1e9, 1e-3], kinds=["robust_translog", "robust_translog", "translog", "linear_and_squares", "linear", "constant"]), DEBUG),
    ]) + simple_jobs("C02", "sim", seed, [
        ("magnitudes", n // 4, dict(SIM, n_latent=(1, 3), p_controls=0.1, p_mixtures=0.1, p_anchoring=0.1, max_meas=1, units=[1, 1e6, 5e11, 2e12, 1e13],
                                kinds=["robust_translog", "robust_translog", "linear", "constant"]), dict(random="none", reps=2)),
        ("simulated", n // 2, dict(SIM, n_latent=(2, 4), p_observed=0.6, p_controls=0.1, p_mixtures=0.1, p_anchoring=0.1, max_meas=1),
         dict(random="none", reps=2)),
    ])


def c03(tier, seed, dumps):
    n = scale(tier, 28, 500)
    return filter_jobs("C03", seed, [
        ("mixture", n, dict(FIX, p_mixtures=1, n_latent=(1, 2), p_missing=0.25, kinds=["linear", "translog", "constant", "custom", "log_ces"], p_clip=0),
         dict(fast=True, anchored=False)),
        ("boundary", n // 5, dict(FIX, p_mixtures=1, n_latent=(1, 2), n_periods=(2, 3), p_special=1, special=["no weight", "no variance"], kinds=["linear", "log_ces"], p_clip=0),
         dict(fast=True, anchored=False)),
        ("components", n // 14, dict(FIX, p_mixtures=1, n_mixtures=(11, 12), n_latent=(1, 2), n_periods=(2, 2), max_meas=1, p_controls=0, kinds=["linear", "constant"], p_clip=0),
         dict(fast=True, anchored=False, reps=1)),
        ("single", n // 10, dict(FIX, n_periods=(1, 1), max_meas=3, p_mixtures=1, p_clip=0), dict(fast=True, anchored=False, reps=1)),
        ("outliers", n // 7, dict(FIX, p_outlier=1, n_periods=(1, 2), p_mixtures=1, p_clip=0, n_latent=(1, 2), kinds=["linear", "constant"]), dict(fast=True, anchored=False)),
    ]) + history_jobs("C03", tier, seed, dumps, dict(fast=True, anchored=False))


def c04(tier, seed, dumps):
    n = scale(tier, 28, 500)
    return filter_jobs("C04", seed, [
        ("anchored", n * 3 // 4, dict(FIX, p_anchoring=1, p_observed=0.4, p_mixtures=0.35, p_clip=0), dict(fast=False, anchored=True)),
        ("long", n - n * 3 // 4, dict(FIX, p_anchoring=1, n_periods=(3, 5), n_latent=(2, 3), p_mixtures=0, max_meas=1, p_clip=0,
                                      kinds=["linear", "translog", "constant"]), dict(fast=False, anchored=True)),
    ]) + history_jobs("C04", tier, seed, dumps, dict(fast=False, anchored=True)) + simple_jobs("C04", "sim", seed, [
        ("simulated", n // 2, dict(SIM, p_anchoring=1), dict(random="none", reps=2)),
    ])


def c05(tier, seed, dumps):
    n = scale(tier, 28, 500)
    return filter_jobs("C05", seed, [
        ("gaps", n, dict(n_ids=(4, 6), p_missing=0.5, p_missing_row=0.15, p_missing_control=0.15, p_mixtures=0.5, exotic_data=0.8, p_clip=0.3),
         dict(fast=True, anchored=False)),
        ("codes", n // 5, dict(n_ids=(4, 6), p_codes=1, p_mixtures=0.2, p_clip=0, p_missing=0.25, kinds=["linear", "constant"], n_latent=(1, 2), n_periods=(2, 3)),
         dict(fast=True, anchored=False)),
        ("single", n // 10, dict(n_ids=(4, 6), n_periods=(1, 1), max_meas=4, p_missing=0.4, p_mixtures=0.4), dict(fast=True, anchored=False, reps=1)),
    ]) + history_jobs("C05", tier, seed, dumps, dict(fast=True, anchored=False))


def c06(tier, seed, dumps):
    n = scale(tier, 24, 400)
    return filter_jobs("C06", seed, [
        ("sparse", n // 2, dict(FIX, n_periods=(2, 5), n_latent=(2, 3), p_no_meas=0.6, max_meas=1, p_mixtures=0.3), FULL),
        ("long", n // 6, dict(FIX, n_periods=(11, 13), n_latent=(1, 2), max_meas=1, p_mixtures=0, p_no_meas=0.3, kinds=["linear", "log_ces"], p_anchoring=0.3,
                              p_controls=0.3, p_observed=0.3, max_updates=40), dict(FULL, reps=1)),
        ("broad", n // 6, dict(FIX, n_periods=(2, 2), n_latent=(1, 2), max_meas=11, p_mixtures=0, p_controls=0.3, max_updates=60), dict(DEBUG, reps=1)),
        ("ends", n // 6, dict(FIX, n_periods=(3, 5), n_latent=(1, 2), p_unmeasured_period=1, p_no_meas=0.7, p_anchoring=1, max_meas=1, p_mixtures=0.3), dict(FULL, reps=1)),
        ("single", n // 8, dict(FIX, n_periods=(1, 1), max_meas=3, p_mixtures=0.3, p_anchoring=0.5), dict(FULL, reps=1)),
    ]) + simple_jobs("C06", "sim", seed, [
        ("simulated", n // 3, dict(SIM, n_periods=(2, 5), p_no_meas=0.5, p_unmeasured_period=1, max_meas=1), dict(random="none", reps=2)),
    ])


def c18(tier, seed, dumps):
    n = scale(tier, 26, 500)
    return filter_jobs("C18", seed, [
        ("tables", n // 2, dict(n_ids=(3, 6), p_anchoring=0.4, p_mixtures=0.6, max_meas=2), dict(FULL, reps=1)),
        ("sparse", n // 4, dict(n_ids=(3, 6), p_no_meas=0.6, p_mixtures=0.4, n_periods=(2, 5), max_meas=2, p_anchoring=0.5), dict(FULL, reps=1)),
        ("single", n // 12, dict(n_ids=(3, 6), n_periods=(1, 1), p_mixtures=0.5, max_meas=3, p_anchoring=0.5), dict(FULL, reps=1)),
        ("names", n // 4, dict(n_ids=(3, 4), weird_names=1, p_typed=0.3, p_mixtures=0.4, max_meas=3), dict(FULL, reps=1)),
    ])


for pid, f in dict(C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C18=c18).items():
    REGISTRY[pid] = Prop(f, models=history_models(pid) if pid in HISTORIES else None, assumptions=BASE)


def simple_jobs(pid, family, seed, groups):
    jobs = []
    for tag, n, profile, extra in groups:
        for k in range(n):
            jobs.append(dict(id=f"{tag}-{k}", family=family, seed=sub(seed, pid, tag, k), profile=profile, **extra))
    return jobs


TPL = dict(n_ids=(3, 3), exotic_data=0, n_latent=(1, 4), n_periods=(2, 5), max_meas=3, max_updates=80)


NONORM = dict(given=False, loadings=dict(given=False, ok=True, list=[]), intercepts=dict(given=False, ok=True, list=[]))


def menu_bases(pid, tier, seed):
    """Starting points and menus from which TLC builds model specifications."""
    out = []
    for k in range(scale(tier, 2, 6)):
        g = gen.Gen(sub(seed, pid, "menus", k), n_latent=(2, 2), n_periods=(2, 3), max_meas=2, p_no_meas=0.3, p_shared=0.4, p_norm=0, p_anchoring=0,
                    p_stagemap=0, p_mixtures=0, p_options=0, p_clip=0, p_controls=0.6, p_observed=0.4,
                    kinds=["linear", "constant", "log_ces", "translog", "log_ces_general", "custom"])
        m = g.model()
        T = gen.n_periods(m)
        names = gen.latent(m)
        steps = []

        def add(what, menu, i=0):
            steps.append(dict(what=what, i=i, menu=menu))

        for i, f in enumerate(m["factors"], 1):
            if pid == "C07":
                other = [list(reversed(x)) for x in f["meas"]]
                add("meas", [f["meas"], other[: max(1, T - 1)] if i == 2 else other + [[]] * (T - len(other)), [[]] + f["meas"][1:]], i)
            if pid == "C07" or f["kind"] != "custom":
                add("kind", [f["kind"], g.pick(["linear", "log_ces"]), g.pick(["constant", "robust_translog", "log_ces_general"])], i)

            def norms(bad):
                lst = lambda: [[[y, gen.num(g.pick([1, 2, 0.5]))] for y in ys if g.flip(0.6)] for ys in f["meas"]]
                part = lambda ok=True: dict(given=True, ok=ok, list=lst())
                x = [NONORM, dict(given=True, loadings=part(), intercepts=NONORM["intercepts"]), dict(given=True, loadings=NONORM["loadings"], intercepts=part())]
                if bad:
                    y = dict(given=True, loadings=part(), intercepts=part(g.flip(0.5)))
                    y["loadings"]["list"] = y["loadings"]["list"] + [[["nobody", "1.0"]]] if g.flip(0.5) else [[[y, "0.0"] for y in ys] for ys in f["meas"]]
                    x.append(y)
                return x

            if pid != "C07":
                add("norm", norms(pid == "C10" and i == 2)[: 3 if i == 1 else 4], i)
        off = dict(given=False, ok=True, bad_outcomes=False, outcomes=[], free_controls="unset", free_constant="unset", free_loadings="unset", ignore_constant="unset")
        one = dict(off, given=True, outcomes=[[names[1], "Q1"]])
        both = dict(one, outcomes=[[names[1], "Q1"], [names[0], "Q1"]])
        flags = ["true", "false", "unset"] + (["bad"] if pid == "C10" else [])
        some = [dict(a, free_controls=g.pick(flags), free_constant=g.pick(flags), free_loadings=g.pick(flags), ignore_constant=g.pick(["true", "false", "unset"]))
                for a in (one, both, one, both)]
        add("anchoring", [off] + (some if pid != "C07" else some[:2]) + ([dict(one, ok=False), dict(both, bad_outcomes=True)] if pid == "C10" else []))
        if pid == "C07":
            add("controls", [m["controls"], dict(given=False, list=[])])
        else:
            maps = [dict(given=True, list=list(x)) for n in (T - 1,) + ((T - 2, T) if pid == "C10" else ()) for x in itertools.product(range(3), repeat=n)]
            if pid == "C09":
                maps = [x for x in maps if x["list"][0] == 0 and all(b - a in (0, 1) for a, b in zip(x["list"], x["list"][1:]))]
            elif tier == "quick" and len(maps) > 9:
                maps = [dict(given=True, list=[0] * (T - 1))] + g.sample(maps, 8)
            add("stagemap", [dict(given=False, list=[])] + maps)
        opts = [[], [["n_mixtures", "2"]], [["n_mixtures", "3"], ["robust_bounds", "false"]], [["bounds_distance", "0.05"], ["robust_bounds", "true"]]]
        add("options", [dict(given=False, list=[])] + [dict(given=True, list=x) for x in (opts if tier != "quick" or pid == "C09" else opts[1:3])])
        total = 1
        for x in steps:
            total *= len(x["menu"])
        out.append(dict(model=m, steps=steps, offset=seed % 1000, every=max(1, total // scale(tier, 60, 1500))))
    return out


def menu_models(pid):
    def models(tier, seed):
        return [dict(module="MCModel", input=menu_bases(pid, tier, seed), workers=6, heap="4g", timeout=800)]
    return models


def menu_jobs(pid, seed, dumps):
    return [dict(id=f"built-{i}", family="template", seed=sub(seed, pid, "built", i), case=dict(model=d["model"]))
            for i, d in enumerate(sorted(dumps.get("MCModel", []), key=str))]


def c07(tier, seed, dumps):
    n = scale(tier, 120, 3000)
    return simple_jobs("C07", "template", seed, [
        ("models", n, TPL, {}),
        ("long", n // 10, dict(TPL, n_periods=(9, 13), max_meas=2, max_updates=200), {}),
        ("single", n // 10, dict(TPL, n_periods=(1, 1)), {}),
        ("components", n // 20, dict(TPL, p_mixtures=1, n_mixtures=(10, 13), n_latent=(1, 3)), {}),
    ]) + menu_jobs("C07", seed, dumps)


def c09(tier, seed, dumps):
    n = scale(tier, 120, 3000)
    return simple_jobs("C09", "template", seed, [
        ("models", n // 2, dict(TPL, p_norm=0.9, p_anchoring=0.6, p_stagemap=0.7), {}),
        ("single", n // 10, dict(TPL, n_periods=(1, 1), p_norm=0.9, p_anchoring=0.6), {}),
        ("stages", n // 2, dict(TPL, p_norm=0.3, p_stagemap=1, kinds=["constant", "log_ces", "linear", "log_ces_general", "custom"]), {}),
    ]) + menu_jobs("C09", seed, dumps)


def c10(tier, seed, dumps):
    n = scale(tier, 120, 3000)
    jobs = simple_jobs("C10", "template", seed, [
        ("broken", n, dict(TPL, p_stagemap=0.5, p_norm=0.6), dict(defects=True)),
        ("single", n // 10, dict(TPL, n_periods=(1, 1), p_stagemap=0.5, p_norm=0.6), dict(defects=True)),
        ("omitted", n // 4, dict(TPL, p_stagemap=0.2, p_norm=0.3, p_options=0.3, p_mixtures=0.2), {}),
    ])
    return jobs + menu_jobs("C10", seed, dumps) + filter_jobs("C10", seed, [
        ("defaults", scale(tier, 10, 150), dict(FIX, p_options=0.25, p_mixtures=0.25, p_stagemap=0.2, p_clip=0.1, p_anchoring=0.5,
                                                kinds=["linear", "translog"]), dict(FULL, reps=1)),
        ("clipping", scale(tier, 8, 150), dict(FIX, p_clip=0.9, p_special=0.7, special=["tiny error"], n_latent=(1, 2), p_mixtures=0.2,
                                               kinds=["linear"]), dict(FULL, reps=1))])


for pid, f in dict(C07=c07, C09=c09, C10=c10).items():
    REGISTRY[pid] = Prop(f, models=menu_models(pid), assumptions=BASE)


PANEL = dict(p_typed=0, n_latent=(1, 2), n_periods=(2, 2), n_observed=(0, 1), n_controls=(1, 1), p_controls=0.8, p_observed=0.5, p_mixtures=0, p_anchoring=0.3,
             max_meas=1, p_no_meas=0.3, p_clip=0, kinds=["linear", "constant"], max_updates=6, p_shared=0.3)


def panel_bases(pid, tier, seed):
    """Small models with ids, period labels and types of rows whose datasets TLC enumerates."""
    out = []
    for k in range(scale(tier, 2, 6)):
        g = gen.Gen(sub(seed, pid, "datasets", k), **PANEL)
        m = g.model()
        obs, con = m["observed"]["list"], m["controls"]["list"]
        meas = sorted({u[4] for u in gen.updates(m)})
        cols = meas + con + obs
        full = [{c: gen.num(g.n(1.0)) for c in cols} for _ in range(2)]
        types = full + [{**g.pick(full), g.pick(meas): "nan"}]
        if con:
            types.append({**g.pick(full), con[0]: "nan"})
        elif len(meas) > 1:
            types.append({**full[0], meas[0]: "nan"})
        if obs and k % 2:
            types[-1] = {**types[-1], obs[0]: "nan"}
        if tier == "quick":         # one complete type and two others
            types = [types[0], types[-2 if len(types) > 3 else -1], types[-1] if len(types) > 3 else types[1]]
            types[1] = {**full[1], **{c: "nan" for c, x in types[1].items() if x == "nan"}}
        ids, periods = ([4, 2, 9], [3, 7]) if k % 2 == 0 else ([6, 1], [2, 5, 11])
        out.append(dict(model=m, columns=cols, ids=ids, periods=periods, types=types, offset=seed % 1000, spread="0.25" if pid == "C11" or k else "0",
                        every=max(1, (len(types) + 1) ** 6 // scale(tier, 120, 1500))))
    return out


def panel_models(pid):
    def models(tier, seed):
        return [dict(module="MCPanel", input=panel_bases(pid, tier, seed), workers=6, heap="4g", timeout=800)]
    return models


def panel_jobs(pid, tier, seed, dumps, family):
    bases = panel_bases(pid, tier, seed)
    out = []
    for i, d in enumerate(sorted(dumps.get("MCPanel", []), key=str)):
        b = bases[d["base"] - 1]
        g = gen.Gen(sub(seed, pid, "presentation", i))
        data = dict(columns=b["columns"], rows=d["rows"])
        py = g.presentation(len(d["rows"]), True)
        case = dict(model=b["model"], params=gen.stringify(gen.Gen(sub(seed, pid, "par", d["base"])).params(b["model"])), data=data, py=py)
        out.append(dict(id=f"enum-{family}-{i}", family=family, seed=seed, case=case, opt=DEBUG))
    return out


def c11(tier, seed, dumps):
    n = scale(tier, 28, 500)
    panel = dict(n_ids=(3, 6), exotic_data=1, p_missing_row=0.25, p_missing=0.15, p_mixtures=0.1, p_observed=0.6, p_controls=0.6,
                 kinds=["linear", "constant", "linear_and_squares"], p_clip=0, max_meas=2)
    return filter_jobs("C11", seed, [
        ("panel", n // 2, dict(panel, p_anchoring=0.3), dict(DEBUG, transparent=True, reps=3)),
        ("generic", n // 2, dict(panel, p_anchoring=0.5), dict(DEBUG, reps=2)),
        ("single", n // 10, dict(panel, n_periods=(1, 1)), dict(DEBUG, reps=1)),
    ]) + simple_jobs("C11", "panel", seed, [("labels", n * 2, panel, {})]) + [
        j for j in panel_jobs("C11", tier, seed, dumps, "filter") if gen.acceptable(j["case"]["model"], j["case"]["data"])]


def c12(tier, seed, dumps):
    n = scale(tier, 90, 2500)
    prof = dict(n_ids=(3, 6), exotic_data=0.7, p_observed=0.6, p_controls=0.8, p_mixtures=0.1, p_anchoring=0.4, max_meas=2, p_missing_control=0.15)
    return simple_jobs("C12", "panel", seed, [
        ("defects", n, prof, dict(defects=True)),
        ("single", n // 9, dict(prof, n_periods=(1, 1)), dict(defects=True)),
        ("controls", n // 2, dict(prof, p_controls=1, p_missing=0.5, p_missing_control=0.25), {}),
        ("simulation", n // 3, dict(prof, p_missing=0, p_missing_row=0, p_missing_control=0, kinds=["linear", "constant"]), dict(defects=True, purpose="simulation")),
    ]) + filter_jobs("C12", seed, [
        ("discard", scale(tier, 12, 200), dict(prof, p_controls=1, p_missing_control=0.25, p_missing=0.3), DEBUG),
    ]) + panel_jobs("C12", tier, seed, dumps, "panel")


for pid, f in dict(C11=c11, C12=c12).items():
    REGISTRY[pid] = Prop(f, models=panel_models(pid), assumptions=BASE)


EDIT = dict(n_ids=(3, 3), n_latent=(1, 4), n_periods=(2, 4), max_meas=3, max_updates=60, p_norm=0.6, p_anchoring=0.5,
            kinds=["linear", "translog", "translog", "log_ces", "constant", "custom", "linear_and_squares", "robust_translog", "log_ces_general"],
            weird_names=0.4)
SMALL = dict(n_latent=(2, 3), n_periods=(3, 3), n_controls=(1, 2), p_controls=1, max_meas=1, p_norm=1, p_anchoring=0.8, p_stagemap=0.7,
             weird_names=0.3, nested=0.5, p_mixtures=0.2, kinds=["linear", "translog", "robust_translog", "constant", "custom", "log_ces"], max_updates=14)


def edit_bases(pid, tier, seed):
    out = []
    k = 0
    while len(out) < scale(tier, 4, 8):
        m = gen.Gen(sub(seed, pid, "base", k), **SMALL).model()
        k += 1
        if len(m["factors"]) == (2 if len(out) % 2 else 3):
            out.append(m)
    return out


def edit_models(pid):
    def models(tier, seed):
        return [dict(module="MCEdit", env=dict(DEPTH=scale(tier, "2", "3")), input=edit_bases(pid, tier, seed), workers=4,
                     timeout=800, heap="6g")]
    return models


def edit_jobs(pid, updates):
    def jobs(tier, seed, dumps):
        bases = edit_bases(pid, tier, seed)
        out = simple_jobs(pid, "edit", seed, [
            ("chains", scale(tier, 60, 1500), EDIT, dict(length=4, updates=updates)),
            ("long", scale(tier, 12, 300), dict(EDIT, n_periods=(4, 5)), dict(length=8, updates=updates)),
            ("nested", scale(tier, 20, 400), dict(EDIT, nested=1, n_controls=(1, 3), p_controls=0.9), dict(length=3, updates=2 * updates)),
        ])
        chains = sorted(dumps.get("MCEdit", []), key=str)
        limit = scale(tier, 220, 4000)
        step = max(1, len(chains) // limit)
        for i, d in enumerate(chains[(seed % step)::step]):
            out.append(dict(id=f"enum-{i}", family="edit", seed=sub(seed, pid, "enum", i), model=bases[d["base"] - 1], ops=d["ops"]))
        return out
    return jobs


REGISTRY["C13"] = Prop(edit_jobs("C13", 0), models=edit_models("C13"), assumptions=BASE, clauses=["the edit fails", "model", "the record"])
REGISTRY["C14"] = Prop(edit_jobs("C14", 1), models=edit_models("C14"), assumptions=BASE, clauses=["the edit fails", "params", "the record"])


SIM = dict(n_ids=(3, 5), p_observed=0.5, p_controls=0.6, p_mixtures=0.35, p_clip=0, p_missing=0.2, p_missing_control=0.05, max_meas=2,
           p_anchoring=0.5, p_shared=0.35)


def c15(tier, seed, dumps):
    n = scale(tier, 48, 900)
    return simple_jobs("C15", "sim", seed, [
        ("exact", n // 2, SIM, dict(random="none", reps=2)),
        ("sparse", n // 6, dict(SIM, p_no_meas=0.6, p_unmeasured_period=1, n_periods=(2, 5), max_meas=1), dict(random="none", reps=2)),
        ("long", n // 12, dict(SIM, n_periods=(10, 12), max_meas=1, n_latent=(1, 2), kinds=["linear", "constant", "log_ces"]), dict(random="none")),
        ("broad", n // 12, dict(SIM, n_periods=(2, 2), max_meas=7, n_latent=(1, 2), max_updates=50), dict(random="none")),
        ("single", n // 12, dict(SIM, n_periods=(1, 1), max_meas=3), dict(random="none")),
        ("refused", n // 6, SIM, dict(random="none", refuse=True)),
    ])


def c16(tier, seed, dumps):
    n = scale(tier, 36, 600)
    big = dict(n_latent=(1, 3), n_periods=(2, 3), p_observed=0, p_controls=0, max_meas=2, p_clip=0, max_updates=10,
               kinds=["linear", "constant", "translog", "log_ces"], p_anchoring=0.3)
    return simple_jobs("C16", "sim", seed, [
        ("partly", n // 2, SIM, dict(random="some", reps=2)),
        ("moments", n // 3, dict(big, p_mixtures=0), dict(random="moments")),
        ("mixture", n // 6, dict(big, p_mixtures=1, n_latent=(1, 2)), dict(random="moments")),
    ])


for pid, f in dict(C15=c15, C16=c16).items():
    REGISTRY[pid] = Prop(f, assumptions=BASE)


GRAD = dict(n_ids=(3, 3), n_latent=(1, 2), n_periods=(2, 3), p_missing=0.25, p_missing_row=0.1, max_meas=2, max_updates=14)


def c17(tier, seed, dumps):
    n = scale(tier, 16, 250)
    return simple_jobs("C17", "gradient", seed, [
        ("any", n // 2, GRAD, dict(opt=dict(modes=["default"]), reps=1)),
        ("single", n // 8, dict(GRAD, n_periods=(1, 1), max_meas=3), dict(opt=dict(modes=["default"]))),
        ("modes", n // 4, dict(GRAD, p_mixtures=0.6), dict(opt=dict(modes=["jacrev", "jacfwd"]))),
        ("clipped", n // 4, dict(GRAD, p_clip=1), dict(opt=dict(modes=["default"]))),
        ("boundary", n // 4, dict(GRAD, p_special=1, special=["no loading", "negative sd", "negative diagonal", "no shock"], p_zero_share=0.6,
                                  kinds=["log_ces", "log_ces_general", "log_ces", "linear"]), dict(opt=dict(modes=["default"]))),
    ]) + filter_jobs("C17", seed, [
        ("values", scale(tier, 14, 250), dict(FIX, p_clip=0.7, p_mixtures=0.3, p_special=0.4, special=["tiny error"]), dict(fast=True, anchored=False))])


REGISTRY["C17"] = Prop(c17, assumptions=BASE + ["derivatives are compared with difference quotients of 36 digit values up to 1e-6 relative error"])


def c08(tier, seed, dumps):
    n = scale(tier, 24, 400)
    return filter_jobs("C08", seed, [
        ("shuffled", n, dict(FIX, p_anchoring=0.5, p_mixtures=0.3), dict(FULL, shuffle=True, reps=1)),
    ]) + simple_jobs("C08", "gradient", seed, [
        ("derivatives", n // 4, GRAD, dict(opt=dict(shuffle=True, modes=["default"], picks=1))),
    ]) + simple_jobs("C08", "sim", seed, [
        ("simulated", n // 2, SIM, dict(random="none", opt=dict(shuffle=True))),
    ]) + simple_jobs("C08", "labels", seed, [
        ("labels", n, dict(GRAD, n_latent=(1, 3), weird_names=0.8), dict(reps=4)),
    ])


REGISTRY["C08"] = Prop(c08, assumptions=BASE)


def c20(tier, seed, dumps):
    n = scale(tier, 90, 2500)
    prof = dict(n_ids=(4, 9), n_latent=(1, 3), n_periods=(2, 4), max_meas=3, p_no_meas=0.15, p_shared=0.3, p_observed=0.5, p_missing=0.25,
                p_missing_row=0.15, exotic_data=0.6, p_missing_control=0.1)
    return simple_jobs("C20", "corr", seed, [
        ("tables", n * 2 // 3, prof, dict(reps=4)),
        ("dense", n // 3, dict(prof, p_missing=0, p_missing_row=0, p_shared=0.5), dict(reps=4)),
        ("single", n // 9, dict(prof, n_periods=(1, 1)), dict(reps=4)),
        ("boundary", n // 4, dict(prof, p_shared=0.7, n_latent=(2, 3), p_special=1, special=["small loading"]), dict(reps=4)),
    ])


REGISTRY["C20"] = Prop(c20, assumptions=BASE + ["correlations of variables that do not vary over the complete pairs are not compared"])


def c21(tier, seed, dumps):
    n = scale(tier, 44, 900)
    prof = dict(n_ids=(3, 6), n_latent=(1, 3), n_periods=(2, 4), max_meas=2, p_mixtures=0.15, p_observed=0.5, p_controls=0.3, p_anchoring=0.5,
                p_clip=0, max_updates=14)
    return simple_jobs("C21", "curves", seed, [
        ("plots", n, prof, dict(reps=2)),
        ("kinds", n // 3, dict(prof, n_periods=(2, 2), n_latent=(2, 4), max_meas=1, max_updates=8), dict(reps=2)),
    ])


REGISTRY["C21"] = Prop(c21, assumptions=BASE)


def c22(tier, seed, dumps):
    n = scale(tier, 60, 1200)
    prof = dict(n_ids=(5, 8), n_latent=(1, 3), n_periods=(2, 3), max_meas=2, p_mixtures=0.15, p_observed=0.6, p_controls=0.3, p_anchoring=0.3,
                p_clip=0, max_updates=14, kinds=["linear", "constant", "translog"], n_controls=(1, 1))
    return simple_jobs("C22", "density", seed, [
        ("given", n, prof, dict(reps=2, modes=["frame", "dict", "list"])),
        ("filtered", n // 4, prof, dict(reps=1, modes=["filtered"])),
        ("scenarios", n // 30, dict(prof, n_latent=(2, 2)), dict(reps=1, modes=["dict", "list"], scenarios=(11, 13))),
        ("single", n // 12, dict(prof, n_periods=(1, 1)), dict(reps=1, modes=["frame", "filtered"])),
    ])


REGISTRY["C22"] = Prop(c22, assumptions=BASE)


SESSION = dict(n_ids=(5, 6), n_latent=(1, 2), n_periods=(2, 2), max_meas=2, max_updates=6, p_mixtures=0.1, p_observed=0.3, p_controls=0.4,
               p_missing=0.1, p_missing_row=0, exotic_data=0.4, weird_names=0.3, p_clip=0.1)


def c19_models(tier, seed):
    return [dict(module="MCSession", env=dict(DEPTH=scale(tier, "4", "5")), workers=4, heap="6g", timeout=800)]


def random_history(seed, n):
    g = gen.Gen(seed)
    hist, handles, returned = [dict(act="make", a=1, h=0, fn="")], 1, 1
    while len(hist) < n:
        act = g.pick(["make", "eval", "eval", "call", "call", "call", "set", "set", "set", "spoil", "bad"])
        if act == "make" and handles >= 3:
            continue
        x = dict(act=act, a=g.int(1, 2), h=0, fn="?")
        if act == "eval":
            x.update(a=0, h=g.int(1, handles))
        elif act == "set":
            x["fn"] = g.pick(["spec", "data", "par"])
        elif act == "spoil":
            x.update(a=0, h=g.int(1, returned), fn="")
        elif act == "make":
            x["fn"] = ""
            handles += 1
        returned += act in ("make", "eval", "call")
        hist.append(x)
    return hist


def c19(tier, seed, dumps):
    out = []
    chains = sorted(dumps.get("MCSession", []), key=str)
    limit = scale(tier, 30, 400)
    g = gen.Gen(sub(seed, "C19", "pick"))
    for i, h in enumerate(g.sample(chains, limit)):
        out.append(dict(id=f"enum-{i}", family="session", seed=sub(seed, "C19", "enum", i), profile=SESSION, hist=h))
    for i in range(scale(tier, 14, 200)):
        out.append(dict(id=f"long-{i}", family="session", seed=sub(seed, "C19", "long", i), profile=SESSION,
                        hist=random_history(sub(seed, "C19", "hist", i), scale(tier, 10, 16))))
    return out


REGISTRY["C19"] = Prop(c19, models=c19_models, assumptions=BASE[1:] + [
    "results are compared with those of a separate process up to 1e-9 relative error"])
