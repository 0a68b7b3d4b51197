"""Random abstract model specifications, parameters and datasets.

Everything here is plain data in the format of spec/Model.tla and spec/Panel.tla; nothing is taken
from the library.  Numbers are Python floats until they are written as numerals (see num).
"""
import copy
import math
import numpy as np


def num(x):
    """Numeral of Dec for a number, or nan / inf / -inf."""
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    return repr(x)


FACTOR_POOLS = [
    ["fac1", "fac2", "fac3", "fac4"],
    ["skill", "inv", "par", "health"],
    ["zeta", "alpha", "mid", "beta"],
    ["fac", "fac1", "fac11", "fac111"],
    ["x", "X", "xx", "Xx"],
    ["Cognitive Skills", "non cognitive", "parental inv.", "health 2"],
    ["b2", "b10", "a", "a10"],
    ["theta_1", "theta", "theta_1_2", "_t"],
]
MEAS_POOLS = [
    ["y1", "y2", "y3", "y4", "y5", "y6", "y7", "y8", "y9", "y10", "y11", "y12"],
    ["test b", "test a", "item 10", "item 2", "item 1", "score", "Score", "m-1", "m-0", "z*", "a**2", "q"],
    ["m", "mm", "mmm", "m1", "m11", "m2", "n", "nn", "o", "p", "r", "s"],
]
TYPED = ["101", "('y', 1)", "205", "('y', 2)", "y", "('z',)", "999", "z", "110", "('y', 1, 2)", "1000", "w"]     # see concrete.enc
CONTROL_POOLS = [["x1", "x2", "x3"], ["age", "Age", "a g e"], ["c", "b", "a"]]
OBSERVED_POOLS = [["o1", "o2", "o3"], ["income", "treat", "educ"], ["zz", "aa", "kk"]]
NESTED = dict(factors=["fac", "fac1", "fac11", "ac"], meas=["m", "mm", "mmm", "m1", "m11", "1", "m2", "n", "nn", "n2", "nn2", "2"],
              controls=["age_squared", "age", "squared"], observed=["income_lag", "income", "lag"])
OUTCOMES = [["Q1", "Q2", "Q3"], ["earnings", "years of edu", "health"], ["out", "out_b", "o_ut"]]

KINDS = ["linear", "translog", "log_ces", "constant", "robust_translog", "linear_and_squares",
         "log_ces_general", "custom"]

DEFAULT = dict(
    n_latent=(1, 3), n_periods=(2, 4), n_observed=(0, 2), n_controls=(0, 2), n_mixtures=(1, 3),
    p_observed=0.35, p_controls=0.6, p_mixtures=0.45, p_anchoring=0.45, p_stagemap=0.4, p_norm=0.5,
    p_options=0.6, p_shared=0.25, kinds=KINDS, n_ids=(3, 5), p_missing=0.15, p_missing_row=0.08,
    p_missing_control=0.05, max_meas=2, exotic_data=0.5, p_no_meas=0.25, weird_names=0.5,
    p_unmeasured_period=0.0, p_special=0.0, p_zero_share=0.1, p_scale=0.0, special=None, p_clip=0.15, p_free=0.6, max_updates=26,
    nested=0, units=None, p_codes=0.0, p_outlier=0.05, p_discrete=0.1, p_overlap=0.12, p_typed=0.05,
)


class Gen:
    def __init__(self, seed, **profile):
        self.r = np.random.default_rng(seed)
        self.r2 = np.random.default_rng([seed, 1])     # rare variations, without influence on the other cases
        self.p = {**DEFAULT, **profile}

    # ------------------------------------------------------------------ helpers
    def flip(self, p):
        return bool(self.r.random() < p)

    def int(self, lo, hi):
        return int(self.r.integers(lo, hi + 1))

    def pick(self, seq):
        return seq[int(self.r.integers(len(seq)))]

    def sample(self, seq, k):
        idx = self.r.permutation(len(seq))[:k]
        return [seq[i] for i in idx]

    def u(self, lo, hi):
        return round(float(self.r.uniform(lo, hi)), 4)

    def n(self, sd, mean=0.0):
        return round(float(self.r.normal(mean, sd)), 4)

    # ------------------------------------------------------------------ model
    def model(self):
        while True:
            m = self._model()
            n_updates = sum(len(y) for f in m["factors"] for y in f["meas"])
            n_updates += len(m["anchoring"]["outcomes"]) * n_periods(m)
            if n_updates <= self.p["max_updates"]:
                return m

    def _model(self):
        p = self.p
        nl = self.int(*p["n_latent"])
        T = self.int(*p["n_periods"])
        weird = self.flip(p["weird_names"])
        fpool = self.pick(FACTOR_POOLS) if weird else FACTOR_POOLS[0]
        names = self.sample(fpool, nl) if weird else fpool[:nl]
        no = self.int(max(1, p["n_observed"][0]), p["n_observed"][1]) if self.flip(p["p_observed"]) and p["n_observed"][1] else 0
        nc = self.int(max(1, p["n_controls"][0]), p["n_controls"][1]) if self.flip(p["p_controls"]) and p["n_controls"][1] else 0
        observed = self.sample(self.pick(OBSERVED_POOLS) if weird else OBSERVED_POOLS[0], no)
        controls = self.sample(self.pick(CONTROL_POOLS) if weird else CONTROL_POOLS[0], nc)
        mpool = self.pick(MEAS_POOLS) if weird else MEAS_POOLS[0]
        mpool = [x for x in mpool if x not in names + observed + controls]

        if p["nested"] and self.flip(p["nested"]):      # names that contain each other
            names = self.sample(NESTED["factors"], nl)
            observed, controls = self.sample(NESTED["observed"], no), self.sample(NESTED["controls"], nc)
            mpool = NESTED["meas"]

        if self.r2.random() < p["p_typed"]:
            mpool = TYPED

        # measurements
        all_meas = self.sample(mpool, min(len(mpool), nl * p["max_meas"] + 2))
        overlap = self.r2.random() < p["p_overlap"]
        if overlap:             # variables in several roles, measurements named like factors
            how = [int(x) for x in self.r2.integers(0, 2, size=4)]
            if how[0] and nc and no:
                controls[0] = observed[-1]
            all_meas += [x for pick, x in [(how[1], (controls or [""])[-1]), (how[2], (observed or [""])[0]), (how[3], names[-1])]
                         if pick and x and x not in all_meas]
        while True:
            meas = [[[] for _ in range(T)] for _ in range(nl)]
            for t in range(T):
                free = self.sample(all_meas, len(all_meas))
                for f in range(nl):
                    if self.flip(p["p_no_meas"]) and nl > 1:
                        continue
                    for _ in range(self.int(1, p["max_meas"])):
                        used = [y for g in range(nl) for y in meas[g][t]]
                        if used and self.flip(p["p_shared"]):
                            y = self.pick(used)
                        elif free:
                            y = free.pop()
                        else:
                            continue
                        if y not in meas[f][t]:
                            meas[f][t].append(y)
            empty = [t for t in range(T) if not any(meas[f][t] for f in range(nl))]
            if not empty or (p["p_unmeasured_period"] and T - 1 not in empty):
                break
        # the factor that defines the number of periods keeps its full list
        lens = []
        for f in range(nl):
            last = max([t + 1 for t in range(T) if meas[f][t]], default=0)
            lens.append(last if self.flip(0.5) else T)
        if max(lens) < T:
            lens[self.int(0, nl - 1)] = T
        meas = [meas[f][: lens[f]] for f in range(nl)]

        factors = []
        allf = names + observed
        n_custom = 0
        for f in range(nl):
            kind = self.pick(p["kinds"])
            fac = dict(name=names[f], meas=meas[f], meas_ok=True, bad_meas=[], kind=kind, cname="", pnames=[],
                       terms=[])
            if kind == "custom":
                n_custom += 1
                fac.update(self.custom(names[f], allf, n_custom))
                same = [x for x in factors if x["kind"] == "custom"]
                if same and self.r2.random() < 0.35:
                    fac.update({k: copy.deepcopy(same[0][k]) for k in ("pnames", "terms", "cname")})
            fac["norm"] = self.norm(meas[f], T)
            factors.append(fac)

        m = dict(
            factors=factors,
            observed=dict(given=bool(no) or self.flip(0.2), list=observed),
            controls=dict(given=bool(nc) or self.flip(0.2), list=controls),
            stagemap=self.stagemap(T),
            anchoring=self.anchoring(names, all_meas + observed + controls if overlap else []),
            options=self.options(),
        )
        return m

    def custom(self, name, allf, k):
        nt = self.int(1, 4)
        terms = [dict(par="", factors=[name], exp=False)]
        pool = ["lin", "p_2", "constant", "rho", "1", "a b", name]
        pnames = self.sample(pool, self.int(0, min(len(pool), nt)))
        terms = []
        for q in pnames:
            nf = self.int(0, 2)
            terms.append(dict(par=q, factors=self.sample(allf, min(nf, len(allf))), exp=self.flip(0.25) and nf > 0))
        if not pnames or self.flip(0.3):
            terms.append(dict(par="", factors=[name], exp=False))
        return dict(pnames=pnames, terms=terms, cname=self.cname(k))

    def cname(self, k):
        name = self.pick(["linear", "my_func", "f", "production"]) + ("" if self.flip(.5) else str(k))
        builtin = ["constant", "log_ces", "log_ces_general", "translog"]
        return builtin[int(self.r2.integers(4))] if self.r2.random() < 0.3 else name

    def norm(self, meas, T):
        off = dict(given=False, ok=True, list=[])
        if not self.flip(self.p["p_norm"]):
            return dict(given=False, loadings=off, intercepts=dict(off))

        def one():
            if self.flip(0.25):
                return dict(off)
            n = self.int(0, len(meas))
            lst = []
            for t in range(n):
                lst.append([[y, num(self.pick([1, 1, 2, 0.5, -1, 0.75]))] for y in meas[t] if self.flip(0.4)])
            if self.flip(0.3):
                lst += [[]] * (T - len(lst))
            return dict(given=True, ok=True, list=lst)

        return dict(given=True, loadings=one(), intercepts=one())

    def stagemap(self, T):
        if not self.flip(self.p["p_stagemap"]):
            return dict(given=False, list=[])
        s = [0]
        while len(s) < T - 1:
            s.append(s[-1] + self.int(0, 1))
        return dict(given=True, list=s[: T - 1])

    def anchoring(self, names, taken):
        a = dict(given=False, ok=True, bad_outcomes=False, outcomes=[], free_controls="unset", free_constant="unset", free_loadings="unset",
                 ignore_constant="unset")
        if not self.flip(self.p["p_anchoring"]):
            return a
        pool = self.pick(OUTCOMES) + list(taken)
        which = self.sample(names, self.int(1, len(names)))
        a["given"] = True
        a["outcomes"] = [[f, self.pick(pool)] for f in which]
        for k in ("free_controls", "free_constant", "free_loadings"):
            a[k] = self.pick(["true", "true", "false", "unset"])
        a["ignore_constant"] = self.pick(["true", "false", "unset", "unset"])
        return a

    def options(self):
        o = dict(given=False, list=[])
        K = self.int(max(2, self.p["n_mixtures"][0]), self.p["n_mixtures"][1]) if self.p["n_mixtures"][1] > 1 and self.flip(self.p["p_mixtures"]) else 1
        lst = []
        if K > 1 or self.flip(0.3):
            lst.append(["n_mixtures", num(K)[:-2]])
        if self.flip(self.p["p_options"]):
            if self.flip(0.6):
                lst.append(["sigma_points_scale", self.pick(["1", "3", "0.5", "2", "5"])])
            if self.flip(0.4):
                lst.append(["robust_bounds", self.pick(["true", "false"])])
            if self.flip(0.4):
                lst.append(["bounds_distance", self.pick(["0.01", "0.001", "0.1", "0"])])
        if self.flip(self.p["p_clip"]):
            # any subset of the keys can be given
            lower = self.flip(0.75)
            upper = self.flip(0.6) or not lower
            if lower:
                lst.append(["clipping_lower_bound", self.pick(["-3", "-2", "-10", "none"])])
            if self.flip(0.6):
                lst.append(["clipping_lower_hardness", self.pick(["1", "2", "0.5", "10"])])
            if upper:
                lst.append(["clipping_upper_bound", self.pick(["-0.5", "0", "1", "-1.5"])])
            if self.flip(0.5):
                lst.append(["clipping_upper_hardness", self.pick(["1", "3", "0.7", "10"])])
        if lst or self.flip(0.5):
            o = dict(given=True, list=lst)
        return o

    # ------------------------------------------------------------------ broken specifications
    def broken(self, m):
        """A copy with one to three defects (which may turn out to be none, e.g. an unused normalization)."""
        m = copy.deepcopy(m)
        for _ in range(self.pick([1, 1, 2, 3])):
            self.defect(m)
        return m

    def defect(self, m):
        T = n_periods(m)
        f = self.pick(m["factors"])
        a = m["anchoring"]
        kind = self.pick(["stagemap", "stagemap", "anchoring", "flag", "meas_shape", "meas_name", "norm_shape", "norm_unknown",
                          "norm_other_period", "norm_beyond", "norm_zero", "norm_zero"])
        if kind == "stagemap":
            s = list(m["stagemap"]["list"]) if m["stagemap"]["given"] else list(range(T - 1))
            how = self.pick(["long", "short", "shift", "jump", "down", "gap"])
            if how == "long":
                s = s + [s[-1] + 1 if s else 0]
            elif how == "short":
                s = s[:-1]
            elif how == "shift":
                s = [x + 1 for x in s]
            elif how == "jump" and s:
                s[-1] += 2
            elif how == "down" and len(s) > 1:
                s = s[::-1]
            elif how == "gap":
                s = [2 * x for x in s]
            m["stagemap"] = dict(given=True, list=s)
        elif kind in ("anchoring", "flag"):
            if not a["given"]:
                a["given"] = True
                a["outcomes"] = [[x["name"], "Q1"] for x in m["factors"][:int(self.r2.integers(1, 3))]]
            if kind == "anchoring":
                a[self.pick(["ok", "bad_outcomes"])] = None
                a["bad_outcomes"] = a["bad_outcomes"] is None
                a["ok"] = a["ok"] is not None
            else:
                a[self.pick(["free_controls", "free_constant", "free_loadings"])] = "bad"
        elif kind == "meas_shape":
            f["meas_ok"] = False
        elif kind == "meas_name":
            f["bad_meas"].append([self.int(0, len(f["meas"]) - 1), self.pick(["1.5", "None", "2.25"])]) if f["meas"] else None
        else:
            n = f["norm"]
            n["given"] = True
            which = self.pick(["loadings", "intercepts"]) if kind != "norm_zero" else "loadings"
            x = n[which] = dict(n[which])
            x["given"] = True
            x["list"] = [list(d) for d in x["list"]]
            if kind == "norm_shape":
                x["ok"] = False
                return
            t = self.int(0, T - 1)
            if kind == "norm_beyond":
                t = len(f["meas"]) + self.int(0, 1)
            while len(x["list"]) <= t:
                x["list"].append([])
            here = f["meas"][t] if t < len(f["meas"]) else []
            named = [y for y, _ in x["list"][t]]
            val = num(self.pick([1.0, 2.0]))
            if kind == "norm_unknown":
                x["list"][t].append(["nobody", val])
            elif kind == "norm_zero":
                free = [y for y in here if y not in named]
                if free:
                    x["list"][t].append([free[0], num(0.0)])
                elif named:
                    x["list"][t][0][1] = num(0.0)
            else:
                pool = [y for g in m["factors"] for ys in g["meas"] for y in ys if y not in named]
                if pool:
                    x["list"][t].append([self.pick(pool), val])

    # ------------------------------------------------------------------ parameters
    def params(self, m):
        """Value for every parameter, keyed category|period|name1|name2."""
        T, K = n_periods(m), n_mixtures(m)
        lat = latent(m)
        allf = lat + m["observed"]["list"]
        out = {}
        for t, name, purpose, facs, _ in updates(m):
            for c in ["constant"] + m["controls"]["list"]:
                out[f"controls|{t}|{name}|{c}"] = self.n(0.5)
            for f in facs:
                v = self.u(0.5, 1.5) if purpose == "measurement" else self.u(0.6, 1.7)
                out[f"loadings|{t}|{name}|{f}"] = -v if self.flip(0.15) else v
            out[f"meas_sds|{t}|{name}|-"] = self.u(0.3, 1.2)
        for t in range(T - 1):
            for fac in m["factors"]:
                const = tname(fac) == "constant"
                out[f"shock_sds|{t}|{fac['name']}|-"] = 0.0 if const else self.u(0.1, 0.7)
        for k in range(K):
            for i, f in enumerate(lat):
                out[f"initial_states|0|mixture_{k}|{f}"] = self.n(0.7)
                for j in range(i + 1):
                    out[f"initial_cholcovs|0|mixture_{k}|{f}-{lat[j]}"] = self.u(0.3, 1.1) if i == j else self.n(0.3)
        w = self.r.dirichlet(np.ones(K) * self.pick([0.3, 2.0]))
        w = np.maximum(w, 1e-4)
        w = w / w.sum()
        for k in range(K):
            out[f"mixture_weights|0|mixture_{k}|-"] = float(w[k]) if K > 1 else 1.0
        for fac in m["factors"]:
            for t in range(T - 1):
                for name, v in self.trans_params(fac, allf).items():
                    out[f"transition|{t}|{fac['name']}|{name}"] = v
        if self.p["units"]:
            self.change_units(m, out, {f: self.pick(self.p["units"]) for f in lat})
        if self.p["p_special"] and self.flip(self.p["p_special"]):
            self.specialize(m, out)
        for t, name, purpose, facs, src in updates(m):
            s = self.scales(m).get(src)
            if s and purpose == "measurement":
                for key in out:
                    if key.startswith(f"controls|{t}|{name}|") or key.startswith(f"loadings|{t}|{name}|") or key == f"meas_sds|{t}|{name}|-":
                        out[key] *= s
        return out

    def change_units(self, m, out, unit):
        """The same model with latent factors on other scales (only for polynomial transitions)."""
        anchored = {f for f, _ in m["anchoring"]["outcomes"]}
        inner = {f: 1.0 if f in anchored else u for f, u in unit.items()}       # scale on which transitions are evaluated
        for key in out:
            cat, t, a, b = key.split("|")
            if cat == "loadings":
                out[key] /= unit[b]
            elif cat == "shock_sds":
                out[key] *= unit[a]
            elif cat == "initial_states":
                out[key] *= unit[b]
        names = latent(m)
        for k in range(n_mixtures(m)):
            for i, f in enumerate(names):
                for g in names[: i + 1]:
                    out[f"initial_cholcovs|0|mixture_{k}|{f}-{g}"] *= unit[f]
        for fac in m["factors"]:
            for key in out:
                cat, t, a, b = key.split("|")
                if cat == "transition" and a == fac["name"]:
                    out[key] *= inner[a]
                    for x in [b[:-5]] * 2 if b.endswith(" ** 2") else b.split(" * "):
                        out[key] /= inner.get(x, 1.0)

    SPECIAL = ["no loading", "negative sd", "no error", "no shock", "negative shock", "no variance", "negative diagonal", "no weight", "tiny error", "small loading"]

    def specialize(self, m, out):
        """Boundary values that an optimizer may try or a user may fix."""
        for kind in self.sample(self.p["special"] or self.SPECIAL, self.int(1, 2)):
            keys = {
                "no loading": [k for k in out if k.startswith("loadings")],
                "small loading": [k for k in out if k.startswith("loadings")],
                "negative sd": [k for k in out if k.startswith("meas_sds")],
                "tiny error": [k for k in out if k.startswith("meas_sds")],
                "no error": [k for k in out if k.startswith("meas_sds")],
                "no shock": [k for k in out if k.startswith("shock_sds")],
                "negative shock": [k for k in out if k.startswith("shock_sds")],
                "no variance": [f"initial_cholcovs|0|mixture_{k}|{f}-{f}" for k in range(n_mixtures(m)) for f in latent(m)],
                "negative diagonal": [f"initial_cholcovs|0|mixture_{k}|{f}-{f}" for k in range(n_mixtures(m)) for f in latent(m)],
                "no weight": [f"mixture_weights|0|mixture_{k}|-" for k in range(n_mixtures(m))],
            }[kind]
            if kind in ("no loading", "small loading"):     # anchoring divides by the loading of the outcome
                keys = [f"loadings|{t}|{n}|{f}" for t, n, purpose, facs, _ in updates(m) for f in facs if purpose == "measurement"]
            # the triangular root of a singular covariance matrix is not unique, and the
            # sigma points of nonlinear transitions depend on it
            if kind in ("no error", "no variance") and any(f["kind"] not in ("linear", "constant") for f in m["factors"]):
                continue
            if not keys or (kind == "no weight" and len(keys) == 1):
                continue
            key = self.pick(keys)
            if kind == "no weight":
                gone = out[key]
                for k in keys:
                    out[k] = 0.0 if k == key else out[k] / (1 - gone)
            else:
                out[key] = -out[key] if kind.startswith("negative") else 1e-3 if kind == "tiny error" else self.pick([0.04, -0.004, 0.0004]) if kind == "small loading" else 0.0

    def scales(self, m):
        """Variables with large or small units."""
        if not self.p["p_scale"]:
            return {}
        ups = updates(m)
        r = np.random.default_rng([len(repr(m)), len(ups)])
        skip = {src for _, _, purpose, _, src in ups if purpose != "measurement"} | set(m["controls"]["list"])
        return {v: [1e6, 1e-4, 1e9][int(r.integers(3))] for v in sorted({src for *_, src in ups} - skip) if r.random() < self.p["p_scale"]}

    def trans_params(self, fac, allf):
        k = fac["kind"]
        own = fac["name"]
        v = {}
        lin = {f: (self.u(0.4, 0.9) if f == own else self.n(0.25)) for f in allf}
        if k in ("linear", "translog", "robust_translog", "linear_and_squares"):
            v.update(lin)
            if k != "linear":
                for f in allf:
                    v[f"{f} ** 2"] = self.n(0.05)
            if k in ("translog", "robust_translog"):
                for i, a in enumerate(allf):
                    for b in allf[i + 1:]:
                        v[f"{a} * {b}"] = self.n(0.08)
            v["constant"] = self.n(0.3)
        elif k == "log_ces":
            g = self.r.dirichlet(np.ones(len(allf)))
            g = np.round(np.maximum(g, 0.02), 4)
            if self.flip(self.p["p_zero_share"]) and len(allf) > 1:
                g[self.int(0, len(allf) - 1)] = 0.0
            for f, x in zip(allf, g):
                v[f] = float(x)
            v["phi"] = self.pick([1, -1]) * self.u(0.2, 1.0)
            if self.r2.random() < 0.15:         # close to Cobb-Douglas
                total = sum(v[f] for f in allf)
                v.update({f: v[f] / total for f in allf}, phi=round(float(self.r2.choice([-1, 1]) * self.r2.uniform(0.002, 0.02)), 5))
        elif k == "log_ces_general":
            for f in allf:
                v[f] = self.u(0.1, 0.8)
            if self.flip(self.p["p_zero_share"]) and len(allf) > 1:
                v[self.pick(allf)] = 0.0
            for f in allf:
                v[f"sigma_{f}"] = self.n(0.5)
            v["tfp"] = self.u(0.3, 0.9)
        elif k == "custom":
            for q in fac["pnames"]:
                v[q] = self.n(0.4)
        return v

    # ------------------------------------------------------------------ data
    def taken(self, m, columns):
        """Unused columns with names that the package gives to variables of its own."""
        if self.r2.random() > 0.15:
            return []
        names = sorted({name for _, name, purpose, _, _ in updates(m) if purpose == "anchoring"}) + ["constant", "__old_id__"]
        return [x for x in names if x not in columns]

    def data(self, m):
        """Dataset plus the way it is presented (labels, order, index names)."""
        T = n_periods(m)
        N = self.int(*self.p["n_ids"])
        exotic = self.flip(self.p["exotic_data"])
        extra_periods = self.int(0, 2) if exotic and self.flip(0.4) else 0
        ids = sorted(int(x) for x in self.r.choice(30, size=N, replace=False)) if exotic else list(range(N))
        periods = sorted(int(x) for x in self.r.choice(40, size=T + extra_periods, replace=False)) if exotic else list(range(T))
        mvars = sorted({src for *_, src in updates(m)})
        controls, observed = m["controls"]["list"], m["observed"]["list"]
        columns = mvars + [c for c in controls if c not in mvars]
        columns += [c for c in observed if c not in columns]
        rows = {}
        shift = self.r.normal(size=len(columns))
        for a in ids:
            for b in periods:
                v = {}
                for j, col in enumerate(columns):
                    x = round(float(self.r.normal(shift[j] * 0.3, 1.0)), 4)
                    if col in controls and j % 2:
                        x = float(self.int(0, 3))
                    v[col] = x
                rows[a, b] = v
        kinds = {c: self.flip(self.p["p_discrete"]) for c in columns}
        for v in rows.values():
            for c in columns:
                if kinds[c]:                # values that coincide, and zeros
                    v[c] = float(round(v[c]))
        if self.flip(self.p["p_codes"]):    # numbers that often stand for missing values, but do not here
            for _ in range(self.int(1, 4)):
                rows[self.pick(list(rows))][self.pick(mvars)] = float(self.pick([999, -999, -99, 9999, -9, -1, 0, 99, 98, -88, 1e4]))
        if self.r2.random() < self.p["p_outlier"]:    # measurements far from anything the model expects
            for _ in range(int(self.r2.integers(1, 4))):
                key = list(rows)[int(self.r2.integers(len(rows)))]
                rows[key][mvars[int(self.r2.integers(len(mvars)))]] = round(float(self.r2.choice([-1, 1]) * 10 ** self.r2.uniform(1.6, 3.5)), 2)
        used = {}   # (period label, variable) -> needed as measurement
        for t, name, purpose, facs, src in updates(m):
            used[periods[t], src] = True
        for (a, b), v in rows.items():
            for col in columns:
                if col in observed and (b in periods[:T]):
                    continue
                if col in controls:
                    if self.flip(self.p["p_missing_control"]):
                        v[col] = float("nan")
                elif self.flip(self.p["p_missing"]):
                    v[col] = float("nan")
        if exotic or self.flip(0.3):
            for key in list(rows):
                if self.flip(self.p["p_missing_row"]) and not (observed and key[1] in periods[:T]):
                    del rows[key]
        # keep every individual and period
        for a in ids:
            if not any(k[0] == a for k in rows):
                rows[a, periods[0]] = {c: self.n(1.0) for c in columns}
        for t, b in enumerate(periods):
            if not any(k[1] == b for k in rows):
                rows[ids[0], b] = {c: self.n(1.0) for c in columns}
        if extra_periods and not observed and self.flip(0.5):
            # as many rows as a balanced panel of the model periods has, but not those
            for key in [list(rows)[i] for i in self.r.permutation(len(rows))]:
                if len(rows) > N * T and sum(k[0] == key[0] for k in rows) > 1 and sum(k[1] == key[1] for k in rows) > 1:
                    del rows[key]
        # an acceptable dataset: controls present and measurements vary in each period
        for t in range(T):
            b = periods[t]
            here = [k for k in rows if k[1] == b]
            for c in controls:
                if all(math.isnan(rows[k][c]) for k in here):
                    rows[here[0]][c] = self.n(1.0)
            for src in {s for tt, *_, s in updates(m) if tt == t}:
                vals = [rows[k][src] for k in here if not math.isnan(rows[k][src])]
                if len(set(vals)) == 1:
                    others = [k for k in here if math.isnan(rows[k][src])]
                    if others:
                        rows[others[0]][src] = round(vals[0] + 1.25, 4)
                    elif len(here) > 1:
                        rows[here[1]][src] = round(vals[0] + 1.25, 4)
                    elif src in controls:
                        rows[next(a for a in ids if (a, b) not in here), b] = {
                            c: self.n(1.0) if c in controls or c in observed else float("nan") for c in columns}
                    else:
                        rows[here[0]][src] = float("nan")
            for k in here:
                for o in observed:
                    if math.isnan(rows[k][o]):
                        rows[k][o] = self.n(1.0)
        for var, s in self.scales(m).items():
            for v in rows.values():
                v[var] *= s
        lst = [dict(id=a, period=b, v=v) for (a, b), v in sorted(rows.items())]
        py = self.presentation(len(lst), exotic)
        py["taken"] = self.taken(m, columns)
        return dict(columns=columns, rows=lst), py

    def presentation(self, n, exotic):
        """How the rows of a dataset are handed over."""
        return dict(
            order=[int(x) for x in self.r.permutation(n)] if exotic else list(range(n)),
            id_kind=self.pick(["int", "str", "float", "neg"]) if exotic else "int",
            period_kind=self.pick(["int", "year", "date", "neg"]) if exotic else "int",
            index_names=self.pick([["id", "period"], ["caseid", "wave"], ["period", "id"], [None, None]]) if exotic else ["id", "period"],
            extra=exotic and self.flip(0.5),
            superset=exotic and self.flip(0.3),
            period_col=exotic and self.flip(0.3),
        )

    def break_data(self, m, d, purpose):
        """Introduces one to three defects in place."""
        T = n_periods(m)
        nan = float("nan")
        for _ in range(self.pick([1, 1, 2, 3])):
            periods = sorted({r["period"] for r in d["rows"]})
            t = self.int(0, T - 1)
            here = [r for r in d["rows"] if r["period"] == periods[t]]
            ups = [u for u in updates(m) if u[0] == t]
            controls, observed = m["controls"]["list"], m["observed"]["list"]
            kind = self.pick(["drop", "control", "constant", "single", "observed", "observed", "row"])
            if kind == "drop":
                col = self.pick(d["columns"])
                if len(d["columns"]) == 1:
                    continue
                d["columns"].remove(col)
                for r in d["rows"]:
                    del r["v"][col]
            elif kind == "control" and controls:
                c = self.pick(controls)
                for r in here:
                    if c in r["v"]:
                        r["v"][c] = nan
            elif kind in ("constant", "single") and ups:
                y = self.pick(ups)[4]
                for k, r in enumerate(here):
                    if y in r["v"] and y not in controls + observed:
                        r["v"][y] = 1.5 if kind == "constant" and (k == 0 or self.flip(0.6)) or k == 0 else nan
            elif kind == "observed" and observed and here:
                o = self.pick(observed)
                r = self.pick(here)
                if o in r["v"]:
                    r["v"][o] = nan
            elif kind == "row" and len(here) > 1:
                r = self.pick(here)
                if sum(x["id"] == r["id"] for x in d["rows"]) > 1:
                    d["rows"].remove(r)


# ---------------------------------------------------------------------- small mirror of Model.tla, used only to
# generate meaningful inputs (never to judge)
def n_periods(m):
    return max(len(f["meas"]) for f in m["factors"])


def n_mixtures(m):
    for k, v in m["options"]["list"]:
        if k == "n_mixtures":
            return int(v)
    return 1


def latent(m):
    return [f["name"] for f in m["factors"]]


def tname(fac):
    return fac["cname"] if fac["kind"] == "custom" else fac["kind"]


def updates(m):
    out = []
    outcomes = dict(m["anchoring"]["outcomes"]) if m["anchoring"]["given"] else {}
    for t in range(n_periods(m)):
        seen = {}
        for f in m["factors"]:
            for y in f["meas"][t] if t < len(f["meas"]) else []:
                seen.setdefault(y, []).append(f["name"])
        for y, fs in seen.items():
            out.append((t, y, "measurement", list(dict.fromkeys(fs)), y))
        for f in latent(m):
            if f in outcomes:
                out.append((t, f"{outcomes[f]}_{f}", "anchoring", [f], outcomes[f]))
    return out


def history_data(base, hist):
    """One individual per enumerated history, and one more that makes every variable vary."""
    m = base["model"]
    ups = updates(m)
    obs = m["observed"]["list"]
    columns = sorted({u[4] for u in ups}) + obs
    rows = []
    for n, h in enumerate(hist + [None]):
        for t in range(n_periods(m)):
            v = {c: float("nan") for c in columns}
            for (tt, _, _, _, src), y in zip(ups, h["ys"] if h else [99.0] * len(ups)):
                if tt == t:
                    v[src] = float(y) if h else 0.37 + 0.1 * columns.index(src)
            for o in range(len(obs)):
                v[obs[o]] = float(h["os"][t][o]) if h else 0.2
            rows.append(dict(id=n, period=t, v=v))
    return dict(columns=columns, rows=rows), dict(order=list(range(len(rows))), id_kind="int", period_kind="int", index_names=["id", "period"])


def acceptable(m, d):
    """Is the dataset likely to be accepted (only used to choose cases)."""
    ids, periods = sorted({r["id"] for r in d["rows"]}), sorted({r["period"] for r in d["rows"]})[: n_periods(m)]
    cell = {(r["id"], r["period"]): r["v"] for r in d["rows"]}
    if len(periods) < n_periods(m):
        return False
    for t, p in enumerate(periods):
        here = [v for (_, b), v in cell.items() if b == p]
        for src in {u[4] for u in updates(m) if u[0] == t}:
            if len({v[src] for v in here} - {"nan"}) == 1:
                return False
        if any(all(v[c] == "nan" for v in here) for c in m["controls"]["list"]):
            return False
        if any((a, p) not in cell or cell[a, p][o] == "nan" for a in ids for o in m["observed"]["list"]):
            return False
    return True


def stringify(x):
    """All numbers of a dataset or parameter mapping as numerals."""
    if isinstance(x, dict):
        return {k: stringify(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [stringify(v) for v in x]
    if isinstance(x, float):
        return num(x)
    return x
