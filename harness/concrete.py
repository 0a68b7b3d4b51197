"""Abstract model, parameters and data -> the objects skillmodels takes."""
import keyword
import zlib

import numpy as np
import pandas as pd

def enc(name):
    """Names of measurements may be numbers or tuples."""
    if name[:1] + name[-1:] == "()" or name.isdigit() and len(name) > 2:
        return eval(name)
    return name


TRUTH = {"true": True, "false": False}
NOT_BOOLS = ["no", 1, 0, None, 1.0, "True", [], 2]


def pick(seq, *key):
    """A fixed choice for every key."""
    return seq[zlib.crc32(repr(key).encode()) % len(seq)]


def wrong_measurements(lst, name):
    """Not a list of lists: as a whole, in every entry or in one of them."""
    how = pick(["whole", "all", "one", "one", "one"], name, lst, "wrong")
    if how == "whole" or not lst:
        return tuple(lst)
    t = pick(range(len(lst)), name, lst)
    as_other = pick([tuple, tuple, set, lambda x: "y1"], name, len(lst))
    return [as_other(x) if how == "all" or i == t else x for i, x in enumerate(lst)]


def wrong_normalizations(lst):
    """Not a list of dictionaries."""
    how = pick(["whole", "all", "more", "one", "one"], lst, "wrong")
    if how == "whole":
        return tuple(lst)
    if how == "all":
        return [list(d) for d in lst] + [["x"]]
    if how == "one" and lst:
        t = pick(range(len(lst)), lst)
        return [list(d.items()) if i == t else d for i, d in enumerate(lst)]
    return lst + [["x"]]


def model_dict(m):
    from skillmodels.decorators import register_params

    out = {"factors": {}}
    allf = [f["name"] for f in m["factors"]] + m["observed"]["list"]
    funcs = {}      # factors with the same function share the object
    for f in m["factors"]:
        spec = {"measurements": [[enc(y) for y in x] for x in f["meas"]]}
        for t, bad in f["bad_meas"]:
            spec["measurements"][t].append(eval(bad))
        if not f["meas_ok"]:
            spec["measurements"] = wrong_measurements(spec["measurements"], f["name"])
        norm = f["norm"]
        if norm["given"]:
            spec["normalizations"] = {}
            for k in ("loadings", "intercepts"):
                if norm[k]["given"]:
                    lst = [{enc(y): float(v) for y, v in d} for d in norm[k]["list"]]
                    if not norm[k]["ok"]:
                        lst = wrong_normalizations(lst)
                    spec["normalizations"][k] = lst
        spec["transition_function"] = f["kind"]
        if f["kind"] == "custom":
            key = repr((f["cname"], f["pnames"], f["terms"]))
            if key not in funcs:
                funcs[key] = custom_function(f, allf, register_params)
            spec["transition_function"] = funcs[key]
        out["factors"][f["name"]] = spec
    if m["observed"]["given"]:
        out["observed_factors"] = list(m["observed"]["list"])
    if m["controls"]["given"]:
        out["controls"] = list(m["controls"]["list"])
    if m["stagemap"]["given"]:
        out["stagemap"] = list(m["stagemap"]["list"])
    a = m["anchoring"]
    if a["given"]:
        d = {"outcomes": {f: enc(o) for f, o in a["outcomes"]}}
        if a["bad_outcomes"]:
            k = zlib.crc32(repr(a["outcomes"]).encode())    # one of them
            d["outcomes"][list(d["outcomes"])[k % len(d["outcomes"])]] = [1.5, None, 2.25][k // 7 % 3]
        if not a["ok"]:
            d["outcomes"] = list(d["outcomes"].items())
        for k, name in [("free_controls", "free_controls"), ("free_constant", "free_constant"),
                        ("free_loadings", "free_loadings"), ("ignore_constant", "ignore_constant_when_anchoring")]:
            if a[k] != "unset":
                d[name] = pick(NOT_BOOLS, k, a["outcomes"], len(m["factors"])) if a[k] == "bad" else TRUTH[a[k]]
        out["anchoring"] = d
    if m["options"]["given"]:
        out["estimation_options"] = {k: option_value(v) for k, v in m["options"]["list"]}
    return out


def option_value(v):
    if v in TRUTH:
        return TRUTH[v]
    if v == "none":
        return None
    x = float(v)
    return int(x) if x == int(x) and "." not in v else x


def custom_function(f, allf, register_params):
    """A registered function; factors are arguments where their name allows it, else entries of states."""
    used = []
    for term in f["terms"]:
        for g in term["factors"]:
            if g not in used:
                used.append(g)
    def ok(s):
        return s.isidentifier() and not keyword.iskeyword(s) and s not in ("params", "states", "jnp")
    args = [g for g in reversed(used) if ok(g)]
    ref = {g: (g if ok(g) else f"states[{allf.index(g)}]") for g in used}
    if len(args) > 1 and len(f["terms"]) % 2 == 0:   # mixed access
        g = args.pop()
        ref[g] = f"states[{allf.index(g)}]"
    parts = []
    for term in f["terms"]:
        prod = " * ".join(ref[g] for g in term["factors"]) or "1.0"
        if term["exp"]:
            prod = f"jnp.exp(0.1 * {prod})"
        parts.append(f"params[{term['par']!r}] * ({prod})" if term["par"] else f"({prod})")
    if any("states[" in p for p in parts):
        args.insert(len(args) // 2, "states")
    args.append("params")
    body = " + ".join(parts)
    ns = {}
    exec(f"import jax.numpy as jnp\ndef {f['cname']}({', '.join(args)}):\n    return {body}\n", ns)
    return register_params(ns[f["cname"]], params=list(f["pnames"]))


def tuples(params):
    out = []
    for k in params:
        cat, t, a, b = k.split("|")
        out.append((cat, int(t), enc(a) if cat in ("controls", "loadings", "meas_sds") else a, b))
    return out


def params_df(params, index=None):
    """DataFrame in the order of index (default: order of params)."""
    idx = pd.MultiIndex.from_tuples(tuples(params), names=["category", "period", "name1", "name2"])
    df = pd.DataFrame({"value": [float(v) for v in params.values()]}, index=idx)
    if index is not None:
        df = df.reindex(index)
    return df


def label(kind, x):
    """Order preserving labels for integer codes."""
    return {
        "int": lambda: x,
        "str": lambda: f"p{x:03d}",
        "float": lambda: x + 0.5,
        "neg": lambda: x - 17,
        "year": lambda: 1990 + x,
        "date": lambda: pd.Timestamp("2001-03-01") + pd.Timedelta(days=13 * x),
    }[kind]()


def data_df(data, py):
    rows = [data["rows"][i] for i in py["order"] if i < len(data["rows"])]
    idx = pd.MultiIndex.from_arrays(
        [[label(py["id_kind"], r["id"]) for r in rows], [label(py["period_kind"], r["period"]) for r in rows]],
        names=py["index_names"],
    )
    cols = [enc(c) for c in data["columns"]]
    df = pd.DataFrame({j: [float(r["v"][c]) for r in rows] for j, c in enumerate(data["columns"])}, index=idx)
    df.columns = pd.Index(cols, tupleize_cols=False)
    for c in cols:       # integer columns stay integer
        if len(df) and df[c].notna().all() and (df[c] == df[c].round()).all():
            df[c] = df[c].astype(int)
    if py.get("extra"):
        df["some text"] = "abc"
        df.insert(0, "unused", np.arange(len(df)) * 1.5)
    if py.get("period_col"):        # columns named like the index levels the package uses internally
        df["period"] = (np.arange(len(df)) * 7) % 5
        df["id"] = 3
    for j, c in enumerate(py.get("taken", [])):
        df[c] = np.arange(len(df)) * 0.5 - j
    if py.get("superset"):
        # selected from a larger dataset, with unused index levels
        ids = [label(py["id_kind"], 40), label(py["id_kind"], -1)]
        more = df.iloc[:1].copy()
        parts = [df]
        for a in ids:
            x = more.copy()
            x.index = pd.MultiIndex.from_tuples([(a, label(py["period_kind"], -1))], names=df.index.names)
            parts.insert(0, x)
        big = pd.concat(parts)
        keep = ~big.index.get_level_values(0).isin(ids)
        df = big[keep]
    return df
