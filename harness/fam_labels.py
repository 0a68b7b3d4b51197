"""Parameter tables with missing or additional labels."""
import ast
import re

import concrete
import fam_filter
import gen
import observe as ob

FUNCTIONS = ["debug_loglike", "loglike", "gradient", "jacobian", "loglike_and_gradient"]


def named(text):
    """Keys of all (category, period, name1, name2) tuples in a message."""
    text = re.sub(r"np\.int\d+\((\d+)\)", r"\1", text)
    out = []
    for start in [i for i, ch in enumerate(text) if ch == "("]:
        for end in [i for i, ch in enumerate(text) if ch == ")" and i > start]:
            try:
                x = ast.literal_eval(text[start : end + 1])
            except (SyntaxError, ValueError):
                continue
            if isinstance(x, tuple) and len(x) == 4:
                out.append("|".join(map(str, x)))
            break
    return sorted(set(out))


def wrong_labels(g, p):
    p = dict(p)
    for _ in range(g.pick([1, 1, 2, 3, 0])):
        k = g.pick(list(p))
        cat, t, a, b = k.split("|")
        how = g.pick(["drop", "add", "rename", "category"])
        new = g.pick([f"{cat}|{int(t) + 7}|{a}|{b}", f"{cat}|{t}|{a}|nobody", f"{cat}|{t}|{b}|{a}", f"nothing|{t}|{a}|{b}", f"{cat}|{t}|{a}x|{b}"])
        if how == "drop":
            del p[k]
        elif how == "add":
            p[new] = 1.0
        elif how == "rename":
            del p[k]
            p[new] = 1.0
        elif len({x.split("|")[0] for x in p}) > 1:
            p = {x: v for x, v in p.items() if not x.startswith(cat + "|")}
    return p


def observe(job):
    from skillmodels.likelihood_function import get_maximization_inputs

    g = gen.Gen(job["seed"], **dict(job.get("profile", {}), p_typed=0))
    m = g.model()
    p = g.params(m)
    d, py = g.data(m)
    with ob.quiet():
        inp = get_maximization_inputs(concrete.model_dict(m), concrete.data_df(d, py))
    out = []
    for k in range(job.get("reps", 1)):
        q = wrong_labels(g, p)
        df = concrete.params_df(q)
        if g.flip(0.7):
            df = fam_filter.shuffle_rows(job["seed"] + k)(df)
        same = set(q) == set(p)
        obs = []
        for f in FUNCTIONS[:1] if same else FUNCTIONS:
            r = dict(name=f, error="", exception="", named=[])
            try:
                with ob.quiet():
                    inp[f](df)
            except Exception as e:   # noqa: BLE001
                r.update(error=ob.err(e), exception=type(e).__name__, named=named(str(e)))
            obs.append(r)
        rec = dict(id=f"{job['id']}.{k}", model=m, labels=list(q), obs=obs, cost=0.1)
        out.append(dict(module="TraceLabels", record=rec, kind="parameter table", features=["complete" if same else "wrong labels"]))
    return out
