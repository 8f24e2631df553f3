"""Random model specifications, data sets and parameters (inputs of the runtime contracts)."""
import copy

import numpy as np
import pandas as pd

BUILTIN = ["linear", "translog", "linear_and_squares", "robust_translog", "log_ces", "log_ces_general", "constant"]
SMOOTH = ["linear", "translog", "linear_and_squares", "robust_translog", "constant"]
NAMEPOOL = ["cog", "non_cog", "inv", "health", "a", "zz", "b2", "Fac 1", "skill"]


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def coin(rng, p=0.5):
    return bool(rng.random() < p)


def gen_model(
    rng,
    n_periods=None,
    n_latent=None,
    n_observed=None,
    n_controls=None,
    n_mixtures=None,
    anchoring=None,
    transitions=SMOOTH,
    normalizations=None,
    stagemap=None,
    shared=True,
    uneven=True,
    max_meas=2,
    simple_names=True,
    options=None,
):
    # now and then one dimension is large (two digit labels, more than a handful of elements)
    big = pick(rng, [None] * 20 + ["per", "lat", "mix", "ctr", "meas"])
    nper = n_periods or (int(rng.integers(5, 12)) if big == "per" else int(rng.integers(2, 5)))
    nlat = n_latent or (int(rng.integers(4, 6)) if big == "lat" else int(rng.integers(1, 4)))
    nobs = int(rng.integers(0, 3)) if n_observed is None else n_observed
    nctr = (3 if big == "ctr" else int(rng.integers(0, 3))) if n_controls is None else n_controls
    nmix = (pick(rng, [4, 5, 11]) if big == "mix" else int(rng.integers(1, 4))) if n_mixtures is None else n_mixtures
    if big == "meas":
        max_meas = 4 * max_meas
    pool = [n for n in NAMEPOOL if not simple_names or n.isidentifier()]
    names = list(rng.permutation(pool))
    latent = [str(n) for n in names[:nlat]]
    observed = [f"obs_{n}" for n in rng.permutation(["u", "t", "s"])[:nobs]]
    controls = [f"{n}" for n in rng.permutation(["x2", "x1", "age"])[:nctr]]
    reuse = coin(rng)  # measurement names reused across periods?
    factors = {}
    all_meas = [set() for _ in range(nper)]
    for k, f in enumerate(latent):
        n = nper
        if uneven and k > 0 and nper > 1 and coin(rng, 0.25):
            n = int(rng.integers(1, nper + 1))
        meas = []
        for t in range(n):
            m = int(rng.integers(1 if k == 0 else 0, max_meas + 1))
            cand = [f"y{j}_{k}" if reuse else f"{pick(rng, 'pqr')}{j}_{k}_{t}" for j in rng.permutation(max_meas + 1)[:m]]
            if shared and k > 0 and coin(rng, 0.3) and all_meas[t]:
                c = pick(rng, sorted(all_meas[t]))
                cand.insert(int(rng.integers(0, len(cand) + 1)), c)
            meas.append(cand)
            all_meas[t].update(cand)
        trans = pick(rng, transitions)
        if not f.isidentifier() and trans == "constant":
            trans = "linear"  # the constant function needs a python identifier
        factors[f] = {"measurements": meas, "transition_function": trans}
        if normalizations or (normalizations is None and coin(rng, 0.5)):
            norm = {}
            if coin(rng, 0.8):
                norm["loadings"] = [
                    ({pick(rng, ml): pick(rng, [1, 1.5, 0.7])} if ml and coin(rng, 0.7) else {}) for ml in meas
                ][: int(rng.integers(1, n + 1))]
            if coin(rng, 0.7):
                norm["intercepts"] = [
                    ({pick(rng, ml): pick(rng, [0, 0.3, -1])} if ml and coin(rng, 0.7) else {}) for ml in meas
                ][: int(rng.integers(1, n + 1))]
            factors[f]["normalizations"] = norm
    # dict order: the factor with measurements everywhere need not come first
    order = [str(x) for x in rng.permutation(latent)]
    model = {"factors": {f: factors[f] for f in order}}
    if nobs or coin(rng, 0.2):
        model["observed_factors"] = observed
    if nctr or coin(rng, 0.2):
        model["controls"] = controls
    if anchoring or (anchoring is None and coin(rng, 0.5)):
        k = int(rng.integers(1, nlat + 1))
        af = [str(x) for x in rng.permutation(latent)[:k]]
        same_outcome = coin(rng, 0.3)
        anch = {"outcomes": {f: ("Q1" if same_outcome else f"Q{i}") for i, f in enumerate(af)}}
        for o in ["free_controls", "free_constant", "free_loadings", "ignore_constant_when_anchoring"]:
            if coin(rng, 0.6):
                anch[o] = coin(rng)
        model["anchoring"] = anch
    if stagemap or (stagemap is None and coin(rng, 0.5)):
        s, cur = [], 0
        for t in range(nper - 1):
            if t and coin(rng):
                cur += 1
            s.append(cur)
        model["stagemap"] = s
    opts = {}
    if nmix > 1 or coin(rng):
        opts["n_mixtures"] = nmix
    if coin(rng, 0.3):
        opts["sigma_points_scale"] = float(pick(rng, [1.0, 2.0, 0.5, 3.0]))
    if coin(rng, 0.3):
        opts["bounds_distance"] = float(pick(rng, [0.01, 0.1, 0.0]))
    if coin(rng, 0.3):
        opts["robust_bounds"] = coin(rng)
    if options:
        opts.update(options)
    if opts or coin(rng):
        model["estimation_options"] = opts
    return model


def dims(model):
    lat = list(model["factors"])
    obs = list(model.get("observed_factors", []))
    nper = max(len(f["measurements"]) for f in model["factors"].values())
    return {
        "latent": lat,
        "observed": obs,
        "all": lat + obs,
        "controls": ["constant"] + list(model.get("controls", [])),
        "n_periods": nper,
        "n_mixtures": model.get("estimation_options", {}).get("n_mixtures", 1),
    }


def updates(model):
    """[(period, variable, [factors], purpose)] from the statement of C14"""
    d = dims(model)
    out = []
    outcomes = model.get("anchoring", {}).get("outcomes", {})
    for t in range(d["n_periods"]):
        rows = {}
        for f in d["latent"]:
            ml = model["factors"][f]["measurements"]
            for m in ml[t] if t < len(ml) else []:
                rows.setdefault(m, []).append(f)
        out += [(t, m, fs, "measurement") for m, fs in rows.items()]
        out += [(t, f"{outcomes[f]}_{f}", [f], "anchoring") for f in d["latent"] if f in outcomes]
    return out


def param_names(kind, allf):
    n = len(allf)
    inter = [f"{allf[i]} * {allf[j]}" for i in range(n) for j in range(i + 1, n)]
    sq = [f"{f} ** 2" for f in allf]
    return {
        "linear": allf + ["constant"],
        "translog": allf + sq + inter + ["constant"],
        "robust_translog": allf + sq + inter + ["constant"],
        "linear_and_squares": allf + sq + ["constant"],
        "log_ces": allf + ["phi"],
        "log_ces_general": allf + [f"sigma_{f}" for f in allf] + ["tfp"],
        "constant": [],
    }[kind]


def transition_names(model, f):
    spec = model["factors"][f]["transition_function"]
    if callable(spec):
        return list(spec.__registered_params__)
    return param_names(spec, dims(model)["all"])


def params_labels(model):
    """the set of labels of C09 (as a list)"""
    d = dims(model)
    ups = updates(model)
    out = []
    for t, v, fs, _ in ups:
        out += [("controls", t, v, c) for c in d["controls"]]
        out += [("loadings", t, v, f) for f in fs]
        out.append(("meas_sds", t, v, "-"))
    for t in range(d["n_periods"] - 1):
        for f in d["latent"]:
            out.append(("shock_sds", t, f, "-"))
            out += [("transition", t, f, n) for n in transition_names(model, f)]
    for m in range(d["n_mixtures"]):
        out.append(("mixture_weights", 0, f"mixture_{m}", "-"))
        for i, f in enumerate(d["latent"]):
            out.append(("initial_states", 0, f"mixture_{m}", f))
            for g in d["latent"][: i + 1]:
                out.append(("initial_cholcovs", 0, f"mixture_{m}", f"{f}-{g}"))
    return out


def gen_params(rng, model, scale=0.4, zero_var=False, columns=False):
    """DataFrame with parameters in random row order"""
    labels = params_labels(model)
    vals = {}
    d = dims(model)
    w = rng.uniform(0.2, 1, size=d["n_mixtures"])
    w = w / w.sum()
    for lab in labels:
        cat = lab[0]
        if cat in ("meas_sds", "shock_sds"):
            v = 0.0 if zero_var else rng.uniform(0.3, 1.2)
        elif cat == "mixture_weights":
            v = w[int(lab[2].split("_")[1])]
        elif cat == "initial_cholcovs":
            f, g = _split_chol(lab[3], d["latent"])
            if zero_var:
                v = 0.0
            else:
                v = rng.uniform(0.4, 1.2) if f == g else rng.normal() * 0.4
        elif cat == "transition":
            spec = model["factors"][lab[2]]["transition_function"]
            n = lab[3]
            if spec in ("log_ces", "log_ces_general") and n not in ("phi",) and not n.startswith("sigma_"):
                v = rng.uniform(0.1, 0.9)
            elif spec in ("log_ces",) and n == "phi":
                v = rng.uniform(0.3, 1.0) * (1 if rng.random() < 0.5 else -1)
            elif "**" in n or "*" in n:
                v = rng.normal() * 0.15
            else:
                v = rng.normal() * scale
        elif cat == "loadings":
            v = rng.uniform(0.4, 1.5) * (1 if rng.random() < 0.8 else -1)
        else:
            v = rng.normal() * 0.7
        vals[lab] = float(v)
    order = rng.permutation(len(labels))
    labs = [labels[i] for i in order]
    ix = pd.MultiIndex.from_tuples(labs, names=["category", "period", "name1", "name2"])
    df = pd.DataFrame({"value": [vals[l] for l in labs]}, index=ix)
    if columns:
        df["extra"] = rng.normal(size=len(df))
    return df


def _split_chol(name, latent):
    for f in latent:
        for g in latent:
            if name == f"{f}-{g}":
                return f, g
    raise KeyError(name)


def data_columns(model):
    d = dims(model)
    cols = []
    for f in d["latent"]:
        for ml in model["factors"][f]["measurements"]:
            cols += ml
    cols += list(model.get("anchoring", {}).get("outcomes", {}).values())
    cols += d["controls"][1:] + d["observed"]
    return list(dict.fromkeys(cols))


def gen_data(
    rng,
    model,
    n_obs=None,
    missing=0.15,
    drop_rows=0.0,
    extra_periods=False,
    shuffle=True,
    ids="mixed",
    first_period=None,
    control_missing=0.0,
):
    """long data set; returns DataFrame (MultiIndex id, period)"""
    d = dims(model)
    n = n_obs or int(rng.integers(3, 7))
    nper = d["n_periods"] + (int(rng.integers(1, 3)) if extra_periods else 0)
    if ids == "mixed":
        ids = pick(rng, ["int", "gap", "str"])
    if ids == "int":
        idv = list(range(n))
    elif ids == "gap":
        idv = sorted(int(x) for x in rng.choice(np.arange(100, 999), size=n, replace=False))
    else:
        idv = sorted("p" + str(int(x)) for x in rng.choice(np.arange(10, 999), size=n, replace=False))
    if first_period is None:
        first_period = int(rng.integers(0, 4))
    step = pick(rng, [1, 1, 2])
    periods = [first_period + step * t for t in range(nper)]
    ix = pd.MultiIndex.from_product([idv, periods], names=["caseid", "year"])
    cols = data_columns(model) + ["unused"]
    df = pd.DataFrame(rng.normal(size=(len(ix), len(cols))), index=ix, columns=cols)
    meas = [c for c in cols if c not in d["controls"] and c not in d["observed"]]
    pair = rng.choice(n, size=2, replace=False)
    if missing:
        mask = rng.random((len(df), len(meas))) < missing
        # keep at least two observed values per period and variable
        for t in range(nper):
            rows = np.arange(len(df))[t::nper]
            mask[rows[pair]] = False
        vals = df[meas].to_numpy(copy=True)
        vals[mask] = np.nan
        df[meas] = vals
    if control_missing and len(d["controls"]) > 1:
        for c in d["controls"][1:]:
            m = rng.random(len(df)) < control_missing
            for t in range(nper):
                rows = np.arange(len(df))[t::nper]
                m[rng.choice(rows)] = False
            df.loc[m, c] = np.nan
    if drop_rows and not d["observed"]:
        keep = np.ones(len(df), bool)
        for i in range(len(df)):
            if rng.random() < drop_rows and i % nper != 0 and i // nper not in pair:
                keep[i] = False
        df = df[keep]
    df = df[list(rng.permutation(df.columns))]
    if shuffle:
        how = pick(rng, ["random", "random", "by_period", "reversed", "reversed_in_id", "sorted"])
        if how == "random":
            df = df.iloc[rng.permutation(len(df))]
        elif how == "by_period":
            df = df.sort_index(level=[1, 0])
        elif how == "reversed":
            df = df.iloc[::-1]
        elif how == "reversed_in_id":
            df = df.sort_index(level=[0, 1], ascending=[True, False])
    return df


def snapshot(obj):
    """deep structural copy to check that inputs are not modified"""
    return copy.deepcopy(obj)


def unchanged(before, after):
    if isinstance(before, pd.DataFrame):
        return (
            before.index.equals(after.index)
            and list(before.columns) == list(after.columns)
            and list(before.index.names) == list(after.index.names)
            and before.equals(after)
        )
    if isinstance(before, dict):
        return (
            isinstance(after, dict)
            and list(before) == list(after)
            and all(unchanged(before[k], after[k]) for k in before)
        )
    if isinstance(before, (list, tuple)):
        return type(before) is type(after) and len(before) == len(after) and all(unchanged(a, b) for a, b in zip(before, after))
    if isinstance(before, (pd.Series, pd.Index)):
        return before.equals(after)
    if isinstance(before, np.ndarray):
        return np.array_equal(before, after, equal_nan=before.dtype.kind == "f")
    if callable(before):
        return before is after or getattr(before, "__name__", 0) == getattr(after, "__name__", 1)
    if isinstance(before, float) and before != before:
        return after != after
    return before == after
