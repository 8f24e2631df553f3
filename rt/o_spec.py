"""Runtime oracles for C09-C14 (params template, constraints, bounds, model checks, processing)."""
import copy

import numpy as np
import pandas as pd

from . import gen
from .core import Known, Skip, call, check, close, oracle, priv
from .o_filter import lik_case
from .ref import Ref

from skillmodels.likelihood_function import get_maximization_inputs
from skillmodels.process_model import process_model
from skillmodels.params_index import get_params_index


def pindex(m):
    mod = process_model(m)
    return mod, get_params_index(mod["update_info"], mod["labels"], mod["dimensions"], mod["transition_info"])


@oracle("C09", 40)
def template_complete_unique(rng):
    m = gen.gen_model(rng, transitions=gen.BUILTIN, simple_names=gen.coin(rng))
    mod, pi = pindex(m)
    exp = gen.params_labels(m)
    check(list(pi.names) == ["category", "period", "name1", "name2"], f"index level names {list(pi.names)}")
    got = [tuple(x) for x in pi]
    check(len(set(got)) == len(got), "duplicate rows in the params template")
    miss, add = set(exp) - set(got), set(got) - set(exp)
    check(not miss, f"missing parameters {sorted(map(str, miss))[:4]}")
    check(not add, f"additional parameters {sorted(map(str, add))[:4]}")


@oracle("C09", 6)
def rows_matched_by_label(rng):
    m, p, d = lik_case(rng, n_periods=2, n_latent=int(rng.integers(1, 3)), max_meas=1)
    mi = get_maximization_inputs(m, d)
    ix = mi["params_template"].index
    check(set(map(tuple, ix)) == set(gen.params_labels(m)) and len(ix) == len(set(ix)), "params template")
    a = mi["loglike"](p)
    q = p.sample(frac=1, random_state=int(rng.integers(1000)))
    b = mi["loglike"](q)
    close(a["contributions"], b["contributions"], "row order of params changes the result", 1e-10)
    close(mi["loglike_and_gradient"](q)[1], mi["loglike_and_gradient"](p)[1], "row order of params changes the gradient", 1e-9)
    before = q.copy()
    mi["loglike"](q)
    check(gen.unchanged(before, q), "params modified")


@oracle("C09", 12)
def invalid_params_rejected(rng):
    f = priv("likelihood_function", "_get_jnp_params_vec")
    m = gen.gen_model(rng, transitions=gen.BUILTIN)
    mod, pi = pindex(m)
    p = gen.gen_params(rng, m)
    v = np.array(call(f, p, target_index=pi))
    close(v, [p["value"].loc[x] for x in pi], "params vector is not matched by label")
    kind = gen.pick(rng, ["missing", "additional", "both"])
    bad = p
    gone = extra = None
    if kind in ("missing", "both"):
        k = int(rng.integers(len(p)))
        gone = tuple(p.index[k])
        bad = bad.drop(index=[gone])
    if kind in ("additional", "both"):
        extra = ("loadings", 0, "not_there", "f")
        bad = pd.concat([bad, pd.DataFrame({"value": [1.0]}, index=pd.MultiIndex.from_tuples([extra], names=p.index.names))])
    try:
        call(f, bad, target_index=pi)
    except ValueError as e:
        for lab in (gone, extra):
            if lab is not None:
                check(str(lab) in str(e), f"error message does not name {lab}: {str(e)[:200]}")
        return
    raise AssertionError(f"params with {kind} rows accepted")


# ---------------------------------------------------------------------------- C10
def sel(index, loc):
    """entries of the index that a loc selects (estimagic semantics)"""
    if isinstance(loc, str):
        loc = (loc,)
    if isinstance(loc, tuple):
        return [x for x in index if tuple(x[: len(loc)]) == loc]
    out = []
    for l in loc:
        got = [x for x in index if tuple(x[: len(l)]) == tuple(l)]
        if not got:
            raise KeyError(l)
        out += got
    return out


def canon(c, index):
    if "locs" in c:
        return (c["type"], tuple(tuple(sel(index, l)) for l in c["locs"]), None)
    s = sel(index, c["loc"])
    v = c.get("value")
    if v is not None:
        vs = list(np.broadcast_to(np.asarray(v, dtype=float), (len(s),)))
        s, v = zip(*sorted(zip(s, vs))) if s else ((), ())
        return (c["type"], tuple(s), tuple(float(x) for x in v))
    if c["type"] == "probability":
        s = sorted(s)
    return (c["type"], tuple(s), None)


def expected_constraints(m, index):
    d = gen.dims(m)
    out = []
    locs, vals = [], []
    for f in d["latent"]:
        n = m["factors"][f].get("normalizations", {})
        for t, nd in enumerate(n.get("loadings", [])):
            for v, x in nd.items():
                locs.append(("loadings", t, v, f))
                vals.append(float(x))
        for t, nd in enumerate(n.get("intercepts", [])):
            for v, x in nd.items():
                locs.append(("controls", t, v, "constant"))
                vals.append(float(x))
    if locs:
        l, v = zip(*sorted(zip(locs, vals)))
        out.append(("fixed", tuple(l), tuple(v)))
    mw = [x for x in index if x[0] == "mixture_weights"]
    if d["n_mixtures"] == 1:
        out.append(("fixed", tuple(mw), (1.0,)))
    else:
        out.append(("probability", tuple(sorted(mw)), None))
    sm = m.get("stagemap", list(range(d["n_periods"] - 1)))
    for s in sorted(set(sm)):
        ps = [t for t, x in enumerate(sm) if x == s]
        if len(ps) > 1:
            for cat in ("transition", "shock_sds"):
                tt = tuple(tuple(x for x in index if x[:2] == (cat, t)) for t in ps)
                if tt[0]:
                    out.append(("pairwise_equality", tt, None))
    for f in d["latent"]:
        spec = m["factors"][f]["transition_function"]
        name = spec if isinstance(spec, str) else spec.__name__
        for t in range(d["n_periods"] - 1):
            if name == "constant":
                out.append(("fixed", (("shock_sds", t, f, "-"),), (0.0,)))
            if name == "log_ces":
                out.append(("probability", tuple(sorted(("transition", t, f, g) for g in d["all"])), None))
    if d["n_mixtures"] > 1:
        out.append(("increasing", tuple(("initial_states", 0, f"mixture_{e}", d["latent"][0]) for e in range(d["n_mixtures"])), None))
    a = m.get("anchoring", {})
    anch = [u for u in gen.updates(m) if u[3] == "anchoring"]
    if anch:
        if not a.get("free_constant", False):
            out.append(("fixed", tuple(sorted(("controls", t, v, "constant") for t, v, _, _ in anch)), tuple(0.0 for _ in anch)))
        oc = d["controls"][1:]
        if not a.get("free_controls", False) and oc:
            out.append(("fixed", tuple(sorted(("controls", t, v, c) for t, v, _, _ in anch for c in oc)), tuple(0.0 for _ in range(len(anch) * len(oc)))))
        if not a.get("free_loadings", False):
            out.append(("fixed", tuple(sorted(("loadings", t, v, fs[0]) for t, v, fs, _ in anch)), tuple(1.0 for _ in anch)))
    return out


@oracle("C10", 60)
def constraints_exact(rng):
    from skillmodels.constraints import get_constraints

    m = gen.gen_model(
        rng, transitions=gen.BUILTIN, simple_names=gen.coin(rng), n_periods=gen.pick(rng, [None, None, int(rng.integers(4, 9))])
    )
    if m.get("stagemap") and gen.coin(rng, 0.4):  # long stages
        cut = int(rng.integers(0, len(m["stagemap"]) + 1))
        m["stagemap"] = [0] * cut + [int(cut > 0)] * (len(m["stagemap"]) - cut)
    mod, pi = pindex(m)
    got = call(
        get_constraints,
        dimensions=mod["dimensions"],
        labels=mod["labels"],
        anchoring_info=mod["anchoring"],
        update_info=mod["update_info"],
        normalizations=mod["normalizations"],
    )
    index = [tuple(x) for x in pi]
    ids = [c["id"] for c in got]
    check(len(set(map(str, ids))) == len(ids), f"constraint ids are not unique: {ids}")
    keys = []
    known = False
    for c in got:
        if c.get("type") == "pairwise_equality" and c["locs"][0][0] == "transition" and not any(x[0] == "transition" for x in index):
            known = True  # known finding D12: no factor has transition parameters
            continue
        try:
            k = canon(c, index)
        except KeyError as e:
            raise AssertionError(f"constraint {c.get('type')} selects parameters that do not exist: {e}")
        check(len(k[1]) > 0 and all(len(x) > 0 for x in k[1]), f"constraint {c['type']} with loc {c.get('loc', c.get('locs'))} selects nothing")
        keys.append(k)
    exp = expected_constraints(m, index)
    rest = list(keys)
    for e in exp:
        check(e in rest, f"missing constraint {str(e)[:300]}")
        rest.remove(e)
    check(not rest, f"additional constraint {str(rest[:1])[:300]}")
    if known:
        raise Known("D12")


@oracle("C10", 2)
def stage_constraints_without_transition_parameters(rng):
    from skillmodels.constraints import get_constraints

    m = {"factors": {"a": {"measurements": [["y"]] * 3, "transition_function": "constant"}}, "stagemap": [0, 0]}
    mod, pi = pindex(m)
    got = call(get_constraints, dimensions=mod["dimensions"], labels=mod["labels"], anchoring_info=mod["anchoring"], update_info=mod["update_info"], normalizations=mod["normalizations"])
    if any(c["type"] == "pairwise_equality" and c["locs"][0][0] == "transition" for c in got):
        raise Known("D12")


# ---------------------------------------------------------------------------- C11
@oracle("C11", 40)
def bounds_exact(rng):
    from skillmodels.constraints import add_bounds

    m = gen.gen_model(rng, simple_names=gen.coin(rng), transitions=gen.BUILTIN)
    mod, pi = pindex(m)
    p = gen.gen_params(rng, m)
    if gen.coin(rng):
        p = p.reindex(pi)
    prior = gen.coin(rng, 0.4)
    if prior:
        p["lower_bound"] = rng.normal(size=len(p))
        p["upper_bound"] = 10.0
    before = p.copy(deep=True)
    dist = float(gen.pick(rng, [0.0, 0.001, 0.1]))
    out = add_bounds(p, dist) if gen.coin(rng, 0.8) else add_bounds(p, bounds_distance=dist)
    check(gen.unchanged(before, p), "add_bounds modified its input")
    check(out.index.equals(p.index), "index of params changed")
    close(out["value"].to_numpy(), p["value"].to_numpy(), "values changed")
    lat = list(m["factors"])
    diag = {f"{f}-{f}" for f in lat}
    for k, lb in zip(out.index, out["lower_bound"]):
        restricted = k[0] in ("meas_sds", "shock_sds") or (k[0] == "initial_cholcovs" and k[3] in diag)
        exp = dist if restricted else (before["lower_bound"].loc[k] if prior else -np.inf)
        check(lb == exp, f"lower bound of {k} is {lb}, expected {exp}")
    if prior:
        check((out["upper_bound"] == 10).all(), "existing upper bounds changed")


@oracle("C11", 4)
def template_bounds(rng):
    m, p, d = lik_case(rng, n_periods=2)
    t = get_maximization_inputs(m, d)["params_template"]
    o = m.get("estimation_options", {})
    dist = o.get("bounds_distance", 1e-3) if o.get("robust_bounds", True) else 0
    diag = {f"{f}-{f}" for f in m["factors"]}
    for k, lb in zip(t.index, t["lower_bound"]):
        r = k[0] in ("meas_sds", "shock_sds") or (k[0] == "initial_cholcovs" and k[3] in diag)
        check(lb == (dist if r else -np.inf), f"lower bound of {k} is {lb}")


@oracle("C11", 2)
def bounds_of_ambiguous_cholesky_label(rng):
    hyphen_bounds(["b", "b-b-b"])


@oracle("C11", 12)
def bounds_of_hyphenated_factors(rng):
    """factor names with hyphens; D7: off-diagonal entries that look like diagonal ones"""
    hyphen_bounds([str(x) for x in rng.permutation(["non-cog", "b", "b-b-b", "x-y", "a"])[: int(rng.integers(1, 4))]])


def hyphen_bounds(names):
    from skillmodels.constraints import add_bounds

    m = {"factors": {f: {"measurements": [[f"y_{f}"]] * 2, "transition_function": "linear"} for f in names}}
    mod, pi = pindex(m)
    p = pd.DataFrame({"value": 0.0}, index=pi)
    out = add_bounds(p, 0.5)
    known = False
    for i, f in enumerate(names):
        for g in names[: i + 1]:
            lb = out.loc[("initial_cholcovs", 0, "mixture_0", f"{f}-{g}"), "lower_bound"]
            exp = 0.5 if f == g else -np.inf
            if lb != exp:
                if {f, g} == {"b", "b-b-b"}:
                    known = True
                    continue
                raise AssertionError(f"lower bound of Cholesky entry {f}-{g} is {lb}, expected {exp}")
    if known:
        raise Known("D7")


# ---------------------------------------------------------------------------- C12
def breakages(rng, m):
    """apply 1-3 rule violations; returns list of strings that the message must contain"""
    d = gen.dims(m)
    out = []
    lat = d["latent"]
    kinds = list(rng.permutation(["len", "gap", "jump", "start", "str", "flag", "outcomes", "outvar", "nofac", "meas", "measname", "norm_absent", "norm_late", "zero", "normlist"]))
    n = int(rng.integers(1, 4))
    used = set()
    for k in kinds[:n]:
        f = gen.pick(rng, lat)
        F = m["factors"][f]
        if k in ("len", "gap", "jump", "start", "str"):
            if "stage" in used:
                continue
            used.add("stage")
            nt = d["n_periods"] - 1
            if k == "len":
                m["stagemap"] = [0] * (nt + gen.pick(rng, [1, 2]) if gen.coin(rng) or nt < 2 else nt - 1)
            elif k == "gap" and nt >= 2:
                m["stagemap"] = [0] * (nt - 1) + [2]
            elif k == "jump" and nt >= 3:
                m["stagemap"] = [0, 1] + [0] * (nt - 2)
            elif k == "start":
                m["stagemap"] = [1] * nt
            elif k == "str":
                m["stagemap"] = ["early"] * nt
            else:
                m["stagemap"] = [1] * nt
            out.append("tage")
        elif k in ("flag", "outcomes", "outvar", "nofac"):
            if "anch" in used:
                continue
            used.add("anch")
            a = m.setdefault("anchoring", {"outcomes": {lat[0]: "Q1"}})
            if k == "flag":
                o = gen.pick(rng, ["free_controls", "free_constant", "free_loadings", "ignore_constant_when_anchoring"])
                a[o] = gen.pick(rng, [1, "yes", None])
                out.append("bool")
            elif k == "outcomes":
                a["outcomes"] = gen.pick(rng, [[(lat[0])], lat[0], None, 5])
                out.append("dict")
            elif k == "outvar":
                a["outcomes"] = dict(a["outcomes"])
                a["outcomes"][gen.pick(rng, list(a["outcomes"]))] = gen.pick(rng, [1.5, None])
                out.append("utcome")
            else:
                a["outcomes"] = {**a["outcomes"], "ghost": "Q9"}
                out.append("ghost")
        elif k in ("meas", "measname"):
            if f in used:
                continue
            used.add(f)
            if k == "meas":
                if not F["measurements"]:
                    continue
                if gen.coin(rng):
                    F["measurements"] = F["measurements"][:-1] + [tuple(F["measurements"][-1])]
                else:
                    nm = len(F["measurements"])
                    F["normalizations"] = {"loadings": [{v: 1 for v in ml[:1]} for ml in F["measurements"]]}
                    F["measurements"] = gen.pick(rng, [F["measurements"][:-1] + [None], [None] + F["measurements"][1:], {t: list(ml) for t, ml in enumerate(F["measurements"])}, {f"x{t}": ml for t, ml in enumerate(F["measurements"])}])
                    assert len(F["measurements"]) == nm
                out.append(f)
            else:
                t = int(rng.integers(len(F["measurements"])))
                F["measurements"][t] = F["measurements"][t] + [3.5]
                out += ["3.5", f]
        else:
            if f in used:
                continue
            used.add(f)
            nt = gen.pick(rng, ["loadings", "intercepts"])
            norm = F.setdefault("normalizations", {})
            nm = len(F["measurements"])
            if k == "norm_absent":
                t = int(rng.integers(nm))
                norm[nt] = [{} for _ in range(nm)]
                norm[nt][t] = {"ghost_var": 1}
                out += ["ghost_var", f, f"period {t}"]
            elif k == "norm_late":
                if nm >= d["n_periods"]:
                    norm[nt] = [{"ghost_var": 1}]
                    out += ["ghost_var", f]
                else:
                    v = next((x for ml in F["measurements"] for x in ml), None)
                    if v is None:
                        continue
                    norm[nt] = [{} for _ in range(nm)] + [{v: 1}]
                    out += [v, f, f"period {nm}"]
            elif k == "zero":
                ts = [t for t in range(nm) if F["measurements"][t]]
                if not ts:
                    continue
                t = gen.pick(rng, ts)
                v = gen.pick(rng, F["measurements"][t])
                norm["loadings"] = [{} for _ in range(nm)]
                norm["loadings"][t] = {v: gen.pick(rng, [0, 0.0])}
                out += [v, f, f"period {t}", "0"]
            else:
                norm[nt] = gen.pick(rng, [[["a"]], ({},), {"a": 1}])
                out.append(f)
    return out


@oracle("C12", 60)
def invalid_models_rejected(rng):
    m = gen.gen_model(rng)
    names = breakages(rng, m)
    if not names:
        raise Skip("no breakage")
    try:
        process_model(m)
    except ValueError as e:
        for n in names:
            check(n in str(e), f"error message does not mention {n!r}: {str(e)[:400]}")
        return
    except (TypeError, KeyError, AttributeError, IndexError, AssertionError) as e:
        raise AssertionError(f"{type(e).__name__} instead of ValueError for a model that breaks a rule ({names}): {e}")
    raise AssertionError(f"invalid model accepted, expected complaint about {names}")


@oracle("C12", 60)
def valid_models_accepted(rng):
    m = gen.gen_model(rng, transitions=gen.BUILTIN)
    if gen.coin(rng, 0.3):
        # edge cases that are allowed: zero intercept, explicit stagemap, empty dicts
        f = gen.pick(rng, list(m["factors"]))
        ml = m["factors"][f]["measurements"]
        t = [i for i, x in enumerate(ml) if x]
        if t:
            m["factors"][f]["normalizations"] = {"intercepts": [({ml[i][0]: 0} if i in t else {}) for i in range(len(ml))], "loadings": [({ml[i][-1]: -2} if i in t else {}) for i in range(len(ml))]}
    try:
        process_model(m)
    except ValueError as e:
        raise AssertionError(f"valid model rejected: {e}")


# ---------------------------------------------------------------------------- C13
@oracle("C13", 60)
def processed_model(rng):
    m = gen.gen_model(rng, transitions=gen.BUILTIN, simple_names=gen.coin(rng))
    some = {
        "clipping_lower_bound": gen.pick(rng, [-10.0, -3, None, -1e30]),
        "clipping_upper_bound": gen.pick(rng, [None, 5.0, 0, 1e250]),
        "clipping_lower_hardness": gen.pick(rng, [2, 0.5, 10.0]),
        "clipping_upper_hardness": gen.pick(rng, [3, 0.25, 7.5]),
        "bounds_distance": gen.pick(rng, [0.02, 0, 1e-6, 1.0]),
        "sigma_points_scale": gen.pick(rng, [1, 4.0, 0.1]),
    }
    for k, v in some.items():
        if gen.coin(rng, 0.3):
            m.setdefault("estimation_options", {})[k] = v
    before = gen.snapshot(m)
    mod = process_model(m)
    check(gen.unchanged(before, m), "the model dictionary was modified")
    d = gen.dims(m)
    D, L = mod["dimensions"], mod["labels"]
    exp = {
        "n_latent_factors": len(d["latent"]),
        "n_observed_factors": len(d["observed"]),
        "n_all_factors": len(d["all"]),
        "n_periods": d["n_periods"],
        "n_controls": len(d["controls"]),
        "n_mixtures": d["n_mixtures"],
    }
    for k, v in exp.items():
        check(D[k] == v, f"dimension {k} is {D[k]}, expected {v}")
    sm = m.get("stagemap", list(range(d["n_periods"] - 1)))
    expl = {
        "latent_factors": d["latent"],
        "observed_factors": d["observed"],
        "all_factors": d["all"],
        "controls": d["controls"],
        "periods": list(range(d["n_periods"])),
        "stagemap": sm,
        "stages": sorted(set(sm)),
        "transition_names": [m["factors"][f]["transition_function"] for f in d["latent"]],
    }
    for k, v in expl.items():
        check(list(L[k]) == list(v), f"labels {k} are {L[k]}, expected {v}")
    eo = {
        "sigma_points_scale": 2,
        "robust_bounds": True,
        "bounds_distance": 1e-3,
        "clipping_lower_bound": -1e250,
        "clipping_upper_bound": None,
        "clipping_lower_hardness": 1,
        "clipping_upper_hardness": 1,
    }
    eo.update(m.get("estimation_options", {}))
    if not eo["robust_bounds"]:
        eo["bounds_distance"] = 0
    for k, v in eo.items():
        check(mod["estimation_options"].get(k, "absent") == v, f"estimation option {k} is {mod['estimation_options'].get(k)}, expected {v}")
    ao = {
        "anchoring": "anchoring" in m,
        "outcomes": {},
        "free_controls": False,
        "free_constant": False,
        "free_loadings": False,
        "ignore_constant_when_anchoring": False,
    }
    ao.update(m.get("anchoring", {}))
    ao["anchoring"] = "anchoring" in m
    for k, v in ao.items():
        check(mod["anchoring"][k] == v, f"anchoring option {k} is {mod['anchoring'][k]}, expected {v}")
    check(set(mod["anchoring"]["factors"]) == set(ao["outcomes"]), "anchored factors")
    for f in d["latent"]:
        n = m["factors"][f].get("normalizations", {})
        for nt in ("loadings", "intercepts"):
            c = n.get(nt, [])
            e = list(c) + [{}] * (d["n_periods"] - len(c))
            check(mod["normalizations"][f][nt] == e, f"normalizations {nt} of {f}: {mod['normalizations'][f][nt]} != {e}")


# ---------------------------------------------------------------------------- C14
@oracle("C14", 80)
def update_table(rng):
    m = gen.gen_model(rng, simple_names=gen.coin(rng), n_latent=int(rng.integers(1, 5)), n_periods=int(rng.integers(2, 5)))
    if gen.coin(rng, 0.5):  # measurement shared by several factors
        lat = list(m["factors"])
        t = int(rng.integers(gen.dims(m)["n_periods"]))
        for f in lat:
            ml = m["factors"][f]["measurements"]
            if t < len(ml) and gen.coin(rng, 0.7):
                ml[t] = list(ml[t])
                ml[t].insert(int(rng.integers(len(ml[t]) + 1)), "both")
    if gen.coin(rng, 0.3):  # a period without measurements of the first factor
        f = list(m["factors"])[0]
        ml = m["factors"][f]["measurements"]
        ml[int(rng.integers(len(ml)))] = []
        m["factors"][f].pop("normalizations", None)
    mod = process_model(m)
    ui = mod["update_info"]
    exp = gen.updates(m)
    got = [tuple(x) for x in ui.index]
    check(len(set(got)) == len(got), "duplicate rows in the update table")
    check(got == [(t, v) for t, v, _, _ in exp], f"rows of the update table {got}, expected {[(t, v) for t, v, _, _ in exp]}")
    lat = list(m["factors"])
    check(list(ui.columns) == lat + ["purpose"], f"columns {list(ui.columns)}")
    for (t, v, fs, purpose), (_, row) in zip(exp, ui.iterrows()):
        check(row["purpose"] == purpose, f"purpose of {(t, v)} is {row['purpose']}")
        for f in lat:
            check(bool(row[f]) == (f in fs), f"entry of {f} in row {(t, v)} is {row[f]}")
    for f in lat:
        check(ui[f].dtype == bool, f"column {f} is not boolean")
