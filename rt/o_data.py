"""Runtime oracles for C15-C21 (data, transition functions, simulation, debug tables, reductions)."""
import copy
import warnings

import numpy as np
import pandas as pd
import jax
import jax.numpy as jnp

jax.config.update("jax_enable_x64", True)

from . import gen
from .core import Known, Skip, call, check, close, oracle, priv
from .ref import Ref, RefData, transition_value

import skillmodels.process_data as pdm
import skillmodels.transition_functions as tf
from skillmodels.decorators import register_params
from skillmodels.likelihood_function import get_maximization_inputs
from skillmodels.process_model import process_model


def data_case(rng, control_missing=0.0, **kw):
    m = gen.gen_model(rng, transitions=["linear"], **kw)
    d = gen.gen_data(
        rng,
        m,
        n_obs=int(rng.integers(3, 8)),
        extra_periods=gen.coin(rng, 0.4),
        drop_rows=gen.pick(rng, [0, 0.2]),
        control_missing=control_missing,
    )
    return m, d


def run_process(m, d, **kw):
    mod = process_model(m)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = call(pdm.process_data, d, mod["labels"], mod["update_info"], mod["anchoring"], **kw)
    msgs = [str(x.message) for x in w if "NaN" in str(x.message)]
    return mod, [np.array(x) for x in out], msgs


def check_arrays(m, d, out, rd):
    meas, ctrl, obs = out
    n = len(rd.ids)
    K, T = len(rd.ups), rd.d["n_periods"]
    check(meas.shape == (K, n), f"measurement array has shape {meas.shape}, expected {(K, n)}")
    check(ctrl.shape == (T, n, len(rd.d["controls"])), f"shape of controls {ctrl.shape}")
    check(obs.shape == (T, n, len(rd.d["observed"])), f"shape of observed factors {obs.shape}")
    for k, u in enumerate(rd.ups):
        for i in range(n):
            close(meas[k, i], rd.measurement(i, u), f"measurement {u[1]} of period {u[0]}, individual {rd.ids[i]}", 0, 0)
    for t in range(T):
        for i in range(n):
            e = rd.controls(i, t)
            if (i, t) in rd.wiped:
                close(ctrl[t, i, 1:], e[1:], f"controls of period {t}, individual {rd.ids[i]}", 0, 0)
            else:
                close(ctrl[t, i, 1:], e[1:], f"controls of period {t}, individual {rd.ids[i]}", 0, 0)
                if (i, t) in rd.rows:
                    check(ctrl[t, i, 0] == 1, "constant is not 1")
            if rd.d["observed"]:
                close(obs[t, i], rd.observed(i, t), f"observed factors of period {t}, individual {rd.ids[i]}", 0, 0)


@oracle("C15", 30)
def arrays_aligned(rng):
    m, d = data_case(rng, control_missing=gen.pick(rng, [0, 0, 0.1]))
    before = d.copy(deep=True)
    mod, out, _ = run_process(m, d)
    check(gen.unchanged(before, d), "the data set was modified")
    rd = RefData(d, m)
    check_arrays(m, d, out, rd)
    # row order, column order and unused levels do not matter
    d2 = d.iloc[rng.permutation(len(d))][list(rng.permutation(d.columns))]
    big = pd.concat([d2, d2.rename(index={rd.ids[0]: rd.ids[0]})]).iloc[: len(d2)]
    d3 = d2.copy()
    lv0, lv1 = rd.ids, rd.pers
    extra0 = ["zzz"] + list(lv0) if isinstance(lv0[0], str) else [-5] + list(lv0)
    d3.index = pd.MultiIndex(
        levels=[sorted(extra0), sorted([-7] + list(lv1) + [10**6])],
        codes=[[sorted(extra0).index(i) for i in d2.index.get_level_values(0)], [sorted([-7] + list(lv1) + [10**6]).index(t) for t in d2.index.get_level_values(1)]],
        names=d2.index.names,
    )
    for e, what in ((d2, "order of rows and columns"), (d3, "unused index levels")):
        _, o2, _ = run_process(m, e)
        for a, b in zip(out, o2):
            close(b, a, f"result depends on {what}", 0, 0)
    # the simulation purpose returns the same controls and observed factors
    _, o3, _ = run_process(m, d, purpose="simulation")
    close(o3[0], out[1], "controls of simulation purpose", 0, 0)
    close(o3[1], out[2], "observed factors of simulation purpose", 0, 0)


@oracle("C15", 25)
def problems_reported(rng):
    m, d = data_case(rng)
    rd = RefData(d, m)
    T = rd.d["n_periods"]
    kinds = ["absent", "constant"]
    if rd.d["observed"]:
        kinds += ["obs_missing", "obs_absent"]
    if len(rd.d["controls"]) > 1:
        kinds += ["ctrl_absent", "ctrl_all_missing"]
    only = [u for u in rd.ups if u[3] == "anchoring" and not any(v[3] == "measurement" and v[1] == rd.var(u) for v in rd.ups)]
    if only:
        kinds += ["anchor_absent"]
    k = gen.pick(rng, kinds)
    per = rd.pers[: T]
    lev1 = d.index.get_level_values(1)
    mus = [u for u in rd.ups if u[3] == "measurement"]
    u = gen.pick(rng, mus)
    if k == "absent":
        d = d.drop(columns=[u[1]])
        name = u[1]
    elif k == "anchor_absent":
        name = str(rd.var(only[0]))
        d = d.drop(columns=[x for x in d.columns if str(x) == name])
    elif k == "constant":
        d = d.copy()
        d.loc[lev1 == per[u[0]], u[1]] = 3.0
        name = u[1]
    elif k == "obs_missing":
        name = gen.pick(rng, rd.d["observed"])
        d = d.copy()
        i = int(rng.integers(len(d)))
        while lev1[i] not in per:
            i = int(rng.integers(len(d)))
        d.iloc[i, list(d.columns).index(name)] = np.nan
    elif k == "obs_absent":
        name = gen.pick(rng, rd.d["observed"])
        d = d.drop(columns=[name])
    elif k == "ctrl_absent":
        name = gen.pick(rng, rd.d["controls"][1:])
        d = d.drop(columns=[name])
    else:
        name = gen.pick(rng, rd.d["controls"][1:])
        d = d.copy()
        t = int(rng.integers(T))
        d.loc[lev1 == per[t], name] = np.nan
    before = d.copy(deep=True)
    try:
        run_process(m, d)
    except ValueError as e:
        check(name in str(e), f"error message does not name {name}: {str(e)[:200]}")
        check(gen.unchanged(before, d), "the data set was modified")
        return
    raise AssertionError(f"problem '{k}' with variable {name} was not reported")


@oracle("C15", 12)
def simulation_without_measurements(rng):
    """data for a simulation contain controls and observed factors, the measurements need not be there"""
    m, d = data_case(rng)
    _, full, _ = run_process(m, d, purpose="simulation")
    rd = RefData(d, m)
    keep = set(rd.d["controls"]) | set(rd.d["observed"])
    gone = [c for c in d.columns if c not in keep]
    drop = gone if gen.coin(rng, 0.5) else [c for c in gone if gen.coin(rng, 0.5)]
    try:
        _, part, _ = run_process(m, d.drop(columns=drop), purpose="simulation")
    except KeyError as e:
        raise AssertionError(f"process_data(purpose='simulation') raises KeyError {str(e)[:100]} if the measurements are not in the data")
    close(part[0], full[0], "controls of data without measurements", 0, 0)
    close(part[1], full[1], "observed factors of data without measurements", 0, 0)


@oracle("C16", 30)
def missing_controls(rng):
    m, d = data_case(rng, control_missing=0.2, n_controls=int(rng.integers(1, 3)))
    rd = RefData(d, m)
    before = d.copy(deep=True)
    mod, out, msgs = run_process(m, d)
    check(gen.unchanged(before, d), "the data set was modified")
    check_arrays(m, d, out, rd)
    if rd.wiped:
        check(len(msgs) >= 1, "no warning about missing controls")
        txt = " ".join(msgs)
        for i, t in rd.wiped:
            check(f"({rd.ids[i]!r}, {rd.pers[t]!r})" in txt or (str(rd.ids[i]) in txt and str(rd.pers[t]) in txt), f"warning does not name ({rd.ids[i]}, {rd.pers[t]}): {txt[:300]}")
        n = txt.count("(")
        check(n == len(rd.wiped), f"warning names {n} rows, expected {len(rd.wiped)}: {txt[:300]}")
    else:
        check(not msgs, f"warning without missing controls: {msgs}")


# ---------------------------------------------------------------------------- C17
@oracle("C17", 70)
def builtin_transition_functions(rng):
    n = int(rng.integers(1, 6))
    names = [str(x) for x in rng.permutation(["c", "b", "a", "fac_d", "e1", "z"])[:n]]
    kind = gen.pick(rng, gen.BUILTIN)
    f, pf = getattr(tf, kind), getattr(tf, f"params_{kind}")
    arg = list(names)
    pn = list(pf(arg))
    check(arg == names, "params function modified the factors")
    exp = gen.param_names(kind, names)
    check(len(set(pn)) == len(pn), f"parameter names are not unique: {pn}")
    check(set(pn) == set(exp), f"parameter names {pn}, expected {exp}")
    x = rng.normal(size=n)
    if kind == "robust_translog" and gen.coin(rng):
        x[int(rng.integers(n))] = gen.pick(rng, [1e13, -1e14, 1e12])
    vals = {k: float(rng.uniform(0.1, 1.5)) if kind.startswith("log_ces") else float(rng.normal()) for k in pn}
    if kind == "log_ces" and gen.coin(rng):
        vals["phi"] = -vals["phi"]
    if kind == "log_ces_general":
        vals["tfp"] = float(rng.normal())
        for k in pn:
            if k.startswith("sigma_"):
                vals[k] = float(rng.normal())
    if kind.startswith("log_ces") and n > 1 and gen.coin(rng, 0.2):
        vals[names[0]] = 0.0
    vec = jnp.array([vals[k] for k in pn])
    if kind == "constant":
        s = float(x[0])
        got = f(s, vec)
        close(float(got), s, "constant")
        return
    got = np.array(f(jnp.array(x), vec))
    check(got.shape == (), f"{kind} does not return a scalar")
    close(got, transition_value(kind, pn, vals, dict(zip(names, x)), names), f"{kind} with {n} factors", 1e-9, 1e-9)


# ---------------------------------------------------------------------------- C18
def make_custom(rng, model, f, k):
    """a custom transition function together with its reference formula"""
    allf = gen.dims(model)["all"]
    args = [str(x) for x in rng.permutation(allf)[: int(rng.integers(0, len(allf) + 1))]]
    use_states = gen.coin(rng) or not args  # a system that uses no state at all is degenerate
    pn = [str(x) for x in rng.permutation(["alpha", "b_1", "zz", "delta"])[: int(rng.integers(1, 4))]]
    sig = args + (["states"] if use_states else []) + ["params"]
    sig = [str(x) for x in rng.permutation(sig)]
    ns = {"jnp": jnp}
    body = [f"params[{p!r}] * {i + 1}.5" for i, p in enumerate(pn)]
    body += [f"{a} * params[{pn[i % len(pn)]!r}] + 0.1 * {a} * {a}" for i, a in enumerate(args)]
    if use_states:
        body += [f"0.3 * states[{i}] * {i + 1}" for i in range(len(allf))]
    src = f"def custom_{k}({', '.join(sig)}):\n    return " + " + ".join(body)
    exec(src, ns)
    fun = ns[f"custom_{k}"]

    def ref(x, full, pars):
        v = sum(pars[p] * (i + 1.5) for i, p in enumerate(pn))
        v += sum(x[a] * pars[pn[i % len(pn)]] + 0.1 * x[a] ** 2 for i, a in enumerate(args))
        if use_states:
            v += sum(0.3 * full[i] * (i + 1) for i in range(len(allf)))
        return v

    fun.__ref__ = ref
    return register_params(fun, params=pn) if gen.coin(rng) else register_params(params=pn)(fun)


def with_custom(rng, m, p=0.6):
    for k, f in enumerate(list(m["factors"])):
        if gen.coin(rng, p):
            m["factors"][f]["transition_function"] = make_custom(rng, m, f, k)
    return m


@oracle("C18", 24)
def transition_system(rng):
    m = gen.gen_model(rng, transitions=gen.BUILTIN, n_latent=int(rng.integers(1, 4)))
    m = with_custom(rng, m, gen.pick(rng, [0.0, 0.5, 0.9]))
    p = gen.gen_params(rng, m)
    mod = process_model(m)
    r = Ref(m, p)
    ti = mod["transition_info"]
    lat, allf = r.d["latent"], r.d["all"]
    for f in lat:
        check(list(ti["param_names"][f]) == gen.transition_names(m, f), f"parameter names of {f}: {ti['param_names'][f]}")
    t = int(rng.integers(r.d["n_periods"] - 1))
    pars = {f: jnp.array([r.P[("transition", t, f, n)] for n in ti["param_names"][f]]) for f in lat}
    x = rng.normal(size=(int(rng.integers(1, 5)), len(allf)))
    out = np.array(ti["func"](pars, jnp.array(x)))
    check(out.shape == (len(x), len(lat)), f"shape of transformed states {out.shape}")
    for i in range(len(x)):
        close(out[i], r.raw_transition(t, x[i]), f"transition of row {i}", 1e-8, 1e-8)
    for k, f in enumerate(lat):
        close(np.array(ti["individual_functions"][f](pars, jnp.array(x))), out[:, k], f"individual function of {f}", 1e-10)
    for f in lat:
        spec = m["factors"][f]["transition_function"]
        check(ti["function_names"][f] == (spec if isinstance(spec, str) else spec.__name__), f"function name of {f}")


@oracle("C18", 8)
def unregistered_custom_rejected(rng):
    m = gen.gen_model(rng, transitions=["linear"])
    f = gen.pick(rng, list(m["factors"]))

    def unregistered(states, params):
        return states[0]

    m["factors"][f]["transition_function"] = unregistered
    try:
        process_model(m)
    except AttributeError:
        return
    raise AssertionError("custom function without registered params accepted")


@oracle("C18", 12)
def param_decorators(rng):
    from skillmodels.decorators import extract_params, jax_array_output

    names = ["u", "v", "w"][: int(rng.integers(1, 4))]
    vals = [float(x) for x in rng.normal(size=len(names))]

    def g(a, params):
        return a, params

    key = gen.pick(rng, ["k", 3])
    kind = gen.pick(rng, ["key", "names", "both"])
    kw, arg, exp = {}, None, None
    if kind == "key":
        kw, arg, exp = {"key": key}, {key: vals, "other": [0]}, vals
    elif kind == "names":
        kw, arg, exp = {"names": names}, vals, dict(zip(names, vals))
    else:
        kw, arg, exp = {"key": key, "names": names}, {key: vals, "other": [0]}, dict(zip(names, vals))
    for dec in (extract_params(g, **kw), extract_params(**kw)(g)):
        res = dec(a=5, params=arg)
        check(res == (5, exp), f"extract_params({kind}) passes {res}")
    res = np.array(jax_array_output(lambda: (1.0, 2.0, 3.0))())
    close(res, [1.0, 2.0, 3.0], "jax_array_output")


# ---------------------------------------------------------------------------- C19
def sim_case(rng, zero, **kw):
    m = gen.gen_model(rng, transitions=["linear", "translog", "linear_and_squares", "constant"], n_latent=kw.pop("n_latent", int(rng.integers(1, 4))), **kw)
    p = gen.gen_params(rng, m, zero_var=zero)
    d = gen.dims(m)
    need = d["observed"] or len(d["controls"]) > 1
    data = gen.gen_data(rng, m, missing=0.1, n_obs=int(rng.integers(2, 6)), extra_periods=gen.coin(rng, 0.3)) if need or gen.coin(rng, 0.3) else None
    return m, p, data


@oracle("C19", 16)
def deterministic_simulation(rng):
    from skillmodels.simulate_data import simulate_dataset

    m, p, data = sim_case(rng, True, n_mixtures=1)
    r = Ref(m, p)
    T, lat = r.d["n_periods"], r.d["latent"]
    n = int(rng.integers(2, 5))
    pol = []
    for _ in range(int(rng.integers(0, 4))):
        pol.append({"period": int(rng.integers(0, max(T - 1, 1))), "factor": gen.pick(rng, lat), "effect_size": float(rng.normal()), "standard_deviation": 0})
    before = gen.snapshot(pol)
    out = call(simulate_dataset, m, p, n_obs=None if data is not None else n, data=data, policies=pol or None)
    check(pol == before, "policies modified")
    if data is not None:
        rd = RefData(data, m)
        n = len(rd.ids)
    st = {}
    for i in range(n):
        x = r.init_mean(0)
        for t in range(T):
            x = x.copy()
            for q in pol:
                if q["period"] == t and t < T - 1:
                    x[lat.index(q["factor"])] += q["effect_size"]
            st[(i, t)] = x
            if t < T - 1:
                x = r.transition(t, x, rd.observed(i, t) if data is not None else np.zeros(0))
    U = out["unanchored_states"]["states"]
    A = out["anchored_states"]["states"]
    M = out["measurements"]
    for tab, nm in ((U, "states"), (A, "anchored states"), (M, "measurements")):
        keys = list(zip(tab["id"], tab["period"]))
        check(sorted(keys) == [(i, t) for i in range(n) for t in range(T)], f"ids and periods of {nm}")
    if max(abs(v).max() for v in st.values()) > 1e6:
        raise Skip("explosive")
    for k in range(len(U)):
        i, t = int(U["id"].iloc[k]), int(U["period"].iloc[k])
        close(U[lat].iloc[k].to_numpy(dtype=float), st[(i, t)], f"state of individual {i} in period {t}", 1e-6, 1e-7)
    for k in range(len(A)):
        i, t = int(A["id"].iloc[k]), int(A["period"].iloc[k])
        close(A[lat].iloc[k].to_numpy(dtype=float), r.anchor_const(t) + r.anchor_scale(t) * st[(i, t)], f"anchored state of individual {i} in period {t}", 1e-6, 1e-7)
    for k in range(len(M)):
        i, t = int(M["id"].iloc[k]), int(M["period"].iloc[k])
        c = rd.controls(i, t) if data is not None else np.ones(1)
        for u in r.ups:
            if u[0] == t:
                e = r.loading_vec(u) @ st[(i, t)] + r.control_vec(u) @ c
                close(float(M[u[1]].iloc[k]), e, f"measurement {u[1]} of individual {i} in period {t}", 1e-6, 1e-7)
    for nm in ("unanchored_states", "anchored_states"):
        s = out[nm]["states"]
        for f in lat:
            rg = out[nm]["state_ranges"][f]
            for t in range(T):
                v = s.loc[s["period"] == t, f]
                close(rg.loc[t, "minimum"], v.min(), f"minimum of {f} in period {t}")
                close(rg.loc[t, "maximum"], v.max(), f"maximum of {f} in period {t}")


class Recorder:
    """replaces the random draws by deterministic ones and records their arguments"""

    def __init__(self, rng):
        self.rng, self.calls = rng, []

    def mvn(self, mean, cov, size=None, **k):
        mean, cov = np.asarray(mean, float), np.asarray(cov, float)
        out = self.rng.normal(size=((() if size is None else (size if isinstance(size, tuple) else (int(size),))) + mean.shape))
        self.calls.append(("mvn", mean, cov, size, out))
        return mean + out

    def choice(self, a, size=None, replace=True, p=None):
        a = np.arange(a) if np.isscalar(a) else np.asarray(a)
        out = self.rng.integers(0, len(a), size=size)
        self.calls.append(("choice", a, None if p is None else np.asarray(p, float), size, out))
        return a[out]


@oracle("C19", 14)
def draws_have_the_right_distribution(rng):
    import skillmodels.simulate_data as sd

    m, p, data = sim_case(rng, False, anchoring=None)
    r = Ref(m, p)
    T, lat, nmix = r.d["n_periods"], r.d["latent"], r.d["n_mixtures"]
    n = 4 if data is None else len(RefData(data, m).ids)
    rec = Recorder(rng)
    if not hasattr(sd, "multivariate_normal") or not hasattr(sd, "choice"):
        raise Skip("draws are made in another way")
    saved = sd.multivariate_normal, sd.choice
    sd.multivariate_normal, sd.choice = rec.mvn, rec.choice
    try:
        out = call(sd.simulate_dataset, m, p, n_obs=None if data is not None else n, data=data)
    finally:
        sd.multivariate_normal, sd.choice = saved
    calls = [c for c in rec.calls]
    k = 0
    start = np.zeros((n, len(lat)))
    S = [r.init_upper(e).T @ r.init_upper(e) for e in range(nmix)]
    if nmix > 1:
        c = calls[k]
        k += 1
        check(c[0] == "choice" and len(c[4]) == n, "mixture elements are not drawn once per individual")
        close(c[2], r.weights(), "probabilities of the mixture elements", 1e-9)
        for i in range(n):
            q = calls[k]
            k += 1
            e = int(c[4][i])
            close(q[1], r.init_mean(e), f"mean of the initial states of element {e}", 1e-9)
            close(q[2], S[e], f"covariance of the initial states of element {e}", 1e-9)
            start[i] = q[1] + q[4]
    else:
        q = calls[k]
        k += 1
        close(q[1], r.init_mean(0), "mean of the initial states", 1e-9)
        close(q[2], S[0], "covariance of the initial states", 1e-9)
        start = q[1] + q[4]
    states = {0: start}
    rest = calls[k:]
    shocks = [c for c in rest[: T - 1]]
    meas = rest[T - 1 :]
    rd = RefData(data, m) if data is not None else None
    for t in range(T - 1):
        c = shocks[t]
        close(c[1], np.zeros(len(lat)), "mean of the shocks", 0, 1e-12)
        close(c[2], np.diag(r.shock_sds(t) ** 2), f"covariance of the shocks of period {t}", 1e-9)
        states[t + 1] = np.array([r.transition(t, states[t][i], rd.observed(i, t) if rd else np.zeros(0)) for i in range(n)]) + c[4]
    if max(np.abs(v).max() for v in states.values()) > 1e6:
        raise Skip("explosive")
    U, M = out["unanchored_states"]["states"], out["measurements"]
    for k in range(len(U)):
        i, t = int(U["id"].iloc[k]), int(U["period"].iloc[k])
        close(U[lat].iloc[k].to_numpy(dtype=float), states[t][i], f"state of individual {i} in period {t}", 1e-6, 1e-6)
    check(len(meas) == T, "number of measurement error draws")
    vals = {}
    for t in range(T):
        us = [u for u in r.ups if u[0] == t]
        c = meas[t]
        close(c[1], np.zeros(len(us)), "mean of measurement errors", 0, 1e-12)
        close(c[2], np.diag([r.meas_sd(u) ** 2 for u in us]), f"covariance of the measurement errors of period {t}", 1e-9)
        for i in range(n):
            cc = rd.controls(i, t) if rd else np.ones(1)
            for j, u in enumerate(us):
                vals[(i, t, u[1])] = r.loading_vec(u) @ states[t][i] + r.control_vec(u) @ cc + c[4][i, j]
    for k in range(len(M)):
        i, t = int(M["id"].iloc[k]), int(M["period"].iloc[k])
        for u in r.ups:
            if u[0] == t:
                close(float(M[u[1]].iloc[k]), vals[(i, t, u[1])], f"measurement {u[1]} of individual {i} in period {t}", 1e-6, 1e-6)


@oracle("C19", 20)
def simulation_helpers(rng):
    import skillmodels.simulate_data as sd

    n, ns, nm, nc = int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 5)), int(rng.integers(1, 4))
    s, c = rng.normal(size=(n, ns)), rng.normal(size=(n, nc))
    L, B = rng.normal(size=(nm, ns)), rng.normal(size=(nm, nc))
    out = call(sd.measurements_from_states, s, c, L, B, np.zeros(nm))
    close(out, s @ L.T + c @ B.T, "measurements without error", 1e-9)
    gs = priv("simulate_data", "_get_shock")
    close(call(gs, mean=1.25, sd=0, size=n), np.full(n, 1.25), "shock without variance")
    for sdv in (-1.0, -1e-9):
        try:
            call(gs, mean=0.0, sd=sdv, size=n)
        except ValueError:
            continue
        raise AssertionError("negative standard deviation of a policy accepted")
    saved = np.random.normal
    seen = {}

    def fake(loc=0.0, scale=1.0, size=None):
        seen.update(loc=loc, scale=scale, size=size)
        return np.full(size, 7.0)

    np.random.normal = fake
    try:
        z = call(gs, mean=0.5, sd=2.0, size=n)
    finally:
        np.random.normal = saved
    if seen:
        check((seen["loc"], seen["scale"]) == (0.5, 2.0) and np.shape(z) == (n,), f"shock drawn with {seen}")


# ---------------------------------------------------------------------------- C20
@oracle("C20", 25)
def debug_tables(rng):
    from skillmodels.process_debug_data import process_debug_data

    m = gen.gen_model(rng, transitions=["linear"], n_latent=int(rng.integers(1, 4)))
    mod = process_model(m)
    ups = gen.updates(m)
    lat = list(m["factors"])
    K, n, e, s = len(ups), int(rng.integers(1, 5)), int(rng.integers(1, 4)), len(lat)
    arr = {
        "filtered_states": rng.normal(size=(K, n, e, s)),
        "initial_states": rng.normal(size=(n, e, s)),
        "residuals": rng.normal(size=(K, n, e)),
        "residual_sds": rng.uniform(0.1, 1, size=(K, n, e)),
        "all_contributions": rng.normal(size=(K, n)),
        "log_mixture_weights": np.log(rng.dirichlet(np.ones(e), size=(K, n))),
        "initial_log_mixture_weights": np.log(rng.dirichlet(np.ones(e), size=n)),
        "value": 1.5,
        "contributions": rng.normal(size=n),
    }
    keep = gen.snapshot(arr)
    out = call(process_debug_data, arr, model=mod)
    check(gen.unchanged(keep, arr), "debug data modified")
    pos = {(t, v): k for k, (t, v, _, _) in enumerate(ups)}
    full = {(t, v, i, x) for t, v, _, _ in ups for i in range(n) for x in range(e)}
    for name, key, col in (("residuals", "residuals", "residual"), ("residual_sds", "residual_sds", "residual")):
        tab = out[name]
        ks = list(zip(tab["period"], tab["measurement"], tab["id"], tab["mixture"]))
        check(len(ks) == len(full) and set(ks) == full, f"{name}: labels are not exactly all combinations")
        for k, v in zip(ks, tab[col]):
            close(v, arr[key][pos[k[:2]], k[2], k[3]], f"{name} labelled {k}", 0, 0)
    tab = out["post_update_states"]
    ks = list(zip(tab["period"], tab["measurement"], tab["id"], tab["mixture"]))
    check(len(ks) == len(full) and set(ks) == full, "post_update_states: labels are not exactly all combinations")
    for k, v in zip(ks, tab[lat].to_numpy()):
        close(v, arr["filtered_states"][pos[k[:2]], k[2], k[3]], f"states labelled {k}", 0, 0)
    tab = out["all_contributions"]
    ks = list(zip(tab["period"], tab["measurement"], tab["id"]))
    check(len(ks) == K * n and set(ks) == {k[:3] for k in full}, "all_contributions: labels")
    for k, v in zip(ks, tab["contribution"]):
        close(v, arr["all_contributions"][pos[k[:2]], k[2]], f"contribution labelled {k}", 0, 0)
    tab = out["filtered_states"]
    T = gen.dims(m)["n_periods"]
    ks = list(zip(tab["period"], tab["id"]))
    check(len(ks) == T * n and set(ks) == {(t, i) for t in range(T) for i in range(n)}, "filtered_states: labels")
    for (t, i), v in zip(ks, tab[lat].to_numpy()):
        k = max(j for j, u in enumerate(ups) if u[0] == t and u[3] == "measurement")
        w = np.exp(arr["log_mixture_weights"][k, i])
        close(v, w @ arr["filtered_states"][k, i], f"filtered states of individual {i} in period {t}", 1e-9)
    for f in lat:
        rg = out["state_ranges"][f]
        for t in range(T):
            v = tab.loc[tab["period"] == t, f]
            close(rg.loc[t, "minimum"], v.min(), "minimum", 0, 0)
            close(rg.loc[t, "maximum"], v.max(), "maximum", 0, 0)
    check(out["value"] == 1.5, "value")
    close(out["contributions"], arr["contributions"], "contributions", 0, 0)


@oracle("C20", 3)
def debug_tables_of_a_model(rng):
    from .o_filter import lik_case
    from skillmodels.filtered_states import get_filtered_states

    m, p, d = lik_case(rng, n_periods=2, n_mixtures=int(rng.integers(1, 3)))
    r = Ref(m, p)
    if len(set(d.index.get_level_values(0))) < 2:
        raise Skip("few ids")
    dl = get_maximization_inputs(m, d)["debug_loglike"](p)
    fs = get_filtered_states(m, d, p)
    lat = r.d["latent"]
    u = dl["filtered_states"]
    close(fs["unanchored_states"]["states"][lat].to_numpy(), u[lat].to_numpy(), "unanchored filtered states")
    a = fs["anchored_states"]["states"]
    for k in range(len(a)):
        t = int(u["period"].iloc[k])
        close(a[lat].iloc[k].to_numpy(dtype=float), r.anchor_const(t) + r.anchor_scale(t) * u[lat].iloc[k].to_numpy(dtype=float), "anchored filtered states")
    for f in lat:
        for t in range(r.d["n_periods"]):
            for nm, tab in (("anchored_states", a), ("unanchored_states", u)):
                v = tab.loc[tab["period"] == t, f]
                rg = fs[nm]["state_ranges"][f]
                close([rg.loc[t, "minimum"], rg.loc[t, "maximum"]], [v.min(), v.max()], f"state range of {nm}")


# ---------------------------------------------------------------------------- C21
def expected_without(m, factors=(), meas=(), controls=(), n_periods=None):
    out = copy.deepcopy(m)
    out["factors"] = {f: v for f, v in out["factors"].items() if f not in factors}
    if "anchoring" in out and factors:
        oc = {f: v for f, v in out["anchoring"]["outcomes"].items() if f not in factors}
        if oc:
            out["anchoring"]["outcomes"] = oc
        else:
            del out["anchoring"]
    for f, v in out["factors"].items():
        v["measurements"] = [[x for x in ml if x not in meas] for ml in v["measurements"]]
        for nt, nl in v.get("normalizations", {}).items():
            v["normalizations"][nt] = [{k: x for k, x in nd.items() if k not in meas} for nd in nl]
    if controls:
        out["controls"] = [c for c in out.get("controls", []) if c not in controls]
        if not out["controls"]:
            del out["controls"]
    T = max(len(v["measurements"]) for v in out["factors"].values())
    if n_periods is not None:
        T = min(T, n_periods)
    if factors or n_periods is not None:
        for v in out["factors"].values():
            v["measurements"] = v["measurements"][:T]
            for nt, nl in v.get("normalizations", {}).items():
                v["normalizations"][nt] = nl[:T]
        if "stagemap" in out:
            out["stagemap"] = out["stagemap"][: T - 1]
    return out


def check_reduction(rng, func, args, m, exp, fill=None):
    p = gen.gen_params(rng, m, columns=gen.coin(rng))
    if gen.coin(rng):
        p["lower_bound"] = -np.inf
        p["upper_bound"] = np.inf
    pb, mb = p.copy(deep=True), gen.snapshot(m)
    got = func(*args, m)
    check(gen.unchanged(mb, m), f"{func.__name__} modified the model dictionary")
    check(gen.unchanged(exp, got), f"{func.__name__}: reduced model {got}, expected {exp}")
    got2, q = func(*args, m, p)
    check(gen.unchanged(mb, m) and gen.unchanged(pb, p), f"{func.__name__} modified its inputs")
    check(gen.unchanged(exp, got2), f"{func.__name__} with params: reduced model differs")
    labels = gen.params_labels(exp)
    ql = [tuple(x) for x in q.index]
    check(len(ql) == len(labels) and set(ql) == set(labels), f"{func.__name__}: index of the reduced params")
    for k, v in zip(ql, q["value"]):
        e = pb["value"].loc[k] if k in pb.index else fill
        check(v == e, f"{func.__name__}: value of {k} is {v}, expected {e}")
    for a in (got, got2):  # mutable parts of the result are not shared with the input
        check(a is not m, "input returned")


@oracle("C21", 50)
def reductions(rng):
    import skillmodels.utilities as ut

    m = gen.gen_model(rng, n_latent=int(rng.integers(2, 4)), transitions=["linear", "translog", "linear_and_squares"], n_periods=int(rng.integers(2, 5)))
    lat = list(m["factors"])
    kind = gen.pick(rng, ["remove", "extract", "meas", "controls", "periods", "t2l", "l2t"])
    d = gen.dims(m)
    if kind in ("remove", "extract"):
        k = int(rng.integers(1, len(lat)))
        rem = [str(x) for x in rng.permutation(lat)[:k]]
        exp = expected_without(m, factors=rem)
        T = gen.dims(exp)["n_periods"]
        if T < 2:
            raise Skip("one period left")
        if kind == "remove":
            arg = rem[0] if len(rem) == 1 and gen.coin(rng) else rem
            check_reduction(rng, ut.remove_factors, (arg,), m, exp)
        else:
            stay = [f for f in lat if f not in rem]
            arg = stay[0] if len(stay) == 1 and gen.coin(rng) else list(rng.permutation(stay))
            check_reduction(rng, ut.extract_factors, (arg,), m, exp)
    elif kind == "meas":
        allm = sorted({x for v in m["factors"].values() for ml in v["measurements"] for x in ml})
        rem = [str(x) for x in rng.permutation(allm)[: int(rng.integers(1, 3))]]
        exp = expected_without(m, meas=rem)
        check_reduction(rng, ut.remove_measurements, (rem[0] if len(rem) == 1 and gen.coin(rng) else rem,), m, exp)
    elif kind == "controls":
        cs = d["controls"][1:]
        if not cs:
            raise Skip("no controls")
        rem = [str(x) for x in rng.permutation(cs)[: int(rng.integers(1, len(cs) + 1))]]
        exp = expected_without(m, controls=rem)
        check_reduction(rng, ut.remove_controls, (rem[0] if len(rem) == 1 and gen.coin(rng) else rem,), m, exp)
    elif kind == "periods":
        n = int(rng.integers(2, d["n_periods"] + 1))
        exp = expected_without(m, n_periods=n)
        check_reduction(rng, lambda nn, mm, *a: ut.reduce_n_periods(mm, nn, *a), (n,), m, exp, 0.05)
    else:
        exp = copy.deepcopy(m)
        a, b = ("translog", "linear") if kind == "t2l" else ("linear", "translog")
        for f in lat:
            if exp["factors"][f]["transition_function"] == a:
                exp["factors"][f]["transition_function"] = b
        check_reduction(rng, ut.switch_translog_to_linear if kind == "t2l" else ut.switch_linear_to_translog, (), m, exp, 0.05)


@oracle("C21", 25)
def update_values(rng):
    import skillmodels.utilities as ut

    m = gen.gen_model(rng)
    p = gen.gen_params(rng, m, columns=True)
    others = []
    for _ in range(int(rng.integers(1, 4))):
        q = gen.gen_params(rng, m)
        q = q.iloc[: int(rng.integers(1, len(q) + 1))]
        if gen.coin(rng):
            q = pd.concat([q, pd.DataFrame({"value": [9.0]}, index=pd.MultiIndex.from_tuples([("ghost", 0, "a", "b")], names=q.index.names))])
        others.append(q)
    snap = gen.snapshot(p), gen.snapshot(others)
    arg = others[0] if len(others) == 1 and gen.coin(rng) else others
    out = ut.update_parameter_values(p, arg)
    check(gen.unchanged(snap[0], p) and all(gen.unchanged(a, b) for a, b in zip(snap[1], others)), "inputs modified")
    check(out.index.equals(p.index) and list(out.columns) == list(p.columns), "index or columns changed")
    for k in p.index:
        e = p["value"].loc[k]
        for q in others:
            if k in q.index:
                e = q["value"].loc[k]
        check(out["value"].loc[k] == e, f"value of {k}")
    close(out["extra"], p["extra"], "other columns changed", 0, 0)
