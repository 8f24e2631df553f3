"""Runtime oracles for C01-C08 (filter, anchoring, likelihood, clipping, parameter parsing)."""
import numpy as np
import pandas as pd
import jax
import jax.numpy as jnp

jax.config.update("jax_enable_x64", True)

from . import gen
from .core import Known, Skip, call, check, close, oracle, priv
from .ref import Ref, RefData, soft_clip

import skillmodels.kalman_filters as kf
import skillmodels.clipping as clipping
from skillmodels.likelihood_function import get_maximization_inputs
from skillmodels.process_model import process_model

SHAPES = [(1, 1, 1, 1), (4, 1, 2, 1), (3, 2, 2, 2), (5, 3, 3, 1), (3, 2, 1, 3), (1, 2, 3, 2), (4, 4, 2, 3)]


def update_inputs(rng, shape=None, singular=False):
    n, m, s, c = shape or gen.pick(rng, SHAPES)
    U = np.triu(rng.normal(size=(n, m, s, s)))
    for i in range(s):
        if not singular:
            U[..., i, i] = rng.uniform(0.3, 1.5, size=(n, m)) * np.where(rng.random((n, m)) < 0.3, -1, 1)
    a = {
        "states": rng.normal(size=(n, m, s)) * 2,
        "upper_chols": U,
        "loadings": rng.normal(size=s) * np.where(rng.random(s) < 0.25, 0, 1),
        "control_params": rng.normal(size=c),
        "meas_sd": float(rng.uniform(0.05, 2)),
        "measurements": rng.normal(size=n) * 2,
        "controls": rng.normal(size=(n, c)),
        "log_mixture_weights": np.log(rng.dirichlet(np.ones(m) * 2, size=n)),
    }
    return a


def run_update(a, debug=True):
    out = call(kf.kalman_update, **{k: (jnp.array(v) if k != "meas_sd" else v) for k, v in a.items()}, debug=debug)
    return [np.array(x) for x in out[:4]], {k: np.array(v) for k, v in out[4].items()}


def ref_update(a):
    n, m, s = a["states"].shape
    X, P = a["states"].copy(), np.einsum("nmki,nmkj->nmij", a["upper_chols"], a["upper_chols"])
    LW = a["log_mixture_weights"].copy()
    LL = np.zeros(n)
    R, S = np.full((n, m), np.nan), np.full((n, m), np.nan)
    h, sd = a["loadings"], a["meas_sd"]
    for i in range(n):
        y = a["measurements"][i]
        if np.isnan(y):
            continue
        ld = np.zeros(m)
        for k in range(m):
            r = y - h @ X[i, k] - a["controls"][i] @ a["control_params"]
            v = h @ P[i, k] @ h + sd**2
            K = P[i, k] @ h / v
            X[i, k] = X[i, k] + K * r
            P[i, k] = P[i, k] - np.outer(K, K) * v
            ld[k] = -0.5 * np.log(2 * np.pi * v) - r * r / (2 * v)
            R[i, k], S[i, k] = r, np.sqrt(v)
        w = np.exp(LW[i])
        LL[i] = np.log((w * np.exp(ld - ld.max())).sum()) + ld.max()
        if m > 1:
            LW[i] = LW[i] + ld - LL[i]
        else:
            LL[i] = ld[0] + 0.0
    return X, P, LW, LL, R, S


@oracle("C01", 60)
def update_is_conditioning(rng):
    a = update_inputs(rng)
    if gen.coin(rng, 0.3):
        a["measurements"] = np.where(rng.random(a["measurements"].shape) < 0.3, np.nan, a["measurements"])
    if gen.coin(rng, 0.15):  # measurement far away from all mixture elements
        a["measurements"] = a["measurements"] * 30
    (x, u, lw, ll), dbg = run_update(a)
    X, P, LW, LL, R, S = ref_update(a)
    close(x, X, "conditional means", 1e-6, 1e-7)
    close(np.einsum("nmki,nmkj->nmij", u, u), P, "conditional covariances", 1e-6, 1e-7)
    check(np.allclose(u, np.triu(u), atol=1e-12), "covariance factors are not upper triangular")
    close(lw, LW, "log mixture weights", 1e-6, 1e-7)
    close(ll, LL, "log likelihood contributions", 1e-6, 1e-7)
    close(dbg["residuals"], R, "residuals", 1e-6, 1e-7)
    close(dbg["residual_sds"], S, "residual sds", 1e-6, 1e-7)
    close(dbg["log_mixture_weights"], LW, "debug log mixture weights", 1e-6, 1e-7)
    (x2, u2, lw2, ll2), d2 = run_update(a, debug=False)
    close(x2, x, "states with and without debug")
    close(u2, u, "chols with and without debug")
    close(ll2, ll, "loglikes with and without debug")
    close(lw2, lw, "weights with and without debug")


@oracle("C01", 15)
def update_individuals_independent(rng):
    a = update_inputs(rng, gen.pick(rng, [s for s in SHAPES if s[0] > 1]))
    (x, u, lw, ll), _ = run_update(a)
    i = int(rng.integers(a["states"].shape[0]))
    b = dict(a)
    for k in ("states", "upper_chols", "measurements", "controls", "log_mixture_weights"):
        v = a[k].copy()
        v[np.arange(len(v)) != i] = rng.normal(size=v[np.arange(len(v)) != i].shape)
        b[k] = v
    (x2, u2, lw2, ll2), _ = run_update(b)
    for p, q, nme in ((x, x2, "states"), (u, u2, "chols"), (lw, lw2, "weights"), (ll, ll2, "loglikes")):
        close(q[i], p[i], f"{nme} of individual {i} depend on other individuals")


@oracle("C02", 50)
def missing_is_neutral(rng):
    a = update_inputs(rng)
    n = a["states"].shape[0]
    full = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in a.items()}
    miss = rng.random(n) < 0.5
    miss[int(rng.integers(n))] = True
    a["measurements"] = np.where(miss, np.nan, a["measurements"])
    kind = gen.pick(rng, ["nan", "keep", "huge", "one"])
    c = a["controls"].copy()
    if kind == "nan":
        c[miss] = np.nan
    elif kind == "one":
        c[miss, 0] = np.nan
    elif kind == "huge":
        c[miss] = 1e200
    a["controls"] = c
    if gen.coin(rng, 0.2):
        a["states"] = np.where(miss.reshape(-1, 1, 1), a["states"] * 1e150, a["states"])
    (x, u, lw, ll), dbg = run_update(a)
    check(np.array_equal(x[miss], a["states"][miss]), "states of missing measurement changed")
    check(np.array_equal(u[miss], a["upper_chols"][miss]), "covariance factor of missing measurement changed")
    check(np.array_equal(lw[miss], a["log_mixture_weights"][miss]), "weights of missing measurement changed")
    check(np.array_equal(ll[miss], np.zeros(miss.sum())), "contribution of missing measurement is not 0")
    check(np.isnan(dbg["residuals"][miss]).all() and np.isnan(dbg["residual_sds"][miss]).all(), "debug residuals of missing not NaN")
    if (~miss).any():
        (x2, u2, lw2, ll2), d2 = run_update(full)
        ok = ~miss
        for p, q, nme in ((x, x2, "states"), (u, u2, "chols"), (lw, lw2, "weights"), (ll, ll2, "loglikes")):
            close(p[ok], q[ok], f"{nme} of observed individuals affected by missings")
        close(dbg["residuals"][ok], d2["residuals"][ok], "residuals")
    for p, nme in ((x, "states"), (u, "chols"), (lw, "weights"), (ll, "loglikes")):
        check(np.isfinite(p).all(), f"NaN in {nme}")


@oracle("C02", 8)
def missing_is_neutral_in_likelihood(rng):
    """an individual without any data contributes 0, the others are unaffected by it; finite gradient"""
    m = gen.gen_model(rng, n_observed=0, n_latent=int(rng.integers(1, 3)), n_periods=2)
    p = gen.gen_params(rng, m)
    d = gen.gen_data(rng, m, missing=0.2, n_obs=5)
    ids = sorted(set(d.index.get_level_values(0)))
    mi = get_maximization_inputs(m, d)
    full = mi["loglike"](p)["contributions"]
    d2 = d.copy()
    rows = d2.index.get_level_values(0) == ids[2]
    meas = [c for c in d2.columns if c not in m.get("controls", [])]
    d2.loc[rows, meas] = np.nan
    if m.get("controls"):
        d2.loc[rows, m["controls"]] = np.nan
    try:
        mi2 = get_maximization_inputs(m, d2)
    except ValueError:
        raise Skip("no variation left")
    out = mi2["loglike"](p)
    close(out["contributions"][2], 0.0, "contribution of individual without data", 0, 1e-12)
    keep = [0, 1, 3, 4]
    close(out["contributions"][keep], full[keep], "other individuals affected by missing data", 1e-8, 1e-9)
    g = mi2["gradient"](p)
    check(np.isfinite(np.asarray(g, float)).all(), "gradient not finite with missing data")


@oracle("C03", 25)
def sigma_weights(rng):
    n = int(rng.integers(1, 7))
    kappa = float(gen.pick(rng, [0.1, 0.5, 1, 2, 3.7, 20]))
    s, w = kf.calculate_sigma_scaling_factor_and_weights(n, kappa)
    w = np.array(w)
    check(w.shape == (2 * n + 1,), "number of sigma weights")
    check((w >= 0).all(), "negative sigma weight")
    close(w.sum(), 1.0, "weights do not sum to one", 1e-12)
    # moments are matched by points at +- s
    close(w[1:].sum() * 0 + 2 * w[1] * float(s) ** 2, 1.0, "scaling factor and weights do not match the variance", 1e-10)
    check(np.allclose(w[1:], w[1]), "non-central weights differ")


def predict_inputs(rng, shape=None, nobsf=None):
    n, m, s, _ = shape or gen.pick(rng, SHAPES)
    k = int(rng.integers(0, 3)) if nobsf is None else nobsf
    a = update_inputs(rng, (n, m, s, 1))
    return a["states"], a["upper_chols"], rng.normal(size=(n, k)), k


@oracle("C03", 25)
def sigma_points_match_moments(rng):
    states, U, obs, k = predict_inputs(rng)
    n, m, s = states.shape
    kappa = float(gen.pick(rng, [0.5, 1, 2, 3]))
    sc, w = kf.calculate_sigma_scaling_factor_and_weights(s, kappa)
    f = priv("kalman_filters", "_calculate_sigma_points")
    pts = np.array(call(f, states=jnp.array(states), upper_chols=jnp.array(U), scaling_factor=sc, observed_factors=jnp.array(obs)))
    check(pts.shape == (n, m, 2 * s + 1, s + k), f"shape of sigma points {pts.shape}")
    w = np.array(w)
    mean = np.einsum("p,nmpf->nmf", w, pts[..., :s])
    close(mean, states, "sigma points do not reproduce the mean", 1e-8)
    dev = pts[..., :s] - states[:, :, None, :]
    close(np.einsum("p,nmpf,nmpg->nmfg", w, dev, dev), np.einsum("nmki,nmkj->nmij", U, U), "sigma points do not reproduce the covariance", 1e-8)
    close(pts[..., s:], np.broadcast_to(obs[:, None, None, :], (n, m, 2 * s + 1, k)), "observed factors of sigma points")
    close(pts[:, :, 0, :s], states, "central sigma point")
    exp = np.concatenate([states[:, :, None], states[:, :, None] + float(sc) * U, states[:, :, None] - float(sc) * U], axis=2)
    # order of the non-central points is irrelevant: all have the same weight
    srt = lambda z: np.sort(z, axis=2)
    close(srt(np.round(pts[..., :s], 9)), srt(np.round(exp, 9)), "sigma points", 1e-6, 1e-6)


def lin_trans(A, B, b):
    """vectorised transition on rows: states (latent, observed) -> latent"""
    C = jnp.array(np.concatenate([A, B], axis=1))

    def func(params, states):
        return states @ C.T + params["b"]

    return func


def square_trans(A, B, b):
    C = jnp.array(np.concatenate([A, B], axis=1))

    def func(params, states):
        z = states @ C.T + params["b"]
        return z + 0.1 * z**2 + 0.2 * jnp.sin(z)

    return func


def run_predict(states, U, sc, w, func, b, sds, scal, const, obs):
    f = kf.kalman_predict
    return [
        np.array(v)
        for v in call(
            f,
            states=jnp.array(states),
            upper_chols=jnp.array(U),
            sigma_scaling_factor=sc,
            sigma_weights=w,
            transition_info={"func": func},
            trans_coeffs={"b": jnp.array(b)},
            shock_sds=jnp.array(sds),
            anchoring_scaling_factors=jnp.array(scal),
            anchoring_constants=jnp.array(const),
            observed_factors=jnp.array(obs),
        )
    ]


@oracle("C03", 30)
def predict_linear_exact(rng):
    states, U, obs, k = predict_inputs(rng)
    n, m, s = states.shape
    kappa = float(gen.pick(rng, [0.5, 1, 2, 3]))
    sc, w = kf.calculate_sigma_scaling_factor_and_weights(s, kappa)
    A, B, b = rng.normal(size=(s, s)), rng.normal(size=(s, k)), rng.normal(size=s)
    sds = rng.uniform(0.2, 1.5, size=s) * np.where(rng.random(s) < 0.15, 0, 1)
    scal = np.concatenate([rng.uniform(0.3, 2, size=(2, s)), np.ones((2, k))], axis=1)
    const = np.concatenate([rng.normal(size=(2, s)), np.zeros((2, k))], axis=1)
    x, R = run_predict(states, U, sc, w, lin_trans(A, B, b), b, sds, scal, const, obs)
    G = (A * scal[0, :s]) / scal[1, :s, None]
    off = (b + A @ const[0, :s] - const[1, :s]) / scal[1, :s]
    X = np.einsum("fg,nmg->nmf", G, states) + off + (obs @ (B / scal[1, :s, None]).T)[:, None, :]
    P = np.einsum("nmki,nmkj->nmij", U, U)
    PP = np.einsum("fg,nmgh,kh->nmfk", G, P, G) + np.diag(sds**2)
    close(x, X, "predicted mean of a linear transition", 1e-7, 1e-7)
    close(np.einsum("nmki,nmkj->nmij", R, R), PP, "predicted covariance of a linear transition", 1e-6, 1e-6)
    check(np.allclose(R, np.triu(R), atol=1e-10), "predicted factor is not upper triangular")


@oracle("C03", 20)
def predict_nonlinear_transform(rng):
    states, U, obs, k = predict_inputs(rng)
    n, m, s = states.shape
    kappa = float(gen.pick(rng, [0.5, 1, 2, 3]))
    sc, w = kf.calculate_sigma_scaling_factor_and_weights(s, kappa)
    A, B, b = rng.normal(size=(s, s)) * 0.5, rng.normal(size=(s, k)), rng.normal(size=s)
    sds = rng.uniform(0.2, 1.5, size=s)
    scal = np.concatenate([rng.uniform(0.3, 2, size=(2, s)), np.ones((2, k))], axis=1)
    const = np.concatenate([rng.normal(size=(2, s)), np.zeros((2, k))], axis=1)
    x, R = run_predict(states, U, sc, w, square_trans(A, B, b), b, sds, scal, const, obs)
    C = np.concatenate([A, B], axis=1)
    ww = np.array([kappa] + [0.5] * (2 * s)) / (s + kappa)
    f = np.sqrt(s + kappa)
    for i in range(n):
        for j in range(m):
            pts = np.concatenate([states[i, j][None], states[i, j] + f * U[i, j], states[i, j] - f * U[i, j]])
            pts = np.concatenate([pts, np.tile(obs[i], (len(pts), 1))], axis=1) * scal[0] + const[0]
            z = pts @ C.T + b
            y = (z + 0.1 * z**2 + 0.2 * np.sin(z) - const[1, :s]) / scal[1, :s]
            mean = ww @ y
            dev = y - mean
            close(x[i, j], mean, f"predicted mean of individual {i} element {j}", 1e-7, 1e-7)
            close(R[i, j].T @ R[i, j], (dev * ww[:, None]).T @ dev + np.diag(sds**2), f"predicted covariance of individual {i} element {j}", 1e-6, 1e-6)


# ------------------------------------------------------------------------------ C04
def processed(m):
    from skillmodels.params_index import get_params_index
    from skillmodels.parse_params import create_parsing_info

    mod = process_model(m)
    pi = get_params_index(mod["update_info"], mod["labels"], mod["dimensions"], mod["transition_info"])
    info = create_parsing_info(pi, mod["update_info"], mod["labels"], mod["anchoring"])
    return mod, pi, info


def parsed(m, p, n_obs=3):
    from skillmodels.parse_params import parse_params

    mod, pi, info = processed(m)
    vec = jnp.array(p["value"].reindex(pi).to_numpy())
    st, uc, lw, pd_ = parse_params(vec, info, mod["dimensions"], mod["labels"], n_obs)
    return mod, st, uc, lw, pd_


@oracle("C04", 25)
def anchoring_arrays(rng):
    m = gen.gen_model(rng, anchoring=True)
    p = gen.gen_params(rng, m)
    mod, st, uc, lw, pdict = parsed(m, p)
    r = Ref(m, p)
    no = len(r.d["observed"])
    for t in range(r.d["n_periods"]):
        close(pdict["anchoring_scaling_factors"][t], np.concatenate([r.anchor_scale(t), np.ones(no)]), f"anchoring scaling factors of period {t}")
        close(pdict["anchoring_constants"][t], np.concatenate([r.anchor_const(t), np.zeros(no)]), f"anchoring constants of period {t}")


@oracle("C04", 25)
def anchored_sigma_points(rng):
    n, m, q, s, k = 2, int(rng.integers(1, 3)), 3, int(rng.integers(1, 4)), int(rng.integers(0, 3))
    pts = rng.normal(size=(n, m, q, s + k))
    scal = np.concatenate([rng.uniform(0.3, 2, size=(2, s)), np.ones((2, k))], axis=1)
    const = np.concatenate([rng.normal(size=(2, s)), np.zeros((2, k))], axis=1)
    C = rng.normal(size=(s, s + k))
    seen = {}

    def func(params, states):
        seen["x"] = np.array(states)
        return jnp.sin(states @ jnp.array(C).T) + params["b"]

    out = np.array(
        call(
            kf.transform_sigma_points,
            sigma_points=jnp.array(pts),
            transition_info={"func": func},
            trans_coeffs={"b": 0.3},
            anchoring_scaling_factors=jnp.array(scal),
            anchoring_constants=jnp.array(const),
        )
    )
    a = pts * scal[0] + const[0]
    y = (np.sin(a @ C.T) + 0.3 - const[1, :s]) / scal[1, :s]
    close(out, y, "transformed sigma points")


@oracle("C04", 12)
def anchored_states_reported(rng):
    from skillmodels.filtered_states import anchor_states_df

    m = gen.gen_model(rng, anchoring=True)
    p = gen.gen_params(rng, m)
    r = Ref(m, p)
    n = 7
    df = pd.DataFrame(rng.normal(size=(n, len(r.d["latent"]))), columns=r.d["latent"])
    df["period"] = rng.integers(0, r.d["n_periods"], size=n)
    df["id"] = rng.integers(0, 4, size=n)
    df["note"] = [f"n{i}" for i in range(n)]
    df = df[list(rng.permutation(df.columns))]
    df.index = [int(x) for x in rng.integers(0, 5, size=n)]
    before = df.copy(deep=True)
    out = anchor_states_df(states_df=df, model_dict=m, params=p)
    check(gen.unchanged(before, df), "anchor_states_df modified its input")
    check(list(out.columns) == list(df.columns), "columns changed")
    check(out.index.equals(df.index), "index changed")
    for c in ("period", "id", "note"):
        check(list(out[c]) == list(df[c]), f"column {c} changed")
    for i in range(n):
        t = int(df["period"].iloc[i])
        exp = r.anchor_const(t) + r.anchor_scale(t) * df[r.d["latent"]].iloc[i].to_numpy(dtype=float)
        close(out[r.d["latent"]].iloc[i].to_numpy(dtype=float), exp, f"anchored states of row {i} (period {t})")


@oracle("C04", 6)
def anchoring_order_irrelevant(rng):
    m = gen.gen_model(rng, anchoring=True, n_latent=int(rng.integers(2, 4)), n_periods=2, n_observed=0)
    if len(m["anchoring"]["outcomes"]) < 2:
        lat = list(m["factors"])
        m["anchoring"]["outcomes"] = {lat[1]: "Q0", lat[0]: "Q1"}
    p = gen.gen_params(rng, m)
    d = gen.gen_data(rng, m)
    import copy

    m2 = copy.deepcopy(m)
    items = list(m["anchoring"]["outcomes"].items())
    m2["anchoring"]["outcomes"] = dict(items[::-1])
    a = get_maximization_inputs(m, d)["loglike"](p)["contributions"]
    b = get_maximization_inputs(m2, d)["loglike"](p)["contributions"]
    close(a, b, "likelihood depends on the order of the anchoring outcomes", 1e-8)


# ------------------------------------------------------------------------------ C05 / C06
def lik_case(rng, **kw):
    kw.setdefault("n_periods", int(rng.integers(2, 4)))
    kw.setdefault("n_latent", int(rng.integers(1, 4)))
    kw.setdefault("transitions", ["linear", "translog", "linear_and_squares", "robust_translog", "log_ces", "log_ces_general", "constant"])
    kw.setdefault("options", {"clipping_lower_bound": None} if gen.coin(rng, 0.3) else {})
    m = gen.gen_model(rng, **kw)
    p = gen.gen_params(rng, m)
    d = gen.gen_data(rng, m, extra_periods=gen.coin(rng, 0.3), n_obs=int(rng.integers(3, 6)), drop_rows=0.15 if gen.coin(rng, 0.4) else 0, control_missing=0.15 if gen.coin(rng, 0.4) else 0)
    return m, p, d


def ref_likelihood(m, p, d):
    r, rd = Ref(m, p), RefData(d, m)
    out = []
    for i in range(len(rd.ids)):
        out.append(
            r.filter_individual(
                [rd.measurement(i, u) for u in r.ups],
                [rd.controls(i, t) for t in range(r.d["n_periods"])],
                [rd.observed(i, t) for t in range(r.d["n_periods"])],
            )
        )
    return r, rd, out


@oracle("C05", 24, 200)
def filter_matches_reference(rng):
    m, p, d = lik_case(rng)
    try:
        r, rd, ref = ref_likelihood(m, p, d)
    except np.linalg.LinAlgError:
        raise Skip("reference covariance not positive definite")
    mi = get_maximization_inputs(m, d)
    out = mi["debug_loglike"](p)
    K, n = len(r.ups), len(rd.ids)
    LL = np.array([x["loglikes"] for x in ref]).T
    if not np.isfinite(LL).all() or np.abs(LL).max() > 1e8:
        raise Skip("reference likelihood not finite")
    ac = out["all_contributions"]
    got = np.full((K, n), np.nan)
    keyed = {(a, b): k for k, (a, b, _, _) in enumerate(r.ups)}
    for t, v, i, c in zip(ac["period"], ac["measurement"], ac["id"], ac["contribution"]):
        got[keyed[(t, v)], int(i)] = c
    close(got, LL, "log likelihood contribution per update and individual", 1e-5, 1e-6)
    check(list(zip(ac["period"], ac["measurement"]))[::n] == [(a, b) for a, b, _, _ in r.ups], "updates are not run in the order of the update table")
    cl = out["contributions"]
    o = m.get("estimation_options", {})
    low = o.get("clipping_lower_bound", -1e250)
    close(cl, soft_clip(LL, low, None).sum(axis=0), "contributions", 1e-5, 1e-6)
    st = out["post_update_states"]
    lat = r.d["latent"]
    arr = {}
    for row in st[lat + ["period", "measurement", "id", "mixture"]].itertuples(index=False):
        arr[(row[-4], row[-3], int(row[-2]), int(row[-1]))] = np.array(row[: len(lat)], dtype=float)
    for k, (t, v, _, _) in enumerate(r.ups):
        for i in range(n):
            for e in range(r.d["n_mixtures"]):
                close(arr[(t, v, i, e)], ref[i]["states"][k][e], f"filtered states after update {(t, v)} of individual {i}, element {e}", 1e-5, 1e-6)


@oracle("C05", 6)
def updates_use_own_rows(rng):
    """perturbing data of period t only changes contributions from that period on"""
    m, p, d = lik_case(rng, n_observed=0, n_controls=1, n_periods=3)
    mi = get_maximization_inputs(m, d)
    a = mi["debug_loglike"](p)["all_contributions"]
    per = sorted(set(d.index.get_level_values(1)))
    t = int(rng.integers(1, 3))
    d2 = d.copy()
    rows = d2.index.get_level_values(1) == per[t]
    cols = [c for c in d2.columns]
    d2.loc[rows, cols] = d2.loc[rows, cols] + rng.normal(size=(rows.sum(), len(cols)))
    b = get_maximization_inputs(m, d2)["debug_loglike"](p)["all_contributions"]
    e = a["period"].to_numpy() < t
    close(a["contribution"].to_numpy()[e], b["contribution"].to_numpy()[e], f"contributions before period {t} depend on data of period {t}")


@oracle("C05", 1)
def period_without_update(rng):
    """known finding D10: the predict step of a period without updates is skipped"""
    m = {
        "factors": {
            "a": {"measurements": [["y0", "y1"], [], ["y0", "y1"]], "transition_function": "linear"},
        },
    }
    p = gen.gen_params(rng, m)
    d = gen.gen_data(rng, m, n_obs=4, missing=0)
    mi = get_maximization_inputs(m, d)
    base = mi["loglike"](p)["value"]
    p2 = p.copy()
    sel = [k[0] == "transition" and k[1] == 1 for k in p2.index]
    p2.loc[sel, "value"] += 0.5
    if abs(mi["loglike"](p2)["value"] - base) < 1e-10:
        raise Known("D10")


@oracle("C06", 8, 60)
def value_contributions_gradient(rng):
    opts = {}
    if gen.coin(rng, 0.6):
        opts["clipping_lower_bound"] = float(gen.pick(rng, [-1.5, -3.0, -1e250]))
    if gen.coin(rng, 0.4):
        opts["clipping_upper_bound"] = float(gen.pick(rng, [-0.5, 0.0, 2.0]))
    if gen.coin(rng, 0.5):
        opts["clipping_lower_hardness"] = float(gen.pick(rng, [0.7, 2.0]))
        opts["clipping_upper_hardness"] = float(gen.pick(rng, [0.5, 3.0]))
    m, p, d = lik_case(rng, n_periods=2, n_latent=int(rng.integers(1, 3)), max_meas=1 if gen.coin(rng) else 2, options=opts, transitions=gen.SMOOTH)
    jt = gen.pick(rng, ["jacrev", "jacfwd"])
    mi = get_maximization_inputs(m, d, jacobian_type=jt)
    ll, dl = mi["loglike"](p), mi["debug_loglike"](p)
    close(ll["contributions"].sum(), ll["value"], "value is not the sum of the contributions", 1e-8, 1e-9)
    close(dl["value"], ll["value"], "debug_loglike and loglike differ", 1e-8, 1e-9)
    close(dl["contributions"], ll["contributions"], "contributions of debug_loglike and loglike differ", 1e-8, 1e-9)
    raw = dl["all_contributions"]
    r = Ref(m, p)
    n = len(ll["contributions"])
    raw = raw["contribution"].to_numpy().reshape(len(r.ups), n)
    o = m.get("estimation_options", {})
    cl = soft_clip(raw, o.get("clipping_lower_bound", -1e250), o.get("clipping_upper_bound"), o.get("clipping_lower_hardness", 1), o.get("clipping_upper_hardness", 1))
    close(ll["contributions"], cl.sum(axis=0), "contributions are not the sums of clipped per-update log likelihoods", 1e-7, 1e-8)
    lg, g = mi["loglike_and_gradient"](p)
    close(lg["value"], ll["value"], "loglike_and_gradient value", 1e-8, 1e-9)
    close(lg["contributions"], ll["contributions"], "loglike_and_gradient contributions", 1e-8, 1e-9)
    g2, j = mi["gradient"](p), mi["jacobian"](p)
    close(g2, g, "gradient and loglike_and_gradient differ", 1e-8, 1e-9)
    close(j, g, "jacobian and gradient differ", 1e-8, 1e-9)
    ix = mi["params_template"].index
    check(len(g) == len(ix), "gradient has the wrong length")
    pick = rng.choice(len(ix), size=min(8, len(ix)), replace=False)
    h = 1e-5
    for k in pick:
        hi, lo = p.copy(), p.copy()
        hi.loc[ix[k], "value"] += h
        lo.loc[ix[k], "value"] -= h
        fd = (mi["loglike"](hi)["value"] - mi["loglike"](lo)["value"]) / (2 * h)
        close(g[k], fd, f"derivative for {ix[k]} differs from finite difference", 1e-3, 1e-4)


@oracle("C07", 40)
def soft_clipping_formula(rng):
    shape = gen.pick(rng, [(1,), (4,), (2, 3), (3, 1, 2), (0,), (2, 0)])
    x = rng.normal(size=shape) * gen.pick(rng, [1, 20, 0.1])
    lo = gen.pick(rng, [None, -1.0, 0.0, 2.5, -30.0])
    up = gen.pick(rng, [None, 1.0, 0.0, 3.5, -2.0])
    hl, hu = float(gen.pick(rng, [1, 0.3, 5.0])), float(gen.pick(rng, [1, 0.4, 7.0]))
    kw = {}
    if hl != 1 or gen.coin(rng):
        kw["lower_hardness"] = hl
    if hu != 1 or gen.coin(rng):
        kw["upper_hardness"] = hu
    out = np.array(clipping.soft_clipping(jnp.array(x), lower=lo, upper=up, **kw))
    check(out.shape == x.shape, f"shape changed from {x.shape} to {out.shape}")
    close(out, soft_clip(x, lo, up, hl, hu), f"soft clipping with lower={lo}, upper={up}, hardness {hl}, {hu}", 1e-8, 1e-9)
    if lo is not None and up is None:
        check((out >= lo - 1e-9).all(), "result below the lower bound")
        check((np.abs(out - np.maximum(x, lo)) <= np.log(2) / hl + 1e-9).all(), "deviation larger than log(2)/h")
    if up is not None:
        check((out <= up + 1e-9).all(), "result above the upper bound")
    if x.ndim == 1 and len(x):
        s = np.array(clipping.soft_clipping(jnp.array(np.sort(x)), lower=lo, upper=up, **kw))
        check((np.diff(s) >= -1e-9).all(), "not monotone")


@oracle("C08", 25)
def params_read_by_name(rng):
    m = gen.gen_model(rng, transitions=gen.BUILTIN, simple_names=gen.coin(rng, 0.7))
    p = gen.gen_params(rng, m)
    mod, st, uc, lw, pdict = parsed(m, p, n_obs=int(rng.integers(1, 4)))
    r = Ref(m, p)
    n = st.shape[0]
    keys = [tuple(k) for k in mod["update_info"].index]
    byk = {(u[0], u[1]): u for u in r.ups}
    check(set(keys) == set(byk), "update table has other rows than the specification")
    for k, key in enumerate(keys):
        u = byk[key]
        close(pdict["loadings"][k], r.loading_vec(u), f"loadings of {key}")
        close(pdict["controls"][k], r.control_vec(u), f"control coefficients of {key}")
        close(pdict["meas_sds"][k], r.meas_sd(u), f"meas_sds of {key}")
    for t in range(r.d["n_periods"] - 1):
        close(pdict["shock_sds"][t], r.shock_sds(t), f"shock_sds of period {t}")
        for f in r.d["latent"]:
            pars = r.trans_pars(t, f)
            close(pdict["transition"][f][t], [pars[x] for x in gen.transition_names(m, f)], f"transition parameters of {f} in period {t}")
    check(pdict["shock_sds"].shape[0] == r.d["n_periods"] - 1, "too many shock_sds rows")
    for i in range(n):
        for e in range(r.d["n_mixtures"]):
            close(st[i, e], r.init_mean(e), f"initial mean of element {e}")
            close(uc[i, e], r.init_upper(e), f"initial Cholesky factor of element {e}")
        close(lw[i], np.log(r.weights()), "initial log mixture weights")


@oracle("C08", 5)
def likelihood_reads_by_name(rng):
    m, p, d = lik_case(rng, n_periods=2, n_latent=2)
    mi = get_maximization_inputs(m, d)
    try:
        r, rd, ref = ref_likelihood(m, p, d)
    except np.linalg.LinAlgError:
        raise Skip("singular")
    LL = np.array([x["loglikes"] for x in ref]).sum(axis=1)
    o = m.get("estimation_options", {})
    close(mi["loglike"](p)["contributions"], LL, "likelihood contributions with permuted params", 1e-5, 1e-6)
