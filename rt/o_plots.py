"""Runtime oracles for C22-C23 (correlation tables, plots)."""
import contextlib
import itertools
import warnings

import numpy as np
import pandas as pd
import jax

jax.config.update("jax_enable_x64", True)

import plotly.graph_objects as go

from . import gen
from .core import Skip, call, check, close, oracle, priv
from .ref import Ref

import skillmodels.correlation_heatmap as ch
import skillmodels.utils_plotting as up
import skillmodels.visualize_factor_distributions as vd
import skillmodels.visualize_transition_equations as vt


# ---------------------------------------------------------------- C22
def corr_case(rng):
    m = gen.gen_model(rng, transitions=["linear"], max_meas=3, n_mixtures=1)
    d = gen.gen_data(
        rng, m, n_obs=int(rng.integers(6, 12)), missing=gen.pick(rng, [0, 0.1]), extra_periods=gen.coin(rng, 0.3),
        drop_rows=gen.pick(rng, [0, 0.1]),
    )
    dd = gen.dims(m)
    sel = gen.pick(rng, ["all", "one", "list"])
    if sel == "all":
        factors, fl = None, dd["all"]
    elif sel == "one":
        factors = gen.pick(rng, dd["all"])
        fl = [factors]
    else:
        k = int(rng.integers(1, len(dd["all"]) + 1))
        factors = [str(x) for x in rng.permutation(dd["all"])[:k]]
        fl = factors
    ps = gen.pick(rng, ["all", "one", "list", "single"])
    T = dd["n_periods"]
    if ps == "all":
        periods, pl = None, list(range(T))
    elif ps == "one":
        periods = int(rng.integers(T))
        pl = [periods]
    elif ps == "single":
        pl = periods = [int(rng.integers(T))]
    else:
        pl = periods = [int(x) for x in rng.permutation(T)[: int(rng.integers(1, T + 1))]]
    lat = [f for f in fl if f in dd["latent"]]
    obs = [f for f in fl if f in dd["observed"]]
    return m, d, dd, factors, lat, obs, periods, pl


def wide(d, col, period_no):
    ids = sorted(set(d.index.get_level_values(0)))
    pers = sorted(set(d.index.get_level_values(1)))
    s = {i: v for (i, t), v in zip(d.index, d[col]) if t == pers[period_no]}
    return np.array([s.get(i, np.nan) for i in ids], dtype=float)


def expected_items(m, d, lat, obs, t, kind, P):
    ups = [u for u in gen.updates(m) if u[0] == t and u[3] == "measurement"]
    out = []
    for f in lat:
        ms = [u[1] for u in ups if f in u[2]]
        if kind == "meas":
            out += [(x, wide(d, x, t)) for x in ms]
            continue
        cols = []
        for u in ups:
            if f not in u[2]:
                continue
            x = wide(d, u[1], t)
            if kind == "quasi":
                x = (x - np.nanmean(x)) / np.nanstd(x, ddof=1)
            else:
                if sum(P[("loadings", t, u[1], g)] != 0 for g in u[2]) > 1:
                    continue
                x = (x - P[("controls", t, u[1], "constant")]) / P[("loadings", t, u[1], f)]
            cols.append(x)
        if cols:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out.append((f, np.nanmean(np.array(cols), axis=0)))
        else:
            out.append((f, np.full(len(set(d.index.get_level_values(0))), np.nan)))
    out += [(o, wide(d, o, t)) for o in obs]
    return out


def corr_oracle(kind, fname):
    def run(rng):
        m, d, dd, factors, lat, obs, periods, pl = corr_case(rng)
        p = gen.gen_params(rng, m)
        if kind == "scores" and gen.coin(rng):
            # an estimated loading may be exactly zero; the factor then does not count for this measurement
            for u in gen.updates(m):
                rest = [g for g in u[2] if g not in lat]
                if u[3] == "measurement" and len(u[2]) > 1 and rest:
                    for g in rest:
                        p.loc[("loadings", u[0], u[1], g), "value"] = 0.0
        P = {tuple(k): float(v) for k, v in zip(p.index, p["value"])}
        items = []
        for t in pl:
            for n, x in expected_items(m, d, lat, obs, t, kind, P):
                items.append((n if len(pl) == 1 else f"{n}, {t}", x))
        if not items:
            raise Skip("nothing selected")
        snap = gen.snapshot((m, d, p, factors, periods))
        args = (d, p, m, factors, periods) if kind == "scores" else (d, m, factors, periods)
        got = getattr(ch, fname)(*args)
        check(gen.unchanged(snap, (m, d, p, factors, periods)), "an input was modified")
        names = [n for n, _ in items]
        check(list(got.columns) == names, f"columns {list(got.columns)}, expected {names}")
        check(list(got.index) == names, f"rows {list(got.index)}, expected {names}")
        exp = pd.DataFrame(np.array([x for _, x in items]).T).corr().to_numpy()
        close(got.to_numpy(), exp, f"{fname} (factors={factors}, periods={periods})", 1e-7, 1e-7)

    return run


for _kind, _f in (("meas", "get_measurements_corr"), ("quasi", "get_quasi_scores_corr"), ("scores", "get_scores_corr")):
    oracle("C22", 60, name=_f)(corr_oracle(_kind, _f))


@oracle("C22", 25)
def heatmap_masks(rng):
    n = int(rng.integers(2, 6))
    labs = [f"v{i}" for i in rng.permutation(n)]
    a = np.corrcoef(rng.normal(size=(n, 8)))
    if gen.coin(rng, 0.3):
        k = int(rng.integers(n))
        a[k, :] = np.nan
        a[:, k] = np.nan
    a = a + np.triu(rng.normal(size=(n, n)), 1) * 0.01  # make the triangles distinguishable
    df = pd.DataFrame(a, index=labs, columns=labs)
    snap = gen.snapshot(df)
    upper, diag, trim = gen.coin(rng), gen.coin(rng), gen.coin(rng)
    rnd = int(rng.integers(1, 4))
    # the colour range is only defined if at least two rows and columns are left
    kw = {"zmax": 0.9} if gen.coin(rng) or (n == 2 and trim) else {}
    lk = {"title": "abc", "width": 321} if gen.coin(rng) else None
    hk = {"showscale": False, "zmin": -0.25} if gen.coin(rng) else None
    s2 = gen.snapshot((lk, hk))
    ann = gen.coin(rng)
    if n - int(np.isnan(np.diag(a)).sum()) - 1 < 2:
        kw = {"zmax": 0.9}
    fig = ch.plot_correlation_heatmap(
        df, heatmap_kwargs=hk, layout_kwargs=lk, rounding=rnd, show_diagonal=diag, show_upper_triangle=upper,
        trim_heatmap=trim, annotate=ann, **kw,
    )
    check(gen.unchanged(snap, df) and gen.unchanged(s2, (lk, hk)), "an input was modified")
    keep = np.array([[i > j or (upper and j > i) or (diag and i == j) for j in range(n)] for i in range(n)])
    vals = np.where(keep, np.round(a, rnd), np.nan)
    r = list(range(n))
    c = list(range(n))
    if trim:
        r = [i for i in r if not np.isnan(vals[i]).all()]
        c = [j for j in c if not np.isnan(vals[r][:, j]).all()]
    vals = vals[r][:, c]
    h = fig.data[0]
    check(list(h.x) == [labs[j] for j in c] and list(h.y) == [labs[i] for i in r], f"labels {list(h.x)} {list(h.y)}")
    close(np.array(h.z, dtype=float).reshape(vals.shape), vals, "heatmap values", 1e-9)
    if ann:
        got = {(x.y, x.x): x.text for x in fig.layout.annotations}
        exp = {
            (labs[i], labs[j]): ("" if np.isnan(vals[a_, b_]) else float(vals[a_, b_]))
            for a_, i in enumerate(r)
            for b_, j in enumerate(c)
        }
        check(set(got) == set(exp), "annotated cells")
        for k, v in exp.items():
            check(got[k] == v if v == "" else float(got[k]) == v, f"annotation of {k}: {got[k]!r}, expected {v!r}")
    if lk:
        check(fig.layout.title.text == "abc" and fig.layout.width == 321, "layout_kwargs do not override the defaults")
    if hk:
        check(h.showscale is False and h.zmin == -0.25, "heatmap_kwargs do not override the defaults")
    if kw and vals.shape[0] > 1:
        check(h.zmax == 0.9, "zmax ignored")


# ---------------------------------------------------------------- C23
@contextlib.contextmanager
def patched_states(module, states):
    """replace the (expensive, separately specified) filter by given states"""
    old = getattr(module, "get_filtered_states", None)
    if old is None:
        raise Skip("get_filtered_states is not used by the module")
    used = []

    def fake(*args, **kwargs):
        used.append(1)
        return {
            "anchored_states": {"states": states.copy(), "state_ranges": None},
            "unanchored_states": {"states": states.copy() + 1000, "state_ranges": None},
        }

    module.get_filtered_states = fake
    try:
        yield used
    finally:
        module.get_filtered_states = old


def states_case(rng, n, T, latent):
    rows = [(i, t) for i in range(n) for t in range(T)]
    df = pd.DataFrame(rng.normal(size=(len(rows), len(latent))), columns=latent)
    df["id"] = [r[0] for r in rows]
    df["period"] = [r[1] for r in rows]
    if gen.coin(rng):
        df = df[list(rng.permutation(df.columns))]
    return df


def transition_plot_case(rng, average):
    m = gen.gen_model(rng, transitions=["linear", "translog", "linear_and_squares", "log_ces_general"], n_latent=int(rng.integers(2, 4)))
    dd = gen.dims(m)
    p = gen.gen_params(rng, m)
    d = gen.gen_data(rng, m, n_obs=int(rng.integers(3, 6)), missing=0, ids="mixed")
    n = len(set(d.index.get_level_values(0)))
    T = dd["n_periods"]
    states = states_case(rng, n, T, dd["latent"])
    period = int(rng.integers(T - 1))
    full = {f: np.array(states.loc[states["period"] == period].sort_values("id")[f]) for f in dd["latent"]}
    for o in dd["observed"]:
        full[o] = wide(d, o, period)
    if average:
        q = None
    else:
        q = gen.pick(rng, [0.5, [0.25, 0.75], (0.1, 0.5, 0.9), [0.4]])
    snap = gen.snapshot((m, d, p))
    npts = int(rng.integers(2, 6))
    sr = None
    rng_of = {f: (full[f].min(), full[f].max()) for f in dd["all"]}
    if gen.coin(rng, 0.4):
        sr = {}
        for f in dd["all"]:
            tab = pd.DataFrame({"minimum": rng.normal(size=T) - 3, "maximum": rng.normal(size=T) + 3}, index=pd.Index(range(T), name="period"))
            sr[f] = tab
            rng_of[f] = (tab["minimum"][period], tab["maximum"][period])
    with patched_states(vt, states) as used:
        plots = vt.get_transition_plots(
            m, p, d, period, state_ranges=sr, quantiles_of_other_factors=q, n_points=npts, n_draws=n
        )
    if not used:
        raise Skip("filtered states not taken from get_filtered_states")
    check(gen.unchanged(snap, (m, d, p)), "an input was modified")
    check(set(plots) == set(itertools.product(dd["all"], dd["latent"])), f"plots for {set(plots)}")
    r = Ref(m, p)
    qs = [None] if average else ([q] if isinstance(q, float) else list(q))
    for (fin, fout), fig in plots.items():
        grid = np.linspace(*rng_of[fin], npts)
        k = dd["latent"].index(fout)
        what = f"{fin} -> {fout} in period {period}"
        check(len(fig.data) == len(qs), f"number of lines of {what}")
        for tr, quant in zip(fig.data, qs):
            if average:
                ys = np.zeros(npts)
                for i in range(n):
                    for g, x in enumerate(grid):
                        v = {f: full[f][i] for f in dd["all"]}
                        v[fin] = x
                        ys[g] += r.raw_transition(period, [v[f] for f in dd["all"]])[k] / n
            else:
                base = {f: np.quantile(full[f], quant) for f in dd["all"]}
                ys = []
                for x in grid:
                    v = dict(base)
                    v[fin] = x
                    ys.append(r.raw_transition(period, [v[f] for f in dd["all"]])[k])
                if len(qs) > 1:
                    check(tr.name == str(quant), f"line {tr.name} instead of {quant}")
            close(np.array(tr.x, float), grid, f"grid of {what}", 1e-8, 1e-8)
            close(np.array(tr.y, float), ys, f"line {what}, quantile {quant}", 1e-6, 1e-8)
        check(fig.layout.xaxis.title.text == fin and fig.layout.yaxis.title.text == fout, f"axis titles of {what}")


@oracle("C23", 10)
def transition_lines_quantiles(rng):
    transition_plot_case(rng, False)


@oracle("C23", 6)
def transition_lines_average(rng):
    transition_plot_case(rng, True)


@oracle("C23", 5)
def last_period_rejected(rng):
    m = gen.gen_model(rng, transitions=["linear"])
    dd = gen.dims(m)
    p = gen.gen_params(rng, m)
    d = gen.gen_data(rng, m, n_obs=3, missing=0)
    try:
        with patched_states(vt, states_case(rng, 3, dd["n_periods"], dd["latent"])):
            vt.get_transition_plots(m, p, d, dd["n_periods"] - 1)
    except ValueError:
        return
    raise AssertionError("a transition out of the last period was plotted")


def dist_case(rng):
    m = gen.gen_model(rng, transitions=["linear"], n_latent=int(rng.integers(2, 4)), n_observed=int(rng.integers(0, 3)))
    dd = gen.dims(m)
    T = dd["n_periods"]
    d = gen.gen_data(rng, m, n_obs=6, missing=0, ids="int", first_period=0, shuffle=False)
    d.index = pd.MultiIndex.from_product([range(6), range(T)], names=["id", "period"])
    p = gen.gen_params(rng, m)
    period = int(rng.integers(T))
    mode = gen.pick(rng, ["df", "df", "dict", "list", "none"])
    use_obs = gen.coin(rng) and mode in ("df", "none")
    if mode in ("df", "none"):
        sts = {"none": states_case(rng, 6, T, dd["latent"])}
        arg = None if mode == "none" else sts["none"]
    elif mode == "dict":
        sts = {k: states_case(rng, 6, T, dd["latent"]) for k in ("base", "policy")}
        arg = sts
    else:
        arg = [states_case(rng, 6, T, dd["latent"]) for _ in range(2)]
        sts = dict(enumerate(arg))
    if gen.coin(rng, 0.5):
        factors, fl = None, (dd["all"] if use_obs else dd["latent"])
    else:
        pool = dd["all"] if use_obs else dd["latent"]
        fl = factors = [str(x) for x in rng.permutation(pool)[: int(rng.integers(2, len(pool) + 1))]]
        if not any(f in dd["latent"] for f in fl):
            fl = factors = factors + [dd["latent"][0]]
    vals = {}
    for s, df in sts.items():
        for f in fl:
            vals[(s, f)] = np.array(df.loc[df["period"] == period, f]) if f in dd["latent"] else np.array(d.loc[(slice(None), period), f])
    return m, dd, d, p, period, arg, sts, factors, fl, vals, use_obs


@oracle("C23", 12)
def univariate_data(rng):
    m, dd, d, p, period, arg, sts, factors, fl, vals, use_obs = dist_case(rng)
    snap = gen.snapshot((m, d, p, arg, factors))
    extra = {"rug_text": None} if gen.coin(rng) else None
    with patched_states(vd, next(iter(sts.values()))) as used:
        plots = vd.univariate_densities(
            d, m, p, period, factors=factors, observed_factors=use_obs, states=arg, show_rug=True, distplot_kwargs=extra
        )
    if arg is None and not used:
        raise Skip("filtered states not taken from get_filtered_states")
    check(gen.unchanged(snap, (m, d, p, arg, factors)), "an input was modified")
    check(list(plots) == list(fl), f"plots for {list(plots)}, expected {fl}")
    for f, fig in plots.items():
        n = len(sts)
        check(len(fig.data) == 2 * n, f"{len(fig.data)} traces for {f}")
        check(fig.layout.xaxis.title.text == f, "axis title")
        for tr, s in zip(fig.data[n:], sts):
            close(np.sort(np.array(tr.x, float)), np.sort(vals[(s, f)]), f"data of {f} in scenario {s}, period {period}")
            check(str(tr.legendgroup) == str(s), f"scenario {tr.legendgroup} instead of {s}")


@oracle("C23", 8)
def bivariate_data(rng):
    from scipy.stats import gaussian_kde

    m, dd, d, p, period, arg, sts, factors, fl, vals, use_obs = dist_case(rng)
    snap = gen.snapshot((m, d, p, arg, factors))
    n = int(rng.integers(3, 6))
    surf = isinstance(arg, pd.DataFrame) and gen.coin(rng)
    f = vd.bivariate_density_surfaces if surf else vd.bivariate_density_contours
    with patched_states(vd, next(iter(sts.values()))) as used:
        plots = f(d, m, p, period, factors=factors, observed_factors=use_obs, states=arg, n_points=n)
    if arg is None and not used:
        raise Skip("filtered states not taken from get_filtered_states")
    check(gen.unchanged(snap, (m, d, p, arg, factors)), "an input was modified")
    check(set(plots) == {(a, b) for a in fl for b in fl if a != b}, "pairs of factors")
    for (a, b), fig in plots.items():
        check(len(fig.data) == len(sts), f"{len(fig.data)} traces for {(a, b)}")
        for tr, s in zip(fig.data, sts):
            x, y = vals[(s, a)], vals[(s, b)]
            gx, gy = np.linspace(x.min(), x.max(), n), np.linspace(y.min(), y.max(), n)
            z = gaussian_kde(np.vstack([x, y]))(np.array([(u, v) for u in gx for v in gy]).T).reshape(n, n)
            tx, ty = np.array(tr.x, float), np.array(tr.y, float)
            if surf:
                close(tx[:, 0], gx, f"x of {(a, b)}")
                close(ty[0], gy, f"y of {(a, b)}")
            else:
                close(tx, gx, f"x of {(a, b)}")
                close(ty, gy, f"y of {(a, b)}")
            close(np.array(tr.z, float), z, f"density of {(a, b)} in scenario {s}", 1e-6, 1e-9)


def axes_of(fig, r, c):
    sp = fig.get_subplot(r, c)
    return sp.xaxis.plotly_name.replace("axis", ""), sp


@oracle("C23", 12)
def combined_transition_figure(rng):
    pool = ["b", "a", "dd", "c"]
    outs = [str(x) for x in rng.permutation(pool)[: int(rng.integers(1, 4))]]
    ins = [str(x) for x in rng.permutation(pool + ["o"])[: int(rng.integers(1, 5))]]
    plots = {}
    for fo in outs:
        for fi in ins:
            if gen.coin(rng, 0.85) or not plots:
                plots[(fi, fo)] = go.Figure([go.Scatter(x=[0, 1], y=list(rng.normal(size=2))) for _ in range(int(rng.integers(1, 3)))])
    co = gen.pick(rng, [None, "perm", "str"])
    ro = gen.pick(rng, [None, "perm", "str"])
    cols = list(dict.fromkeys(k[0] for k in plots))
    rows = list(dict.fromkeys(k[1] for k in plots))
    carg = rarg = None
    if co == "perm":
        carg = cols = [str(x) for x in rng.permutation(cols)]
    elif co == "str":
        carg = cols[-1]
        cols = [carg]
    if ro == "perm":
        rarg = rows = [str(x) for x in rng.permutation(rows)]
    elif ro == "str":
        rarg = rows[-1]
        rows = [rarg]
    mapping = {f: f.upper() + "!" for f in pool if gen.coin(rng)} if gen.coin(rng) else None
    lk = {"height": 123, "title": {"text": "mine"}} if gen.coin(rng) else None
    leg = {"title": {"text": "leg"}} if gen.coin(rng) else None
    sub = {"horizontal_spacing": 0.01} if gen.coin(rng) else None
    show = gen.coin(rng)
    snap = gen.snapshot((plots, carg, rarg, mapping, lk, leg, sub))
    fig = vt.combine_transition_plots(
        plots, column_order=carg, row_order=rarg, factor_mapping=mapping, layout_kwargs=lk, legend_kwargs=leg,
        make_subplot_kwargs=sub, showlegend=show, sharex=gen.coin(rng), sharey=gen.coin(rng),
    )
    for a, b in zip(snap, (plots, carg, rarg, mapping, lk, leg, sub)):
        if isinstance(a, dict) and a and isinstance(next(iter(a)), tuple):
            check(list(a) == list(b) and all(a[k] == b[k] for k in a), "plots_dict was modified")
        else:
            check(gen.unchanged(a, b), "an input was modified")
    name = lambda f: (mapping or {}).get(f, f)
    for r, fo in enumerate(rows, 1):
        for c, fi in enumerate(cols, 1):
            ax, sp = axes_of(fig, r, c)
            got = [list(t.y) for t in fig.data if t.xaxis == ax]
            exp = [list(t.y) for t in plots[(fi, fo)].data] if (fi, fo) in plots else []
            check(got == exp, f"subplot in row {r} ({fo}) and column {c} ({fi}) shows {got}, expected {exp}")
            check(sp.xaxis.title.text == name(fi), f"x title {sp.xaxis.title.text} of {(fi, fo)}")
            if c == 1:
                check(sp.yaxis.title.text == name(fo), f"y title {sp.yaxis.title.text} of {(fi, fo)}")
    check(fig.layout.showlegend is show, "showlegend")
    if lk:
        check(fig.layout.height == 123 and fig.layout.title.text == "mine", "layout_kwargs do not override defaults")
    else:
        check(fig.layout.height == 300 * len(rows) and fig.layout.width == 300 * len(cols), "figure size")
    if leg:
        check(fig.layout.legend.title.text == "leg", "legend_kwargs ignored")


@oracle("C23", 8)
def combined_distribution_figure(rng):
    fs = [str(x) for x in rng.permutation(["b", "a", "dd", "c"])[: int(rng.integers(1, 4))]]
    scat = lambda: list(rng.normal(size=2))
    kde = {f: go.Figure([go.Scatter(x=[0, 1], y=scat())]) for f in fs}
    con, sur = {}, {}
    for a, b in itertools.permutations(fs, 2):
        con[(a, b)] = go.Figure([go.Scatter(x=[0, 1], y=scat())])
        con[(a, b)].update_xaxes(title={"text": a})
        con[(a, b)].update_yaxes(title={"text": b})
        sur[(a, b)] = go.Figure(go.Surface(x=[0, 1], y=[0, 1], z=rng.normal(size=(2, 2))))
    order = gen.pick(rng, [None, "perm", "str"])
    of, arg = fs, None
    if order == "perm":
        arg = of = [str(x) for x in rng.permutation(fs)]
    elif order == "str":
        arg = fs[-1]
        of = [arg]
    mapping = {f: f.upper() + "!" for f in fs if gen.coin(rng)} if gen.coin(rng) else None
    lk = {"height": 123} if gen.coin(rng) else None
    use_s = gen.coin(rng)
    snap = gen.snapshot((mapping, lk, arg))
    old = gen.snapshot(kde)
    fig = vd.combine_distribution_plots(kde, con, sur if use_s else None, factor_order=arg, factor_mapping=mapping, layout_kwargs=lk)
    check(gen.unchanged(snap, (mapping, lk, arg)) and all(old[k] == kde[k] for k in kde), "an input was modified")
    name = lambda f: (mapping or {}).get(f, f)
    for c, fc in enumerate(of, 1):
        for r, fr in enumerate(of, 1):
            if r >= c:
                ax, sp = axes_of(fig, r, c)
                got = [list(t.y) for t in fig.data if t.type != "surface" and t.xaxis == ax]
                exp = [list(t.y) for t in (kde[fc] if r == c else con[(fc, fr)]).data]
                check(got == exp, f"subplot in row {r} ({fr}) and column {c} ({fc})")
                check(sp.xaxis.title.text == name(fc), "x title")
                check(sp.yaxis.title.text == ("Density" if r == c else name(fr)), "y title")
            elif use_s:
                sc = fig.get_subplot(r, c).plotly_name
                got = [np.array(t.z).tolist() for t in fig.data if t.type == "surface" and t.scene == sc]
                check(got == [np.array(sur[(fc, fr)].data[0].z).tolist()], f"surface in row {r} ({fr}) and column {c} ({fc})")
    check(fig.layout.height == (123 if lk else 300 * len(of)), "height")


@oracle("C23", 20)
def option_helpers(rng):
    lk = {"template": "x", "foo": 1} if gen.coin(rng) else None
    leg = {"a": 1} if gen.coin(rng) else None
    tit = {"text": "t"} if gen.coin(rng) else None
    rows = ["a"] * int(rng.integers(1, 4)) if gen.coin(rng) else None
    cols = ["a"] * int(rng.integers(1, 4)) if gen.coin(rng) else None
    show = gen.coin(rng)
    snap = gen.snapshot((lk, leg, tit, rows, cols))
    f = priv("utils_plotting", "get_layout_kwargs")
    got = call(f, lk, leg, tit, show, cols, rows)
    check(gen.unchanged(snap, (lk, leg, tit, rows, cols)), "an input was modified")
    exp = {"template": "simple_white", "xaxis_showgrid": False, "yaxis_showgrid": False, "legend": leg or {}, "title": tit or {}, "showlegend": show}
    if rows:
        exp["height"] = 300 * len(rows)
    if cols:
        exp["width"] = 300 * len(cols)
    exp.update(lk or {})
    check(got == exp, f"layout kwargs {got}, expected {exp}")
    nr, nc = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    sx, sy, sc = gen.coin(rng), gen.coin(rng), gen.coin(rng)
    user = {"rows": 7, "print_grid": True} if gen.coin(rng) else None
    su = gen.snapshot(user)
    g = priv("utils_plotting", "get_make_subplot_kwargs")
    got = call(g, sx, sy, ["a"] * nc, ["b"] * nr, user, sc)
    check(gen.unchanged(su, user), "an input was modified")
    exp = {
        "rows": nr, "cols": nc, "start_cell": "top-left", "print_grid": False, "shared_yaxes": sy, "shared_xaxes": sx,
        "horizontal_spacing": (1 if sy else 2) / (6 * nc),
    }
    if nr > 1:
        exp["vertical_spacing"] = 1 / (4 * (nr - 1))
    exp.update(user or {})
    if sc:
        check(got.pop("specs") == [[{"type": "scene"} if j > i else {} for j in range(nc)] for i in range(nr)], "specs")
    check(set(got) == set(exp), "keys")
    for k, v in exp.items():
        check(abs(got[k] - v) < 1e-12 if isinstance(v, float) else got[k] == v, f"{k}: {got[k]}, expected {v}")
