"""Contracts of the filter: kalman_filters.py, clipping.py, transition_functions.py."""
from . import arrays as ar
from . import terms as tm
from .arrays import Arr, Plain
from .terms import app, num, var
from .unit import Unit

KF = "skillmodels.kalman_filters"


def S(n, f):
    """mathematical sum over 0..n-1"""
    k = tm.fresh("s")
    return tm.sum_(k, n, f(k))


def arr(axes, fn, nan=None, sort="R"):
    return Arr([a if isinstance(a, ar.Axis) else Plain(a) for a in axes], lambda i: fn(*i), (lambda i: nan(*i)) if nan else None, sort)


class UpdateInputs:
    """symbolic inputs of kalman_update under its precondition"""

    def __init__(self, u, clean, single):
        self.N, self.K, self.C = u.int("n_obs", 1), u.int("n_states", 1), u.int("n_controls", 1)
        self.M = num(1) if single else u.int("n_mixtures", 2)
        N, M, K, C = self.N, self.M, self.K, self.C
        self.x = u.array("x", N, M, K)
        self.U = u.array("U", N, M, K, K)
        self.h = u.array("h", K)
        self.cp = u.array("cp", C)
        self.sd = u.real("sd", rng=(0.3, 1.5))
        u.assume(tm.lt(0, app("sd")))
        self.y = u.array("y", N, nan=True)
        self.ctl = u.array("ctl", N, C, nan=True)
        if clean:
            # processed data: controls of an observed measurement are observed (property C16)
            u.theory.schemas["ctl.nan"] = lambda i, c: [tm.implies(app("ctl.nan", i, c, sort="B"), app("y.nan", i, sort="B"))]
            u.theory.interp["ctl.nan"] = lambda m, a: (a[0] + a[1] + m.seed) % 2 == 0 and m.value("y.nan", a[:1], "B")
        # a single mixture element has weight one
        self.lw = arr((N, M), lambda i, m: num(0)) if single else u.array("lw", N, M, rng=(-3, -0.1))

    def args(self, debug):
        return (self.x, self.U, self.h, self.cp, self.sd, self.y, self.ctl, self.lw, debug)

    # ---- specification functions (textbook conditioning of a normal distribution)
    def resid(self, i, m):
        return tm.sub(
            app("y", i),
            tm.add(S(self.K, lambda s: tm.mul(app("h", s), app("x", i, m, s))), S(self.C, lambda c: tm.mul(app("cp", c), app("ctl", i, c)))),
        )

    def P(self, i, m, a, b):
        return S(self.K, lambda k: tm.mul(app("U", i, m, k, a), app("U", i, m, k, b)))

    def Ph(self, i, m, a):
        return S(self.K, lambda s: tm.mul(app("h", s), self.P(i, m, s, a)))

    def var(self, i, m):
        return tm.add(
            tm.power(app("sd"), 2),
            S(self.K, lambda s: S(self.K, lambda r: tm.mul(tm.mul(app("h", s), app("h", r)), self.P(i, m, s, r)))),
        )

    def ll(self, i, m):
        v = self.var(i, m)
        half = tm.lift(0.5)
        return tm.sub(
            tm.mul(tm.lift(-0.5), tm.div(tm.power(self.resid(i, m), 2), v)),
            tm.add(tm.mul(half, tm.fn("log", v)), tm.mul(half, tm.fn("log", tm.mul(2, app("pi"))))),
        )

    def llike(self, i):
        return tm.fn("log", S(self.M, lambda m: tm.mul(tm.fn("exp", self.lw.at(i, m)), tm.fn("exp", self.ll(i, m)))))


def c01_update(u, single=False):
    d = UpdateInputs(u, True, single)
    N, M, K = d.N, d.M, d.K
    observed = lambda i: [tm.not_(app("y.nan", i, sort="B"))]
    for debug in (False, True):
        for kind, v in u.run(KF + ".kalman_update", d.args(debug)):
            if kind == "raise":
                u.fail("no exception", str(v))
                continue
            states, chols, weights, ll, info = v
            eq = lambda name, got, axes, f: rows_eq(u, name, got, axes, f, observed)
            eq("conditional mean", states, (N, M, K), lambda i, m, s: tm.add(app("x", i, m, s), tm.div(tm.mul(d.Ph(i, m, s), d.resid(i, m)), d.var(i, m))))
            cov_eq(
                u, "conditional covariance", chols, (N, M, K, K),
                lambda i, m, a, b: tm.sub(d.P(i, m, a, b), tm.div(tm.mul(d.Ph(i, m, a), d.Ph(i, m, b)), d.var(i, m))),
                observed,
            )
            eq("log likelihood contribution", ll, (N,), lambda i: d.llike(i))
            eq("mixture weights", weights, (N, M), lambda i, m: tm.sub(tm.add(d.lw.at(i, m), d.ll(i, m)), d.llike(i)))
            if debug:
                eq("debug residuals", info["residuals"], (N, M), lambda i, m: d.resid(i, m))
                eq("debug residual sds", info["residual_sds"], (N, M), lambda i, m: tm.fn("sqrt", d.var(i, m)))
                eq("debug weights", info["log_mixture_weights"], (N, M), lambda i, m: tm.sub(tm.add(d.lw.at(i, m), d.ll(i, m)), d.llike(i)))
            elif info != {}:
                u.fail("debug info empty without debug", repr(info))


def rows_eq(u, name, got, axes, f, row_facts, nan=None):
    """got equals f on all rows that satisfy row_facts; never NaN there"""
    want = arr(axes, f, nan)
    masked_eq(u, name, got, want, row_facts)


def masked_eq(u, name, got, want, row_facts):
    e = u.e
    if not isinstance(got, Arr):
        u.fail(name + ": shape", f"expected an array, got {type(got).__name__}")
        return
    if got.ndim != want.ndim:
        u.fail(name + ": shape", f"got {got.ndim} dimensions, expected {want.ndim}")
        return
    axes, cg, cw = [], [], []
    for a, b in zip(got.axes, want.axes):
        u.check(name + ": shape", tm.eq(a.size(), b.size()), detail=f"axis {a!r} vs {b!r}")
        if u.obl(name + ": shape").status != "PROVED":
            return
        ax, f, g = ar.unify(a, b)
        axes.append(ax)
        cg.append(f)
        cw.append(g)
    for idx, fs in Arr(axes, lambda i: num(0)).generic():
        wi = tuple(f(i) for f, i in zip(cw, idx))
        fs = list(fs) + list(row_facts(*[ar.flat(k)[0] if len(ar.flat(k)) == 1 else k for k in wi][:1]))
        with e.assuming(fs):
            gi = tuple(f(i) for f, i in zip(cg, idx))
            gv, gn = got.el(gi)
            wv, wn = want.el(wi)
        u.check(name + ": NaN pattern", tm.eq(gn, wn), fs)
        u.check(name, tm.eq(gv, wv), fs + [tm.not_(wn)])


def cov_eq(u, name, got, axes, cov, row_facts):
    """got'got == cov (got is a square root factor)"""
    g = Arr(
        got.axes,
        lambda i: S(got.axes[-2].size(), lambda k: tm.mul(got.fn(i[:-2] + (k, i[-2])), got.fn(i[:-2] + (k, i[-1])))),
        None,
    ) if isinstance(got, Arr) and got.ndim == len(axes) and all(isinstance(a, Plain) for a in got.axes) else got
    masked_eq(u, name, g, arr(axes, cov), row_facts)
    if isinstance(got, Arr) and got.ndim == len(axes):
        nan_never(u, name + ": never NaN", got, row_facts)


def nan_never(u, name, got, row_facts=lambda *i: []):
    for idx, fs in got.generic():
        fs = list(fs) + list(row_facts(*[ar.flat(idx[0])[0]]))
        with u.e.assuming(fs):
            n = got.el(idx)[1]
        u.check(name, tm.not_(n), fs)


def c02_update(u, single=False):
    d = UpdateInputs(u, False, single)
    N, M, K = d.N, d.M, d.K
    missing = lambda i: [app("y.nan", i, sort="B")]
    for debug in (False, True):
        for kind, v in u.run(KF + ".kalman_update", d.args(debug)):
            if kind == "raise":
                u.fail("no exception", str(v))
                continue
            states, chols, weights, ll, info = v
            eq = lambda name, got, axes, f: rows_eq(u, name, got, axes, f, missing)
            eq("states of a missing measurement unchanged", states, (N, M, K), lambda i, m, s: app("x", i, m, s))
            eq("factors of a missing measurement unchanged", chols, (N, M, K, K), lambda i, m, a, b: app("U", i, m, a, b))
            eq("weights of a missing measurement unchanged", weights, (N, M), lambda i, m: d.lw.at(i, m))
            eq("contribution of a missing measurement is zero", ll, (N,), lambda i: num(0))
            if debug:
                eq("debug weights unchanged", info["log_mixture_weights"], (N, M), lambda i, m: d.lw.at(i, m))
                for k in ("residuals", "residual_sds"):
                    a = info[k]
                    for idx, fs in a.generic():
                        fs = list(fs) + missing(ar.flat(idx[0])[0])
                        with u.e.assuming(fs):
                            n = a.el(idx)[1]
                        u.check(f"debug {k} of a missing measurement are NaN", n, fs)


# ------------------------------------------------------------------ predict step (C03, C04)
def weights_value(n, kappa, i):
    d = tm.add(n, kappa)
    return tm.ite(tm.eq(i, 0), tm.div(kappa, d), tm.div(tm.lift(0.5), d))


def c03_weights(u):
    n = u.int("n_states", 1)
    kappa = u.real("kappa", rng=(0.2, 3))
    u.assume(tm.lt(0, app("kappa")))
    for kind, v in u.run(KF + ".calculate_sigma_scaling_factor_and_weights", (n, kappa)):
        if kind == "raise":
            u.fail("no exception", str(v))
            continue
        sf, w = v
        u.check("scaling factor squared is kappa + n_states", tm.eq(tm.power(ar.as_arr(sf).at(), 2), tm.add(n, app("kappa"))))
        u.check("scaling factor is positive", tm.lt(0, ar.as_arr(sf).at()))
        u.arr_eq("weights", w, arr((tm.add(tm.mul(2, n), 1),), lambda i: weights_value(n, app("kappa"), i)))
        for idx, fs in w.generic():
            u.check("weights are non-negative", tm.le(0, w.el(idx)[0]), fs)
        with u.e.assuming([]):
            u.check("weights sum to one", tm.eq(ar.asum(w).at(), 1))


class PredictInputs:
    def __init__(self, u, observed=True):
        self.N, self.M, self.K = u.int("n_obs", 1), u.int("n_mixtures", 1), u.int("n_states", 1)
        self.O = u.int("n_observed", 0)
        self.x = u.array("x", self.N, self.M, self.K)
        self.U = u.array("U", self.N, self.M, self.K, self.K)
        self.ob = u.array("obs", self.N, self.O)
        self.sf = u.real("sf")
        self.S = tm.add(tm.mul(2, self.K), 1)
        self.F = tm.add(self.K, self.O)

    def point(self, i, m, s, f):
        """sigma point s of factor f"""
        K = self.K
        off = tm.mul(app("sf"), app("U", i, m, tm.sub(s, 1), f))
        off2 = tm.mul(app("sf"), app("U", i, m, tm.sub(s, tm.add(K, 1)), f))
        st = app("x", i, m, f)
        latent = tm.ite(tm.eq(s, 0), st, tm.ite(tm.le(s, K), tm.add(st, off), tm.sub(st, off2)))
        return tm.ite(tm.lt(f, K), latent, app("obs", i, tm.sub(f, K)))


def c03_points(u):
    d = PredictInputs(u)
    for kind, v in u.run(KF + "._calculate_sigma_points", (d.x, d.U, d.sf, d.ob)):
        if kind == "raise":
            u.fail("no exception", str(v))
            continue
        u.arr_eq("sigma points", v, arr((d.N, d.M, d.S, d.F), d.point))


def c03_reproduce(u):
    """the real weights and the real sigma points together reproduce mean and covariance"""
    d = PredictInputs(u)
    kappa = u.real("kappa", rng=(0.2, 3))
    u.assume(tm.lt(0, app("kappa")))

    def thunk():
        e = u.e
        sf, w = e.call(e.function(KF + ".calculate_sigma_scaling_factor_and_weights"), [d.K, kappa], {})
        return sf, w, e.call(e.function(KF + "._calculate_sigma_points"), [d.x, d.U, sf, d.ob], {})

    for kind, v in u.run_thunk(thunk):
        if kind == "raise":
            u.fail("no exception", str(v))
            continue
        sf, w, p = v
        w, p = ar.as_arr(w), ar.as_arr(p)
        if w.ndim != 1 or p.ndim != 4:
            u.fail("weights and points have the right dimensions", f"{w!r} {p!r}")
            continue
        i, m, a, b = (tm.var(z, "I") for z in ("i", "m", "a", "b"))
        fs = [tm.le(0, z) for z in (i, m, a, b)] + [tm.lt(i, d.N), tm.lt(m, d.M), tm.lt(a, d.K), tm.lt(b, d.K)]
        ctx_facts = fs
        with u.e.assuming(fs):
            pt = lambda s, f: ar.index0(ar.index0(ar.index0(ar.index0(p, i), m), s), f).at()
            W = lambda s: ar.index0(w, s).at()
            mean = ar.reduce_sum_term(Plain(d.S), lambda s: tm.mul(W(s), pt(s, a)))
            cov = ar.reduce_sum_term(
                Plain(d.S), lambda s: tm.mul(W(s), tm.mul(tm.sub(pt(s, a), app("x", i, m, a)), tm.sub(pt(s, b), app("x", i, m, b))))
            )
        u.check("weighted mean of the sigma points is the mean", tm.eq(mean, app("x", i, m, a)), ctx_facts)
        want = S(d.K, lambda k: tm.mul(app("U", i, m, k, a), app("U", i, m, k, b)))
        u.check("weighted covariance of the sigma points is the covariance", tm.eq(cov, want), ctx_facts)


def anchored_transition(u, nL, spec_in, axes_in, name="transition input"):
    """contract of the model transition function: row-wise, (rows, factors) -> (rows, latent factors)"""
    from .interp import Native, flat_idx

    def call(e, args, kw):
        coeffs, states = args if len(args) == 2 else (args + [kw.get("params"), kw.get("states")])[:2]
        u.seen_coeffs = coeffs
        states = ar.as_arr(states)
        if states.ndim != 2:
            u.fail(name + ": shape", f"transition function called with {states.ndim} dimensions")
            raise ar.Unsupported("transition input")
        rows = states.axes[0]
        u.arr_eq_flat(name, states, spec_in, axes_in)
        return Arr([rows, Plain(nL)], lambda i: app("G", *u.row_index(rows, i[0], axes_in), i[1]), None, "R")

    return Native(call, "transition function")


def c04_transform(u):
    N, M, Sg = u.int("n_obs", 1), u.int("n_mixtures", 1), u.int("n_sigma", 1)
    K, O = u.int("n_latent", 1), u.int("n_observed", 0)
    F = tm.add(K, O)
    p = u.array("p", N, M, Sg, F)
    sc = u.array("scale", 2, F, rng=(0.5, 2), facts=lambda v, t, f: [tm.not_(tm.eq(v, 0))])
    co = u.array("const", 2, F)
    func = anchored_transition(u, K, lambda i, m, s, f: tm.add(tm.mul(app("p", i, m, s, f), app("scale", 0, f)), app("const", 0, f)), (N, M, Sg, F))
    coeffs = ("coeffs",)
    for kind, v in u.run(KF + ".transform_sigma_points", (p, {"func": func, "columns": {}}, coeffs, sc, co)):
        if kind == "raise":
            u.fail("no exception", str(v))
            continue
        if u.seen_coeffs is not coeffs:
            u.fail("transition parameters are passed on", repr(u.seen_coeffs))
        else:
            u.ok("transition parameters are passed on")
        u.arr_eq(
            "unanchored result", v,
            arr((N, M, Sg, K), lambda i, m, s, f: tm.div(tm.sub(app("G", i, m, s, f), app("const", 1, f)), app("scale", 1, f))),
        )


def c03_predict(u):
    d = PredictInputs(u)
    w = u.array("w", d.S, rng=(0.05, 0.4), facts=lambda v, s: [tm.le(0, v)])
    sds = u.array("shock", d.K, rng=(0.1, 1))
    sc, co = u.array("scale", 2, d.F), u.array("const", 2, d.F)
    info, coeffs = {"func": "f", "columns": {}}, ("coeffs",)
    calls = []

    def points(e, args, kw):
        b = bind(("states", "upper_chols", "scaling_factor", "observed_factors"), args, kw)
        calls.append("points")
        for k, want in (("states", d.x), ("upper_chols", d.U), ("observed_factors", d.ob)):
            u.same_value(f"sigma points are computed from {k}", b[k], want)
        u.same_value("sigma points use the scaling factor", b["scaling_factor"], d.sf)
        return arr((d.N, d.M, d.S, d.F), lambda *i: app("point", *i))

    def transform(e, args, kw):
        b = bind(("sigma_points", "transition_info", "trans_coeffs", "anchoring_scaling_factors", "anchoring_constants"), args, kw)
        calls.append("transform")
        u.same_value("the sigma points are transformed", b["sigma_points"], arr((d.N, d.M, d.S, d.F), lambda *i: app("point", *i)))
        u.same_value("scaling factors are passed on", b["anchoring_scaling_factors"], sc)
        u.same_value("constants are passed on", b["anchoring_constants"], co)
        (u.ok if b["transition_info"] is info else lambda n: u.fail(n, ""))("transition info is passed on")
        (u.ok if b["trans_coeffs"] is coeffs else lambda n: u.fail(n, ""))("transition parameters are passed on")
        return arr((d.N, d.M, d.S, d.K), lambda *i: app("T", *i))

    u.stubs = {KF + "._calculate_sigma_points": points, KF + ".transform_sigma_points": transform}
    args = (d.x, d.U, d.sf, w, info, coeffs, sds, sc, co, d.ob)
    mean = lambda i, m, f: S(d.S, lambda s: tm.mul(app("w", s), app("T", i, m, s, f)))
    dev = lambda i, m, s, f: tm.sub(app("T", i, m, s, f), mean(i, m, f))

    def cov(i, m, a, b):
        return tm.add(
            S(d.S, lambda s: tm.mul(app("w", s), tm.mul(dev(i, m, s, a), dev(i, m, s, b)))),
            tm.ite(tm.eq(a, b), tm.power(app("shock", a), 2), num(0)),
        )

    for kind, v in u.run(KF + ".kalman_predict", args):
        if kind == "raise":
            u.fail("no exception", str(v))
            continue
        states, chols = v
        if calls[-2:] != ["points", "transform"]:
            u.fail("sigma points are transformed once", str(calls))
        u.arr_eq("predicted mean", states, arr((d.N, d.M, d.K), mean))
        cov_eq(u, "predicted covariance", chols, (d.N, d.M, d.K, d.K), cov, lambda i: [])


def bind(names, args, kw):
    out = dict(zip(names, args))
    out.update(kw)
    missing = [n for n in names if n not in out]
    if missing or len(args) > len(names) or set(out) - set(names):
        raise ar.Unsupported(f"call does not match the contract's parameters {names}")
    return out


# ------------------------------------------------------------------ soft clipping (C07)
def c07_clip(u):
    lo, hi, hl, hu = (u.real(n, rng=r) for n, r in (("lower", (-1, 0)), ("upper", (0.5, 2)), ("h_l", (0.5, 2)), ("h_u", (0.5, 2))))
    u.assume(tm.lt(0, app("h_l")), tm.lt(0, app("h_u")))
    sl = lambda x: tm.div(tm.fn("log", tm.add(tm.fn("exp", tm.mul(app("h_l"), x)), tm.fn("exp", tm.mul(app("h_l"), app("lower"))))), app("h_l"))
    su = lambda x: tm.neg(tm.div(tm.fn("log", tm.add(tm.fn("exp", tm.neg(tm.mul(app("h_u"), x))), tm.fn("exp", tm.neg(tm.mul(app("h_u"), app("upper")))))), app("h_u")))
    a, b, c = u.int("n_a", 1), u.int("n_b", 1), u.int("n_c", 1)
    for dims in ((a,), (a, b), (a, b, c)):
        x = u.array(f"x{len(dims)}", *dims)
        for lname, l in (("no lower", None), ("lower", lo)):
            for uname, h in (("no upper", None), ("upper", hi)):
                kw = dict(lower=l, upper=h, lower_hardness=hl, upper_hardness=hu)
                for kind, v in u.run("skillmodels.clipping.soft_clipping", (x,), kw):
                    if kind == "raise":
                        u.fail("no exception", str(v))
                        continue

                    def f(*i, x=x, l=l, h=h):
                        r = x.at(*i)
                        r = sl(r) if l is not None else r
                        return su(r) if h is not None else r

                    u.arr_eq(f"soft clipping ({lname}, {uname}, {len(dims)}d)", v, arr(dims, f))


def c07_default(u):
    """default hardness is one, default bounds are absent"""
    a = u.int("n_a", 1)
    x = u.array("x", a)
    for kind, v in u.run("skillmodels.clipping.soft_clipping", (x,)):
        u.same_value("no bounds: unchanged", v, x)
    lo = u.real("lower")
    for kind, v in u.run("skillmodels.clipping.soft_clipping", (x,), {"lower": lo}):
        u.arr_eq("default hardness one", v, arr((a,), lambda i: tm.fn("log", tm.add(tm.fn("exp", app("x", i)), tm.fn("exp", app("lower"))))))


def c07_lemma(u):
    """monotone, bounded below by the bound, at most log(2)/h above the hard maximum (from the formula)"""
    u.e = u.engine()
    x, y, l, h = (tm.var(n, "R") for n in "xylh")
    ex, ey, el = (tm.var("e" + n, "R") for n in "xyl")
    # s = log(e1 + e2) with e = exp(h * .); the order facts of exp/log are its only properties used
    pos = [tm.lt(0, ex), tm.lt(0, ey), tm.lt(0, el), tm.lt(0, h)]
    u.check("sum dominates the bound (argument of the logarithm)", tm.lt(el, tm.add(ex, el)), pos)
    u.check("at most twice the maximum (argument of the logarithm)", tm.or_(tm.le(tm.add(ex, el), tm.mul(2, ex)), tm.le(tm.add(ex, el), tm.mul(2, el))), pos)
    u.check("monotone (argument of the logarithm)", tm.implies(tm.le(ex, ey), tm.le(tm.add(ex, el), tm.add(ey, el))), pos)


UPD = [("kalman_filters.kalman_update", c01_update), ("kalman_filters.kalman_update [one mixture element]", lambda u: c01_update(u, True))]
UPD2 = [("kalman_filters.kalman_update: missing measurements", c02_update), ("kalman_filters.kalman_update [one mixture element]: missing measurements", lambda u: c02_update(u, True))]
PRED = [
    ("kalman_filters.calculate_sigma_scaling_factor_and_weights", c03_weights),
    ("kalman_filters._calculate_sigma_points", c03_points),
    ("kalman_filters: sigma points reproduce mean and covariance", c03_reproduce),
    ("kalman_filters.kalman_predict", c03_predict),
]
TRANSF = [("kalman_filters.transform_sigma_points", c04_transform)]
UNITS = {
    "C01": UPD,
    "C02": UPD2 + UPD,
    "C03": PRED + TRANSF,
    "C04": TRANSF,
    "C07": [("clipping.soft_clipping", c07_clip), ("clipping.soft_clipping defaults", c07_default), ("clipping: bounds and monotonicity lemma", c07_lemma)],
}
