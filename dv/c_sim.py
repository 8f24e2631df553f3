"""Contracts of simulate_data.py.

The random number generators are taken by contract: a call draws from the normal (multinomial)
distribution with the given arguments, which are compared with those of the data generating
process; the drawn numbers are uninterpreted functions of the distribution's parameters.
"""
import numpy as np

from . import arrays as ar
from . import frames as fr
from . import pdmodel as pm
from . import terms as tm
from .arrays import Arr, Plain, Unsupported
from .c_filter import S, arr
from .c_likelihood import bound, lat, token
from .interp import DSeg, Native, Seg
from .lib import LIB, NOATTR
from .terms import app, num

SD = "skillmodels.simulate_data"


def at(a, *idx):
    return a.el(tuple(tm.lift(i) for i in idx))[0]


def draw_args(e, names, a, kw):
    out = dict(zip(names, a))
    out.update(kw)
    return out


def vec(e, x):
    if isinstance(x, list):
        ax, fn = pm.list_axis(x)
        return Arr([ax], lambda i: tm.lift(fn(i[0])))
    return ar.as_arr(x)


# ------------------------------------------------------------------ _get_shock
def c19_shock(u):
    mean, sd, n = u.real("mean"), u.real("sd", rng=(-1, 2)), u.int("size", 1)

    def normal(e, loc=0.0, scale=1.0, size=None):
        u.same_value("mean of the shock", ar.as_arr(loc), mean)
        u.same_value("standard deviation of the shock", ar.as_arr(scale), sd)
        if size is None:
            u.fail("one draw per individual", "size is None")
            return arr((), lambda: app("z", 0))
        u.check("one draw per individual", tm.eq(tm.lift(size), n))
        return Arr([Plain(tm.lift(size))], lambda i: app("z", i[0]), None, "R", "np")

    LIB[id(np.random.normal)] = normal
    s = app("sd")
    for kind, v in u.run(SD + "._get_shock", (), dict(mean=mean, sd=sd, size=n)):
        if kind == "raise":
            u.check("an error is raised only for a negative standard deviation", tm.lt(s, 0), detail=str(v))
            continue
        u.check("negative standard deviations are rejected", tm.le(0, s))
        u.arr_eq("shock", ar.as_arr(v), arr((n,), lambda i: tm.ite(tm.eq(s, 0), app("mean"), app("z", i))))


# ------------------------------------------------------------------ measurements_from_states
def c19_measurements(u, common_controls=False):
    N, L, C, M = u.int("n_obs", 1), u.int("n_states", 1), u.int("n_controls", 1), u.int("n_meas", 1)
    x, load, cp, sd = u.array("x", N, L, lib="np"), u.array("load", M, L, lib="np"), u.array("cp", M, C, lib="np"), u.array("sd", M, lib="np")
    ctl = u.array("ctl", C) if common_controls else u.array("ctl", N, C)
    ctl_at = (lambda i, c: app("ctl", c)) if common_controls else (lambda i, c: app("ctl", i, c))

    def mvn(e, *a, **kw):
        k = draw_args(e, ["mean", "cov", "size"], a, kw)
        u.arr_eq("measurement errors have mean zero", vec(e, k["mean"]), arr((M,), lambda m: num(0)))
        u.arr_eq("measurement errors are independent with the given standard deviations", vec(e, k["cov"]), arr((M, M), lambda m, j: tm.ite(tm.eq(m, j), tm.power(app("sd", m), 2), num(0))))
        u.check("errors are drawn for every individual", tm.eq(tm.lift(k.get("size", 1)), N))
        return Arr([Plain(N), Plain(M)], lambda i: app("eps", *i), None, "R", "np")

    LIB[id(np.random.multivariate_normal)] = mvn
    for kind, v in u.run(SD + ".measurements_from_states", (), dict(states=x, controls=ctl, loadings=load, control_params=cp, sds=sd)):
        if kind == "raise":
            u.fail("no exception", str(v))
            continue
        u.arr_eq(
            "measurements", ar.as_arr(v),
            arr((N, M), lambda i, m: tm.add(tm.add(S(L, lambda l: tm.mul(app("load", m, l), app("x", i, l))), S(C, lambda c: tm.mul(app("cp", m, c), ctl_at(i, c)))), app("eps", i, m))),
        )


# ------------------------------------------------------------------ generate_start_states
def element_of(cov):
    """mixture element whose covariance matrix is passed"""
    a, b = tm.fresh("a", "I"), tm.fresh("b", "I")
    t = cov.el((a, b))[0]
    if t.op != "app" or t.args[0] != "cov":
        raise Unsupported("covariance matrix of the initial states")
    return t.args[1]


def c19_start(u, single):
    N, L = u.int("n_obs", 1), u.int("n_states", 1)
    M = num(1) if single else u.int("n_mixtures", 2)
    w = u.array("w", M, lib="np")
    el = lambda m: {"mean": Arr([Plain(L)], lambda i: app("mean", m, i[0])), "cov": Arr([Plain(L), Plain(L)], lambda i: app("cov", m, *i))}
    dist = [el(num(0))] if single else [Seg(Plain(M), el)]
    u.theory.schemas["pick"] = lambda i: [tm.le(0, app("pick", i, sort="I")), tm.lt(app("pick", i, sort="I"), M)]

    def choice(e, a, size=None, replace=True, p=None):
        if p is None:
            u.fail("elements are chosen with the mixture weights", "p is None")
        else:
            u.arr_eq("elements are chosen with the mixture weights", vec(e, p), arr((M,), lambda m: app("w", m)))
        if isinstance(a, (int, tm.T)):
            u.check("every mixture element can be chosen", tm.eq(tm.lift(a), M))
            pop = lambda j: j
        else:
            a = vec(e, a)
            u.check("every mixture element can be chosen", tm.eq(a.axes[0].size(), M))
            pop = lambda j: at(a, j)
        if replace is not True:
            u.fail("elements are chosen independently", "replace")
        if size is None:
            u.fail("one element per individual", "size is None")
            raise Unsupported("size")
        u.check("one element per individual", tm.eq(tm.lift(size), N))
        return Arr([Plain(N)], lambda i: pop(app("pick", i[0], sort="I")), None, "I", "np")

    def mvn(e, *a, **kw):
        k = draw_args(e, ["mean", "cov", "size"], a, kw)
        cov, mean = vec(e, k["cov"]), vec(e, k["mean"])
        m = element_of(cov)
        u.arr_eq("mean of the chosen element", mean, arr((L,), lambda s: app("mean", m, s)))
        u.arr_eq("covariance of the chosen element", cov, arr((L, L), lambda s, r: app("cov", m, s, r)))
        size = k.get("size")
        if size is None:
            if not e.generic_vars():
                u.check("a separate draw for every individual", tm.eq(N, 1))
            else:
                u.ok("a separate draw for every individual")
            return Arr([Plain(L)], lambda i: app("draw", m, i[0]), None, "R", "np")
        u.check("a separate draw for every individual", tm.eq(tm.lift(size), N))
        return Arr([Plain(tm.lift(size)), Plain(L)], lambda i: app("draw", m, i[1]), None, "R", "np")

    LIB[id(np.random.choice)] = choice
    LIB[id(np.random.multivariate_normal)] = mvn
    dims = {"n_latent_factors": L, "n_mixtures": M}
    for kind, v in u.run(SD + ".generate_start_states", (), dict(n_obs=N, dimensions=dims, dist_args=dist, weights=w)):
        if kind == "raise":
            u.fail("no exception", str(v))
            continue
        u.arr_eq("initial states are drawn from the element chosen for the individual", ar.as_arr(v), arr((N, L), lambda i, s: app("draw", num(0) if single else app("pick", i, sort="I"), s)))



# ------------------------------------------------------------------ _simulate_dataset
class SimInputs:
    def __init__(self, u, policies):
        self.u = u
        self.N, self.M, self.L, self.O = u.int("n_obs", 1), u.int("n_mixtures", 1), u.int("n_latent", 1), u.int("n_observed", 0)
        self.T, self.C, self.K = u.int("n_periods", 2), u.int("n_controls", 1), u.int("n_updates", 1)
        N, M, L, O, T, C, K = self.N, self.M, self.L, self.O, self.T, self.C, self.K
        self.F = F = tm.add(L, O)
        per = self.per = lambda k: app("per", k, sort="I")
        u.theory.schemas["per"] = lambda k: [tm.le(0, per(k)), tm.lt(per(k), T)]
        u.theory.schemas["npar"] = lambda l: [tm.le(0, app("npar", l, sort="I"))]
        self.latent = [Seg(Plain(L), lat)]
        self.index = pm.Index([Seg(Plain(K), lambda k: (per(k), app("mvar", k, sort="S")))], ["period", "variable"])
        # contract of _get_update_info (C14): every period has an update
        self.index.complete = lambda e, t: e.decide(tm.and_(tm.le(0, t), tm.lt(t, T))) is True
        self.update_info = pm.Frame(self.index, self.latent + ["purpose"], lambda k, c: app("isload", k, c, sort="B"), lambda c: "S" if c == "purpose" else "B")
        self.labels = {"latent_factors": self.latent, "controls": [Seg(Plain(C), lambda c: app("ctr", c, sort="S"))], "periods": [Seg(Plain(T), lambda t: t)]}
        self.dims = {"n_latent_factors": L, "n_periods": T, "n_mixtures": M, "n_controls": C, "n_observed_factors": O}
        # contract of parse_params (C08): the initial distribution is the same for all individuals
        self.x0 = Arr([Plain(N), Plain(M), Plain(L)], lambda i: app("x0", i[1], i[2]))
        self.U0 = Arr([Plain(N), Plain(M), Plain(L), Plain(L)], lambda i: app("U0", *i[1:]))
        self.lw = Arr([Plain(N), Plain(M)], lambda i: app("lw", i[1]))
        seg = DSeg(Plain(L), lat, lambda l: arr((tm.sub(T, 1), app("npar", l, sort="I")), lambda t, j: app("tp", l, t, j)))
        self.pardict = {
            "loadings": u.array("load", K, L), "controls": u.array("cp", K, C), "meas_sds": u.array("sd", K), "shock_sds": u.array("ssd", tm.sub(T, 1), L),
            "transition": {seg: None}, "anchoring_scaling_factors": u.array("scal", T, F), "anchoring_constants": u.array("cons", T, F),
        }
        self.ctl = u.array("ctl", T, N, C)
        self.obs = u.array("obs", T, N, O)
        self.tinfo = token("transition_info")
        self.policies = None
        if policies:
            Np = self.Np = u.int("n_policies", 0)
            pf = lambda p: app("pfac", p, sort="I")
            u.theory.schemas["pfac"] = lambda p: [tm.le(0, pf(p)), tm.lt(pf(p), L)]
            u.theory.interp["pfac"] = lambda m, a: 0
            u.theory.interp["pper"] = lambda m, a: (a[0] + m.seed) % 3
            self.policies = [Seg(Plain(Np), lambda p: {"period": app("pper", p, sort="I"), "factor": lat(pf(p)), "effect_size": app("eff", p), "standard_deviation": app("psd", p)})]

    def shock(self, t, i, s):
        """sum of the policy shocks of period t to factor s"""
        if self.policies is None:
            return num(0)
        p = tm.fresh("s")
        return tm.sum_(p, self.Np, tm.ite(tm.and_(tm.eq(app("pper", p, sort="I"), t), tm.eq(app("pfac", p, sort="I"), s)), app("polshock", app("eff", p), app("psd", p), i), num(0)))

    def pre(self, t, i, s):
        return app("state", t, i, s)

    def post(self, t, i, s):
        return tm.add(self.pre(t, i, s), self.shock(t, i, s))

    def final(self, t, i, s):
        return tm.ite(tm.lt(t, tm.sub(self.T, 1)), self.post(t, i, s), self.pre(t, i, s))


class StatesInvariant:
    """before iteration t the rows up to t-1 are final and row t holds the states before the policy shocks"""

    def __init__(self, d, name, pre):
        self.d, self.name, self.old = d, name, pre

    def at(self, t):
        d = self.d
        (t,) = ar.flat(t)
        return Arr(
            [Plain(d.T), Plain(d.N), Plain(d.L)],
            lambda i: tm.ite(tm.lt(i[0], t), d.post(*i), tm.ite(tm.eq(i[0], t), d.pre(*i), app("later", *i))), None, "R", "np",
        )

    def after(self):
        return self.at(tm.sub(self.d.T, 1))

    def check(self, e, v, t):
        d, u = self.d, self.d.u
        (t,) = ar.flat(t)
        nx = tm.add(t, 1)
        v = ar.as_arr(v)
        if v.ndim != 3:
            raise Unsupported("array of the states")
        N, L = d.N, d.L
        row = lambda r: Arr(v.axes[1:], lambda i: v.el((r,) + tuple(i))[0])
        u.arr_eq("states at the end of a period: plus the policy shocks of the period", row(t), arr((N, L), lambda i, s: d.post(t, i, s)))
        u.arr_eq("states of the next period: transition plus shocks of the period", row(nx), arr((N, L), lambda i, s: tm.add(app("next", t, i, s), app("err", t, i, s))))
        r = tm.fresh("r", "I")
        u.arr_eq("states of earlier periods are not changed", row(r), arr((N, L), lambda i, s: d.post(r, i, s)), [tm.le(0, r), tm.lt(r, t)])


def found(t, name):
    out = []
    tm.walk(t, lambda y: out.append(y) if y.op == "app" and y.args[0] == name else None, set())
    return out


def period_of(a, name, pos=1):
    """period that an array belongs to: first index of its elements"""
    idx = tuple(tm.fresh("q", "I") for _ in a.axes)
    xs = {y.args[pos] for y in found(a.el(idx)[0], name)}
    if len(xs) != 1:
        raise Unsupported(f"elements of {name}")
    return xs.pop()


def c19_simulate(u, policies):
    d = SimInputs(u, policies)
    N, M, L, T, K, C, O, F = d.N, d.M, d.L, d.T, d.K, d.C, d.O, d.F
    in_loop = lambda e: bool(e.generic_vars())

    def start(e, a, kw):
        b = bound(e, SD + ".generate_start_states", a, kw)
        u.check("initial states: number of individuals", tm.eq(tm.lift(b["n_obs"]), N))
        u.same_value("initial states: dimensions", b["dimensions"], d.dims)
        u.arr_eq("initial states: mixture weights", vec(e, b["weights"]), arr((M,), lambda m: tm.fn("exp", app("lw", m))))
        es = e.entries(b["dist_args"])
        u.check("initial states: one distribution per mixture element", tm.eq(tm.lift(e.length(es)), M))
        m = tm.fresh("m", "I")
        fs = [tm.le(0, m), tm.lt(m, M)]
        with e.assuming(fs):
            el = e.subscript(es, m)
            if set(el) != {"mean", "cov"}:
                u.fail("initial states: arguments of the normal distribution", repr(sorted(el)))
                raise Unsupported("arguments")
            u.arr_eq("initial states: mean of the element", ar.as_arr(el["mean"]), arr((L,), lambda s: app("x0", m, s)), fs)
            u.arr_eq("initial states: covariance of the element", ar.as_arr(el["cov"]), arr((L, L), lambda s, r: S(L, lambda k: tm.mul(app("U0", m, k, s), app("U0", m, k, r)))), fs)
        return Arr([Plain(N), Plain(L)], lambda i: d.pre(num(0), *i), None, "R", "np")

    def shock(e, a, kw):
        b = bound(e, SD + "._get_shock", a, kw)
        u.check("policy shocks: one per individual", tm.eq(tm.lift(b["size"]), N))
        u.check("policy shocks: drawn separately", tm.lift(in_loop(e)))
        mean, sd = at(ar.as_arr(b["mean"])), at(ar.as_arr(b["sd"]))
        return Arr([Plain(N)], lambda i: app("polshock", mean, sd, i[0]), None, "R", "np")

    def transform(e, a, kw):
        b = bound(e, "skillmodels.kalman_filters.transform_sigma_points", a, kw)
        scal = ar.as_arr(b["anchoring_scaling_factors"])
        probe = scal.el((num(0), tm.fresh("f", "I")))[0]
        if probe.op != "app" or probe.args[0] != "scal":
            raise Unsupported("anchoring scaling factors")
        t = probe.args[1]
        nm = "transition: "
        u.arr_eq(nm + "anchoring scaling of t and t+1", scal, arr((2, F), lambda j, f: app("scal", tm.add(t, j), f)))
        u.arr_eq(nm + "anchoring constants of t and t+1", ar.as_arr(b["anchoring_constants"]), arr((2, F), lambda j, f: app("cons", tm.add(t, j), f)))
        u.same_value(nm + "transition functions of the model", b["transition_info"], d.tinfo)
        l = tm.fresh("l", "I")
        fs = [tm.le(0, l), tm.lt(l, L)]
        with e.assuming(fs):
            got = e.dict_item(b["trans_coeffs"], lat(l))
        u.arr_eq(nm + "parameters of the period", ar.as_arr(got), arr((app("npar", l, sort="I"),), lambda j: app("tp", l, t, j)), fs)
        x = ar.as_arr(b["sigma_points"])
        if x.ndim != 4:
            u.fail(nm + "states and observed factors of the period", f"{x.ndim} dimensions")
            raise Unsupported("sigma points")
        u.check(nm + "one row per individual", tm.and_(tm.eq(x.axes[0].size(), 1), tm.eq(x.axes[1].size(), 1)))
        two = Arr(x.axes[2:], lambda i: x.el((num(0), num(0)) + tuple(i))[0])
        want = Arr([Plain(N), ar.Cat([Plain(L), Plain(O)])], lambda i: d.post(t, i[0], i[1][2]) if i[1][1] == 0 else app("obs", t, i[0], i[1][2]))
        u.arr_eq(nm + "states and observed factors of the period", two, want)
        return Arr([Plain(1), Plain(1), Plain(N), Plain(L)], lambda i: app("next", t, i[2], i[3]))

    def mvn(e, *a, **kw):
        k = draw_args(e, ["mean", "cov", "size"], a, kw)
        cov = vec(e, k["cov"])
        g = tm.fresh("g", "I")
        xs = {y.args[1] for y in found(cov.el((g, g))[0], "ssd")}
        if len(xs) != 1:
            raise Unsupported("covariance matrix of the shocks")
        t = xs.pop()
        u.arr_eq("shocks have mean zero", vec(e, k["mean"]), arr((L,), lambda s: num(0)))
        u.arr_eq("shocks are independent with the standard deviations of the period", cov, arr((L, L), lambda s, r: tm.ite(tm.eq(s, r), tm.power(app("ssd", t, s), 2), num(0))))
        u.check("shocks are drawn in every period", tm.lift(in_loop(e)))
        size = k.get("size")
        if size is None:
            u.fail("shocks are drawn for every individual", "size is None")
            raise Unsupported("size")
        u.check("shocks are drawn for every individual", tm.eq(tm.lift(size), N))
        return Arr([Plain(N), Plain(L)], lambda i: app("err", t, *i), None, "R", "np")

    def measure(e, a, kw):
        b = bound(e, SD + ".measurements_from_states", a, kw)
        nm = "measurements: "
        load = ar.as_arr(b["loadings"])
        t = period_of(ar.as_arr(b["controls"]), "ctl")
        u.arr_eq(nm + "controls of the period", ar.as_arr(b["controls"]), arr((N, C), lambda i, c: app("ctl", t, i, c)))
        u.arr_eq(nm + "states of the period", ar.as_arr(b["states"]), arr((N, L), lambda i, s: d.final(t, i, s)))
        rows = load.axes[0]

        def upd(j):
            """row of the update table of the j-th loading"""
            xs = {y.args[1] for y in found(load.el((j, tm.fresh("l", "I")))[0], "load")}
            if len(xs) != 1:
                raise Unsupported("rows of the loadings")
            return xs.pop()

        rng = Arr([rows], lambda i: num(0))
        for (j,), fs in rng.generic():
            with e.assuming(fs):
                u.check(nm + "updates of the period", tm.eq(d.per(upd(j)), t), fs)
        u.arr_eq(nm + "loadings of the update", load, Arr([rows, Plain(L)], lambda i: app("load", upd(i[0]), i[1])))
        u.arr_eq(nm + "control parameters of the update", ar.as_arr(b["control_params"]), Arr([rows, Plain(C)], lambda i: app("cp", upd(i[0]), i[1])))
        u.arr_eq(nm + "standard deviations of the update", ar.as_arr(b["sds"]), Arr([rows], lambda i: app("sd", upd(i[0]))))
        return Arr([Plain(N), rows], lambda i: app("meas", upd(i[1]), i[0]), None, "R", "np")

    u.stubs[SD + ".generate_start_states"] = start
    u.stubs[SD + "._get_shock"] = shock
    u.stubs[SD + ".measurements_from_states"] = measure
    u.stubs["skillmodels.kalman_filters.transform_sigma_points"] = transform
    LIB[id(np.random.multivariate_normal)] = mvn

    def invariant(e, name, pre, seg):
        if e.frames or not isinstance(pre, Arr) or pre.ndim != 3 or pre.lib != "np":
            return None
        u.check("one transition between any two consecutive periods", tm.eq(tm.lift(seg.axis.size()), tm.sub(T, 1)))
        u.arr_eq("first row: the initial states", Arr(pre.axes[1:], lambda i: pre.el((num(0),) + tuple(i))[0]), arr((N, L), lambda i, s: d.pre(num(0), i, s)))
        return StatesInvariant(d, name, pre)

    u.hooks["invariant"] = invariant
    args = dict(
        latent_states=d.x0, covs=d.U0, log_weights=d.lw, pardict=d.pardict, labels=d.labels, dimensions=d.dims, n_obs=N, update_info=d.update_info,
        control_data=d.ctl, observed_factor_data=d.obs, policies=d.policies, transition_info=d.tinfo,
    )
    for kind, v in u.run(SD + "._simulate_dataset", (), args):
        if kind == "raise":
            u.fail("no exception", str(v))
            continue
        obs, latent = v
        e = u.e
        for nm, st in (("measurements", obs), ("states", latent)):
            if not isinstance(st, fr.Stacked):
                raise Unsupported(f"table of {nm}")
            u.check(f"table of {nm}: one block of rows per period", tm.eq(st.seg.axis.size(), T))
            if st.extra.get("id") == "index":
                u.ok(f"table of {nm}: id is the number of the individual")
            else:
                u.fail(f"table of {nm}: id is the number of the individual", repr(st.extra))
            for g, fs in st.seg.axis.generic("t"):
                with e.assuming(fs):
                    w = st.seg.fn(g)
                    t = st.seg.axis.to_int(g)
                    single = [c for c in w.cols if c.axis is None]
                    block = [c for c in w.cols if c.axis is not None]
                    if len(single) != 1 or single[0].label(num(0)) != "period" or len(block) != 1:
                        u.fail(f"table of {nm}: columns", repr([c.label(num(0)) for c in single]))
                        continue
                    u.check(f"table of {nm}: number of individuals", tm.eq(tm.lift(w.length()), N))
                    i = tm.fresh("i", "I")
                    inn = [tm.le(0, i), tm.lt(i, N)]
                    u.check(f"table of {nm}: rows are the individuals", tm.eq(w.index.fn(i), i), inn)
                    u.check(f"table of {nm}: period of a row", tm.eq(single[0].cell(i, num(0))[0], t), list(fs) + inn)
                    b = block[0]
                    if nm == "states":
                        u.same_list("table of states: one column per latent factor", [Seg(b.axis, b.label)], d.latent)
                        u.arr_eq(
                            "table of states: states of the individual in the period", Arr([w.index.axis, b.axis], lambda x: b.cell(*x)[0], lambda x: b.cell(*x)[1]),
                            Arr([Plain(N), Plain(L)], lambda x: d.final(t, *x)), fs,
                        )
                        continue
                    u.same_list(
                        "table of measurements: one column per measurement of the period", [Seg(b.axis, b.label)],
                        [Seg(ar.Dom([Plain(K)], lambda k: tm.eq(d.per(k[0]), t)), lambda k: app("mvar", k[0], sort="S"))],
                    )
                    for j, fj in b.axis.generic("j"):
                        with e.assuming(fj):
                            val, nan = b.cell(i, j)
                            lab = b.label(j)
                            if not (isinstance(lab, tm.T) and lab.op == "app" and lab.args[0] == "mvar"):
                                raise Unsupported("label of a measurement")
                            u.check("table of measurements: measurement of the individual in the period", tm.and_(tm.not_(nan), tm.eq(val, app("meas", lab.args[1], i))), list(fs) + inn + list(fj))


# ------------------------------------------------------------------ simulate_dataset
def c19_dataset(u, case):
    """case: data, data_n (data and a number of individuals), nothing, simple (no data needed), observed or controls (data needed)"""
    T, N, L, O, C = u.int("n_periods", 2), u.int("n_obs", 1), u.int("n_latent", 1), u.int("n_observed", 1), u.int("n_extra_controls", 1)
    t = {n: token(n) for n in ("model_dict", "data", "update_info", "transition_info", "anchoring", "p_index", "parsing_info", "states", "covs", "log_weights", "pardict", "policies", "observed_data", "latent_data", "anchored_data", "ranges", "anchored_ranges", "reindexed")}
    observed = [Seg(Plain(O), lambda o: app("obsf", o, sort="S"))] if case in ("data", "data_n", "observed") else []
    controls = ["constant"] + ([Seg(Plain(C), lambda c: app("ctr", c, sort="S"))] if case in ("data", "data_n", "controls") else [])
    labels = {"latent_factors": [Seg(Plain(L), lat)], "observed_factors": observed, "controls": controls}
    dims = {"n_periods": T, "n_latent_factors": L}
    model = {"labels": labels, "dimensions": dims, "update_info": t["update_info"], "transition_info": t["transition_info"], "anchoring": t["anchoring"]}
    ctl = u.array("ctl", T, N, tm.add(C, 1))
    obs = u.array("obs", T, N, O)

    def ret(qual, res, only=True, **want):
        def stub(e, a, kw):
            b = bound(e, qual, a, kw)
            for n, w in want.items():
                u.same_value(f"{qual.split('.')[-1]} is called with the right {n}", b[n], w)
            return res(b) if callable(res) else res

        u.stubs[qual] = stub

    from .interp import Obj

    values = u.array("value", u.int("n_params", 1), lib="np")
    column = Obj("Series", methods={"to_numpy": lambda e, **k: values}, get_attr=lambda e, n: values if n == "values" else NOATTR)
    reindexed = t["reindexed"]
    reindexed.get_attr = lambda e, n: t["p_index"] if n == "index" else NOATTR
    reindexed.getitem = lambda e, k: column if k == "value" else u.fail("parameters are the values of the table", repr(k))

    def reindex(e, index=None, *a, **k):
        u.same_value("parameters are brought into the order of the model's index", index, t["p_index"])
        return reindexed

    params = Obj("params", methods={"reindex": reindex})
    S_ = "skillmodels."
    ret(S_ + "process_model.process_model", model, model_dict=t["model_dict"])
    ret(S_ + "params_index.get_params_index", t["p_index"], update_info=t["update_info"], labels=labels, dimensions=dims, transition_info=t["transition_info"])
    ret(S_ + "parse_params.create_parsing_info", t["parsing_info"], params_index=t["p_index"], update_info=t["update_info"], labels=labels, anchoring=t["anchoring"])
    ret(S_ + "process_data.process_data", lambda b: (ctl, obs), df=t["data"], labels=labels, update_info=t["update_info"], anchoring_info=t["anchoring"], purpose="simulation")

    def parse(b):
        u.arr_eq("parse_params is called with the values of the table", ar.as_arr(b["params"]), arr((tm.var("n_params", "I"),), lambda i: app("value", i)))
        u.check("parse_params is called with the number of individuals", tm.eq(tm.lift(b["n_obs"]), N))
        return (t["states"], t["covs"], t["log_weights"], t["pardict"])

    ret(S_ + "parse_params.parse_params", parse, parsing_info=t["parsing_info"], dimensions=dims, labels=labels)

    def core(b):
        u.check("number of simulated individuals", tm.eq(tm.lift(b["n_obs"]), N))
        if case == "simple":
            c = ar.as_arr(b["control_data"])
            u.check("controls: only the constant", tm.eq(c.axes[-1].size(), 1))
            for idx, fs in Arr(c.axes, lambda i: num(0)).generic():
                u.check("controls: only the constant", tm.eq(c.el(idx)[0], 1), fs)
            u.arr_eq("no observed factors", ar.as_arr(b["observed_factor_data"]), arr((T, N, 0), lambda *i: num(0)))
        else:
            u.arr_eq("controls of the data", ar.as_arr(b["control_data"]), ctl)
            u.arr_eq("observed factors of the data", ar.as_arr(b["observed_factor_data"]), obs)
        return (t["observed_data"], t["latent_data"])

    pol = t["policies"]
    ret(
        SD + "._simulate_dataset", core, latent_states=t["states"], covs=t["covs"], log_weights=t["log_weights"], pardict=t["pardict"], labels=labels, dimensions=dims,
        update_info=t["update_info"], policies=pol, transition_info=t["transition_info"],
    )

    def ranges(b):
        u.same_value("state ranges: latent factors", b["factors"], labels["latent_factors"])
        return {id(t["latent_data"]): t["ranges"], id(t["anchored_data"]): t["anchored_ranges"]}.get(id(b["filtered_states"]), token("other"))

    ret(S_ + "process_debug_data.create_state_ranges", ranges)
    ret(S_ + "filtered_states.anchor_states_df", lambda b: t["anchored_data"], states_df=t["latent_data"], model_dict=t["model_dict"], params=reindexed)
    n_arg = {"data": None, "nothing": None, "data_n": app("n_arg", sort="I")}.get(case, N)
    data = t["data"] if case in ("data", "data_n") else None
    for kind, v in u.run(SD + ".simulate_dataset", (), dict(model_dict=t["model_dict"], params=params, n_obs=n_arg, data=data, policies=pol)):
        rejected = case in ("nothing", "observed", "controls")
        if kind == "raise":
            if rejected and v.etype is ValueError:
                u.ok("missing data are reported by a ValueError")
            else:
                u.fail("no exception", str(v))
            continue
        if rejected:
            u.fail("missing data are reported by a ValueError", "no exception")
            continue
        want = {
            "unanchored_states": {"states": t["latent_data"], "state_ranges": t["ranges"]},
            "anchored_states": {"states": t["anchored_data"], "state_ranges": t["anchored_ranges"]},
            "measurements": t["observed_data"],
        }
        u.same_value("tables of the result", v, want)


UNITS = {
    "C19": [
        ("simulate_data._get_shock", c19_shock),
        ("simulate_data.measurements_from_states", lambda u: c19_measurements(u)),
        ("simulate_data.measurements_from_states [same controls for everybody]", lambda u: c19_measurements(u, True)),
        ("simulate_data.generate_start_states [one element]", lambda u: c19_start(u, True)),
        ("simulate_data.generate_start_states [mixture]", lambda u: c19_start(u, False)),
        ("simulate_data._simulate_dataset", lambda u: c19_simulate(u, False)),
        ("simulate_data._simulate_dataset [policies]", lambda u: c19_simulate(u, True)),
    ] + [
        (f"simulate_data.simulate_dataset [{n}]", lambda u, c=c: c19_dataset(u, c))
        for c, n in (("data", "data"), ("data_n", "data and n_obs"), ("simple", "no data"), ("nothing", "neither data nor n_obs"), ("observed", "observed factors without data"), ("controls", "controls without data"))
    ]
}
