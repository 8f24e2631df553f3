"""Contracts of the likelihood: likelihood_function.py (C05, C06)."""
import jax

from . import arrays as ar
from . import pdmodel as pm
from . import terms as tm
from .arrays import Arr, Plain, Unsupported
from .c_filter import arr, S
from .interp import DSeg, Native, Obj, Seg, index0, merge_values
from .lib import LIB
from .terms import app, num

LF = "skillmodels.likelihood_function"
tm.INJECTIVE.update({"lat"})


def lat(l):
    return app("lat", l, sort="S")


def token(name):
    return Obj(name, token=True)


class LoopInputs:
    """symbolic inputs of _log_likelihood_jax under its precondition"""

    def __init__(self, u):
        self.u = u
        self.N, self.M, self.L, self.O = u.int("n_obs", 1), u.int("n_mixtures", 1), u.int("n_latent", 1), u.int("n_observed", 0)
        self.T, self.C, self.K = u.int("n_periods", 2), u.int("n_controls", 1), u.int("n_updates", 1)
        N, M, L, O, T, C, K = self.N, self.M, self.L, self.O, self.T, self.C, self.K
        F = tm.add(L, O)
        self.y = u.array("y", K, N, nan=True)
        self.ctl = u.array("ctl", T, N, C, nan=True)
        self.obs = u.array("obs", T, N, O)
        self.x0 = u.array("x0", N, M, L)
        self.U0 = u.array("U0", N, M, L, L)
        self.w0 = u.array("w0", N, M)
        self.load = u.array("load", K, L)
        self.cp = u.array("cp", K, C)
        self.sd = u.array("sd", K)
        self.shock = u.array("shock", tm.sub(T, 1), L)
        self.scal = u.array("scal", T, F)
        self.cons = u.array("cons", T, F)
        u.theory.schemas["npar"] = lambda l: [tm.le(0, app("npar", l, sort="I"))]
        self.trans = {}
        seg = DSeg(Plain(L), lat, lambda l: arr((tm.sub(T, 1), app("npar", l, sort="I")), lambda t, j: app("tp", l, t, j)))
        self.trans[seg] = None
        # periods of the updates; the last one is passed as -1 (contract of get_maximization_inputs)
        u.theory.schemas["itp"] = lambda k: [tm.le(-1, app("itp", k, sort="I")), tm.lt(app("itp", k, sort="I"), tm.sub(T, 1))]
        u.theory.schemas["ispred"] = lambda k: [tm.implies(app("ispred", k, sort="B"), tm.le(0, app("itp", k, sort="I")))]
        self.itp = u.array("itp", K, sort="I", lib="np")
        self.ismeas = u.array("ismeas", K, sort="B", lib="np")
        self.ispred = u.array("ispred", K, sort="B", lib="np")
        self.tinfo = token("transition_info")
        self.pinfo = token("parsing_info")
        self.dims = token("dimensions")
        self.labels = token("labels")
        self.params = u.array("params", u.int("n_params", 1))
        self.kappa = u.real("kappa")
        self.sw = u.array("sw", tm.add(tm.mul(2, L), 1))
        self.opts = {f"clipping_{a}_{b}": app(f"clip_{a}_{b}") for a in ("lower", "upper") for b in ("bound", "hardness")}

    def per(self, k):
        p = app("itp", k, sort="I")
        return tm.ite(tm.lt(p, 0), tm.sub(self.T, 1), p)




def bound(e, qual, args, kwargs):
    """arguments of a call by parameter name"""
    f = e.module(qual.rsplit(".", 1)[0]).get(qual.rsplit(".", 1)[1])
    return e.bind(f, args, kwargs).vars


def c05_loop(u, debug):
    d = LoopInputs(u)
    N, M, L, T, K = d.N, d.M, d.L, d.T, d.K
    calls = dict(update=[], predict=[], parse=[])
    state = {}

    def parse(e, a, kw):
        b = bound(e, "skillmodels.parse_params.parse_params", a, kw)
        for n, w in (("params", d.params), ("parsing_info", d.pinfo), ("dimensions", d.dims), ("labels", d.labels)):
            u.same_value("parse_params is called with the parameters of the model", b[n], w)
        u.check("parse_params is called with the parameters of the model", tm.eq(tm.lift(b["n_obs"]), N))
        pard = {"loadings": d.load, "controls": d.cp, "meas_sds": d.sd, "shock_sds": d.shock, "transition": d.trans, "anchoring_scaling_factors": d.scal, "anchoring_constants": d.cons}
        return (d.x0, d.U0, d.w0, pard)

    def update(e, a, kw):
        b = bound(e, "skillmodels.kalman_filters.kalman_update", a, kw)
        k = state["k"]
        calls["update"].append((b, e.ctx))
        nm = "update: "
        u.arr_eq(nm + "states of the previous step", b["states"], arr((N, M, L), lambda i, m, l: app("cs", k, i, m, l)))
        u.arr_eq(nm + "covariance factors of the previous step", b["upper_chols"], arr((N, M, L, L), lambda i, m, x, y: app("cU", k, i, m, x, y)))
        u.arr_eq(nm + "weights of the previous step", b["log_mixture_weights"], arr((N, M), lambda i, m: app("cw", k, i, m)))
        u.arr_eq(nm + "loadings of its own row", b["loadings"], arr((L,), lambda l: app("load", k, l)))
        u.arr_eq(nm + "control coefficients of its own row", b["control_params"], arr((d.C,), lambda c: app("cp", k, c)))
        u.arr_eq(nm + "error sd of its own row", ar.as_arr(b["meas_sd"]), arr((), lambda: app("sd", k)))
        u.arr_eq(nm + "data of its own row", b["measurements"], arr((N,), lambda i: app("y", k, i), lambda i: app("y.nan", k, i, sort="B")))
        u.arr_eq(nm + "controls of its own period", b["controls"], arr((N, d.C), lambda i, c: app("ctl", d.per(k), i, c), lambda i, c: app("ctl.nan", d.per(k), i, c, sort="B")))
        u.same_value(nm + "debug flag", b["debug"], debug)
        info = {}
        if debug:
            info = {
                "residuals": arr((N, M), lambda i, m: app("ures", k, i, m)),
                "residual_sds": arr((N, M), lambda i, m: app("urs", k, i, m)),
                "log_mixture_weights": arr((N, M), lambda i, m: app("ulw", k, i, m)),
            }
        return (
            arr((N, M, L), lambda i, m, l: app("us", k, i, m, l)), arr((N, M, L, L), lambda i, m, x, y: app("uU", k, i, m, x, y)),
            arr((N, M), lambda i, m: app("uw", k, i, m)), arr((N,), lambda i: app("ull", k, i)), info,
        )

    im = lambda k: app("ismeas", k, sort="B")
    ip = lambda k: app("ispred", k, sort="B")
    after = lambda k, i, m, l: tm.ite(im(k), app("us", k, i, m, l), app("cs", k, i, m, l))
    afterU = lambda k, i, m, x, y: tm.ite(im(k), app("uU", k, i, m, x, y), app("cU", k, i, m, x, y))

    def predict(e, a, kw):
        b = bound(e, "skillmodels.kalman_filters.kalman_predict", a, kw)
        k = state["k"]
        calls["predict"].append((b, e.ctx))
        nm = "predict: "
        t = app("itp", k, sort="I")
        F = tm.add(L, d.O)
        u.arr_eq(nm + "states after the update", b["states"], arr((N, M, L), lambda i, m, l: after(k, i, m, l)))
        u.arr_eq(nm + "covariance factors after the update", b["upper_chols"], arr((N, M, L, L), lambda i, m, x, y: afterU(k, i, m, x, y)))
        u.arr_eq(nm + "sigma scaling factor", ar.as_arr(b["sigma_scaling_factor"]), d.kappa)
        u.arr_eq(nm + "sigma weights", b["sigma_weights"], d.sw)
        u.arr_eq(nm + "shock sds of the period", b["shock_sds"], arr((L,), lambda l: app("shock", t, l)))
        u.arr_eq(nm + "anchoring scaling of t and t+1", b["anchoring_scaling_factors"], arr((2, F), lambda j, f: app("scal", tm.add(t, j), f)))
        u.arr_eq(nm + "anchoring constants of t and t+1", b["anchoring_constants"], arr((2, F), lambda j, f: app("cons", tm.add(t, j), f)))
        u.arr_eq(nm + "observed factors of the period", b["observed_factors"], arr((N, d.O), lambda i, o: app("obs", t, i, o)))
        u.same_value(nm + "transition function of the model", b["transition_info"], d.tinfo)
        l = tm.var("lq", "I")
        fs = [tm.le(0, l), tm.lt(l, L)]
        with e.assuming(fs):
            got = e.dict_item(b["trans_coeffs"], lat(l))
        u.arr_eq(nm + "transition parameters of the period", got, arr((app("npar", l, sort="I"),), lambda j: app("tp", l, t, j)), fs)
        return (arr((N, M, L), lambda i, m, l: app("ps", k, i, m, l)), arr((N, M, L, L), lambda i, m, x, y: app("pU", k, i, m, x, y)))

    def cond(e, p, tf, ff, ops):
        if p is tm.TRUE or p is tm.FALSE:
            return e.call(tf if p is tm.TRUE else ff, list(ops), {})
        with e.assuming([p]):
            a = e.call(tf, list(ops), {})
        with e.assuming([tm.not_(p)]):
            b = e.call(ff, list(ops), {})
        return merge_values(p, a, b)

    def scan(e, f, init, xs, length, kw):
        if kw.get("reverse") or kw.get("unroll", 1) not in (1, True):
            if kw.get("reverse"):
                u.fail("updates run in the order of the table", "lax.scan with reverse=True")
        u.ok("updates run in the order of the table")
        k = tm.var("k", "I")
        state["k"] = k
        fs = [tm.le(0, k), tm.lt(k, K)]

        def leaves(v, f, path=()):
            if isinstance(v, dict):
                return {n: leaves(x, f, path + (n,)) for n, x in v.items()}
            if isinstance(v, (tuple, list)):
                return type(v)(leaves(x, f, path + (n,)) for n, x in enumerate(v))
            return f(v, path)

        seen = []

        def carry(v, path):
            v = ar.as_arr(v)
            n = {3: "cs", 4: "cU", 2: "cw"}.get(v.ndim)
            if n is None:
                raise Unsupported("carry of an unknown kind")
            seen.append(n)
            init_ = {"cs": d.x0, "cU": d.U0, "cw": d.w0}[n]
            u.arr_eq("filter starts from the initial distribution", v, init_)
            return arr([a for a in init_.axes], lambda *i: app(n, k, *i))

        c0 = leaves(init, carry)
        if sorted(seen) != ["cU", "cs", "cw"]:
            raise Unsupported(f"carry {seen}")

        def item(v, path):
            v = ar.as_arr(v)
            u.check("every row of the update table is processed once", tm.eq(v.axes[0].size(), K))
            return index0(v, k)

        with e.assuming(fs):
            xk = leaves(xs, item)
            new, ys = e.call(f, [c0, xk], {})

            def nxt(v, path):
                v = ar.as_arr(v)
                if v.ndim == 3:
                    u.arr_eq("states for the next update", v, arr((N, M, L), lambda i, m, l: tm.ite(ip(k), app("ps", k, i, m, l), after(k, i, m, l))))
                elif v.ndim == 4:
                    u.arr_eq("covariance factors for the next update", v, arr((N, M, L, L), lambda i, m, x, y: tm.ite(ip(k), app("pU", k, i, m, x, y), afterU(k, i, m, x, y))))
                else:
                    u.arr_eq("weights for the next update", v, arr((N, M), lambda i, m: app("uw", k, i, m)))
                return v

            leaves(new, nxt)
            # every path of the body runs exactly one update, and one predict step iff is_predict
            for what, cs, want in (("one update per row", calls["update"], tm.TRUE), ("one predict step exactly after the last update of a period", calls["predict"], ip(k))):
                conds = [tm.and_(*[c for c in cx.facts if c not in e.ctx.facts]) for _, cx in cs]
                for x in range(len(conds)):
                    for y in range(x):
                        u.check(what, tm.not_(tm.and_(conds[x], conds[y])))
                u.check(what, tm.eq(tm.or_(*conds) if conds else tm.FALSE, want))

        def stack(v, path):
            v = ar.as_arr(v)
            return Arr([Plain(K)] + list(v.axes), lambda i: tm.subst(v.el(i[1:])[0], {k: i[0]}), None, v.sort)

        outs = leaves(ys, stack)
        return (c0, outs)

    def clip(e, a, kw):
        b = bound(e, "skillmodels.clipping.soft_clipping", a, kw)
        for n in ("lower", "upper"):
            u.check("clipping options of the model", tm.eq(tm.lift(b[n]), d.opts[f"clipping_{n}_bound"]))
            u.check("clipping options of the model", tm.eq(tm.lift(b[n + "_hardness"]), d.opts[f"clipping_{n}_hardness"]))
        x = b["arr"]
        return Arr(x.axes, lambda i: app("clip", x.el(i)[0]), None, "R")

    u.stubs["skillmodels.parse_params.parse_params"] = parse
    u.stubs["skillmodels.kalman_filters.kalman_update"] = update
    u.stubs["skillmodels.kalman_filters.kalman_predict"] = predict
    u.stubs["skillmodels.clipping.soft_clipping"] = clip
    u.hooks["cond"] = cond
    u.hooks["scan"] = scan
    kw = dict(
        params=d.params, parsing_info=d.pinfo, measurements=d.y, controls=d.ctl, transition_info=d.tinfo, sigma_scaling_factor=d.kappa, sigma_weights=d.sw,
        dimensions=d.dims, labels=d.labels, estimation_options=d.opts, is_measurement_iteration=d.ismeas, is_predict_iteration=d.ispred,
        iteration_to_period=d.itp, debug=debug, observed_factors=d.obs,
    )
    for kind, v in u.run(LF + "._log_likelihood_jax", (), kw):
        for c in calls.values():
            c.clear()
        if kind == "raise":
            u.fail("no exception", str(v))
            continue
        value, out = v
        cl = lambda k, i: app("clip", app("ull", k, i))
        contrib = lambda i: S(K, lambda k: cl(k, i))
        u.arr_eq("contribution of an individual is the sum over updates of its clipped log likelihoods", ar.as_arr(out["contributions"]), arr((N,), contrib))
        u.arr_eq("value is the sum of the contributions", ar.as_arr(out["value"]), arr((), lambda: S(N, contrib)))
        u.arr_eq("first return value is the value", ar.as_arr(value), arr((), lambda: S(N, contrib)))
        if debug:
            u.arr_eq("all_contributions are the unclipped log likelihoods", out["all_contributions"], arr((K, N), lambda k, i: app("ull", k, i)))
            u.arr_eq("filtered states are those after the update and before the predict step", out["filtered_states"], arr((K, N, M, L), after))
            u.arr_eq("residuals", out["residuals"], arr((K, N, M), lambda k, i, m: app("ures", k, i, m)))
            u.arr_eq("residual sds", out["residual_sds"], arr((K, N, M), lambda k, i, m: app("urs", k, i, m)))
            u.arr_eq("weights", out["log_mixture_weights"], arr((K, N, M), lambda k, i, m: app("ulw", k, i, m)))
            u.arr_eq("initial states", out["initial_states"], d.x0)
            u.arr_eq("initial weights", out["initial_log_mixture_weights"], d.w0)


# ------------------------------------------------------------------ get_maximization_inputs
class ModelStub:
    """a processed model, the arrays made from the data and the names of all parameters"""

    def __init__(self, u):
        self.u = u
        self.T, self.K, self.N, self.P = u.int("n_periods", 2), u.int("n_updates", 1), u.int("n_obs", 1), u.int("n_params", 1)
        T, K = self.T, self.K
        per = lambda k: app("per", k, sort="I")
        # contract of _get_update_info (C14): rows ordered by period, every period has an update
        u.theory.schemas["per"] = lambda k: [tm.le(0, per(k)), tm.lt(per(k), T)]
        self.per = per
        index = pm.Index([Seg(Plain(K), lambda k: (per(k), app("mvar", k, sort="S")))], ["period", "variable"])
        cell = lambda k, c: tm.ite(app("isanch", k, sort="B"), tm.lift("anchoring"), tm.lift("measurement")) if c == "purpose" else app("isload", k, c, sort="B")
        self.update_info = pm.Frame(index, [Seg(Plain(u.int("n_latent", 1)), lat), "purpose"], cell, lambda c: "S" if c == "purpose" else "B")
        self.tok = {n: token(n) for n in ("p_index", "parsing_info", "measurements", "controls", "observed_factors", "transition_info", "anchoring", "normalizations", "model_dict", "data", "constraints", "template", "bounded_template")}
        self.labels = {"periods": [Seg(Plain(T), lambda t: t)], "latent_factors": [Seg(Plain(tm.var("n_latent", "I")), lat)]}
        self.dimensions = {"n_latent_factors": tm.var("n_latent", "I")}
        self.options = {"sigma_points_scale": app("kappa_option"), "bounds_distance": app("bounds_distance")}
        self.model = {
            "update_info": self.update_info, "labels": self.labels, "dimensions": self.dimensions, "transition_info": self.tok["transition_info"],
            "anchoring": self.tok["anchoring"], "normalizations": self.tok["normalizations"], "estimation_options": self.options,
        }
        self.kappa, self.sw = u.real("kappa"), u.array("sw", u.int("n_sigma", 1))


def c06_inputs(u, jac):
    d = ModelStub(u)
    t = d.tok
    K, T, N, P = d.K, d.T, d.N, d.P
    ob = "inputs of the likelihood: "

    def ret(qual, res, **want):
        def stub(e, a, kw):
            b = bound(e, qual, a, kw)
            for n, w in want.items():
                u.same_value(ob + f"{qual.split('.')[-1]} is called with the model's {n}", b[n], w)
            return res

        u.stubs[qual] = stub

    S_ = "skillmodels."
    ret(S_ + "process_model.process_model", d.model, model_dict=t["model_dict"])
    ret(S_ + "params_index.get_params_index", t["p_index"], update_info=d.update_info, labels=d.labels, dimensions=d.dimensions, transition_info=t["transition_info"])
    ret(S_ + "parse_params.create_parsing_info", t["parsing_info"], params_index=t["p_index"], update_info=d.update_info, labels=d.labels, anchoring=t["anchoring"])
    ret(S_ + "process_data.process_data", (t["measurements"], t["controls"], t["observed_factors"]), df=t["data"], labels=d.labels, update_info=d.update_info, anchoring_info=t["anchoring"])
    ret(S_ + "kalman_filters.calculate_sigma_scaling_factor_and_weights", (d.kappa, d.sw), n_states=tm.var("n_latent", "I"), kappa=d.options["sigma_points_scale"])
    ret(S_ + "constraints.get_constraints", t["constraints"], dimensions=d.dimensions, labels=d.labels, anchoring_info=t["anchoring"], update_info=d.update_info, normalizations=t["normalizations"])
    ret(S_ + "constraints.add_bounds", t["bounded_template"], params_df=t["template"], bounds_distance=d.options["bounds_distance"])

    params = token("params")
    vec = u.array("vec", P)

    def getvec(e, a, kw):
        b = bound(e, LF + "._get_jnp_params_vec", a, kw)
        u.same_value("params are matched to the template", b["params"], params)
        u.same_value("params are matched to the template", b["target_index"], t["p_index"])
        return vec

    u.stubs[LF + "._get_jnp_params_vec"] = getvec
    value = arr((), lambda: app("value"))
    contributions = arr((N,), lambda i: app("contrib", i))

    def core(e, a, kw):
        b = bound(e, LF + "._log_likelihood_jax", a, kw)
        u.arr_eq("likelihood is evaluated at the passed parameters", ar.as_arr(b["params"]), vec)
        for n in ("parsing_info", "measurements", "controls", "observed_factors", "transition_info"):
            u.same_value(ob + n, b[n], t[n])
        for n, w in (("dimensions", d.dimensions), ("labels", d.labels), ("estimation_options", d.options)):
            u.same_value(ob + n, b[n], w)
        u.arr_eq(ob + "sigma scaling factor", ar.as_arr(b["sigma_scaling_factor"]), d.kappa)
        u.arr_eq(ob + "sigma weights", b["sigma_weights"], d.sw)
        u.arr_eq(ob + "rows with a measurement update", ar.as_arr(b["is_measurement_iteration"]), arr((K,), lambda k: tm.not_(app("isanch", k, sort="B")), sort="B"))
        per = d.per
        u.arr_eq(
            ob + "a predict step follows the last update of every period but the last", ar.as_arr(b["is_predict_iteration"]),
            arr((K,), lambda k: tm.and_(tm.lt(tm.add(k, 1), K), tm.eq(per(tm.add(k, 1)), tm.add(per(k), 1))), sort="B"),
        )
        u.arr_eq(ob + "period of the update, -1 for the last", ar.as_arr(b["iteration_to_period"]), arr((K,), lambda k: tm.ite(tm.eq(per(k), tm.sub(T, 1)), num(-1), per(k)), sort="I"))
        # the precondition of the loop: a predict step never happens in the last period
        ip, it = ar.as_arr(b["is_predict_iteration"]), ar.as_arr(b["iteration_to_period"])
        k = tm.var("kk", "I")
        fs = [tm.le(0, k), tm.lt(k, K)]
        with e.assuming(fs):
            u.check(ob + "predict steps belong to a transition", tm.implies(ip.el((k,))[0], tm.and_(tm.le(0, it.el((k,))[0]), tm.lt(it.el((k,))[0], tm.sub(T, 1)))), fs)
        aux = {"value": value, "contributions": contributions}
        if e.truth(b["debug"]):
            aux["all_contributions"] = arr((K, N), lambda k, i: app("ull", k, i))
        return (value, aux)

    u.stubs[LF + "._log_likelihood_jax"] = core
    derivs = []

    def deriv(e, f, argnums=0, has_aux=False, **k):
        if argnums != 0:
            u.fail("derivative with respect to the parameter vector", f"argnums={argnums!r}")

        def g(en, a, kw):
            r = en.call(f, a, kw)
            v, aux = r if has_aux else (r, None)
            u.arr_eq("derivative of the value", ar.as_arr(v), value)
            u.arr_eq("derivative with respect to the parameter vector", ar.as_arr(a[0]), vec)
            res = arr((P,), lambda j: app("dvalue", j))
            return (res, aux) if has_aux else res

        return Native(g, "derivative")

    def value_and(e, f, argnums=0, has_aux=False, **k):
        g = deriv(e, f, argnums, has_aux, **k)

        def h(en, a, kw):
            r = en.call(g, a, kw)
            dd, aux = r if has_aux else (r, None)
            return ((value, aux), dd) if has_aux else (value, dd)

        return Native(h, "value and derivative")

    saved = {id(o): LIB.get(id(o)) for o in (jax.grad, jax.jacrev, jax.jacfwd, jax.value_and_grad)}
    for o in (jax.grad, jax.jacrev, jax.jacfwd, jax.jacobian):
        LIB[id(o)] = deriv
    LIB[id(jax.value_and_grad)] = value_and
    import pandas as pd

    old = LIB.get(id(pd.DataFrame))

    def frame(e, data=None, index=None, columns=None, **k):
        u.same_value("template has the index of the parameters", index, t["p_index"])
        return t["template"]

    LIB[id(pd.DataFrame)] = frame
    got = {}

    def debug_data(e, a, kw):
        b = bound(e, S_ + "process_debug_data.process_debug_data", a, kw)
        u.same_value("debug data are labelled with the model", b["model"], d.model)
        return b["debug_data"]

    u.stubs[S_ + "process_debug_data.process_debug_data"] = debug_data

    def thunk():
        e = u.e
        out = e.call(e.function(LF + ".get_maximization_inputs"), [t["model_dict"], t["data"]], {"jacobian_type": jac})
        res = {n: e.call(out[n], [params], {}) for n in ("loglike", "debug_loglike", "gradient", "jacobian", "loglike_and_gradient")}
        res["constraints"], res["params_template"] = out["constraints"], out["params_template"]
        return res

    for kind, v in u.run_thunk(thunk):
        if kind == "raise":
            u.fail("no exception", str(v))
            continue
        for n in ("loglike", "debug_loglike"):
            u.same_value(f"{n} reports value and contributions", v[n]["value"], value)
            u.arr_eq(f"{n} reports value and contributions", v[n]["contributions"], contributions)
        u.arr_eq("debug_loglike reports the unclipped contributions", v["debug_loglike"]["all_contributions"], arr((K, N), lambda k, i: app("ull", k, i)))
        dv = arr((P,), lambda j: app("dvalue", j))
        u.arr_eq("gradient is the derivative of the value", v["gradient"], dv)
        u.arr_eq("jacobian is the derivative of the value", v["jacobian"], dv)
        c, g = v["loglike_and_gradient"]
        u.arr_eq("loglike_and_gradient: derivative of the value", g, dv)
        u.same_value("loglike_and_gradient: value and contributions", c["value"], value)
        u.arr_eq("loglike_and_gradient: value and contributions", c["contributions"], contributions)
        u.same_value("constraints are those of the model", v["constraints"], t["constraints"])
        u.same_value("template is the one with bounds", v["params_template"], t["bounded_template"])


c05_nodebug = lambda u: c05_loop(u, False)
c05_debug = lambda u: c05_loop(u, True)
c06_rev = lambda u: c06_inputs(u, "jacrev")
c06_fwd = lambda u: c06_inputs(u, "jacfwd")

UNITS = {
    "C05": [
        ("likelihood_function._log_likelihood_jax", c05_nodebug), ("likelihood_function._log_likelihood_jax [debug]", c05_debug),
        ("likelihood_function.get_maximization_inputs", c06_rev),
    ],
}
UNITS["C06"] = list(UNITS["C05"]) + [("likelihood_function.get_maximization_inputs [jacfwd]", c06_fwd)]
UNITS["C09"] = [("likelihood_function.get_maximization_inputs", c06_rev)]
