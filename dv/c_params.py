"""Contracts of params_index.py, parse_params.py (C04, C08, C09)."""
from . import arrays as ar
from . import pdmodel as pm
from . import terms as tm
from .arrays import Arr, Cat, Comp, Dom, Plain
from .c_filter import S, arr, bind
from .interp import DepAxis, DSeg, Native, Obj, Seg, list_axis
from .terms import app, num

PI = "skillmodels.params_index"
PP = "skillmodels.parse_params"
tm.INJECTIVE.update({"lat", "ctr", "obsf"})
# factor names contain no "-" (C09 precondition); updates are unique (period, variable) pairs
tm.SEPARABLE.update({(None, "-", None), ("mixture_", None)})


def lat(i):
    return app("lat", i, sort="S")


class ModelInputs:
    """labels, dimensions, update table and transition info of an arbitrary processed model"""

    def __init__(self, u):
        self.K, self.L, self.O = u.int("n_updates", 1), u.int("n_latent", 1), u.int("n_observed", 0)
        self.C, self.M, self.T = u.int("n_controls", 1), u.int("n_mixtures", 1), u.int("n_periods", 2)
        L, K = self.L, self.K
        u.theory.schemas["npar"] = lambda l: [tm.le(0, app("npar", l, sort="I"))]
        u.theory.schemas["per"] = lambda k: [tm.le(0, app("per", k, sort="I")), tm.lt(app("per", k, sort="I"), self.T)]
        self.latent = [Seg(Plain(L), lat)]
        self.controls = [Seg(Plain(self.C), lambda c: app("ctr", c, sort="S"))]
        self.periods = [Seg(Plain(self.T), lambda t: t)]
        self.upd_index = pm.Index([Seg(Plain(K), lambda k: (self.per(k), self.mvar(k)))], ["period", "variable"])
        self.update_info = pm.Frame(self.upd_index, list(self.latent) + ["purpose"], self.cell, lambda c: "S" if c == "purpose" else "B")
        self.dimensions = {"n_mixtures": self.M, "n_latent_factors": L, "n_observed_factors": self.O, "n_controls": self.C, "n_periods": self.T, "n_all_factors": tm.add(L, self.O)}
        self.labels = {"latent_factors": self.latent, "controls": self.controls, "periods": self.periods}
        names = lambda l: [Seg(Plain(self.npar(l)), lambda j: self.pname(l, j))]
        ds = DSeg(Plain(L), lat, names)
        self.param_names = {ds: None}
        self.transition_info = {"param_names": self.param_names}

    def per(self, k):
        return app("per", k, sort="I")

    def mvar(self, k):
        return app("mvar", k, sort="S")

    def npar(self, l):
        return app("npar", l, sort="I")

    def pname(self, l, j):
        return app("pname", l, j, sort="S")

    def isload(self, k, l):
        return app("isload", k, l, sort="B")

    def cell(self, i, c):
        if c == "purpose":
            return tm.ite(app("isanch", i, sort="B"), tm.lift("anchoring"), tm.lift("measurement"))
        if isinstance(c, tm.T) and c.op == "app" and c.args[0] == "lat":
            return self.isload(i, c.args[1])
        raise ar.Unsupported(f"column {c!r} of the update table")

    def template(self):
        """specification of the params template"""
        K, L, C, M = Plain(self.K), Plain(self.L), Plain(self.C), Plain(self.M)
        T1 = Plain(tm.sub(self.T, 1))
        ctr = lambda c: app("ctr", c, sort="S")
        mix = lambda m: tm.fstr(["mixture_", m])
        return [
            Seg(Comp([K, C]), lambda i: ("controls", self.per(i[0]), self.mvar(i[0]), ctr(i[1]))),
            Seg(Dom([K, L], lambda i: self.isload(*i)), lambda i: ("loadings", self.per(i[0]), self.mvar(i[0]), lat(i[1]))),
            Seg(K, lambda k: ("meas_sds", self.per(k), self.mvar(k), "-")),
            Seg(Comp([T1, L]), lambda i: ("shock_sds", i[0], lat(i[1]), "-")),
            Seg(Comp([M, L]), lambda i: ("initial_states", 0, mix(i[0]), lat(i[1]))),
            Seg(M, lambda m: ("mixture_weights", 0, mix(m), "-")),
            Seg(Dom([M, L, L], lambda i: tm.le(i[2], i[1])), lambda i: ("initial_cholcovs", 0, mix(i[0]), tm.fstr([lat(i[1]), "-", lat(i[2])]))),
            Seg(DepAxis(Plain(self.L), lambda l: Comp([T1, Plain(self.npar(l))])), lambda i: ("transition", i[1][0], lat(i[0]), self.pname(i[0], i[1][1]))),
        ]


def c09_index(u):
    d = ModelInputs(u)

    def facts(x, y):
        # updates are unique (C14), parameter names of a transition function are unique (C17)
        out = []
        if x[2].op == y[2].op == "app" and x[2].args[0] == y[2].args[0] == "mvar":
            k, j = x[2].args[1], y[2].args[1]
            out.append(tm.implies(tm.and_(tm.eq(d.per(k), d.per(j)), tm.eq(x[2], y[2])), tm.eq(k, j)))
        if x[0] == y[0] == "transition":
            (_, l, i), (_, m, j) = x[3].args, y[3].args
            out.append(tm.implies(tm.and_(tm.eq(l, m), tm.eq(x[3], y[3])), tm.eq(i, j)))
        return out

    for kind, v in u.run(PI + ".get_params_index", (d.update_info, d.labels, d.dimensions, d.transition_info)):
        if kind == "raise":
            u.fail("no exception", str(v))
            continue
        if not isinstance(v, pm.Index):
            u.fail("a MultiIndex is returned", repr(v))
            continue
        u.same_list("template rows", v.rows, d.template(), ordered=False)
        if v.names != ["category", "period", "name1", "name2"]:
            u.fail("names of the index levels", repr(v.names))
        else:
            u.ok("names of the index levels")
        u.unique("template rows are unique", v.rows, facts)



# ------------------------------------------------------------------ parsing (C08)
class ParseInputs(ModelInputs):
    def __init__(self, u):
        super().__init__(u)
        self.N = u.int("n_obs", 1)
        self.index = pm.Index(self.template(), ["category", "period", "name1", "name2"])
        ax, fn = self.index.axis, self.index.fn
        self.params = Arr([ax], lambda i: self.p(*fn(i[0])), None, "R")
        u.theory.ranges["p"] = (0.2, 1.5)
        # every update measures at least one factor (C14)
        u.assume(tm.lt(0, Dom([Plain(self.K), Plain(self.L)], lambda i: self.isload(*i)).size()))
        self.anchoring = {"ignore_constant_when_anchoring": False, "factors": [], "anchoring": False}

    def p(self, *label):
        return app("p", *[tm.lift(x) for x in label])


def c08_parse(u):
    d = ParseInputs(u)
    K, L, C, M, T, N = d.K, d.L, d.C, d.M, d.T, d.N
    u.theory.schemas["p"] = lambda *a: [tm.lt(0, app("p", *a))] if a[0] is tm.lift("mixture_weights") else []
    # the anchoring quantities have their own contract (C04)
    u.stubs[PP + "._get_anchoring_scaling_factors"] = lambda e, a, k: "scaling"
    u.stubs[PP + "._get_anchoring_constants"] = lambda e, a, k: "constants"

    def thunk():
        e = u.e
        info = e.call(e.function(PP + ".create_parsing_info"), [d.index, d.update_info, d.labels, d.anchoring], {})
        return e.call(e.function(PP + ".parse_params"), [d.params, info, d.dimensions, d.labels, N], {})

    mix = lambda m: tm.fstr(["mixture_", m])
    ctr = lambda c: app("ctr", c, sort="S")
    for kind, v in u.run_thunk(thunk):
        if kind == "raise":
            u.fail("no exception", str(v))
            continue
        states, chols, weights, par = v
        u.arr_eq("initial means", states, arr((N, M, L), lambda i, m, l: d.p("initial_states", 0, mix(m), lat(l))))
        u.arr_eq(
            "initial cholesky factors", chols,
            arr((N, M, L, L), lambda i, m, a, b: tm.ite(tm.le(a, b), d.p("initial_cholcovs", 0, mix(m), tm.fstr([lat(b), "-", lat(a)])), num(0))),
        )
        u.arr_eq("log mixture weights", weights, arr((N, M), lambda i, m: tm.fn("log", d.p("mixture_weights", 0, mix(m), "-"))))
        u.arr_eq("control coefficients", par["controls"], arr((K, C), lambda k, c: d.p("controls", d.per(k), d.mvar(k), ctr(c))))
        u.arr_eq("loadings", par["loadings"], arr((K, L), lambda k, l: tm.ite(d.isload(k, l), d.p("loadings", d.per(k), d.mvar(k), lat(l)), num(0))))
        u.arr_eq("measurement sds", par["meas_sds"], arr((K,), lambda k: d.p("meas_sds", d.per(k), d.mvar(k), "-")))
        u.arr_eq("shock sds", par["shock_sds"], arr((tm.sub(T, 1), L), lambda t, l: d.p("shock_sds", t, lat(l), "-")))
        l = tm.var("l", "I")
        fs = [tm.le(0, l), tm.lt(l, L)]
        with u.e.assuming(fs):
            got = u.e.dict_item(par["transition"], lat(l))
        u.arr_eq("transition parameters", got, arr((tm.sub(T, 1), d.npar(l)), lambda t, j: d.p("transition", t, lat(l), d.pname(l, j))), fs)



# ------------------------------------------------------------------ anchoring quantities (C04)
class AnchorInputs:
    """update table: per period any number of measurement rows, then one row per anchored factor"""

    def __init__(self, u):
        self.T, self.L, self.O, self.C = u.int("n_periods", 2), u.int("n_latent", 1), u.int("n_observed", 0), u.int("n_controls", 1)
        u.theory.schemas["nmeas"] = lambda t: [tm.le(0, app("nmeas", t, sort="I"))]
        anch = Dom([Plain(self.L)], lambda i: self.anch(i[0]))
        self.rows = DepAxis(Plain(self.T), lambda t: Cat([Plain(app("nmeas", t, sort="I")), anch]))
        self.latent = [Seg(Plain(self.L), lat)]
        self.index = pm.Index([Seg(self.rows, self.label)], ["period", "variable"])
        self.update_info = pm.Frame(self.index, list(self.latent) + ["purpose"], self.cell, lambda c: "S" if c == "purpose" else "B")
        self.labels = {"latent_factors": self.latent, "periods": [Seg(Plain(self.T), lambda t: t)], "controls": [Seg(Plain(self.C), lambda c: app("ctr", c, sort="S"))]}
        self.dimensions = {"n_periods": self.T, "n_latent_factors": self.L, "n_observed_factors": self.O, "n_controls": self.C, "n_mixtures": num(1), "n_all_factors": tm.add(self.L, self.O)}

    def anch(self, l):
        return app("anchored", l, sort="B")

    def label(self, i):
        t, (_, k, j) = i
        return (t, app("meas", t, j, sort="S") if k == 0 else app("outcome", j[0], sort="S"))

    def cell(self, i, c):
        t, (_, k, j) = i
        if c == "purpose":
            return tm.lift("measurement" if k == 0 else "anchoring")
        if isinstance(c, tm.T) and c.op == "app" and c.args[0] == "lat":
            return app("isload", t, j, c.args[1], sort="B") if k == 0 else tm.eq(j[0], c.args[1])
        raise ar.Unsupported(f"column {c!r}")

    def value(self, name, sort="R"):
        """name(t, row, column): measurement rows and anchoring rows have their own symbols"""

        def f(idx):
            t, (_, k, j) = idx[0]
            return app(name + "_meas", t, j, idx[1]) if k == 0 else app(name + "_anch", t, j[0], idx[1])

        return f


def c04_parse(u):
    d = AnchorInputs(u)
    T, L, O = d.T, d.L, d.O
    lo = d.value("load")

    def loading(idx):
        t, (_, k, j) = idx[0]
        return tm.ite(tm.lift(d.cell(idx[0], lat(idx[1]))), lo(idx), num(0))

    loadings = Arr([d.rows, Plain(L)], loading, None, "R")
    controls = Arr([d.rows, Plain(d.C)], d.value("ctl"), None, "R")
    skip = lambda e, a, k: "unused"
    for n in ("_get_initial_states", "_get_initial_upper_chols", "_get_initial_log_mixture_weights", "_get_meas_sds", "_get_shock_sds", "_get_transition_params", "_get_positional_selector_from_loc"):
        u.stubs[f"{PP}.{n}"] = skip
    u.stubs[PP + "._get_loadings"] = lambda e, a, k: loadings
    u.stubs[PP + "._get_control_params"] = lambda e, a, k: controls
    ign = app("ignore", sort="B")
    pidx = pm.Index([Seg(Plain(u.int("n_params", 1)), lambda i: tuple(app(f"lev{k}", i, sort="S") for k in range(4)))], ["category", "period", "name1", "name2"])

    def thunk():
        e = u.e
        info = e.call(e.function(PP + ".create_parsing_info"), [pidx, d.update_info, d.labels, {"ignore_constant_when_anchoring": ign}], {})
        return e.call(e.function(PP + ".parse_params"), ["params", info, d.dimensions, d.labels, num(1)], {})

    F = tm.add(L, O)
    for kind, v in u.run_thunk(thunk):
        if kind == "raise":
            u.fail("no exception", str(v))
            continue
        par = v[3]
        isa = lambda f: tm.and_(tm.lt(f, L), d.anch(f))
        u.arr_eq("scaling factors", par["anchoring_scaling_factors"], arr((T, F), lambda t, f: tm.ite(isa(f), app("load_anch", t, f, f), num(1))))
        u.arr_eq("constants", par["anchoring_constants"], arr((T, F), lambda t, f: tm.ite(tm.and_(isa(f), tm.not_(ign)), app("ctl_anch", t, f, 0), num(0))))


UNITS = {
    "C04": [("parse_params: anchoring scaling factors and constants", c04_parse)],
    "C08": [("parse_params.create_parsing_info, parse_params", c08_parse)],
    "C09": [("params_index.get_params_index", c09_index)],
}
