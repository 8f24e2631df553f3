"""Contracts of constraints.py, check_model.py, process_model.py (C10 - C14)."""
from . import arrays as ar
from . import pdmodel as pm
from . import terms as tm
from .arrays import Arr, Cat, Comp, Dom, Plain, Unsupported
from .c_filter import arr
from .interp import DepAxis, DSeg, Native, Obj, Seg, list_axis
from .terms import app, num
from .unit import norm_pieces
from .prove import prove

CO = "skillmodels.constraints"
tm.INJECTIVE.update({"lat", "ctr", "obsf"})


def lat(l):
    return app("lat", l, sort="S")


def project(e, lst):
    """what a constraint means, as comparable tuples: fixed values as a set of (location, value),
    the other kinds as (type, locations); descriptions and ids are left out"""

    def seq(x, m):
        return [Seg(y.axis, lambda i, y=y: m(y.fn(i))) if isinstance(y, Seg) else m(y) for y in e.entries(x)]

    def one(c):
        if not isinstance(c, dict):
            raise Unsupported("a constraint that is not a dict")
        extra = set(c) - {"loc", "locs", "type", "value", "description", "id"}
        if extra:
            raise Unsupported(f"constraint keys {extra}")
        typ, loc = c["type"], c.get("loc", c.get("locs"))
        if typ == "fixed":
            v = c["value"]
            if isinstance(loc, list):
                if isinstance(v, list):
                    (ax, f), (bx, g) = list_axis(loc), list_axis(v)
                    new, ca, cb = ar.unify(ax, bx)
                    return (typ, ("set", [Seg(new, lambda i: (f(ca(i)), g(cb(i))))]))
                return (typ, ("set", seq(loc, lambda l: (l, v))))
            return (typ, ("set", [(loc, v)]))
        if typ == "increasing":
            return (typ, loc)
        return (typ, ("set", loc) if isinstance(loc, list) else loc)

    return [Seg(x.axis, lambda i, x=x: one(x.fn(i))) if isinstance(x, Seg) else one(x) for x in e.entries(lst)]


class ConstrInputs:
    def __init__(self, u):
        self.u = u
        self.L, self.O, self.T, self.C = u.int("n_latent", 1), u.int("n_observed", 0), u.int("n_periods", 2), u.int("n_other_controls", 0)
        self.M, self.S = u.int("n_mixtures", 1), u.int("n_stages", 1)
        L, T = self.L, self.T
        for n in ("nl", "ni"):
            u.theory.schemas[n] = lambda l, t, n=n: [tm.le(0, app(n, l, t, sort="I"))]
        u.theory.schemas["nmeas"] = lambda t: [tm.le(0, app("nmeas", t, sort="I"))]
        u.theory.schemas["smap"] = lambda t: [tm.le(0, app("smap", t, sort="I")), tm.lt(app("smap", t, sort="I"), self.S)]
        u.theory.schemas["ctr"] = lambda c: [tm.not_(tm.eq(app("ctr", c, sort="S"), tm.lift("constant")))]
        u.theory.literals["tname"] = ["log_ces", "constant", "linear"]
        self.latent = [Seg(Plain(L), lat)]
        self.all = self.latent + [Seg(Plain(self.O), lambda o: app("obsf", o, sort="S"))]
        self.controls = ["constant", Seg(Plain(self.C), lambda c: app("ctr", c, sort="S"))]
        self.periods = [Seg(Plain(T), lambda t: t)]

    def norm(self, what, n, l, t):
        s = DSeg(Plain(app(n, l, t, sort="I")), lambda j: app(what + "_meas", l, t, j, sort="S"), lambda j: app(what + "_val", l, t, j))
        return {s: None}

    def build(self):
        """arguments of get_constraints"""
        L, T = self.L, self.T
        nz = {}
        d = DSeg(
            Plain(L), lat,
            lambda l: {
                "loadings": [Seg(Plain(T), lambda t: self.norm("load", "nl", l, t))],
                "intercepts": [Seg(Plain(T), lambda t: self.norm("icept", "ni", l, t))],
            },
        )
        nz[d] = None
        anch = Dom([Plain(L)], lambda i: self.anch(i[0]))
        self.rows = DepAxis(Plain(T), lambda t: Cat([Plain(app("nmeas", t, sort="I")), anch]))
        index = pm.Index([Seg(self.rows, self.row)], ["period", "variable"])
        upd = pm.Frame(index, list(self.latent) + ["purpose"], lambda i, c: tm.lift("measurement" if i[1][1] == 0 else "anchoring"), lambda c: "S")
        outs = {}
        outs[DSeg(anch, lambda i: lat(i[0]), lambda i: app("out", i[0], sort="S"))] = None
        info = {
            "free_constant": app("free_constant", sort="B"), "free_controls": app("free_controls", sort="B"), "free_loadings": app("free_loadings", sort="B"),
            "factors": [Seg(anch, lambda i: lat(i[0]))], "outcomes": outs,
        }
        labels = {
            "latent_factors": self.latent, "all_factors": self.all, "controls": self.controls, "periods": self.periods,
            "stagemap": [Seg(Plain(tm.sub(T, 1)), lambda t: app("smap", t, sort="I"))], "stages": [Seg(Plain(self.S), lambda s: s)],
            "transition_names": [Seg(Plain(L), lambda l: app("tname", l, sort="S"))],
        }
        return dict(dimensions={"n_mixtures": self.M}, labels=labels, anchoring_info=info, update_info=upd, normalizations=nz)

    def anch(self, l):
        return app("anchored", l, sort="B")

    def outname(self, l):
        return tm.fstr([app("out", l, sort="S"), "_", lat(l)])

    def row(self, i):
        t, (_, k, j) = i
        return (t, app("meas", t, j, sort="S") if k == 0 else self.outname(j[0]))


def c10_constraints(u):
    d = ConstrInputs(u)
    L, T = d.L, d.T

    def thunk():
        e = u.e
        return e.call(e.function(CO + ".get_constraints"), [], d.build())

    T1 = tm.sub(T, 1)
    anch = Dom([Plain(L)], lambda i: d.anch(i[0]))
    for kind, v in u.run_thunk(thunk):
        if kind == "raise":
            u.fail("no exception", str(v))
            continue
        e = u.e
        is_ = lambda b: e.decide(tm.lift(b))
        want = []
        # normalizations
        axis = DepAxis(Plain(L), lambda l: DepAxis(Plain(T), lambda t: Cat([Plain(app("nl", l, t, sort="I")), Plain(app("ni", l, t, sort="I"))])))

        def key(i):
            l, (t, (_, k, j)) = i
            return ("loadings", t, app("load_meas", l, t, j, sort="S"), lat(l)) if k == 0 else ("controls", t, app("icept_meas", l, t, j, sort="S"), "constant")

        def val(i):
            l, (t, (_, k, j)) = i
            return app("load_val" if k == 0 else "icept_val", l, t, j)

        def nonempty(s):
            """the constraint exists if there is something to fix"""
            some = e.nonempty([s])
            n = is_(some)
            c = ("fixed", ("set", [s]))
            if n is None:
                want.append(Seg(Dom([Plain(1)], lambda i: some), lambda i: c))
            elif n:
                want.append(c)

        nonempty(Seg(axis, lambda i: (key(i), val(i))))
        one = is_(tm.eq(d.M, 1))
        if one is None:
            raise Unsupported("number of mixture elements is not determined on this path")
        want.append(("fixed", ("set", [("mixture_weights", 1)])) if one else ("probability", "mixture_weights"))
        if not one:
            want.append(("increasing", [Seg(Plain(d.M), lambda m: ("initial_states", num(0), tm.fstr(["mixture_", m]), lat(num(0))))]))
        # stages
        per = lambda s: Dom([Plain(T1)], lambda p: tm.eq(app("smap", p[0], sort="I"), s))
        big = Dom([Plain(d.S)], lambda s: tm.lt(1, per(s[0]).size()))
        for what in ("transition", "shock_sds"):
            want.append(Seg(big, lambda s, what=what: ("pairwise_equality", ("set", [Seg(per(s[0]), lambda p: (what, p[0]))]))))
        # constant factors
        tn = lambda l: app("tname", l, sort="S")
        want.append(Seg(Dom([Plain(L), Plain(T1)], lambda i: tm.eq(tn(i[0]), tm.lift("constant"))), lambda i: ("fixed", ("set", [(("shock_sds", i[1], lat(i[0]), "-"), 0)]))))
        # log_ces shares
        want.append(
            Seg(
                Dom([Plain(L), Plain(T1)], lambda i: tm.eq(tn(i[0]), tm.lift("log_ces"))),
                lambda i: ("probability", ("set", [Seg(x.axis, lambda f, x=x: ("transition", i[1], lat(i[0]), x.fn(f))) for x in d.all])),
            )
        )
        # anchoring
        ta = DepAxis(Plain(T), lambda t: anch)
        fr = {n: is_(app("free_" + n, sort="B")) for n in ("constant", "controls", "loadings")}
        lists = {
            "constant": Seg(ta, lambda i: (("controls", i[0], d.outname(i[1][0]), "constant"), 0)),
            "controls": Seg(DepAxis(ta, lambda i: Plain(d.C)), lambda i: (("controls", i[0][0], d.outname(i[0][1][0]), app("ctr", i[1], sort="S")), 0)),
            "loadings": Seg(ta, lambda i: (("loadings", i[0], d.outname(i[1][0]), lat(i[1][0])), 1)),
        }
        for n, s in lists.items():
            if fr[n] is None:
                raise Unsupported(f"free_{n} is not determined")
            if not fr[n]:
                nonempty(s)
        u.family("exactly the implied constraints", project(e, v), want)
        u.unique("ids are unique", [Seg(x.axis, lambda i, x=x: x.fn(i)["id"]) if isinstance(x, Seg) else x["id"] for x in e.entries(v)])


UNITS = {
    "C10": [("constraints.get_constraints", c10_constraints)],
}
