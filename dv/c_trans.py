"""Contracts of the transition functions and of the transition system (C17, C18)."""
from . import arrays as ar
from . import terms as tm
from .arrays import Arr, Plain
from .interp import Native, Seg, list_axis
from .terms import app, num
from .c_filter import S, arr

TF = "skillmodels.transition_functions"
tm.INJECTIVE.update({"fac", "lat", "obsf"})
tm.FAMILY.update({"fac": "fac"})
tm.SEPARABLE.update({(None, " * ", None), (None, " ** 2"), ("sigma_", None)})


def factor_labels(n, name="fac"):
    return [Seg(Plain(n), lambda i: app(name, i, sort="S"))]


class TransInputs:
    def __init__(self, u):
        self.n = u.int("n_factors", 1)
        self.x = u.array("x", self.n)
        self.rng = {}
        u.theory.ranges["b"] = (0.2, 1.5)

    def params(self, names):
        """one value per name, in the order of the list of names"""
        ax, fn = list_axis(names)
        return Arr([ax], lambda i: b(fn(i[0])), None, "R")


def b(name):
    return app("b", name)


def fac(i):
    return app("fac", i, sort="S")


def f2(i):
    return tm.fstr([fac(i), " ** 2"])


def inter(i, j):
    return tm.fstr([fac(i), " * ", fac(j)])


def lin(n, x):
    return S(n, lambda i: tm.mul(b(fac(i)), x(i)))


def sq(n, x):
    return S(n, lambda i: tm.mul(b(f2(i)), tm.power(x(i), 2)))


def inters(n, x):
    return S(n, lambda i: S(n, lambda j: tm.ite(tm.lt(i, j), tm.mul(b(inter(i, j)), tm.mul(x(i), x(j))), num(0))))


def X(i):
    return app("x", i)


def clip(v):
    return tm.min_(tm.max_(v, num(-(10**12))), num(10**12))


SPEC = {
    "linear": lambda n: tm.add(lin(n, X), b("constant")),
    "translog": lambda n: tm.add(tm.add(lin(n, X), sq(n, X)), tm.add(inters(n, X), b("constant"))),
    "linear_and_squares": lambda n: tm.add(tm.add(lin(n, X), sq(n, X)), b("constant")),
    "robust_translog": lambda n: tm.add(
        tm.add(lin(n, lambda i: clip(X(i))), sq(n, lambda i: clip(X(i)))), tm.add(inters(n, lambda i: clip(X(i))), b("constant"))
    ),
    "log_ces": lambda n: tm.mul(tm.div(1, b("phi")), tm.fn("log", S(n, lambda i: tm.mul(b(fac(i)), tm.fn("exp", tm.mul(X(i), b("phi"))))))),
    "log_ces_general": lambda n: tm.mul(
        b("tfp"), tm.fn("log", S(n, lambda i: tm.mul(b(fac(i)), tm.fn("exp", tm.mul(X(i), b(tm.fstr(["sigma_", fac(i)])))))))
    ),
}
NAMES = {
    "linear": lambda n: factor_labels(n) + ["constant"],
    "translog": lambda n: factor_labels(n) + [Seg(Plain(n), f2)] + pairs(n) + ["constant"],
    "robust_translog": lambda n: factor_labels(n) + [Seg(Plain(n), f2)] + pairs(n) + ["constant"],
    "linear_and_squares": lambda n: factor_labels(n) + [Seg(Plain(n), f2)] + ["constant"],
    "log_ces": lambda n: factor_labels(n) + ["phi"],
    "log_ces_general": lambda n: factor_labels(n) + [Seg(Plain(n), lambda i: tm.fstr(["sigma_", fac(i)]))] + ["tfp"],
    "constant": lambda n: [],
}


def pairs(n):
    ax = Plain(n)
    return [Seg(ar.Dom([ax, ax], lambda ij: tm.lt(ij[0], ij[1]), tag="pairs"), lambda ij: inter(*ij))]


def c17(name):
    def unit(u):
        d = TransInputs(u)

        def setup():
            e = u.e
            names = e.call(e.function(f"{TF}.params_{name}"), [e.new(factor_labels(d.n))], {})
            return names, e.call(e.function(f"{TF}.{name}"), [d.x, d.params(names)], {})

        if name in ("log_ces", "log_ces_general"):
            # share parameters are positive, phi is not zero
            u.theory.schemas["b"] = lambda lab: [tm.lt(0, app("b", lab))]
        for kind, v in u.run_thunk(setup):
            if kind == "raise":
                u.fail("no exception", str(v))
                continue
            names, got = v
            u.unique("parameter names are unique", names)
            u.same_value("formula", got, ar.scalar(SPEC[name](d.n)))

    return unit


def c17_constant(u):
    d = TransInputs(u)
    st = u.real("state")
    for kind, v in u.run(TF + ".constant", (st, None)):
        u.same_value("state is returned", v, st)
    for kind, v in u.run(TF + ".params_constant", lambda: (u.e.new(factor_labels(d.n)),)):
        u.same_list("no parameters", v, [])


def c17_constraints(u):
    d = TransInputs(u)
    f, p = app("factor", sort="S"), u.int("period", 0)
    for kind, v in u.run(TF + ".constraints_log_ces", lambda: (f, u.e.new(factor_labels(d.n)), p)):
        if kind == "raise":
            u.fail("no exception", str(v))
            continue
        u.check("type", tm.lift(u.e.equal(v.get("type"), "probability")))
        u.same_list("share parameters", v["loc"], [Seg(Plain(d.n), lambda i: ("transition", p, f, fac(i)))])
        if set(v) != {"loc", "type"}:
            u.fail("no other entries", str(list(v)))


UNITS = {
    "C17": [(f"transition_functions.{n}", c17(n)) for n in SPEC]
    + [("transition_functions.constant", c17_constant)],
    "C10": [("transition_functions.constraints_log_ces", c17_constraints)],
}


# ------------------------------------------------------------------ transition system (C18)
PM = "skillmodels.process_model"
CUSTOM_SRC = '''
def full(states, params):
    return __spec__("full", states, params)

def one({a}, params):
    return __spec__("one", {a}, params)

def two({b}, {a}, params):
    return __spec__("two", {a}, {b}, params)

def mix(states, {b}, params):
    return __spec__("mix", states, {b}, params)
'''


def custom_functions(u, names, calls):
    """user-defined transition functions: opaque, with the declared argument names"""
    import ast

    from .interp import Env

    e = u.e

    def spec(en, args, kw):
        kind, *vals = args
        par = vals[-1]
        if not isinstance(par, dict):
            u.fail("custom functions receive params as a dict", type(par).__name__)
            raise ar.CodeError("params is not a dict")
        flatv = []
        for v in vals[:-1]:
            v = ar.as_arr(v)
            if v.ndim == 0:
                flatv.append(v.at())
            elif v.ndim == 1 and tm.is_num(v.axes[0].size()):
                flatv += [ar.index0(v, num(k)).at() for k in range(int(v.axes[0].size().args[0]))]
            else:
                raise ar.Unsupported("custom function argument")
        ps = [f"{k}" for k in par]
        calls.append((kind, ps))
        return ar.scalar(app("custom:" + kind + ":" + ",".join(ps), *flatv, *[ar.as_arr(par[k]).at() for k in par]))

    env = Env(None, e.module(PM))
    env.vars["__spec__"] = Native(spec, "spec")
    tree = ast.parse(CUSTOM_SRC.format(**names))
    return {n.name: e.make_closure(n, env) for n in tree.body}


def c18(u):
    """bounded in the number of factors (2 latent, 0-1 observed); unbounded in rows, states, parameters"""
    R = u.int("n_rows", 1)
    lat = ["fac1", "fac2"]
    for obs in ([], ["inc"]):
        allf = lat + obs
        F = len(allf)
        x = u.array(f"x{F}", R, F)
        specs = ["linear", "translog", "constant", "full", "one", "two", "mix"]
        for s1 in specs:
            for s2 in specs:
                if (s1 == "translog" or s2 == "translog") and s1 == s2:
                    continue
                c18_case(u, R, lat, obs, allf, x, s1, s2)


def n_params(spec, F):
    return {"linear": F + 1, "translog": 2 * F + F * (F - 1) // 2 + 1, "constant": 0, "full": 2, "one": 1, "two": 3, "mix": 2}[spec]


def c18_case(u, R, lat, obs, allf, x, s1, s2):
    F = len(allf)
    specs = dict(zip(lat, (s1, s2)))
    fid = {}

    def setup():
        e = u.e
        cust = custom_functions(u, {"a": "fac2", "b": allf[-1]}, [])
        md = {"factors": {}}
        for f, s in specs.items():
            if s in cust:
                # every factor gets its own function object
                cl = custom_functions(u, {"a": "fac2", "b": allf[-1]}, [])[s]
                k = n_params(s, F)
                cl.attrs["__registered_params__"] = e.new([f"{f}_p{k - j}" for j in range(k)])
                md["factors"][f] = e.new({"transition_function": cl})
            else:
                md["factors"][f] = e.new({"transition_function": s})
        md["factors"] = e.new(md["factors"])
        labels = e.new({"latent_factors": e.new(list(lat)), "observed_factors": e.new(list(obs)), "all_factors": e.new(list(allf))})
        info = e.call(e.function(PM + "._get_transition_info"), [e.new(md), labels], {})
        params = {f: Arr([Plain(n_params(specs[f], F))], lambda i, f=f: app("b", f, i[0])) for f in lat}
        res = e.call(info["func"], [params, x], {})
        ind = {f: e.call(info["individual_functions"][f], [params, x], {}) for f in lat}
        return info, res, ind

    def value(f, r):
        s = specs[f]
        X = [app(f"x{F}", r, k) for k in range(F)]
        B = [app("b", f, k) for k in range(n_params(s, F))]
        if s == "constant":
            return X[allf.index(f)]
        lin = num(0)
        if s in ("linear", "translog"):
            lin = B[-1]
            for k in range(F):
                lin = tm.add(lin, tm.mul(B[k], X[k]))
        if s == "translog":
            for k in range(F):
                lin = tm.add(lin, tm.mul(B[F + k], tm.power(X[k], 2)))
            c = 2 * F
            for a in range(F):
                for b_ in range(a + 1, F):
                    lin = tm.add(lin, tm.mul(B[c], tm.mul(X[a], X[b_])))
                    c += 1
        if s in ("linear", "translog"):
            return lin
        a, b_ = X[1], X[F - 1]
        arg = {"full": X, "one": [a], "two": [a, b_], "mix": X + [b_]}[s]
        k = n_params(s, F)
        return app("custom:" + s + ":" + ",".join(f"{f}_p{k - j}" for j in range(k)), *arg, *B)

    tag = f"{s1}, {s2}, {len(obs)} observed"
    if {s1, s2} & {"two"} and F == 2:
        return  # the two arguments would be the same factor
    for kind, v in u.run_thunk(setup):
        if kind == "raise":
            u.fail("no exception", f"{tag}: {v}")
            continue
        info, res, ind = v
        u.bounded("entry f is the function of factor f with its own parameters (2 latent factors)")
        u.arr_eq("entry f is the function of factor f with its own parameters (2 latent factors)", res, arr((R, 2), lambda r, l: tm.ite(tm.eq(l, 0), value(lat[0], r), value(lat[1], r))))
        for f in lat:
            u.bounded("individual functions (2 latent factors)")
            u.arr_eq("individual functions (2 latent factors)", ind[f], arr((R,), lambda r: value(f, r)))
        u.bounded("parameter names by factor (2 latent factors)")
        u.same_value("parameter names by factor (2 latent factors)", list(info["param_names"]), lat)


def c18_reject(u):
    """custom functions without registered parameter names are rejected with an AttributeError"""

    def setup():
        e = u.e
        f = custom_functions(u, {"a": "fac2", "b": "fac1"}, [])["full"]
        md = e.new({"factors": e.new({"fac1": e.new({"transition_function": f})})})
        labels = e.new({"latent_factors": ["fac1"], "observed_factors": [], "all_factors": ["fac1"]})
        return e.call(e.function(PM + "._get_transition_info"), [md, labels], {})

    for kind, v in u.run_thunk(setup):
        if kind == "raise" and v.etype is AttributeError:
            u.ok("functions without registered parameters are rejected")
        else:
            u.fail("functions without registered parameters are rejected", str(v))


def c18_extract(u):
    """extract_params: params[key] and/or the dict of names are passed, everything else unchanged"""
    n = u.int("n_params", 0)
    vals = u.array("pv", n)
    names = [Seg(Plain(n), lambda i: app("pn", i, sort="S"))]

    for key in (None, "k"):
        for nm in (None, "names"):
            if key is None and nm is None:
                continue
            seen = []

            def setup():
                e = u.e
                seen.clear()
                f = Native(lambda en, a, k: seen.append((list(a), dict(k))) or "result", "func")
                par = vals if key is None else e.new({"other": "wrong", "k": vals})
                g = e.call(e.function("skillmodels.decorators.extract_params"), [f], {k: v for k, v in (("key", key), ("names", e.new(list(names)) if nm else None)) if v is not None})
                r = e.call(g, [], {"states": "S", "params": par, "fac": "F"})
                return r, par

            for kind, v in u.run_thunk(setup):
                if kind == "raise":
                    u.fail("no exception", str(v))
                    continue
                r, par = v
                (u.ok if r == "result" else lambda x: u.fail(x, repr(r)))("the result is returned")
                a, k = seen[0]
                if a or set(k) != {"states", "params", "fac"} or k["states"] != "S" or k["fac"] != "F":
                    u.fail("other arguments are passed unchanged", f"{a} {k}")
                else:
                    u.ok("other arguments are passed unchanged")
                if nm is None:
                    u.same_value("params[key] is passed", k["params"], vals)
                else:
                    d = k["params"]
                    items = u.e.call(u.e.getattr(d, "items"), [], {}) if isinstance(d, dict) else None
                    if items is None:
                        u.fail("params is a dict of names", repr(d))
                    else:
                        u.same_list("params is a dict of names in their order", list(u.e.entries(items)), [Seg(Plain(n), lambda i: (app("pn", i, sort="S"), ar.index0(vals, i)))])


tm.INJECTIVE.add("pn")
UNITS["C18"] = [
    ("process_model._get_transition_info", c18),
    ("process_model._get_transition_info: custom functions without parameters", c18_reject),
    ("decorators.extract_params", c18_extract),
]
