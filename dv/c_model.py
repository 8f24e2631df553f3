"""Contracts of process_model.py and check_model.py (C12 - C14)."""
from . import arrays as ar
from . import pdmodel as pm
from . import terms as tm
from .arrays import Cat, Comp, Dom, Plain, Unsupported
from .c_spec import lat
from .interp import subst_value, DepAxis, DictView, DSeg, Obj, Seg, axis_list, list_axis, maybe
from .lib import reg
from .terms import app, num

PM = "skillmodels.process_model"
CM = "skillmodels.check_model"
I = lambda n, *a: app(n, *a, sort="I")
B = lambda n, *a: app(n, *a, sort="B")
S = lambda n, *a: app(n, *a, sort="S")


tm.INJECTIVE_LAST.update({"nkey_loadings", "nkey_intercepts"})  # keys of one dict


class ModelDict:
    """an arbitrary model dictionary: any number of factors, periods, measurements, controls, ...;
    optional entries are present or absent in every combination"""

    def __init__(self, u):
        self.u = u
        self.L, self.O, self.C = u.int("n_latent", 1), u.int("n_observed", 0), u.int("n_ctl", 0)
        for n in ("mp", "nn_loadings", "nn_intercepts"):
            u.theory.schemas[n] = lambda l, n=n: [tm.le(1 if n == "mp" else 0, I(n, l))]
        for n in ("nm",):
            u.theory.schemas[n] = lambda l, t, n=n: [tm.le(0, I(n, l, t))]
        self.meas = lambda l, t: [Seg(Plain(I("nm", l, t)), lambda j: S("ms", l, t, j))]
        self.measurements = lambda l: [Seg(Plain(I("mp", l)), lambda t: self.meas(l, t))]

    def normdict(self, typ, l, t):
        s = DSeg(Plain(I("nk_" + typ, l, t)), lambda j: S("nkey_" + typ, l, t, j), lambda j: app("nval_" + typ, l, t, j))
        return {s: None}

    def normlist(self, typ, l):
        return [Seg(Plain(I("nn_" + typ, l)), lambda t: self.normdict(typ, l, t))]

    def norms(self, l):
        return {
            maybe("loadings", B("has_loadings", l), lambda: self.normlist("loadings", l)): None,
            maybe("intercepts", B("has_intercepts", l), lambda: self.normlist("intercepts", l)): None,
        }

    def factor(self, l):
        return {
            "measurements": self.measurements(l),
            maybe("normalizations", B("has_norm", l), lambda: self.norms(l)): None,
            "transition_function": S("tname", l),
        }

    def factors(self):
        return {DSeg(Plain(self.L), lat, self.factor): None}

    def build(self, extra=None):
        d = {"factors": self.factors()}
        d[maybe("observed_factors", B("has_observed"), lambda: [Seg(Plain(self.O), lambda o: S("obs", o))])] = None
        d[maybe("controls", B("has_controls"), lambda: [Seg(Plain(self.C), lambda c: S("ctl", c))])] = None
        d[maybe("stagemap", B("has_stagemap"), lambda: [Seg(Plain(I("n_stagemap")), lambda t: I("stage", t))])] = None
        d.update(extra or {})
        return d


def guarded(u, make):
    """all paths of a call whose arguments the caller keeps: they are not modified"""

    def thunk():
        f, args = make()
        for a in args:
            u.e.freeze(a)
        return u.e.call(u.e.function(f), args, {})

    for kind, v in u.run_thunk(thunk):
        if kind == "raise":
            u.fail("no exception", str(v))
            continue
        u.ok("no exception")
        u.ok("the model dictionary is not modified")
        yield v


def is_true(u, b):
    """truth value on this path (a case distinction if the code did not make it)"""
    return u.e.branch(b)


def known_parts(e, g):
    """the condition without its parts that are determined by the facts"""
    if g.op in ("and", "or"):
        return (tm.and_ if g.op == "and" else tm.or_)(*[known_parts(e, x) for x in g.args])
    if g.op == "not":
        return tm.not_(known_parts(e, g.args[0]))
    d = e.decide(g)
    return g if d is None else tm.TRUE if d else tm.FALSE


def content(e, es):
    """(text, free variables) that determine a symbolic list up to its presentation"""
    ax, f = list_axis(es)
    pieces = []
    fv = set()
    for vs, i, g in ar.iter_axis(ax):
        rng = [h for v, n in vs for h in (tm.le(0, v), tm.lt(v, n))]
        with e.assuming(rng):
            g = known_parts(e, g)
        with e.assuming(rng + [g]):
            x = f(i)
        ren = {v: tm.var(f"@s{k}") for k, (v, _) in enumerate(vs)}
        ts = [tm.subst(n, ren) for _, n in vs] + [tm.subst(g, ren)] + [tm.subst(tm.lift(y), ren) for y in (x if isinstance(x, tuple) else (x,))]
        pieces.append(ts)
        for t in ts:
            fv |= {v for v in t.fv if not v.args[0].startswith("@s")}
    fv = sorted(fv, key=tm.key)
    return "|".join(sorted(";".join(tm.key(t) for t in p) for p in pieces)), fv


def canonical(text, fv):
    """the text with the free variables numbered by their first occurrence"""
    import re

    pat = {v: re.compile(r"(?<![\w!@#])" + re.escape(str(v.args[0])) + r"(?![\w!])") for v in fv}
    fv = sorted(fv, key=lambda v: (m.start() if (m := pat[v].search(text)) else len(text), tm.key(v)))
    for k, v in enumerate(fv):
        text = pat[v].sub(f"@f{k}", text)
    return text, fv


def largest(e, es, name):
    """max of a list: determined by the list up to its presentation"""
    text, fv = canonical(*content(e, es))
    full = f"{name}of:{text}"

    def interp(m, args):
        from .interp import subst_value
        from .unit import concrete_list

        c = concrete_list(m, subst_value(list(es), {v: tm.lift(a) for v, a in zip(fv, args)}, (), None))
        if not c:
            raise tm.EvalError("empty")
        return (max if name == "max" else min)(c)

    e.theory.interp.setdefault(full, interp)
    return app(full, *fv, sort="I")


def same_items(e, a, b):
    """== of dicts with symbolic entries: determined by their items"""
    from .interp import subst_value
    from .unit import concrete_list

    xs = [e.entries(DictView(d, "items")) for d in (a, b)]
    cs = [content(e, x) for x in xs]
    if cs[0] == cs[1]:
        return True
    text, fv = canonical(" == ".join(c[0] for c in cs), set(cs[0][1]) | set(cs[1][1]))
    full = "dicteq:" + text

    def interp(m, args):
        r = {v: tm.lift(x) for v, x in zip(fv, args)}
        p, q = (concrete_list(m, subst_value(list(x), r, (), None)) for x in xs)
        return dict(p) == dict(q)

    e.theory.interp.setdefault(full, interp)
    return app(full, *fv, sort="B")


def c13_dimensions(u):
    d = ModelDict(u)
    u.hooks["minmax"] = largest
    for v in guarded(u, lambda: (PM + ".get_dimensions", [d.build({maybe("estimation_options", B("has_options"), lambda: {maybe("n_mixtures", B("has_nmix"), lambda: I("nmix")): None}): None})])):
        e = u.e
        n_obs = d.O if is_true(u, B("has_observed")) else 0
        n_ctl = d.C if is_true(u, B("has_controls")) else 0
        nmix = I("nmix") if is_true(u, B("has_options")) and is_true(u, B("has_nmix")) else 1
        T = largest(e, [Seg(Plain(d.L), lambda l: I("mp", l))], "max")
        want = {
            "n_latent_factors": d.L, "n_observed_factors": n_obs, "n_all_factors": tm.add(d.L, n_obs), "n_periods": T,
            "n_controls": tm.add(tm.lift(n_ctl), 1), "n_mixtures": nmix,
        }
        if set(v) != set(want):
            u.fail("the dimensions", f"keys {sorted(map(str, v))}")
            continue
        for k, x in want.items():
            u.check(k, tm.lift(e.equal(v[k], tm.unlift(tm.lift(x)))), detail=f"{v[k]!r}")


class Uniq(Obj):
    """np.unique of a list of integers: its sorted distinct values"""

    def __init__(self, e, src):
        Obj.__init__(self, "distinct values")
        self.src = list(src)

    def entries(self):
        raise Unsupported("distinct values")


def c13_labels(u):
    d = ModelDict(u)
    T = u.int("n_periods", 1)
    import numpy as np

    from .lib import LIB

    def unique(e, x, **k):
        if k:
            raise Unsupported("np.unique with options")
        return Uniq(e, e.entries(x))

    old = LIB.get(id(np.unique))
    LIB[id(np.unique)] = unique

    class Sorted(Obj):
        def __init__(self, src):
            Obj.__init__(self, "sorted distinct values")
            self.src = src

    u.hooks["sorted"] = None

    def srt(e, seq, key=None, reverse=False):
        if isinstance(seq, Uniq) and key is None and not reverse:
            return Sorted(seq.src)
        return old_sorted(e, seq, key, reverse)

    old_sorted = LIB[id(sorted)]
    LIB[id(sorted)] = srt
    try:
        for v in guarded(u, lambda: (PM + "._get_labels", [d.build(), {"n_periods": T}])):
            e = u.e
            la = [Seg(Plain(d.L), lat)]
            ob = [Seg(Plain(d.O), lambda o: S("obs", o))] if is_true(u, B("has_observed")) else []
            co = ["constant"] + ([Seg(Plain(d.C), lambda c: S("ctl", c))] if is_true(u, B("has_controls")) else [])
            sm = [Seg(Plain(I("n_stagemap")), lambda t: I("stage", t))] if is_true(u, B("has_stagemap")) else [Seg(Plain(tm.sub(T, 1)), lambda t: t)]
            want = {"latent_factors": la, "observed_factors": ob, "all_factors": la + ob, "controls": co, "periods": [Seg(Plain(T), lambda t: t)], "stagemap": sm}
            if set(v) != set(want) | {"stages"}:
                u.fail("the labels", f"keys {sorted(map(str, v))}")
                continue
            for k, x in want.items():
                u.same_list(k, v[k], x)
            st = v["stages"]
            if isinstance(st, Sorted):
                u.same_list("stages are the sorted distinct stagemap entries", st.src, sm)
            else:
                u.undecided("stages are the sorted distinct stagemap entries", repr(st))
    finally:
        LIB[id(sorted)] = old_sorted
        if old is None:
            LIB.pop(id(np.unique), None)
        else:
            LIB[id(np.unique)] = old


DEFAULT_OPTIONS = {
    "sigma_points_scale": 2, "robust_bounds": True, "bounds_distance": 0.001, "clipping_lower_bound": -1e250,
    "clipping_upper_bound": None, "clipping_lower_hardness": 1, "clipping_upper_hardness": 1,
}


def c13_options(u):
    def options(keys):
        o = {}
        for k in keys:
            o[maybe(k, B("has_" + k), lambda k=k: B("opt_" + k) if k == "robust_bounds" else app("opt_" + k, sort="R"))] = None
        o["n_mixtures"] = I("opt_other")
        return o

    ks = list(DEFAULT_OPTIONS)
    for v in guarded(u, lambda: (PM + "._process_estimation_options", [{"factors": {}, maybe("estimation_options", B("has_options"), lambda: options(ks)): None}])):
        e = u.e
        have = is_true(u, B("has_options"))
        robust = True
        for k, dv in DEFAULT_OPTIONS.items():
            given = have and is_true(u, B("has_" + k))
            x = (B("opt_" + k) if k == "robust_bounds" else app("opt_" + k, sort="R")) if given else dv
            if k == "robust_bounds":
                robust = is_true(u, x) if given else True
            if k == "bounds_distance":
                x = x if robust else 0
            if k not in v:
                u.fail(k, "missing")
            elif x is None or v[k] is None:
                (u.ok if v[k] is x else lambda n: u.fail(n, f"{v[k]!r}"))(k)
            else:
                u.check(k, tm.lift(e.equal(v[k], x)) if not isinstance(x, float) or not isinstance(v[k], float) else tm.lift(v[k] == x), detail=f"{v[k]!r}")
        if have:
            u.check("other options are kept", tm.lift(e.equal(v.get("n_mixtures", -1), I("opt_other"))))


def outcome_keys(u):
    """keys of the outcomes: distinct labels, which may be factors (in any order)"""
    tm.INJECTIVE.add("okey")
    u.theory.interp["okey"] = lambda m, a: f"Lokey{a}" if m.seed % 4 == 3 else m.value("lat", (a[0] + m.seed % 4 if m.seed % 8 < 4 else 3 + m.seed % 4 - a[0],), "S")


def c13_anchoring(u):
    d = ModelDict(u)
    A = u.int("n_outcomes", 0)
    flags = ["free_controls", "free_constant", "free_loadings", "ignore_constant_when_anchoring"]
    okey = lambda a: S("okey", a)
    oval = lambda a: S("oval", a)
    outcome_keys(u)

    def anchoring():
        o = {"outcomes": {DSeg(Plain(A), okey, oval): None}}
        for f in flags:
            o[maybe(f, B("has_" + f), lambda f=f: B("opt_" + f))] = None
        return o

    for v in guarded(u, lambda: (PM + "._process_anchoring", [d.build({maybe("anchoring", B("has_anchoring"), anchoring): None})])):
        e = u.e
        have = is_true(u, B("has_anchoring"))
        if set(v) != set(flags) | {"anchoring", "outcomes", "factors"}:
            u.fail("the anchoring information", f"keys {sorted(map(str, v))}")
            continue
        u.check("anchoring", tm.lift(v["anchoring"] is have))
        for f in flags:
            x = B("opt_" + f) if have and is_true(u, B("has_" + f)) else False
            u.check(f, tm.lift(e.equal(v[f], x)))
        anch = Dom([Plain(d.L)], lambda l: ar.reduce_exists(Plain(A), lambda a: tm.eq(okey(a), lat(l[0]))))
        u.same_list("anchored factors in the order of the latent factors", v["factors"], [Seg(anch, lambda l: lat(l[0]))] if have else [])
        u.same_list("outcomes", e.entries(DictView(v["outcomes"], "items")), [Seg(Plain(A), lambda a: (okey(a), oval(a)))] if have else [])


def c13_normalizations(u):
    d = ModelDict(u)
    T = u.int("n_periods", 1)
    for n in ("nn_loadings", "nn_intercepts"):
        u.theory.schemas[n] = lambda l, n=n: [tm.le(0, I(n, l)), tm.le(I(n, l), T)]
    labels = {"latent_factors": [Seg(Plain(d.L), lat)]}
    for v in guarded(u, lambda: (PM + "._process_normalizations", [d.build(), {"n_periods": T}, labels])):
        e = u.e
        u.same_list("one entry per latent factor", e.entries(DictView(v, "keys")), [Seg(Plain(d.L), lat)])
        l, t = tm.fresh("l"), tm.fresh("t")
        fs = [tm.le(0, l), tm.lt(l, d.L), tm.le(0, t), tm.lt(t, T)]
        hn, hl, hi = B("has_norm", l), B("has_loadings", l), B("has_intercepts", l)
        nl, ni = I("nn_loadings", l), I("nn_intercepts", l)
        atoms = [hn, hl, hi, tm.lt(nl, T), tm.lt(ni, T), tm.lt(t, nl), tm.lt(t, ni)]
        for case in cases(e, fs, atoms):
            with e.assuming(fs + case):
                x = e.dict_lookup(v, lat(l))[0]
                if list(x) != ["loadings", "intercepts"]:
                    u.fail("the two kinds of normalizations", repr(list(x)))
                    continue
                for typ, h, n in (("loadings", hl, nl), ("intercepts", hi, ni)):
                    given = is_true(u, hn) and is_true(u, h)
                    got = x[typ]
                    u.check(typ + ": one dict per period", tm.eq(tm.lift(e.length(got)), T))
                    y = e.subscript(got, t)
                    here = given and is_true(u, tm.lt(t, n))
                    want = d.normdict(typ, l, t) if here else {}
                    if not isinstance(y, dict):
                        u.fail(typ + ": one dict per period", repr(y))
                        continue
                    u.same_list(typ + (": the given dict" if here else ": empty dict"), e.entries(DictView(y, "items")), e.entries(DictView(want, "items")))


def cases(e, fs, atoms):
    """the consistent combinations of truth values of the atoms"""

    def go(k, acc):
        if k == len(atoms):
            yield acc
            return
        for a in (atoms[k], tm.not_(atoms[k])):
            with e.assuming(fs + acc):
                d = e.decide(a)
            if d is False:
                continue
            yield from go(k + 1, acc + [a])

    yield from go(0, [])


def c13_fill(u):
    n, m = u.int("n", 0), u.int("length", 0)
    for case in ("short", "long"):
        u.facts = [f for f in u.facts if "fill" not in repr(f)]
        e = None

        def thunk():
            lst = [Seg(Plain(n), lambda i: S("x", i))]
            u.e.freeze(lst)
            return u.e.call(u.e.function(PM + ".fill_list"), [lst, S("fill"), m], {})

        for kind, v in u.run_thunk(thunk):
            if kind == "raise":
                u.check("rejected only if too long", tm.lt(m, n), detail=str(v))
                continue
            u.same_list("padded list", v, [Seg(Plain(n), lambda i: S("x", i)), Seg(Plain(tm.sub(m, n)), lambda i: S("fill"))])
        break


UNITS = {
    "C13": [
        ("process_model.get_dimensions", c13_dimensions),
        ("process_model._get_labels", c13_labels),
        ("process_model._process_estimation_options", c13_options),
        ("process_model._process_anchoring", c13_anchoring),
        ("process_model.fill_list", c13_fill),
        ("process_model._process_normalizations", c13_normalizations),
    ],
}


# ------------------------------------------------------------------------ C12
class Val(Obj):
    """a value of unknown type: the type tests are uninterpreted; if it is a list (dict) it has the given entries"""

    def __init__(self, term, kind=None, items=None):
        Obj.__init__(self, "value of unknown type")
        self.term, self.holds, self.items = term, kind, items
        self.methods = {"items": lambda e: self.need(e) and DictView(self.items(), "items"), "keys": lambda e: self.need(e) and DictView(self.items(), "keys"), "values": lambda e: self.need(e) and DictView(self.items(), "values")} if kind is dict else {}

    def isinstance_(self, e, ts):
        r = tm.or_(*[B("is_" + t.__name__, self.term) for t in ts])
        d = e.decide(r)
        return r if d is None else d

    def need(self, e=None):
        if self.holds is None:
            raise Unsupported("use of a value of unknown type")
        ar.E().require(B("is_" + self.holds.__name__, self.term), f"the value is a {self.holds.__name__}")
        return True

    def entries(self):
        self.need()
        return self.items()

    def length(self):
        self.need()
        return tm.lift(ar.E().length(self.items()))

    def getitem(self, e, k):
        self.need()
        return e.subscript(self.items(), k)

    def truth(self):
        return self.length()

    def subst(self, m, facts, eng):
        return Val(tm.subst(self.term, m), self.holds, self.items and (lambda: subst_value(self.items(), m, (), None)))


class CheckedModel(ModelDict):
    def meas(self, l, t):
        return Val(S("msub", l, t), list, lambda: [Seg(Plain(I("nm", l, t)), lambda j: Val(S("ms", l, t, j)))])

    def build(self):
        def norms(l):
            return {maybe(k, B("has_" + k, l), lambda k=k: self.normval(k, l)): None for k in ("loadings", "intercepts")}

        def factor(l):
            return {
                "measurements": Val(S("mlist", l), list, lambda: [Seg(Plain(I("mp", l)), lambda t: self.meas(l, t))]),
                maybe("normalizations", B("has_norm", l), lambda: norms(l)): None,
            }

        return {"factors": {DSeg(Plain(self.L), lat, factor): None}}

    def __init__(self, u):
        ModelDict.__init__(self, u)
        self.meas = lambda l, t: CheckedModel.meas(self, l, t)

    def normval(self, k, l):
        n = I("nn_" + k, l)
        return Val(S("nlist_" + k, l), list, lambda: [Seg(Plain(n), lambda t: Val(S("nsub_" + k, l, t), dict, lambda: self.normdict(k, l, t)))])


def report_entries(u, name, report):
    """what the messages of a report mention"""
    e = u.e

    def mentions(x):
        if isinstance(x, str):
            if not x:
                u.fail(name, "empty message")
            return ("set", [])
        if not isinstance(x, tm.T) or x.op != "fstr":
            raise Unsupported(f"message {x!r}")
        ps = [a for a in x.args if isinstance(a, tm.T) and a.op != "str"]
        if not any((isinstance(a, str) and a) or (isinstance(a, tm.T) and a.op == "str" and a.args[0]) for a in x.args):
            raise Unsupported("message without text")
        seen = []
        for p in ps:
            if not any(p is q for q in seen):
                seen.append(p)
        return ("set", seen)

    def symbolic(fn, i):
        """numbers as indices would vanish in the text"""
        back = {}

        def go(y):
            if isinstance(y, tuple):
                return tuple(go(z) for z in y)
            if isinstance(y, tm.T) and tm.is_num(y):
                v = tm.fresh("idx")
                back[v] = y
                return v
            return y

        r = mentions(fn(go(i)))
        return (r[0], [tm.subst(t, back) for t in r[1]]) if back else r

    return [Seg(x.axis, lambda i, x=x: symbolic(x.fn, i)) if isinstance(x, Seg) else mentions(x) for x in e.entries(report)]


def when(cond, what, axis=None):
    return Seg(Dom([Plain(1)], lambda i: cond), lambda i: what)


def c12_stagemap(u):
    n, k, T = u.int("n_stagemap", 0), u.int("n_stages", 0), u.int("n_periods", 2)
    smap, stages = [Seg(Plain(n), lambda t: I("smap", t))], [Seg(Plain(k), lambda s: I("stage_", s))]
    for v in guarded(u, lambda: (CM + "._check_stagemap", [smap, stages, T])):
        e = u.e
        bad = [
            tm.not_(tm.eq(n, tm.sub(T, 1))),
            ar.reduce_exists(Plain(k), lambda s: tm.not_(tm.eq(I("stage_", s), s))),
            ar.reduce_exists(Plain(tm.sub(n, 1)), lambda t: tm.not_(tm.or_(*[tm.eq(tm.sub(I("smap", tm.add(t, 1)), I("smap", t)), x) for x in (0, 1)]))),
        ]
        got = e.length(v)
        u.check("a report exactly if a rule is broken", tm.lift(e.equal(tm.unlift(tm.lt(0, tm.lift(got))), tm.unlift(tm.or_(*bad)))), detail=f"{got!r}")
        u.check("one message per broken rule", tm.eq(tm.lift(got), total([tm.ite(b, tm.num(1), tm.num(0)) for b in bad])))


def c12_anchoring(u):
    A, L = u.int("n_outcomes", 0), u.int("n_latent", 1)
    okey = lambda a: S("okey", a)
    tm.INJECTIVE.add("okey")
    flags = ["anchoring", "free_controls", "free_constant", "free_loadings", "ignore_constant_when_anchoring"]
    outs = Val(S("outcomes"), dict, lambda: {DSeg(Plain(A), okey, lambda a: Val(S("oval", a))): None})
    info = lambda: {"outcomes": outs, "factors": [], **{f: Val(S("flag_" + f)) for f in flags}}
    for v in guarded(u, lambda: (CM + "._check_anchoring", [info(), [Seg(Plain(L), lat)]])):
        e = u.e
        want = []
        for f in flags:
            if not is_true(u, B("is_bool", S("flag_" + f))):
                want.append(("set", []))
        if not is_true(u, B("is_dict", S("outcomes"))):
            want.append(("set", []))
        else:
            isn = lambda a: tm.or_(*[B("is_" + t, S("oval", a[0])) for t in ("str", "int", "tuple")])
            want.append(Seg(Dom([Plain(A)], lambda a: tm.not_(isn(a))), lambda a: ("set", [])))
            lf = lambda a: ar.reduce_exists(Plain(L), lambda l: tm.eq(lat(l), okey(a[0])))
            want.append(Seg(Dom([Plain(A)], lambda a: tm.not_(lf(a))), lambda a: ("set", [okey(a[0])])))
        u.family("one message per broken rule", report_entries(u, "messages", v), want)


def listof(e, l):
    d = lambda: ar.reduce_exists(Plain(I("mp", l)), lambda t: tm.not_(B("is_list", S("msub", l, t))))
    return tm.and_(B("is_list", S("mlist", l)), tm.not_(d()))


def c12_measurements(u):
    d = CheckedModel(u)
    for v in guarded(u, lambda: (CM + "._check_measurements", [d.build(), [Seg(Plain(d.L), lat)]])):
        e = u.e
        ok = lambda l: listof(e, l)
        want = [Seg(Dom([Plain(d.L)], lambda l: tm.not_(ok(l[0]))), lambda l: ("set", [lat(l[0])]))]
        name = lambda l, t, j: tm.or_(*[B("is_" + k, S("ms", l, t, j)) for k in ("str", "int", "tuple")])
        ax = DepAxis(Dom([Plain(d.L)], lambda l: ok(l[0])), lambda l: DepAxis(Plain(I("mp", l[0])), lambda t: Dom([Plain(I("nm", l[0], t))], lambda j: tm.not_(name(l[0], t, j[0])))))
        want.append(Seg(ax, lambda i: ("set", [lat(i[0][0]), i[1][0], S("ms", i[0][0], i[1][0], i[1][1][0])])))
        u.family("one message per invalid measurement list or name", report_entries(u, "messages", v), want)


def c12_normalizations(u):
    d = CheckedModel(u)
    for v in guarded(u, lambda: (CM + "._check_normalizations", [d.build(), [Seg(Plain(d.L), lat)]])):
        e = u.e
        want = []
        for k in ("loadings", "intercepts"):
            given = lambda l, k=k: tm.and_(B("has_norm", l), B("has_" + k, l))
            isl = lambda l, k=k: tm.and_(B("is_list", S("nlist_" + k, l)), tm.not_(ar.reduce_exists(Plain(I("nn_" + k, l)), lambda t: tm.not_(B("is_dict", S("nsub_" + k, l, t))))))
            want.append(Seg(Dom([Plain(d.L)], lambda l, k=k, given=given, isl=isl: tm.and_(given(l[0]), tm.not_(isl(l[0])))), lambda l: ("set", [lat(l[0])])))

            def ax(cond, k=k, given=given, isl=isl):
                return DepAxis(
                    Dom([Plain(d.L)], lambda l: tm.and_(given(l[0]), isl(l[0]))),
                    lambda l: DepAxis(Plain(I("nn_" + k, l[0])), lambda t: Dom([Plain(I("nk_" + k, l[0], t))], lambda j: cond(l[0], t, j[0]))),
                )

            key = lambda l, t, j, k=k: S("nkey_" + k, l, t, j)
            present = lambda l, t, j, key=key: tm.and_(
                tm.lt(t, I("mp", l)), ar.reduce_exists(Plain(I("nm", l, t)), lambda m: tm.eq(S("ms", l, t, m), key(l, t, j)))
            )
            el = lambda i, key=key: ("set", [lat(i[0][0]), i[1][0], key(i[0][0], i[1][0], i[1][1][0])])
            want.append(Seg(ax(lambda l, t, j, present=present: tm.and_(listof(e, l), tm.not_(present(l, t, j)))), el))
            if k == "loadings":
                want.append(Seg(ax(lambda l, t, j: tm.eq(app("nval_loadings", l, t, j), 0)), el))
        u.family("one message per invalid normalization", report_entries(u, "messages", v), want)


def c12_check_model(u):
    """check_model against the contracts of its parts: each returns a list of non-empty messages"""
    from .interp import Native

    ns = {k: u.int("n_" + k, 0) for k in ("stagemap", "anchoring", "measurements", "normalizations")}
    args = {k: S("arg_" + k) for k in ("stagemap", "stages", "n_periods", "latent_factors")}
    calls = []

    def join(e, sep, es):
        n = tm.lift(e.length(es))
        return tm.ite(tm.eq(n, 0), tm.lift(""), tm.fstr(["-", S("joined")]))

    u.hooks["join"] = join

    def thunk():
        e = u.e
        m = e.module(CM)
        model, anch = Obj("model"), Obj("anchoring")
        sig = {
            "stagemap": (args["stagemap"], args["stages"], args["n_periods"]), "anchoring": (anch, args["latent_factors"]),
            "measurements": (model, args["latent_factors"]), "normalizations": (model, args["latent_factors"]),
        }
        del calls[:]
        for k, n in ns.items():
            def stub(e, a, kw, k=k, n=n):
                a = list(a) + list(kw.values())
                if len(a) != len(sig[k]) or any(x is not y for x, y in zip(a, sig[k])):
                    raise tm_code_error(f"_check_{k} is called with other arguments: {a!r}")
                calls.append(k)
                return e.new([Seg(Plain(n), lambda i: S("msg_" + k, i))])

            m.values["_check_" + k] = Native(stub, "_check_" + k)
        labels = {k: args[k] for k in ("stagemap", "stages", "latent_factors")}
        return e.call(e.function(CM + ".check_model"), [model, labels, {"n_periods": args["n_periods"]}, anch], {})

    tot = total(ns.values())
    for kind, v in u.run_thunk(thunk):
        u.check("every rule is checked once", tm.lift(sorted(calls) == sorted(ns)))
        if kind == "raise":
            u.check("rejected with a ValueError", tm.lift(v.etype is ValueError), detail=str(v))
            u.check("rejected only if there is a message", tm.lt(0, tot))
        else:
            u.check("accepted only if there is no message", tm.eq(tot, 0))


def total(xs):
    r = num(0)
    for x in xs:
        r = tm.add(r, x)
    return r


def tm_code_error(t):
    from .arrays import CodeError

    return CodeError(t)


# ------------------------------------------------------------------------ C14
def c14_update_info(u):
    d = ModelDict(u)
    T = u.int("n_periods", 1)
    A = u.int("n_outcomes", 0)
    okey, oval = lambda a: S("okey", a), lambda a: S("oval", a)
    outcome_keys(u)
    u.theory.schemas["mp"] = lambda l: [tm.le(1, I("mp", l)), tm.le(I("mp", l), T)]
    la = [Seg(Plain(d.L), lat)]
    anch = Dom([Plain(d.L)], lambda l: ar.reduce_exists(Plain(A), lambda a: tm.eq(okey(a), lat(l[0]))))
    labels = {"latent_factors": la, "periods": [Seg(Plain(T), lambda t: t)]}
    info = {"factors": [Seg(anch, lambda i: lat(i[0]))], "outcomes": {DSeg(anch, lambda i: lat(i[0]), lambda i: S("outcome", i[0])): None}}
    for v in guarded(u, lambda: (PM + "._get_update_info", [d.build(), {"n_periods": T}, labels, info])):
        e = u.e
        if not isinstance(v, pm.Table):
            raise Unsupported(f"update info {v!r}")
        want = [
            Seg(
                DepAxis(Plain(T), lambda t: Cat([DepAxis(Dom([Plain(d.L)], lambda l, t=t: tm.lt(t, I("mp", l[0]))), lambda l, t=t: DepAxis(Plain(I("nm", l[0], t)), lambda j: Plain(2))), DepAxis(anch, lambda l: Plain(2))])),
                lambda i: write(i[0], *i[1][1:]),
            )
        ]
        from . import seqs

        isfac = lambda x: None if isinstance(x[2], str) and x[2] == "purpose" else x
        purpose = lambda x: x if isinstance(x[2], str) and x[2] == "purpose" else None
        seqs.compare(u, "one row per period and measured variable in order of first mention", v.log, want, lambda x: x[:2], True, lambda rows: list(dict.fromkeys(x[:2] for x in rows)))
        cells = lambda keep: lambda rows: sorted({x[:3]: x[3] for x in rows if (x[2] == "purpose") == keep}.items(), key=repr)
        seqs.compare(u, "True for exactly the factors that list the variable", v.log, want, isfac, False, cells(False))
        seqs.compare(u, "the purpose of each row", v.log, want, purpose, False, cells(True))
        u.same_list("columns", v.cols, la + ["purpose"])
        u.same_list("index names", list(v.names), ["period", "variable"])
        u.check("missing cells are False", tm.lift(v.fill is not None and v.fill == (False, len(v.log)) and v.fill[0] is False))
        u.family("the factor columns are boolean", v.casts, [Seg(Plain(d.L), lambda l: (lat(l), "bool"))])


def write(t, k, i):
    """writes of one period: measurements of the factors in order, then the anchoring outcomes"""
    if k == 0:
        l, (j, c) = i
        l = l[0]
        row, what = S("ms", l, t, j), "measurement"
    else:
        l, c = i
        l = l[0]
        row, what = ar.E().join_str([S("outcome", l), "_", lat(l)]), "anchoring"
    if tm.is_num(c):
        return (t, row, lat(l), True) if c.args[0] == 0 else (t, row, "purpose", what)
    raise Unsupported("write")


UNITS["C14"] = [("process_model._get_update_info", c14_update_info)]
UNITS["C12"] = [
    ("check_model._check_stagemap", c12_stagemap),
    ("check_model._check_anchoring", c12_anchoring),
    ("check_model._check_measurements", c12_measurements),
    ("check_model._check_normalizations", c12_normalizations),
    ("check_model.check_model", c12_check_model),
]
