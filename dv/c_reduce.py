"""Contracts of utilities.py (C21)."""
from . import arrays as ar
from . import pdmodel as pm
from . import terms as tm
from .arrays import Cat, Comp, Dom, Plain, Unsupported
from .c_model import B, I, ModelDict, S, cases, guarded, is_true, largest, outcome_keys, same_items
from .c_spec import lat
from .arrays import CodeError
from .interp import DepAxis, DictView, DSeg, Obj, PyRaise, Seg, maybe
from .terms import app, num

UT = "skillmodels.utilities"
TYPES = ("loadings", "intercepts")


class Spec(ModelDict):
    """an arbitrary model specification with all optional parts"""

    def __init__(self, u):
        ModelDict.__init__(self, u)
        self.A = u.int("n_outcomes", 0)
        outcome_keys(u)
        self.okey, self.oval = lambda a: S("okey", a), lambda a: S("oval", a)

    def build(self):
        return ModelDict.build(
            self,
            {
                maybe("anchoring", B("has_anchoring"), lambda: {"outcomes": {DSeg(Plain(self.A), self.okey, self.oval): None}, "free_loadings": B("opt_free_loadings")}): None,
                maybe("estimation_options", B("has_options"), lambda: {"n_mixtures": I("nmix")}): None,
            },
        )


class Want:
    """the specification that is expected, by parts; the defaults are the parts of the model"""

    def __init__(self, d):
        self.d = d
        self.factors = Plain(d.L)
        self.n_meas = lambda l: I("mp", l)
        self.n_norm = lambda typ, l: I("nn_" + typ, l)
        self.keep_meas = self.keep_norm = None
        self.keep_out = None
        self.keep_ctl = None
        self.n_stage = I("n_stagemap")
        self.tname = lambda l: S("tname", l)
        self.lemmas = lambda l: []
        self.atoms = lambda l: []

    def meas(self, l, t):
        if self.keep_meas is None:
            return self.d.meas(l, t)
        ax = Dom([Plain(I("nm", l, t))], lambda j: self.keep_meas(S("ms", l, t, j[0])))
        return [Seg(ax, lambda j: S("ms", l, t, j[0]))]

    def norm(self, typ, l, t):
        if self.keep_norm is None:
            return [Seg(Plain(I("nk_" + typ, l, t)), lambda j: (S("nkey_" + typ, l, t, j), app("nval_" + typ, l, t, j)))]
        ax = Dom([Plain(I("nk_" + typ, l, t))], lambda j: self.keep_norm(S("nkey_" + typ, l, t, j[0])))
        return [Seg(ax, lambda j: (S("nkey_" + typ, l, t, j[0]), app("nval_" + typ, l, t, j[0])))]


def compare(u, name, w, call, parts=None):
    """two executions: the case distinctions of the one are not made in the other"""
    for part in parts or (factor_part, same_spec):
        for v in guarded(u, call):
            part(u, name, v, w() if callable(w) else w)


def keys_of(e, v):
    """keys of a dict; conditional entries by case distinction"""
    out = []
    for k in v:
        if isinstance(k, DSeg):
            from .interp import conditional

            g = conditional(k)
            if g is None:
                raise Unsupported("symbolic entries of a dict")
            if is_true(e.unit, g):
                out.append(k.key((num(0),)))
        else:
            out.append(k)
    return out


def same_spec(u, name, got, w):
    """the result is exactly the wanted specification: everything but the factors"""
    e, d = u.e, w.d
    e.unit = u
    if not isinstance(got, dict):
        u.fail(name, f"{got!r}")
        return
    ks = keys_of(e, got)
    has = lambda n: is_true(u, B(n))
    want = ["factors"] + [k for k, n in (("observed_factors", "has_observed"), ("controls", "has_controls"), ("stagemap", "has_stagemap"), ("anchoring", "has_anchoring"), ("estimation_options", "has_options")) if has(n)]
    if w.keep_ctl is not None and "controls" in want:
        ax = Dom([Plain(d.C)], lambda c: w.keep_ctl(S("ctl", c[0])))
        if not is_true(u, ar.reduce_exists(Plain(d.C), lambda c: w.keep_ctl(S("ctl", c)))):
            want.remove("controls")
    else:
        ax = Plain(d.C)
    if w.keep_out is not None and "anchoring" in want:
        aa = Dom([Plain(d.A)], lambda a: w.keep_out(d.okey(a[0])))
        if not is_true(u, ar.reduce_exists(Plain(d.A), lambda a: w.keep_out(d.okey(a)))):
            want.remove("anchoring")
    else:
        aa = Plain(d.A)
    if sorted(map(str, ks)) != sorted(want):
        u.fail(f"{name}: entries of the specification", f"{ks} instead of {want}")
        return
    u.ok(f"{name}: entries of the specification")
    one = lambda i: i[0] if isinstance(i, tuple) else i
    if "observed_factors" in want:
        u.same_list(f"{name}: observed factors", e.dict_item(got, "observed_factors"), [Seg(Plain(d.O), lambda o: S("obs", o))])
    if "controls" in want:
        u.same_list(f"{name}: controls", e.dict_item(got, "controls"), [Seg(ax, lambda c: S("ctl", one(c)))])
    if "stagemap" in want:
        u.same_list(f"{name}: stagemap", e.dict_item(got, "stagemap"), [Seg(Plain(w.n_stage), lambda t: I("stage", t))])
    if "estimation_options" in want:
        o = e.dict_item(got, "estimation_options")
        if keys_of(e, o) != ["n_mixtures"]:
            u.fail(f"{name}: estimation options", f"{o!r}")
        else:
            u.check(f"{name}: estimation options", tm.lift(e.equal(o["n_mixtures"], I("nmix"))))
    if "anchoring" in want:
        o = e.dict_item(got, "anchoring")
        if sorted(keys_of(e, o)) != ["free_loadings", "outcomes"]:
            u.fail(f"{name}: anchoring", f"{o!r}")
        else:
            u.check(f"{name}: anchoring", tm.lift(e.equal(o["free_loadings"], B("opt_free_loadings"))))
            u.same_list(f"{name}: outcomes", e.entries(DictView(o["outcomes"], "items")), [Seg(aa, lambda a: (d.okey(one(a)), d.oval(one(a))))])


def factor_part(u, name, got, w):
    """the result is exactly the wanted specification: its factors"""
    e, d = u.e, w.d
    e.unit = u
    if not isinstance(got, dict):
        u.fail(name, f"{got!r}")
        return
    one = lambda i: i[0] if isinstance(i, tuple) else i
    u.same_list(f"{name}: factors", e.entries(DictView(e.dict_item(got, "factors"), "keys")), [Seg(w.factors, lambda l: lat(one(l)))])
    (i, fs), = w.factors.generic("l")
    l = one(i)
    hn, hl, hi = B("has_norm", l), B("has_loadings", l), B("has_intercepts", l)
    with e.assuming(fs):
        fs = list(fs) + w.lemmas(l)
    for case in cases(e, fs, [hn, hl, hi] + w.atoms(l)):
        if tm.not_(hn) in case and (hl in case or hi in case):
            continue
        with e.assuming(fs + case):
            x = e.dict_lookup(e.dict_item(got, "factors"), lat(l))[0]
            given = is_true(u, hn)
            if sorted(keys_of(e, x)) != sorted(["measurements", "transition_function"] + ["normalizations"] * given):
                u.fail(f"{name}: entries of a factor", f"{list(x)}")
                continue
            u.check(f"{name}: transition function", tm.lift(e.equal(e.dict_item(x, "transition_function"), w.tname(l))))
            periods(u, f"{name}: measurements", e.dict_item(x, "measurements"), w.n_meas(l), lambda t: w.meas(l, t), lambda y: y)
            if given:
                y = e.dict_item(x, "normalizations")
                there = [typ for typ, h in zip(TYPES, (hl, hi)) if is_true(u, h)]
                if sorted(keys_of(e, y)) != sorted(there):
                    u.fail(f"{name}: kinds of normalizations", f"{list(y)}")
                    continue
                for typ in there:
                    periods(u, f"{name}: {typ}", e.dict_item(y, typ), w.n_norm(typ, l), lambda t: w.norm(typ, l, t), lambda z: e.entries(DictView(z, "items")))


def periods(u, name, got, n, want, entries):
    """got is a list of n lists or dicts"""
    e = u.e
    u.check(f"{name}: number of periods", tm.eq(tm.lift(e.length(got)), n))
    if u.obls[f"{name}: number of periods"].status == "FAILED":
        return
    t = tm.fresh("t")
    with e.assuming([tm.le(0, t), tm.lt(t, n)]):
        if e.ctx.prove(tm.FALSE):
            return
        y = e.subscript(got, t)
        u.same_list(name, entries(y), want(t))


def c21_switch(u):
    for fn, old, new in (("switch_translog_to_linear", "translog", "linear"), ("switch_linear_to_translog", "linear", "translog")):
        d = Spec(u)
        w = Want(d)
        w.tname = lambda l: tm.ite(tm.eq(S("tname", l), old), tm.lift(new), S("tname", l))
        w.atoms = lambda l: [tm.eq(S("tname", l), old)]
        compare(u, fn, w, lambda: (f"{UT}.{fn}", [d.build()]))


def removed(u, name, kinds=("a name", "a list")):
    """the removed items: one name or a list of names; (argument, predicate) per case"""
    R = u.int("n_removed", 0)
    u.theory.interp[name] = lambda m, a: m.value(("lat", "okey", "ms", "ctl")[m.seed % 4], (a[0],) if m.seed % 4 not in (2,) else (0, 0, a[0]), "S") if a else m.value("lat", (0,), "S")
    out = [
        ("a name", lambda: S(name), lambda x: tm.eq(x, S(name))),
        ("a list", lambda: [Seg(Plain(R), lambda r: S(name, r))], lambda x: ar.reduce_exists(Plain(R), lambda r: tm.eq(x, S(name, r)))),
    ]
    return [x for x in out if x[0] in kinds]


def c21_remove_measurements(u):
    u.hooks["dict_equal"] = same_items
    for case, arg, isin in removed(u, "gone"):
        d = Spec(u)
        w = Want(d)
        w.keep_meas = w.keep_norm = lambda m: tm.not_(isin(m))
        compare(u, f"remove_measurements({case})", w, lambda: (f"{UT}.remove_measurements", [arg(), d.build()]))


def c21_remove_controls(u):
    u.assume(B("has_controls"))
    for case, arg, isin in removed(u, "gone"):
        d = Spec(u)
        w = Want(d)
        w.keep_ctl = lambda m: tm.not_(isin(m))
        compare(u, f"remove_controls({case})", w, lambda: (f"{UT}.remove_controls", [arg(), d.build()]))


def c21_reduce_n_periods(u):
    d = Spec(u)
    N = u.int("new_n_periods", 1)
    w = cut(d, N)
    compare(u, "reduce_n_periods", w, lambda: (f"{UT}.reduce_n_periods", [d.build(), N]))


def cut(d, N):
    """everything after period N is removed"""
    least = lambda x, n: tm.ite(tm.lt(n, x), n, x)
    w = Want(d)
    w.n_meas = lambda l: least(I("mp", l), N)
    w.n_norm = lambda typ, l: least(I("nn_" + typ, l), N)
    w.n_stage = least(I("n_stagemap"), tm.sub(N, 1))
    w.atoms = lambda l: [tm.lt(N, I("mp", l)), tm.lt(N, I("nn_loadings", l)), tm.lt(N, I("nn_intercepts", l))]
    return w


def at_least_one(e, es, name):
    """max of positive numbers, not of an empty list: at least 1"""
    r = largest(e, es, name)
    full = r.args[0]
    if full not in e.theory.schemas:
        ok = e.ctx.prove(e.nonempty(es))
        for x in es:
            if isinstance(x, Seg):
                for i, fs in x.axis.generic("g"):
                    with e.assuming(fs):
                        ok = ok and e.ctx.prove(tm.le(1, tm.lift(x.fn(i))))
            else:
                ok = ok and e.ctx.prove(tm.le(1, tm.lift(x)))
        if ok:
            e.theory.schemas[full] = lambda *a: [tm.le(1, app(full, *a, sort="I"))]
    return r


def dimensions(e, args, kw):
    """contract of get_dimensions (proved under C13): the longest list of measurements gives n_periods"""
    (d,) = args or kw.values()
    es = []
    for x in e.entries(DictView(e.dict_item(d, "factors"), "values")):
        n = lambda y: e.length(e.dict_item(y, "measurements"))
        es.append(Seg(x.axis, lambda i, x=x: n(x.fn(i))) if isinstance(x, Seg) else n(x))

    def item(e, k):
        if k != "n_periods":
            raise Unsupported(f"dimension {k}")
        return at_least_one(e, es, "max")

    return Obj("dimensions", getitem=item)


def factor_selection(fn, kind, part):
    """remove_factors or extract_factors; part: what is compared"""

    def unit(u):
        u.hooks["minmax"] = at_least_one
        u.stubs["skillmodels.process_model.get_dimensions"] = dimensions
        for case, arg, isin in removed(u, "selected", (kind,)):
            d = Spec(u)
            goes = isin if fn == "remove_factors" else lambda x: tm.not_(isin(x))
            left = Dom([Plain(d.L)], lambda l: tm.not_(goes(lat(l[0]))))
            u.engine()
            u.assume(ar.reduce_exists(left, lambda l: tm.TRUE))
            if fn == "remove_factors":
                out_goes = goes
            else:
                out_goes = lambda o: ar.reduce_exists(Dom([Plain(d.L)], lambda l: goes(lat(l[0]))), lambda l: tm.eq(lat(l[0]), o))

            def want():
                N = largest(u.e, [Seg(left, lambda l: I("mp", l[0]))], "max")
                w = cut(d, N)
                w.factors = left
                w.keep_out = lambda o: tm.not_(out_goes(o))
                w.n_meas = lambda l: I("mp", l)
                w.lemmas = lambda l: [tm.le(I("mp", l), N)]
                return w

            call = lambda: (f"{UT}.{fn}", [arg(), d.build()])
            if part == "params":
                with_params(u, f"{fn}({case}) with params", want, call, "reduce", (factor_part, rows))
            else:
                compare(u, f"{fn}({case})", want, call, (part,))

    return unit


# ------------------------------------------------------------------ parameters
class Params(Obj):
    """a params DataFrame: (value is nan, value) per row label r, for a set of rows (assumed contract of pandas)"""

    def __init__(self, name, rows, has, cells, where=None):
        self.kind = "DataFrame"
        self.name, self.rows, self.has, self.cells = name, rows, has, dict(cells)
        self.where = where or {}
        self.owned = True
        self.methods = {"copy": lambda e, deep=True: self.copied(e, deep), "reindex": self.reindex}

    def get_attr(self, e, name):
        from .lib import NOATTR

        return Obj("loc", getitem=self.select) if name == "loc" else NOATTR

    def freeze(self, e):
        self.owned = False

    def isinstance_(self, e, ts):
        import pandas as pd

        return pd.DataFrame in ts

    def copied(self, e, deep):
        if deep is not True:
            raise Unsupported("shallow copy of a table")
        return Params(self.name, self.rows, self.has, self.cells, self.where)

    copy = copied

    def reindex(self, e, index=None):
        if not isinstance(index, RowLabels):
            raise Unsupported("reindex")
        new = {c: (lambda r, f=f: (tm.or_(tm.not_(self.has(r)), f(r)[0]), f(r)[1])) for c, f in self.cells.items()}
        return Params(self.name, index, None, new, self.where)

    def select(self, e, k):
        if not isinstance(k, RowLabels):
            raise Unsupported("selection of rows")
        return Params(self.name, k, None, self.cells, self.where)

    def contains(self, e, c):
        if not isinstance(c, str):
            raise Unsupported("column label")
        if c in self.where:
            return e.branch(self.where[c])
        return c in self.cells

    def getitem(self, e, c):
        if not isinstance(c, str):
            raise Unsupported("selection of columns")
        if not self.contains(e, c):
            raise PyRaise(KeyError, (c,))
        return Column(self, c)

    def setitem(self, e, c, v):
        if not self.owned:
            raise CodeError("an object of the caller is modified")
        if e.frames or not isinstance(v, Column) or v.table.rows is not self.rows or c not in self.cells:
            raise Unsupported("assignment of a column")
        self.cells[c] = v.cell


class Column(Obj):
    def __init__(self, table, c, cell=None):
        self.kind = "Series"
        self.table, self.c = table, c
        self.cell = cell or table.cells[c]
        self.view = cell is None
        self.methods = {"fillna": self.fillna, "update": self.update}

    def fillna(self, e, value):
        x = tm.lift(value)
        f = self.cell
        return Column(self.table, self.c, lambda r: (tm.FALSE, tm.ite(f(r)[0], x, f(r)[1])))

    def update(self, e, other):
        """in place; the column is a view of its table (pandas < 3 without copy on write)"""
        if not isinstance(other, Column) or other.table.has is None or not self.view:
            raise Unsupported("update of a column")
        if not self.table.owned:
            raise CodeError("an object of the caller is modified")
        if e.frames:
            raise Unsupported("update in a symbolic loop")
        f, g, has = self.table.cells[self.c], other.cell, other.table.has

        def cell(r):
            use = tm.and_(has(r), tm.not_(g(r)[0]))
            return (tm.and_(tm.not_(use), f(r)[0]), tm.ite(use, g(r)[1], f(r)[1]))

        self.table.cells[self.c] = cell


class RowLabels(Obj):
    """the parameter index of a model specification"""

    def __init__(self, of):
        self.kind, self.of = "index", of


def table(name, bounds=True):
    cell = lambda c: lambda r: (B(f"{name}_{c}_nan", r), app(f"{name}_{c}", r))
    cols = ["value"] + (["lower_bound", "upper_bound"] if bounds else [])
    where = {c: B(f"{name}_has_{c}") for c in cols[1:]}
    return Params(name, Obj("rows"), lambda r: B(f"{name}_row", r), {c: cell(c) for c in cols}, where)


def shape(x):
    """the present state of a value, by identity of its parts"""
    if isinstance(x, dict):
        return ("dict", id(x), tuple((shape(k), shape(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, id(x), tuple(shape(y) for y in x))
    if isinstance(x, (DSeg, Seg)):
        return ("seg", id(x), id(x.axis), tuple(sorted((k, id(v)) for k, v in vars(x).items() if callable(v))))
    return x if isinstance(x, (str, int, bool, float)) else id(x)


PARTS = ("update_info", "labels", "dimensions", "transition_info")


def index_stubs(u):
    """contracts of process_model and get_params_index: the index belongs to the specification"""
    from .lib import deep

    def processed(e, args, kw):
        (d,) = args or kw.values()
        snap = (d, deep(e, d), shape(d))

        def item(e, k):
            return Obj("part", part=k, of=snap)

        return Obj("model", getitem=item)

    def index(e, args, kw):
        kw = dict(zip(PARTS, args), **kw)
        if sorted(kw) != sorted(PARTS) or any(getattr(kw[k], "part", None) != k for k in PARTS) or len({id(kw[k].of) for k in PARTS}) != 1:
            raise CodeError("get_params_index is not called with the parts of one processed model")
        return RowLabels(kw["labels"].of)

    u.stubs["skillmodels.process_model.process_model"] = processed
    u.stubs["skillmodels.params_index.get_params_index"] = index


def with_params(u, name, w, call, kind, parts=None):
    """the result with a params table: the specification, and the rows of the table that belong to it"""
    e = u.engine()
    index_stubs(u)

    def make():
        f, args = call()
        return f, args + [table("params")]

    for part in parts or (factor_part, same_spec, rows):
        for v in guarded(u, make):
            want = w() if callable(w) else w
            if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], Params) and isinstance(v[1].rows, RowLabels)):
                u.fail(f"{name}: a specification and a table", f"{v!r}")
                continue
            u.ok(f"{name}: a specification and a table")
            if part is rows:
                rows(u, name, v[1], kind)
                continue
            # the index was computed from the same specification
            d, copy, was = v[1].rows.of
            same = v[0] is d and shape(d) == was
            part(u, name, v[0], want)
            if same:
                u.ok(f"{name}: model of the index: the one that is returned")
            else:
                part(u, f"{name}: model of the index", copy, want)


def rows(u, name, got, kind):
    p = table("params")
    r = tm.fresh("r")
    u.e.ctx = u.e.ctx.extend(tm.le(0, r))
    if kind == "reduce":
        u.e.ctx = u.e.ctx.extend(p.has(r))
    for c, fill in (("value", tm.lift(0.05)), ("lower_bound", tm.lift(float("-inf"))), ("upper_bound", tm.lift(float("inf")))):
        if c in p.where:
            if not is_true(u, p.where[c]):
                continue
        n, x = p.cells[c](r)
        if kind == "extend":
            gone = tm.or_(tm.not_(p.has(r)), n)
            n, x = tm.FALSE, tm.ite(gone, fill, x)
        gn, gx = got.cells[c](r)
        u.check(f"{name}: {c} of a row", tm.and_(tm.eq(gn, n), tm.implies(tm.not_(n), tm.eq(gx, x))))


def c21_update(u):
    for k in range(4):
        for alone in (True, False)[: 2 if k == 1 else 1] if k == 1 else (False,):
            name = "update_parameter_values" + (": one table" if alone else ": list of tables")
            if not alone:
                u.bounded(name)

            def make():
                others = [table(f"other{j}", False) for j in range(k)]
                return UT + ".update_parameter_values", [table("params"), others[0] if alone else others]

            for v in guarded(u, make):
                if not isinstance(v, Params):
                    u.fail(f"{name}: a table", f"{v!r}")
                    continue
                p = table("params")
                u.check(f"{name}: same rows", tm.lift(v.has is not None and v.name == "params"))
                r = tm.fresh("r")
                n, x = p.cells["value"](r)
                for j in range(k):
                    o = table(f"other{j}", False)
                    gn, gx = o.cells["value"](r)
                    use = tm.and_(o.has(r), tm.not_(gn))
                    n, x = tm.and_(tm.not_(use), n), tm.ite(use, gx, x)
                gn, gx = v.cells["value"](r)
                u.check(f"{name}: value", tm.and_(tm.eq(gn, n), tm.implies(tm.not_(n), tm.eq(gx, x))))
                for c in ("lower_bound", "upper_bound"):
                    u.check(f"{name}: {c}", tm.and_(tm.eq(v.cells[c](r)[0], p.cells[c](r)[0]), tm.eq(v.cells[c](r)[1], p.cells[c](r)[1])))


def c21_params_measurements(u):
    u.hooks["dict_equal"] = same_items
    for case, arg, isin in removed(u, "gone", ("a list",)):
        d = Spec(u)
        w = Want(d)
        w.keep_meas = w.keep_norm = lambda m: tm.not_(isin(m))
        with_params(u, "remove_measurements with params", w, lambda: (f"{UT}.remove_measurements", [arg(), d.build()]), "reduce")


def c21_params_controls(u):
    u.assume(B("has_controls"))
    for case, arg, isin in removed(u, "gone", ("a list",)):
        d = Spec(u)
        w = Want(d)
        w.keep_ctl = lambda m: tm.not_(isin(m))
        with_params(u, "remove_controls with params", w, lambda: (f"{UT}.remove_controls", [arg(), d.build()]), "reduce")


def c21_params_periods(u):
    d = Spec(u)
    N = u.int("new_n_periods", 1)
    with_params(u, "reduce_n_periods with params", cut(d, N), lambda: (f"{UT}.reduce_n_periods", [d.build(), N]), "extend")


def c21_params_switch(u):
    for fn, old, new in (("switch_translog_to_linear", "translog", "linear"), ("switch_linear_to_translog", "linear", "translog")):
        d = Spec(u)
        w = Want(d)
        w.tname = lambda l: tm.ite(tm.eq(S("tname", l), old), tm.lift(new), S("tname", l))
        w.atoms = lambda l: [tm.eq(S("tname", l), old)]
        with_params(u, f"{fn} with params", w, lambda: (f"{UT}.{fn}", [d.build()]), "reduce" if fn == "switch_translog_to_linear" else "extend")


UNITS = {
    "C21": [
        (f"utilities.{fn} {kind} {name}", factor_selection(fn, kind, part))
        for name, part in (("other entries", same_spec), ("factors", factor_part), ("with params", "params"))
        for fn in ("remove_factors", "extract_factors")
        for kind in (("a name", "a list") if part != "params" else ("a list",))
    ]
    + [
        ("utilities.reduce_n_periods with params", c21_params_periods),
        ("utilities.remove_measurements", c21_remove_measurements),
        ("utilities.remove_measurements with params", c21_params_measurements),
        ("utilities.reduce_n_periods", c21_reduce_n_periods),
        ("utilities.remove_controls", c21_remove_controls),
        ("utilities.remove_controls with params", c21_params_controls),
        ("utilities.switch_*", c21_switch),
        ("utilities.switch_* with params", c21_params_switch),
        ("utilities.update_parameter_values", c21_update),
    ]
}
