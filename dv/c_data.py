"""Contracts of process_data.py.

The data set is a table with one row per individual and period (the contract of pre_process_data): cell (i, t, c) is
the value of column c, or NaN.  Everything the functions do with it is a selection of rows or columns of that table.
"""
import importlib
import itertools

import numpy as np
import pandas as pd

from . import arrays as ar
from . import frames as fr
from . import lib
from . import pdmodel as pm
from . import terms as tm
from .arrays import Arr, CodeError, Comp, Dom, Plain, Unsupported
from .c_debug import each, wired
from .c_filter import arr
from .c_likelihood import bound, lat, token
from .interp import DSeg, Obj, PyRaise, Seg, list_axis
from .lib import CLSATTR, NOATTR, reg
from .terms import T, app, num

PR = "skillmodels.process_data"
PM = "skillmodels.process_model"


class Rows:
    """rows of a table: axis and the (individual, period) of a row"""

    def __init__(self, axis, to, where=None):
        self.axis, self.to = axis, to
        self.where = where or (lambda i, t: tm.TRUE)

    def __call__(self, r):
        return self.to(r)


class RowSet(Obj):
    """a set of rows, given by a condition on (individual, period)"""

    def __init__(self, d, pred):
        self.kind = "row labels"
        self.d, self.pred = d, pred
        self.methods = {
            "union": lambda e, o, **k: RowSet(d, lambda i, t: tm.or_(pred(i, t), o.pred(i, t))),
            "append": lambda e, o: RowSet(d, lambda i, t: tm.or_(pred(i, t), o.pred(i, t))),
            "intersection": lambda e, o, **k: RowSet(d, lambda i, t: tm.and_(pred(i, t), o.pred(i, t))),
        }

    def some(self):
        return ar.reduce_exists(Comp([Plain(self.d.N), Plain(self.d.T)]), lambda x: self.pred(*x))

    def length(self):
        # only whether it is empty is determined
        return tm.add(1, app("more_rows", sort="I")) if ar.E().branch(self.some()) else num(0)

    def get_attr(self, e, name):
        if name == "empty":
            return e.truth(tm.not_(self.some()))
        return NOATTR

    def getitem(self, e, k):
        if isinstance(k, ar.Slice) and k.stop == 0 and k.start in (None, 0):
            return RowSet(self.d, lambda i, t: tm.FALSE)
        raise Unsupported("row labels")


class PanelIndex(RowSet):
    def __init__(self, p):
        super().__init__(p.d, p.rows.where)
        self.p = p
        self.methods["get_level_values"] = self.level

    def level(self, e, lev):
        k = {"id": 0, "period": 1, 0: 0, 1: 1, -1: 1}.get(lev)
        if k is None:
            raise PyRaise(KeyError, (lev,))
        r = self.p.rows
        return pm.Series(self.p.ix, lambda x: r(x)[k], None, "I")

    def length(self):
        return self.p.rows.axis.size()


class Panel(Obj):
    changed = False
    """selected rows and all columns of the data; over: columns that were added or replaced"""

    def __init__(self, d, rows, cell=None, over=(), ix=None):
        self.kind = "panel"
        self.d, self.rows, self.over = d, rows, list(over)
        self.cell = cell or d.cell
        self.ix = ix or pm.Index([Seg(rows.axis, lambda x: rows(x))], ["id", "period"])
        self.methods = {"copy": lambda e, deep=True: e.new(Panel(d, self.rows, self.cell, self.over, self.ix)), "query": self.query, "xs": self.xs, "assign": self.assign, "dropna": None}
        del self.methods["dropna"]

    def length(self):
        return self.rows.axis.size()

    def get_attr(self, e, name):
        if name == "index":
            return PanelIndex(self)
        if name == "columns":
            return Columns(self)
        if name == "loc":
            return PanelLoc(self)
        return NOATTR

    # ------------------------------------------------------------ rows
    def filter(self, e, cond):
        """rows with cond(i, t)"""
        rows = self.rows
        # a period: rows (i, t) for all i
        t = self.one_period(e, cond)
        if t is not None and rows is self.d.all_rows:
            new = Rows(Plain(self.d.N), lambda i: (i, t), lambda i, s: tm.eq(s, t))
        else:
            new = Rows(Dom([rows.axis], lambda x: cond(*rows(x[0]))), lambda x: rows(x[0]), lambda i, s: tm.and_(rows.where(i, s), cond(i, s)))
        return e.new(Panel(self.d, new, self.cell, self.over))

    def one_period(self, e, cond):
        i, s = tm.var("i?", "I"), tm.var("s?", "I")
        c = cond(i, s)
        for t in candidates(c, s):
            if tm.eq(s, t) is c and not mentions(t, (i, s)) and e.ctx.prove(tm.and_(tm.le(0, t), tm.lt(t, self.d.T))):
                return t
        return None

    def query(self, e, text):
        tree, holes = pm.parse_query(text)
        look = lambda i, s: lambda n: {"id": i, "period": s}[n] if n in ("id", "period") else unsupported("query name")
        return self.filter(e, lambda i, s: pm.eval_query(e, tree, holes, look(i, s)))

    def xs(self, e, key, axis=0, level=None, drop_level=True):
        if axis != 0 or level not in ("period", 1, -1):
            raise Unsupported("xs")
        return self.filter(e, lambda i, s: tm.eq(s, tm.lift(key)))

    # ------------------------------------------------------------ columns
    def column(self, e, c):
        """(i, t) -> (value, nan) of the column, or None if there is none"""
        c = tm.lift(c)
        for label, axis, fn in reversed(self.over):
            if axis is None:
                r = e.decide(tm.lift(e.equal(label(None), c)))
                if r is True:
                    return lambda i, t: fn(i, t, None)
                if r is None:
                    raise Unsupported("undetermined column label")
            else:
                for g, fs in axis.generic("q"):
                    with e.assuming(fs):
                        if e.decide(tm.lift(e.equal(label(g), c))) is not False:
                            raise Unsupported("undetermined column label")
        if not e.branch(self.d.has(c)):
            return None
        return lambda i, t: self.cell(i, t, c)

    def getitem(self, e, k):
        h = e.hooks.get("sheet")
        if h is not None and isinstance(k, (str, T, list)):
            return h(e, self, k)
        if isinstance(k, (str, T)):
            f = self.column(e, k)
            if f is None:
                raise PyRaise(KeyError, (k,))
            rows = self.rows
            s = pm.Series(self.ix, lambda x: f(*rows(x))[0], lambda x: f(*rows(x))[1])
            s.methods["dropna"] = lambda e: Distinct(self, k)
            s.column = (self, k)
            s.methods["isnull"] = s.methods["isna"] = lambda e: Nulls(self.ix, s, False)
            s.methods["notnull"] = s.methods["notna"] = lambda e: Nulls(self.ix, s, True)
            return s
        if isinstance(k, pm.Series) and k.sort == "B" and ar.same_axis(k.index.axis, self.rows.axis):
            rows = self.rows
            if rows is self.d.all_rows:
                return self.filter(e, lambda i, t: tm.lift(k.val((i, t))))
            to = Rows(Dom([rows.axis], lambda x: tm.lift(k.val(x[0]))), lambda x: rows(x[0]), self.where_of(e, k))
            return e.new(Panel(self.d, to, self.cell, self.over))
        if isinstance(k, (list, tuple)):
            return Cells(self, e.entries(k), e)
        raise Unsupported("selection from a panel")

    def where_of(self, e, k):
        """condition on (i, t) of the rows where the Boolean series is true"""
        rows = self.rows
        if rows.axis is self.d.all_rows.axis:
            return lambda i, t: tm.lift(k.val((i, t)))
        if isinstance(rows.axis, Plain):
            return lambda i, t: tm.and_(rows.where(i, t), tm.lift(k.val(i)))
        raise Unsupported("rows of a selection")

    def setitem(self, e, k, v):
        if self.rows is not self.d.all_rows:
            raise Unsupported("assignment to selected rows")
        e.mutate(self, "column", (tm.lift(k), self.new_column(e, v)))

    def new_column(self, e, v):
        if isinstance(v, pm.Series) and ar.same_axis(v.index.axis, self.rows.axis):
            n = v.nan or (lambda x: tm.FALSE)
            return lambda i, t: (v.val((i, t)), n((i, t)))
        if isinstance(v, (int, float, T)) and not isinstance(v, bool):
            return lambda i, t: (tm.lift(v), tm.FALSE)
        raise Unsupported("new column")

    def assign(self, e, **k):
        p = self.methods["copy"](e)
        for n, v in k.items():
            p.setitem(e, n, v)
        return p

    def fresh_label(self, e, k):
        """the assigned column is not one of those of the data, so reading the data before or after is the same"""
        if e.decide(self.d.has(k)) is not False:
            raise Unsupported("a column of the data may be overwritten")

    def apply(self, e, op, payload):
        if op == "column":
            k, f = payload
            self.fresh_label(e, k)
            self.over.append((lambda _: k, None, lambda i, t, _: f(i, t)))
        elif op == "rows":
            self.changed = True
            pred, old = payload, self.cell
            over = [(l, a, (lambda i, t, j, fn=fn: nan_if(pred, i, t, fn(i, t, j)))) for l, a, fn in self.over]
            self.cell, self.over = (lambda i, t, c: nan_if(pred, i, t, old(i, t, c))), over
        else:
            raise Unsupported(op)

    def generalise(self, e, entries, axis, g, facts, conv):
        if e.frames or len(entries) != 1 or entries[0][1] != "column":
            raise Unsupported("columns assigned in a loop")
        cond, _, (k, f), fs = entries[0]
        with e.assuming(list(facts) + [cond]):
            self.fresh_label(e, k)
        gf = ar.flat(g)
        m = lambda j: dict(zip(gf, ar.flat(conv(j))))
        ax = axis
        pick = lambda j: j
        if cond is not tm.TRUE:
            ax = Dom([axis], lambda x: tm.subst(cond, m(x[0])))
            pick = lambda j: j[0]

        def fn(i, t, j):
            v, n = f(i, t)
            return tm.subst(v, m(pick(j))), tm.subst(n, m(pick(j)))

        self.over.append((lambda j: tm.subst(k, m(pick(j))), ax, fn))


def nan_if(pred, i, t, vn):
    return vn[0], tm.or_(pred(i, t), vn[1])


def unsupported(msg):
    raise Unsupported(msg)


def candidates(c, s):
    """terms that an equality in c compares s with"""
    out = []

    def walk(x):
        if isinstance(x, (tuple, list)):
            for b in x:
                walk(b)
        elif isinstance(x, T):
            if x.sort == "I" and x.op in ("app", "var"):
                out.append(x)
            walk(x.args)

    walk(c)
    out += [num(v) for v in range(4)]
    return [x for x in out if x is not s]


def mentions(t, vs):
    return any(tm.subst(t, {v: num(7)}) is not t for v in vs)


class Distinct(Obj):
    """the observed values of a column"""

    def __init__(self, p, c):
        self.kind = "observed values"
        self.p, self.c = p, c
        self.methods = {"unique": lambda e: self, "nunique": lambda e: self.length(), "drop_duplicates": lambda e: self}

    def length(self):
        # number of distinct observed values of the variable in the period
        t = self.p.rows(tm.fresh("i", "I"))[1]
        if not isinstance(self.p.rows.axis, Plain):
            raise Unsupported("distinct values")
        return app("n_distinct", t, tm.lift(self.c), sort="I")


class Nulls(pm.Series):
    """missingness of a column; all() and any() over the rows"""

    def __init__(self, ix, s, neg):
        n = s.nan or (lambda x: tm.FALSE)
        super().__init__(ix, (lambda x: tm.not_(n(x))) if neg else n, None, "B")
        self.methods["all"] = lambda e: ar.scalar(tm.not_(ar.reduce_exists(ix.axis, lambda x: tm.not_(self.val(x)))), None, "B")
        self.methods["any"] = lambda e: ar.scalar(ar.reduce_exists(ix.axis, lambda x: self.val(x)), None, "B")


class Columns(Obj):
    def __init__(self, p):
        self.kind = "columns"
        self.p = p

    def contains(self, e, k):
        p = self.p
        for label, axis, _ in p.over:
            r = e.decide(tm.lift(e.equal(label(None), k))) if axis is None else None
            if r is True:
                return True
            if r is None:
                raise Unsupported("membership of an added column")
        return p.d.has(tm.lift(k))


class Cells(Obj):
    """selected rows and columns"""

    def __init__(self, p, labels, e):
        self.kind = "cells"
        self.p, self.labels = p, labels
        self.ax, self.fn = list_axis(labels)
        for g, fs in self.ax.generic("c"):
            with e.assuming(fs):
                if e.decide(p.d.has(tm.lift(self.fn(g)))) is not True and not p.over:
                    raise Unsupported("a selected column may be missing")
        self.methods = {
            "to_numpy": lambda e, **k: self.array(), "copy": lambda e, deep=True: self,
            "isnull": lambda e: Flags(self, False), "isna": lambda e: Flags(self, False), "notnull": lambda e: Flags(self, True), "notna": lambda e: Flags(self, True),
        }

    def get_attr(self, e, name):
        return self.array() if name == "values" else PanelIndex(self.p) if name == "index" else NOATTR

    def cell(self, r, j):
        f = self.p.column(ar.E(), self.fn(j))
        if f is None:
            raise Unsupported("a selected column may be missing")
        return f(*self.p.rows(r))

    def array(self):
        return Arr([self.p.rows.axis, self.ax], lambda x: self.cell(*x)[0], lambda x: self.cell(*x)[1], "R", "np")


class Flags(Obj):
    """missingness of cells"""

    def __init__(self, cells, neg):
        self.kind = "missingness"
        self.cells, self.neg = cells, neg
        self.methods = {"any": lambda e, axis=0: self.reduce(axis, True), "all": lambda e, axis=0: self.reduce(axis, False)}

    def val(self, r, j):
        n = self.cells.cell(r, j)[1]
        return tm.not_(n) if self.neg else n

    def reduce(self, axis, some):
        if axis not in (1, "columns"):
            raise Unsupported("reduction over rows")
        c = self.cells
        if some:
            f = lambda r: ar.reduce_exists(c.ax, lambda j: self.val(r, j))
        else:
            f = lambda r: tm.not_(ar.reduce_exists(c.ax, lambda j: tm.not_(self.val(r, j))))
        return pm.Series(c.p.ix, f, None, "B")


class PanelLoc(Obj):
    def __init__(self, p):
        self.kind = "loc"
        self.p = p

    def getitem(self, e, k):
        if isinstance(k, RowSet):
            return self.p.filter(e, k.pred)
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], RowSet):
            return self.p.filter(e, k[0].pred).getitem(e, k[1])
        if isinstance(k, pm.Series):
            return self.p.getitem(e, k)
        raise Unsupported("loc")

    def setitem(self, e, k, v):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], ar.Slice) and (k[1].start, k[1].stop, k[1].step) == (None, None, None):
            k = k[0]
        if isinstance(k, pm.Series) and k.sort == "B":
            k = RowSet(self.p.d, self.p.where_of(e, k))
        if not isinstance(k, RowSet) or self.p.rows is not self.p.d.all_rows or not is_nan(v):
            raise Unsupported("assignment to rows")
        e.mutate(self.p, "rows", k.pred)


def is_nan(v):
    if isinstance(v, float):
        return v != v
    if isinstance(v, Arr) and v.ndim == 0:
        return v.el(())[1] is tm.TRUE
    return isinstance(v, T) and v.op == "nan"


class Data:
    """any balanced data set and any update table"""

    def __init__(self, u):
        self.u = u
        self.K, self.N, self.T = u.int("n_updates", 1), u.int("n_obs", 1), u.int("n_periods", 1)
        self.C, self.O, self.A = u.int("n_controls", 1), u.int("n_observed", 0), u.int("n_anchored", 0)
        K, N, T = self.K, self.N, self.T
        per = self.per = lambda k: app("per", k, sort="I")
        self.mvar = lambda k: app("mvar", k, sort="S")
        self.ctr = lambda c: app("ctr", c, sort="S")
        self.obsf = lambda o: app("obsf", o, sort="S")
        self.has = lambda c: app("iscolumn", c, sort="B")
        u.theory.schemas["per"] = lambda k: [tm.le(0, per(k)), tm.lt(per(k), T)]
        self.all_rows = Rows(Comp([Plain(N), Plain(T)]), lambda x: (x[0], x[1]))
        self.index = pm.Index([Seg(Plain(K), lambda k: (per(k), self.mvar(k)))], ["period", "variable"])
        cell = lambda k, c: tm.ite(app("isanch", k, sort="B"), tm.lift("anchoring"), tm.lift("measurement")) if c == "purpose" else app("isload", k, c, sort="B")
        self.update_info = pm.Frame(self.index, [Seg(Plain(u.int("n_latent", 1)), lat), "purpose"], cell, lambda c: "S" if c == "purpose" else "B")
        self.labels = {"periods": [Seg(Plain(T), lambda t: t)], "controls": [Seg(Plain(self.C), self.ctr)], "observed_factors": [Seg(Plain(self.O), self.obsf)]}
        self.facts = []
        u.theory.schemas["more_rows"] = lambda: [tm.le(0, app("more_rows", sort="I"))]

    def columns_exist(self, *kinds):
        """precondition established by _check_data: the variables of these kinds are columns"""
        for k in kinds:
            f = getattr(self, k)
            self.u.theory.schemas[k] = self.add(k, lambda i, f=f: [self.has(f(i))])

    def periods_of(self, u):
        """contract of _get_update_info: rows are ordered by period and every period has one"""
        some = lambda t: app("someupd", t, sort="I")
        u.theory.schemas["someupd"] = lambda t: [tm.implies(tm.and_(tm.le(0, t), tm.lt(t, self.T)), tm.and_(tm.le(0, some(t)), tm.lt(some(t), self.K), tm.eq(self.per(some(t)), t)))]

        def unique(e, lv):
            if lv.index is not self.index or lv.k != 0:
                raise Unsupported("distinct labels")
            return [Seg(Plain(self.T), lambda t: t)]

        u.hooks["unique_level"] = unique

    def add(self, k, new):
        old = self.u.theory.schemas.get(k)
        return new if old is None else (lambda *a: list(old(*a)) + list(new(*a)))

    def cell(self, i, t, c):
        return app("cell", i, t, c), app("cell_nan", i, t, c, sort="B")

    def panel(self):
        return Panel(self, self.all_rows)


def c15_measurements(u):
    d = Data(u)
    d.columns_exist("mvar")
    for v in each(u, PR + "._generate_measurements_array", (d.panel(), d.update_info, d.N)):
        c = lambda k, i: d.cell(i, d.per(k), d.mvar(k))
        want = Arr([Plain(d.K), Plain(d.N)], lambda x: c(*x)[0], lambda x: c(*x)[1])
        u.arr_eq("value of the individual, period and variable of the update", ar.as_arr(v), want)


def c15_by_period(u, fname, kind, n):
    d = Data(u)
    d.columns_exist(kind)
    lab = getattr(d, kind)
    for v in each(u, PR + "." + fname, (d.panel(), d.labels, d.N)):
        c = lambda t, i, j: d.cell(i, t, lab(j))
        want = Arr([Plain(d.T), Plain(d.N), Plain(getattr(d, n))], lambda x: c(*x)[0], lambda x: c(*x)[1])
        u.arr_eq("value of the individual, period and variable", ar.as_arr(v), want)


def c15_copies(u):
    d = Data(u)
    A = d.A
    anch = lambda a: app("anchf", a, sort="S")
    out = lambda a: app("outc", a, sort="S")
    copy = lambda a: tm.fstr([out(a), "_", anch(a)])
    # precondition: the data have no column with the name of a copy
    u.theory.schemas["anchf"] = lambda a: [tm.not_(d.has(copy(a)))]
    info = {"factors": [Seg(Plain(A), anch)], "outcomes": {DSeg(Plain(A), anch, out): None}}
    df = d.panel()
    for v in each(u, PR + "._add_copies_of_anchoring_outcome", (df, info)):
        e = u.e
        if not isinstance(v, Panel) or v.rows is not d.all_rows:
            raise Unsupported("not the rows of the data")
        if v is df or df.over:
            u.fail("data of the caller are not modified", repr(df.over))
            continue
        u.ok("data of the caller are not modified")
        unchanged(u, "columns of the data are unchanged", d, v)
        i, t, q = tm.fresh("i", "I"), tm.fresh("t", "I"), tm.fresh("a", "I")
        fs = [tm.le(0, i), tm.lt(i, d.N), tm.le(0, t), tm.lt(t, d.T), tm.le(0, q), tm.lt(q, A)]
        if len(v.over) != 1 or v.over[0][1] is None:
            u.fail("one copy per anchored factor", f"{len(v.over)} columns")
            continue
        label, ax, fn = v.over[0]
        # labels of the copies, and which factors have one
        base = ax.axes[0] if isinstance(ax, Dom) else ax
        if not isinstance(base, Plain):
            raise Unsupported("columns of the copies")
        u.check("one copy per anchored factor", tm.eq(base.n, A), fs)
        wrap = (lambda x: (x,)) if isinstance(ax, Dom) else (lambda x: x)
        guard = ax.guard((q,)) if isinstance(ax, Dom) else tm.TRUE
        with e.assuming(fs):
            u.check("outcomes that are in the data are copied", tm.implies(d.has(out(q)), guard), fs)
            u.check("outcomes that are not in the data are not copied", tm.implies(guard, d.has(out(q))), fs)
            u.check("name of the copy", tm.lift(e.equal(label(wrap(q)), copy(q))), fs)
            val, nan = fn(i, t, wrap(q))
            w, wn = d.cell(i, t, out(q))
            u.check("value of the copy", tm.and_(tm.eq(nan, wn), tm.implies(tm.not_(wn), tm.eq(val, w))), fs + [guard])


def unchanged(u, name, d, v, but=None):
    """the cells of v are those of the data (NaN where but)"""
    i, t, c = tm.fresh("i", "I"), tm.fresh("t", "I"), app("anycol", tm.fresh("c", "I"), sort="S")
    fs = [tm.le(0, i), tm.lt(i, d.N), tm.le(0, t), tm.lt(t, d.T), d.has(c)]
    val, nan = v.cell(i, t, c)
    w, wn = d.cell(i, t, c)
    wn = wn if but is None else tm.or_(but(i, t), wn)
    u.check(name, tm.and_(tm.eq(nan, wn), tm.implies(tm.not_(wn), tm.eq(val, w))), fs)


class Union:
    """invariant: the rows that were found in the periods before the current one"""

    def __init__(self, u, d, problem, periods):
        self.u, self.d, self.problem, self.periods = u, d, problem, periods

    def at(self, g):
        p = self.periods(g)
        return RowSet(self.d, lambda i, t: tm.and_(tm.lt(t, p), self.problem(i, t)))

    def check(self, e, v, g):
        if not isinstance(v, RowSet):
            raise Unsupported("set of rows")
        d, p = self.d, self.periods(g)
        i, t = tm.fresh("i", "I"), tm.fresh("t", "I")
        fs = [tm.le(0, i), tm.lt(i, d.N), tm.le(0, t), tm.lt(t, d.T)]
        self.u.check("rows with missing controls and an observed measurement", tm.eq(v.pred(i, t), tm.and_(tm.lt(t, tm.add(p, 1)), self.problem(i, t))), fs)

    def after(self):
        d = self.d
        return RowSet(d, lambda i, t: self.problem(i, t))


def period_measurements(u, d):
    """contract of get_period_measurements: the variables of the updates of the period, in order"""

    def stub(e, a, kw):
        b = bound(e, PM + ".get_period_measurements", a, kw)
        if b["update_info"] is not d.update_info:
            u.fail("get_period_measurements is called with the update table", repr(b["update_info"]))
        t = tm.lift(b["period"])
        return e.new([Seg(Dom([Plain(d.K)], lambda k: tm.eq(d.per(k[0]), t)), lambda k: d.mvar(k[0]))])

    u.stubs[PM + ".get_period_measurements"] = stub


# ------------------------------------------------------------------ pre_process_data
class Raw(Obj):
    """any table with an index of two levels (id, period), in any row order, with distinct labels"""

    def __init__(self, index, cols=None, original=True):
        self.kind = "raw panel"
        self.index, self.cols, self.original, self.sorted = index, dict(cols or {}), original, False
        self.methods = {"copy": lambda e, deep=True: e.new(self.new()), "sort_index": self.sort_index, "reindex": self.reindex}

    def new(self, index=None):
        r = Raw(index or self.index, self.cols, False)
        r.sorted = self.sorted
        return r

    def sort_index(self, e, **k):
        # the order of the rows: all later operations align rows by label
        if k.get("inplace"):
            if self.original:
                raise CodeError("the data of the caller are sorted in place")
            return None
        r = e.new(self.new())
        r.sorted = True
        return r

    def get_attr(self, e, name):
        return self.index if name == "index" else NOATTR

    def set_attr(self, e, name, v):
        if name != "index" or not isinstance(v, RawIndex):
            raise Unsupported("attribute of the data")
        if self.original:
            raise CodeError("the index of the caller's data is replaced")
        self.index = v

    def setitem(self, e, k, v):
        if self.original:
            raise CodeError("a column is added to the data of the caller")
        if not isinstance(k, str) or not isinstance(v, RawLevel):
            raise Unsupported("column")
        self.cols[k] = v

    def reindex(self, e, index=None, **k):
        if k or not isinstance(index, Product):
            raise Unsupported("reindex")
        return Reindexed(self, index)


class RawLevel(Obj):
    """labels of the rows: level of the original index, or their codes (rank among the distinct labels if ranked)"""

    def __init__(self, level, code=None):
        self.kind = "level"
        self.level, self.code = level, code
        self.methods = {"unique": lambda e: DistinctCodes(self), "to_numpy": lambda e: self, "to_list": lambda e: self, "tolist": lambda e: self}

    def get_attr(self, e, name):
        return self if name == "values" else NOATTR


class DistinctCodes(Obj):
    def __init__(self, of, ordered=False):
        self.kind = "distinct labels"
        self.of, self.ordered = of, ordered
        self.methods = {"sort_values": lambda e: DistinctCodes(of, True), "tolist": lambda e: self, "to_list": lambda e: self, "to_numpy": lambda e: self}

    def get_attr(self, e, name):
        return self if name == "values" else NOATTR

    def entries(self):
        return [self]


class RawIndex(Obj):
    def __init__(self, levels, names):
        self.kind = "raw index"
        self.levels, self.names = levels, names
        self.methods = {"get_level_values": self.level}

    def level(self, e, k):
        if isinstance(k, int) and -2 <= k < 2:
            return self.levels[k]
        if k in self.names:
            return self.levels[self.names.index(k)]
        raise PyRaise(KeyError, (k,))

    def get_attr(self, e, name):
        return e.new(list(self.names)) if name == "names" else NOATTR


class Product(Obj):
    """all combinations, the last level runs fastest"""

    def __init__(self, levels, names):
        self.kind = "product index"
        self.levels, self.names = levels, names


class Reindexed(Obj):
    def __init__(self, raw, index):
        self.kind = "reindexed"
        self.raw, self.index = raw, index


@reg(pd.factorize)
def _factorize(e, values, sort=False, **k):
    if k or not isinstance(values, RawLevel) or values.code is not None or not isinstance(sort, bool):
        raise Unsupported("factorize")
    return (RawLevel(values.level, "rank" if sort else "order of appearance"), DistinctCodes(values, sort))


def _from_arrays(e, args, kw):
    (arrays, names) = (tuple(args) + (kw.get("arrays"),))[0], kw.get("names")
    xs = e.entries(arrays)
    if len(xs) != 2 or not all(isinstance(x, RawLevel) for x in xs) or names is None:
        raise Unsupported(f"from_arrays {arrays!r} {names!r}")
    return RawIndex(list(xs), list(e.entries(names)))


def _from_product(e, args, kw):
    (iterables, names) = (tuple(args) + (kw.get("iterables"),))[0], kw.get("names")
    xs = e.entries(iterables)
    if len(xs) != 2 or names is None:
        raise Unsupported("from_product")
    return Product(list(xs), list(e.entries(names)))


CLSATTR[(pd.MultiIndex, "from_arrays")] = _from_arrays
CLSATTR[(pd.MultiIndex, "from_product")] = _from_product


def c15_pre_process(u):
    N, T = u.int("n_obs", 1), u.int("n_periods", 1)
    periods = [Seg(Plain(T), lambda t: t)]
    orig = RawIndex([RawLevel(0), RawLevel(1)], ["any name", "any other name"])
    raw = Raw(orig)

    def is_sorted(e, seq, *a, **k):
        if len(seq) == 1 and isinstance(seq[0], DistinctCodes) and seq[0].of.code is not None:
            return DistinctCodes(seq[0].of, True)
        raise Unsupported("sorted of symbolic values")

    u.hooks["sorted"] = is_sorted
    for v in each(u, PR + ".pre_process_data", (raw, periods)):
        if raw.index is not orig or raw.cols:
            u.fail("data of the caller are not modified", repr(raw.cols))
            continue
        u.ok("data of the caller are not modified")
        if not isinstance(v, Reindexed):
            raise Unsupported("not reindexed")
        lev = v.raw.index.levels
        if any(x.code is None for x in lev):
            raise Unsupported("labels are not coded")
        say = lambda name, c, msg: u.ok(name) if c else u.fail(name, msg)
        show = lambda x: f"level {x.level}, {x.code}"
        say("individuals are numbered in the sorted order of their ids", (lev[0].level, lev[0].code) == (0, "rank"), show(lev[0]))
        say("the k-th distinct period in sorted order becomes period k", (lev[1].level, lev[1].code) == (1, "rank"), show(lev[1]))
        ids, per = v.index.levels
        if not isinstance(ids, DistinctCodes):
            raise Unsupported("ids of the balanced panel")
        # the codes of factorize are exactly 0, ..., number of distinct labels - 1, so sorted they are this range
        # in rows that are sorted by label the ranks appear in ascending order
        say("rows of all individuals, in their order", ids.of is lev[0] and (ids.ordered or v.raw.sorted), show(ids.of))
        u.same_list("exactly the periods of the model, in their order", u.e.entries(per), periods)
        say("names of the index", v.index.names == ["id", "period"] and v.raw.index.names == ["id", "period"], repr(v.index.names))
        c = v.raw.cols
        if set(c) != {"__old_id__", "__old_period__"}:
            raise Unsupported("added columns")
        ok = set(c) == {"__old_id__", "__old_period__"} and (c["__old_id__"].level, c["__old_id__"].code, c["__old_period__"].level, c["__old_period__"].code) == (0, None, 1, None)
        say("columns with the original id and period", ok, repr(sorted(c)))


def c15_process_data(u, purpose):
    """the pieces are put together: copies before the check, observed factors before rows are set to NaN"""
    d = Data(u)
    u.facts.append(tm.not_(d.has(tm.lift("constant"))))
    upd, anch, raw = token("update_info"), token("anchoring_info"), token("df")
    pre, copies, wiped = d.panel(), d.panel(), d.panel()
    arrays = {n: token(n) for n in ("measurements", "controls", "observed factors")}
    called = {}

    def part(fname, res, **want):
        qual = PR + "." + fname

        def stub(e, a, kw):
            b = bound(e, qual, a, kw)
            called[fname] = called.get(fname, 0) + 1
            for n, w in want.items():
                if n == "df":
                    if b[n] is not w and not any(b[n] is x for x in (raw, pre, copies, wiped)):
                        raise Unsupported("data are changed between the steps")
                    u.check(f"{fname} gets the data of the previous step", tm.TRUE if b[n] is w else tm.FALSE)
                else:
                    u.same_value(f"{fname} is called with the right {n}", b[n], w)
            if fname == "_add_copies_of_anchoring_outcome":
                constant(e, b["df"])
            return res

        u.stubs[qual] = stub

    def constant(e, p):
        i, t = tm.fresh("i", "I"), tm.fresh("t", "I")
        if not isinstance(p, Panel) or len(p.over) != 1 or p.over[0][1] is not None:
            raise Unsupported("column of ones")
        label, _, fn = p.over[0]
        u.check("a column of ones is added", tm.lift(e.equal(label(None), "constant")))
        v, n = fn(i, t, None)
        u.check("a column of ones is added", tm.and_(tm.eq(v, 1), tm.not_(n)))

    L = d.labels
    part("pre_process_data", pre, df=raw, periods=L["periods"])
    part("_add_copies_of_anchoring_outcome", copies, df=pre, anchoring_info=anch)
    part("_check_data", None, df=copies, update_info=upd, labels=L, purpose=purpose)
    part("_generate_observed_factor_array", arrays["observed factors"], df=copies, labels=L, n_obs=d.N)
    part("_handle_controls_with_missings", wiped, df=copies, controls=L["controls"], update_info=upd)
    part("_generate_measurements_array", arrays["measurements"], df=wiped, update_info=upd, n_obs=d.N)
    part("_generate_controls_array", arrays["controls"], df=wiped, labels=L, n_obs=d.N)
    want = [arrays["controls"], arrays["observed factors"]]
    if purpose == "estimation":
        want = [arrays["measurements"]] + want
    args = (raw, L, upd, anch) + ((purpose,) if purpose != "estimation" else ())
    for v in each(u, PR + ".process_data", args):
        if called.get("_check_data", 0) < 1:
            if not hasattr(importlib.import_module(PR), "_check_data"):
                raise Unsupported("the check of the data was moved")
            u.fail("the data are checked", "_check_data is not called")
        else:
            u.ok("the data are checked")
        if not isinstance(v, tuple) or len(v) != len(want):
            u.fail("result: measurements (estimation only), controls, observed factors", repr(v))
            continue
        for a, b in zip(v, want):
            u.same_value("result: measurements (estimation only), controls, observed factors", a, b)


def c15_check_data(u, purpose):
    """ValueError iff a variable is absent or unusable; the report names all of them"""
    d = Data(u)
    period_measurements(u, d)
    args = (d.panel(), d.update_info, d.labels, purpose)
    text = app("text_of_report", sort="S")
    # contract of DataFrame.to_string: the text is not empty and shows all rows
    u.facts.append(tm.not_(tm.eq(text, "")))
    shown = []

    def report(e, t):
        shown.append(list(e.entries(t.log)))
        return text

    u.hooks["report"] = report
    N, K, T = d.N, d.K, d.T
    nan = lambda t, v: lambda i: d.cell(i, t, v)[1]
    some = lambda f: ar.reduce_exists(Plain(N), f)
    distinct = lambda t, v: app("n_distinct", t, v, sort="I")
    # (number of variables, period and variable, condition under which it is a problem)
    absent = lambda v: tm.not_(d.has(v))
    kinds = {
        "control": ((T, d.C), lambda t, c: (t, d.ctr(c)), lambda t, v: tm.or_(absent(v), tm.not_(some(lambda i: tm.not_(nan(t, v)(i)))))),
        "observed factor": ((T, d.O), lambda t, o: (t, d.obsf(o)), lambda t, v: tm.or_(absent(v), some(nan(t, v)))),
    }
    if purpose == "estimation":
        kinds["measurement"] = ((T, K), lambda t, k: (t, d.mvar(k)), lambda t, v: tm.or_(absent(v), tm.eq(distinct(t, v), 1)))
    of = lambda name, x: tm.eq(d.per(x[1]), x[0]) if name == "measurement" else tm.TRUE
    n = 0
    for kind, v in u.run(PR + "._check_data", args):
        n += 1
        e = u.e
        if kind == "raise":
            if v.etype is not ValueError:
                u.fail("only ValueErrors are raised", str(v))
                continue
            if not (len(v.eargs) == 1 and v.eargs[0] is text and shown):
                raise Unsupported("text of the error")
            leaves = [(lab, vs, g) for lab, vs, g in rows_of(e, shown[-1])]
            for name, (sizes, label, bad) in kinds.items():
                x = [tm.fresh("x", "I") for _ in sizes]
                fs = [f for y, m in zip(x, sizes) for f in (tm.le(0, y), tm.lt(y, m))] + [of(name, x)]
                t, var = label(*x)
                with e.assuming(fs):
                    found = [instance(e, x, lab, vs, g, (t, var), o) for lab, vs, g in leaves for o in orders(vs, x, sizes)]
                u.check(f"every {name} that is absent or unusable is reported", tm.implies(bad(t, var), tm.or_(*found)), fs)
            for lab, vs, g in leaves:
                fs = [f for y, m in vs for f in (tm.le(0, y), tm.lt(y, m))] + [g]
                ws = list(dict.fromkeys([y for y, _ in vs] + [tm.lift(lab[0])]))
                found = []
                with e.assuming(fs):
                    for name, (sizes, label, bad) in kinds.items():
                        for y in itertools.permutations(ws, len(sizes)):
                            t, var = label(*y)
                            rng = [f for z, m in zip(y, sizes) for f in (tm.le(0, z), tm.lt(z, m))] + [of(name, y)]
                            found.append(tm.and_(*rng, tm.lift(e.equal(lab[0], t)), tm.lift(e.equal(lab[1], var)), bad(t, var)))
                u.check("nothing else is reported", tm.or_(*found), fs)
        else:
            for name, (sizes, label, bad) in kinds.items():
                x = [tm.fresh("x", "I") for _ in sizes]
                fs = [f for y, m in zip(x, sizes) for f in (tm.le(0, y), tm.lt(y, m))] + [of(name, x)]
                u.check(f"no error only if every {name} is usable", tm.not_(bad(*label(*x))), fs)
    if not n:
        raise Unsupported("no path")


def rows_of(e, log):
    """[((period, variable), loop variables with their sizes, guard)] of the writes"""
    from . import seqs

    out = []

    def walk(nodes, vs, g):
        for x in nodes:
            if isinstance(x, seqs.Leaf):
                out.append((x.x[:2], vs, g))
            else:
                walk(x.body, vs + ([(x.v, x.n)] if x.v is not None else []), tm.and_(g, x.g))

    walk(seqs.tree(e, log), [], tm.TRUE)
    return out


def orders(vs, x, sizes):
    """assignments of the loop variables to the indices of the variable"""
    return itertools.permutations(x, len(vs)) if len(vs) <= len(x) else []


def instance(e, x, lab, vs, g, want, o):
    m = {w: y for (w, _), y in zip(vs, o)}
    s = lambda v: tm.subst(tm.lift(v), m)
    rng = [f for (w, n), y in zip(vs, o) for f in (tm.le(0, y), tm.lt(y, s(n)))]
    return tm.and_(*rng, s(g), *[tm.lift(e.equal(s(a), b)) for a, b in zip(lab, want)])


def c15_period_measurements(u):
    d = Data(u)
    p = app("any_period", sort="I")
    for v in each(u, PM + ".get_period_measurements", (d.update_info, p)):
        e = u.e
        k = tm.fresh("k", "I")
        fs = [tm.le(0, k), tm.lt(k, d.K)]
        if not isinstance(v, list):
            raise Unsupported("not a list")
        if not v:
            u.check("no measurements only if the period has no update", tm.not_(tm.eq(d.per(k), p)), fs)
            continue
        if len(v) != 1 or not isinstance(v[0], Seg):
            raise Unsupported("measurements")
        ax = v[0].axis
        if not (isinstance(ax, Dom) and ar.same_axis(ax.axes[0], Plain(d.K))):
            raise Unsupported("measurements")
        u.check("the updates of the period", tm.eq(ax.guard((k,)), tm.eq(d.per(k), p)), fs)
        u.check("their variables in the order of the updates", tm.eq(tm.lift(v[0].fn((k,))), d.mvar(k)), fs + [tm.eq(d.per(k), p)])


def c16_controls(u):
    d = Data(u)
    d.columns_exist("ctr")
    N, T, K, C = d.N, d.T, d.K, d.C
    period_measurements(u, d)
    for c in ("__old_id__", "__old_period__"):
        d.facts.append(d.has(tm.lift(c)))
    u.facts += d.facts
    nan = lambda i, t, c: d.cell(i, t, c)[1]
    k, c = tm.fresh("k", "I"), tm.fresh("c", "I")
    missing = lambda i, t: tm.exists_(c, C, nan(i, t, d.ctr(c)))
    observed = lambda i, t: tm.exists_(k, K, tm.and_(tm.eq(d.per(k), t), d.has(d.mvar(k)), tm.not_(nan(i, t, d.mvar(k)))))
    problem = lambda i, t: tm.and_(missing(i, t), observed(i, t))
    # contract of _get_update_info (C14): every period has an update, updates are ordered by period
    d.periods_of(u)

    def invariant(e, name, pre, seg):
        if not isinstance(pre, RowSet) or e.frames:
            return None
        i, t = tm.fresh("i", "I"), tm.fresh("t", "I")
        fs = [tm.le(0, i), tm.lt(i, N), tm.le(0, t), tm.lt(t, T)]
        u.check("no rows before the first period", tm.not_(pre.pred(i, t)), fs)
        per = seg.fn
        u.check("all periods are looked at", tm.eq(seg.axis.size(), T))
        for g, gs in seg.axis.generic("p"):
            with e.assuming(gs):
                u.check("all periods are looked at", tm.eq(tm.lift(per(g)), seg.axis.to_int(g)), gs)
        return Union(u, d, problem, per)

    u.hooks["invariant"] = invariant
    texts = {}

    def text(e, v):
        x = app("text_of", num(len(texts)), sort="S")
        texts[x.id] = v
        return x

    u.hooks["text"] = text
    df = d.panel()
    controls = [Seg(Plain(C), d.ctr)]
    for v in each(u, PR + "._handle_controls_with_missings", (df, controls, d.update_info)):
        e = u.e
        if not isinstance(v, Panel) or v.rows is not d.all_rows:
            raise Unsupported("not the rows of the data")
        if v is df or df.over or df.changed:
            u.fail("data of the caller are not modified", "modified")
            continue
        u.ok("data of the caller are not modified")
        if v.over:
            raise Unsupported("added columns")
        unchanged(u, "affected rows become missing, all others are unchanged", d, v, problem)
        i, t = tm.fresh("i", "I"), tm.fresh("t", "I")
        fs = [tm.le(0, i), tm.lt(i, N), tm.le(0, t), tm.lt(t, T)]
        if not e.warned:
            # for an arbitrary condition b: (problem or b) == b, that is, not problem
            b = app("anycond", i, t, sort="B")
            u.check("no warning only if no row is affected", tm.eq(tm.or_(problem(i, t), b), b), fs)
            continue
        u.check("a warning only if some row is affected", ar.reduce_exists(Comp([Plain(N), Plain(T)]), lambda x: problem(*x)))
        found = [texts[y.id] for m, _ in e.warned for y in subterms(m) if y.id in texts]
        if len(found) != 1 or not isinstance(found[0], list) or len(found[0]) != 1 or not isinstance(found[0][0], Seg):
            raise Unsupported("text of the warning")
        seg = found[0][0]
        old = lambda i, t: (d.cell(i, t, tm.lift("__old_id__"))[0], d.cell(i, t, tm.lift("__old_period__"))[0])
        ax = seg.axis
        while isinstance(ax, Comp) and len(ax.axes) == 1:
            ax = ax.axes[0]
        if not (isinstance(ax, Dom) and ar.same_axis(ax.axes[0], d.all_rows.axis)):
            raise Unsupported("rows of the warning")
        with e.assuming(fs):
            u.check("the warning names the affected rows", tm.eq(ax.guard(((i, t),)), problem(i, t)), fs)
            x = seg.fn(((i, t),))
            if not (isinstance(x, (tuple, list)) and len(x) == 2):
                u.fail("the warning names original id and period", repr(x))
                continue
            u.check("the warning names original id and period", tm.and_(*[tm.eq(tm.lift(scal(p)), q) for p, q in zip(x, old(i, t))]), fs + [problem(i, t)])


def scal(x):
    return x.el(())[0] if isinstance(x, Arr) else x


def subterms(m):
    out = []

    def walk(x):
        if isinstance(x, T):
            out.append(x)
            for a in x.args:
                walk(a)

    walk(m)
    return out


UNITS = {
    "C15": [
        ("process_data._generate_measurements_array", c15_measurements),
        ("process_data._generate_controls_array", lambda u: c15_by_period(u, "_generate_controls_array", "ctr", "C")),
        ("process_data._generate_observed_factor_array", lambda u: c15_by_period(u, "_generate_observed_factor_array", "obsf", "O")),
        ("process_data._add_copies_of_anchoring_outcome", c15_copies),
        ("process_data.pre_process_data", c15_pre_process),
        ("process_data._check_data, estimation", lambda u: c15_check_data(u, "estimation")),
        ("process_data._check_data, simulation", lambda u: c15_check_data(u, "simulation")),
        ("process_data.process_data, estimation", lambda u: c15_process_data(u, "estimation")),
        ("process_data.process_data, simulation", lambda u: c15_process_data(u, "simulation")),
    ],
    "C16": [("process_model.get_period_measurements", c15_period_measurements), ("process_data._handle_controls_with_missings", c16_controls)],
}
