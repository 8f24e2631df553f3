"""Contracts of correlation_heatmap.py (C22).

The data are the balanced panel of pre_process_data (see c_data); a table of selected columns is a Sheet: rows with
labels, and columns in order.  Tables are compared as sequences of columns (label and cell of an arbitrary row).
"""
import numpy as np
import pandas as pd

from . import arrays as ar
from . import frames as fr
from . import lib
from . import pdmodel as pm
from . import seqs
from . import terms as tm
from .arrays import Arr, Cat, CodeError, Comp, Dom, Plain, Unsupported
from .c_data import Data, Panel
from .c_debug import each, wired
from .c_likelihood import bound, lat, token
from .interp import DepAxis, DSeg, Obj, PyRaise, Seg, list_axis, subst_value
from .lib import NOATTR, reg
from .terms import T, app, num

CH = "skillmodels.correlation_heatmap"


# ------------------------------------------------------------------ statistics that skip missing values
def nansum(ax, cell):
    return ar.reduce_sum_term(ax, lambda i: tm.ite(cell(i)[1], num(0), cell(i)[0]))


def count(ax, cell):
    return ar.reduce_sum_term(ax, lambda i: tm.ite(cell(i)[1], num(0), num(1)))


def mean(ax, cell):
    n = count(ax, cell)
    return tm.div(nansum(ax, cell), n), tm.eq(n, 0)


def std(ax, cell, ddof=1):
    m, _ = mean(ax, cell)
    n = count(ax, cell)
    sq = nansum(ax, lambda i: (tm.mul(tm.sub(cell(i)[0], m), tm.sub(cell(i)[0], m)), cell(i)[1]))
    return app("square_root", tm.div(sq, tm.sub(n, ddof))), tm.le(n, ddof)


def either(f):
    """cellwise arithmetic; missing if one of the operands is"""
    return lambda a, b: (f(a[0], b[0]), tm.or_(a[1], b[1]))


def over(a, b):
    # precondition: standard deviations and loadings are not zero; a quotient with zero is modelled as missing
    return tm.div(a[0], b[0]), tm.or_(a[1], b[1], tm.eq(b[0], 0))


OPS = {"+": either(tm.add), "-": either(tm.sub), "*": either(tm.mul), "/": over}


class PerColumn(Obj):
    """a statistic of every column of a table"""

    def __init__(self, sheet, stat):
        self.kind = "statistics of the columns"
        self.sheet, self.stat = sheet, stat

    def value(self, c, j):
        return self.stat(self.sheet.index.axis, lambda i: c.cell(i, j))

    def subst(self, m, facts, eng):
        return PerColumn(self.sheet.subst(m, facts, eng), self.stat)


class Named(pm.Series):
    """a column with its name"""

    def __init__(self, index, cell, name):
        super().__init__(index, lambda i: cell(i)[0], lambda i: cell(i)[1], "R")
        self.cell, self.name = cell, name
        self.methods.update(rename=lambda e, n: e.new(Named(index, cell, n)), reset_index=self.reset_index, to_frame=lambda e, name=None: e.new(Sheet(index, [self.col(name)])))
        self.methods["copy"] = lambda e, deep=True: e.new(Named(index, cell, self.name))

    def col(self, name=None):
        n = self.name if name is None else name
        return fr.Col(None, lambda j: n, lambda i, j: self.cell(i))

    def get_attr(self, e, name):
        return self.name if name == "name" else super().get_attr(e, name)

    def set_attr(self, e, name, v):
        if name != "name":
            raise Unsupported("attribute assignment")
        e.mutate(self, "name", v)

    def apply(self, e, op, payload):
        self.name = payload

    def reset_index(self, e, drop=False):
        if not drop:
            raise Unsupported("reset_index")
        return e.new(Named(numbered(self.index), self.cell, self.name))

    def subst(self, m, facts, eng):
        c = self.col().subst(m, facts, eng)
        return Named(fr.subst_index(self.index, m, facts, eng), lambda i: c.cell(i, num(0)), c.label(num(0)))


def numbered(ix):
    return pm.Index([Seg(ix.axis, ix.axis.to_int)], [None])


class Sheet(fr.Wide):
    def __init__(self, index, cols):
        super().__init__(index, cols)
        self.kind = "table"
        self.pending = []  # labels of the columns that were read in a loop
        self.methods.update(
            {
                "copy": lambda e, deep=True: e.new(Sheet(self.index, self.cols)), "mean": self.mean, "std": self.std, "add_suffix": self.add_suffix, "reset_index": self.reset_index, "corr": self.corr,
                "sub": lambda e, o, **k: self.binop(e, "-", o, False), "div": lambda e, o, **k: self.binop(e, "/", o, False),
            }
        )

    def mean(self, e, axis=0, **k):
        if k:
            raise Unsupported("mean")
        if axis in (0, "index"):
            return PerColumn(self, mean)
        ax, at = self.all()
        return e.new(Named(self.index, lambda i: mean(ax, lambda j: at(i, j)), None))

    def std(self, e, axis=0, ddof=1, **k):
        if k or axis not in (0, "index") or not isinstance(ddof, int):
            raise Unsupported("std")
        return PerColumn(self, lambda ax, cell: std(ax, cell, ddof))

    def all(self):
        """axis of all columns and cell(i, j)"""
        axes = [c.axis if c.axis is not None else Plain(num(1)) for c in self.cols]
        if len(axes) == 1:
            return axes[0], self.cols[0].cell
        return Cat(axes), lambda i, j: self.cols[j[1]].cell(i, j[2])

    def column_label(self, j):
        return self.cols[0].label(j) if len(self.cols) == 1 else self.cols[j[1]].label(j[2])

    def binop(self, e, op, o, swapped):
        if op not in OPS:
            raise Unsupported("arithmetic of tables")
        f = OPS[op]
        if isinstance(o, PerColumn) and not swapped and self.aligned(e, o.sheet):
            cell = lambda c, d: lambda i, j: f(c.cell(i, j), o.value(d, j))
            return e.new(Sheet(self.index, [fr.Col(c.axis, c.label, cell(c, d)) for c, d in zip(self.cols, o.sheet.cols)]))
        if isinstance(o, (int, float, T)) and not swapped:
            v = (tm.lift(o), tm.FALSE)
            return e.new(Sheet(self.index, [fr.Col(c.axis, c.label, lambda i, j, c=c: f(c.cell(i, j), v)) for c in self.cols]))
        raise Unsupported("arithmetic of tables")

    def aligned(self, e, s):
        """same rows and columns"""
        if s is self:
            return True
        return len(s.cols) == len(self.cols) and ar.same_axis(s.index.axis, self.index.axis) and all(
            (c.axis is None) == (d.axis is None) and (c.label is d.label or (c.axis is not None and ar.same_axis(c.axis, d.axis) and same_labels(e, c, d))) for c, d in zip(self.cols, s.cols)
        )

    def add_suffix(self, e, s):
        return e.new(Sheet(self.index, [fr.Col(c.axis, lambda j, c=c: e.join_str([c.label(j), s]), c.cell) for c in self.cols]))

    def reset_index(self, e, drop=False, **k):
        if drop is not True or k:
            raise Unsupported("reset_index")
        return e.new(Sheet(numbered(self.index), self.cols))

    def corr(self, e):
        return CorrOf(self)

    def getitem(self, e, k):
        if isinstance(k, (str, T)):
            for f in e.frames[e.owner_depth(self):]:
                if id(self) in f.objs:
                    raise Unsupported("a column is read after an assignment")
                self.pending.append(k)
            c = self.find(e, k)
            return e.new(Named(self.index, lambda i: c.cell(i, num(0)), k))
        return super().getitem(e, k)

    def generalise(self, e, entries, axis, g, facts, conv):
        """columns are read and replaced in a loop: every element reads only the column that it replaces"""
        k = entries[0][2][0]
        if self.pending:
            with e.assuming(list(facts)):
                if any(e.decide(tm.lift(e.equal(k, x))) is not True for x in self.pending):
                    raise Unsupported("a loop reads columns that it replaces")
            gf = ar.flat(g)
            (a, fa), (b, fb) = axis.generic("a")[0], axis.generic("b")[0]
            at = lambda x: tm.subst(k, dict(zip(gf, ar.flat(conv(x)))))
            other = tm.not_(tm.and_(*[tm.eq(x, y) for x, y in zip(ar.flat(a), ar.flat(b))]))
            with e.assuming(list(fa) + list(fb) + [other]):
                if e.decide(tm.lift(e.equal(at(a), at(b)))) is not False:
                    raise Unsupported("a column may be replaced twice")
            self.pending = []
        super().generalise(e, entries, axis, g, facts, conv)

    def subst(self, m, facts, eng):
        return Sheet(fr.subst_index(self.index, m, facts, eng), [c.subst(m, facts, eng) for c in self.cols])


def same_labels(e, c, d):
    for g, fs in c.axis.generic("q"):
        with e.assuming(fs):
            if e.decide(tm.lift(e.equal(c.label(g), d.label(g)))) is not True:
                return False
    return True


class CorrOf(Obj):
    def __init__(self, sheet):
        self.kind = "correlations"
        self.sheet = sheet


def sheet_hook(e, p, k):
    """selection of columns of the panel"""
    rows = p.rows

    def column(label):
        f = p.column(e, label)
        if f is None:
            raise PyRaise(KeyError, (label,))
        return f

    if isinstance(k, (str, T)):
        f = column(k)
        return e.new(Named(p.ix, lambda i: f(*rows(i)), k))
    cols = []
    for x in e.entries(k):
        if not isinstance(x, Seg):
            f = column(x)
            cols.append(fr.Col(None, lambda j, x=x: x, lambda i, j, f=f: f(*rows(i))))
            continue
        for g, fs in x.axis.generic("c"):
            with e.assuming(fs):
                column(tm.lift(x.fn(g)))
        cols.append(fr.Col(x.axis, x.fn, lambda i, j, x=x: p.cell(*rows(i), tm.lift(x.fn(j)))))
    if p.over:
        raise Unsupported("added columns")
    return e.new(Sheet(p.ix, cols))


_old_concat = lib.LIB[id(pd.concat)]


@reg(pd.concat)
def _concat(e, objs, axis=0, sort=False, ignore_index=False, **k):
    es = e.entries(objs)
    ones = [first(x) for x in es]
    if not (axis in (1, "columns") and es and all(isinstance(x, (Named, Sheet)) for x in ones)) or k or ignore_index or sort:
        return _old_concat(e, objs, axis, sort, ignore_index, **k)
    index, cols = None, []
    for x in es:
        for y, fs, g in generic(x):
            with e.assuming(fs):
                if index is None:
                    index = y.index
                    if isinstance(x, Seg) and any(v.fv & set(ar.flat(g)) for v in label_terms(index)):
                        raise Unsupported("concatenation of tables with different rows")
                if not same_rows(e, index, y.index):
                    raise Unsupported("concatenation of tables with different rows")
        if not isinstance(x, Seg):
            cols += x.cols if isinstance(x, Sheet) else [x.col()]
        elif isinstance(ones[es.index(x)], Named):
            cols.append(fr.Col(x.axis, lambda j, x=x: x.fn(j).name, lambda i, j, x=x: x.fn(j).cell(i)))
        else:
            ax = DepAxis(x.axis, lambda j, x=x: x.fn(j).all()[0])
            cols.append(fr.Col(ax, lambda j, x=x: x.fn(j[0]).column_label(j[1]), lambda i, j, x=x: x.fn(j[0]).all()[1](i, j[1])))
    return e.new(Sheet(index, cols))


def generic(x):
    if not isinstance(x, Seg):
        return [(x, [], ())]
    return [(x.fn(g), fs, g) for g, fs in x.axis.generic("y")]


def first(x):
    return generic(x)[0][0]


def label_terms(ix):
    g, fs = ix.axis.generic("r")[0]
    with ar.E().assuming(fs):
        lab = ix.fn(g)
    return [tm.lift(v) for v in (lab if isinstance(lab, tuple) else (lab,))]


def same_rows(e, a, b):
    if a is b:
        return True
    if not ar.same_axis(a.axis, b.axis):
        return False
    for g, fs in a.axis.generic("r"):
        with e.assuming(fs):
            if e.decide(tm.lift(e.equal(a.fn(g), b.fn(g)))) is not True:
                return False
    return True


# ------------------------------------------------------------------ contracts
class Corr(Data):
    """any panel, update table, and lists of latent and observed factors"""

    def __init__(self, u):
        super().__init__(u)
        self.columns_exist("mvar", "obsf")
        u.hooks["sheet"] = sheet_hook
        self.L, self.P = u.int("n_latent_factors", 0), u.int("n_requested_periods", 1)
        # contract of _get_update_info: one update per period and variable
        u.theory.schemas["mvar"] = self.add("mvar", lambda k: [tm.eq(app("update_of", self.per(k), self.mvar(k), sort="I"), k)])
        self.latent = [Seg(Plain(self.L), lat)]
        self.observed = [Seg(Plain(self.O), self.obsf)]
        self.t = app("the_period", sort="I")
        k = app("an_update", sort="I")
        # preconditions: the period is one of the data, and has an update
        u.facts += [tm.le(0, self.t), tm.lt(self.t, self.T), ar_some(self.per, self.K, self.t)]

    def measures(self, k, l, t):
        """update k is a measurement of factor l in period t"""
        return tm.and_(tm.eq(self.per(k), t), app("isload", k, lat(l), sort="B"), tm.not_(app("isanch", k, sort="B")))

    def meas(self, l, t, but=lambda k: tm.FALSE):
        return Dom([Plain(self.K)], lambda k: tm.and_(self.measures(k[0], l, t), tm.not_(but(k[0]))))


def ar_some(f, n, t):
    k = tm.fresh("k", "I")
    return tm.exists_(k, n, tm.eq(f(k), t))


def columns_are(u, d, v, want):
    """want: list of Segs/tuples (label, cell) for row i"""
    e = u.e
    if not isinstance(v, Sheet):
        raise Unsupported("not a table")
    i = tm.fresh("row", "I")
    fs = [tm.le(0, i), tm.lt(i, d.N)]
    if not ar.same_axis(v.index.axis, Plain(d.N)):
        raise Unsupported("rows")
    at = lambda lab, c: (lab,) + tuple(tm.lift(y) for y in c)
    got = [Seg(c.axis, lambda j, c=c: at(c.label(j), c.cell(i, j))) if c.axis is not None else at(c.label(num(0)), c.cell(i, num(0))) for c in v.cols]
    exp = [Seg(ax, lambda j, f=f: at(*f(i, j))) for ax, f in want]
    with e.assuming(fs):
        seqs.compare(u, "labels of the columns, in order", got, exp, lambda x: x[:1])
        seqs.compare(u, "cells of the columns", got, exp, lambda x: x)


def rows_are(u, v, label):
    e = u.e
    i = tm.fresh("row", "I")
    with e.assuming([tm.le(0, i), tm.lt(i, v.index.axis.size())]):
        lab = v.index.fn(i)
        u.check("rows are those of the individuals, in order", tm.lift(e.equal(lab, label(i))))


def c22_measurements(u):
    d = Corr(u)
    t = d.t
    for v in each(u, CH + "._get_measurement_data_for_single_period", (d.panel(), d.update_info, t, d.latent, d.observed)):
        columns_are(
            u, d, v,
            [
                (DepAxis(Plain(d.L), lambda l: d.meas(l, t)), lambda i, j: (d.mvar(j[1][0]), d.cell(i, t, d.mvar(j[1][0])))),
                (Plain(d.O), lambda i, o: (d.obsf(o), d.cell(i, t, d.obsf(o)))),
            ],
        )
        rows_are(u, v, lambda i: (i, t))


def c22_quasi(u):
    d = Corr(u)
    t = d.t

    def score(i, l):
        def z(k):
            col = lambda x: d.cell(x, t, d.mvar(k[0]))
            return OPS["/"](OPS["-"](col(i), mean(Plain(d.N), col)), std(Plain(d.N), col))

        return lat(l), mean(d.meas(l, t), z)

    for v in each(u, CH + "._get_quasi_factor_scores_data_for_single_period", (d.panel(), d.update_info, t, d.latent, d.observed)):
        columns_are(u, d, v, [(Plain(d.L), score), (Plain(d.O), lambda i, o: (d.obsf(o), d.cell(i, t, d.obsf(o))))])
        rows_are(u, v, lambda i: (i, t))


class Params(Obj):
    """the params table: value of (category, period, name1, name2); fixed: the levels that were selected and dropped

    Rows of category "loadings" are one per measurement and factor, rows of category "controls" one per measurement and
    control (name2).
    """

    LEVELS = ("category", "period", "name1", "name2")

    def __init__(self, fixed=None, dropped=(), column=None, cast=None):
        self.kind = "params"
        self.fixed, self.dropped, self.column, self.cast = dict(fixed or {}), set(dropped), column, cast
        self.methods = {"query": self.query, "droplevel": self.droplevel, "astype": self.astype, "groupby": self.groupby, "copy": lambda e, deep=True: self, "xs": self.xs}

    def new(self, **k):
        d = dict(fixed=self.fixed, dropped=self.dropped, column=self.column, cast=self.cast)
        d.update(k)
        return Params(**d)

    def left(self):
        return [n for n in self.LEVELS if n not in self.dropped]

    def select(self, level, v):
        if level in self.fixed or level in self.dropped:
            raise Unsupported("repeated selection")
        return self.new(fixed={**self.fixed, level: tm.lift(v)})

    def query(self, e, text):
        import ast

        tree, holes = pm.parse_query(text)
        if not (isinstance(tree, ast.Compare) and len(tree.ops) == 1 and isinstance(tree.ops[0], ast.Eq) and isinstance(tree.left, ast.Name) and tree.left.id in self.left()):
            raise Unsupported("query of the params")
        return self.select(tree.left.id, pm.qval(e, tree.comparators[0], holes, None))

    def xs(self, e, key, axis=0, level=None, drop_level=True):
        if axis != 0 or level not in self.left() or drop_level is not True:
            raise Unsupported("xs")
        return self.select(level, key).droplevel(e, level)

    def droplevel(self, e, level):
        if level not in self.left():
            raise Unsupported("droplevel")
        if level not in self.fixed:
            raise Unsupported("dropping a level that was not selected")
        return self.new(dropped=self.dropped | {level})

    def get_attr(self, e, name):
        return Obj("loc", getitem=self.loc) if name == "loc" else NOATTR

    def loc(self, e, k):
        left = self.left()
        if isinstance(k, list) and left[:1] == ["category"] and all(isinstance(x, str) for x in k):
            if not {"controls", "loadings"} <= set(k):
                raise Unsupported("categories")
            return self
        if isinstance(k, (str, T)) and len(left) > 1:
            if left[0] != "category":
                raise Unsupported("loc of the params")
            return self.select(left[0], k).droplevel(e, left[0])
        if isinstance(k, tuple) and len(k) == len(left) and self.column == "value" and len(left) > 1 or isinstance(k, (str, T)) and len(left) == 1 and self.column == "value":
            ks = k if isinstance(k, tuple) else (k,)
            if any(n in self.fixed for n in left):
                raise Unsupported("lookup of a selected level")
            return self.value({**self.fixed, **{n: tm.lift(x) for n, x in zip(left, ks)}})
        raise Unsupported("loc of the params")

    def value(self, at):
        if self.cast is not None:
            raise Unsupported("converted value")
        return app("param", *[at[n] for n in self.LEVELS])

    def getitem(self, e, k):
        if k != "value" or self.column is not None:
            raise Unsupported("column of the params")
        return self.new(column="value")

    def astype(self, e, t):
        if t is not bool or self.column != "value":
            raise Unsupported("astype")
        return self.new(cast=bool)

    def compare(self, e, op, other, swapped):
        # (loadings != 0) is astype(bool)
        if op == "!=" and other == 0 and self.column == "value" and self.cast is None:
            return self.new(cast=bool)
        raise Unsupported("comparison of params")

    def groupby(self, e, by=None, level=None):
        by = by if by is not None else level
        if self.cast is not bool or by != "name1" or "name1" in self.dropped or "name1" in self.fixed or set(self.fixed) != {"category", "period"}:
            raise Unsupported("groupby of the params")
        return Obj("grouped", methods={"sum": lambda e: NonZero(self.fixed, None)})


class NonZero(Obj):
    """per measurement: number of its factors with a non-zero value; cond: the selected measurements"""

    def __init__(self, fixed, cond):
        self.kind = "number of nonzero values"
        self.fixed, self.cond = fixed, cond
        self.methods = {"to_list": self.listed, "tolist": self.listed}

    def n(self, m):
        return app("n_nonzero", self.fixed["category"], self.fixed["period"], tm.lift(m), sort="I")

    def compare(self, e, op, other, swapped):
        if swapped or not isinstance(other, (int, T)):
            raise Unsupported("comparison")
        c = {">": lambda n: tm.lt(other, n), ">=": lambda n: tm.le(other, n), "<": lambda n: tm.lt(n, other), "<=": lambda n: tm.le(n, other), "==": lambda n: tm.eq(n, other), "!=": lambda n: tm.not_(tm.eq(n, other))}
        return Obj("condition", cond=lambda m: c[op](self.n(m)), of=self)

    def getitem(self, e, k):
        if not isinstance(k, Obj) or k.kind != "condition" or self.cond is not None:
            raise Unsupported("selection")
        return NonZero(self.fixed, k.cond)

    def get_attr(self, e, name):
        # the index: the names of the measurements
        return self if name in ("index", "values") else NOATTR

    def listed(self, e):
        return self

    def contains(self, e, m):
        if self.cond is None:
            raise Unsupported("all measurements")
        return self.cond(tm.lift(m))


def c22_scores(u):
    d = Corr(u)
    t = d.t
    cat = lambda c, m, n: app("param", tm.lift(c), t, m, tm.lift(n))
    several = lambda k: tm.lt(1, app("n_nonzero", tm.lift("loadings"), t, d.mvar(k), sort="I"))

    def score(i, l):
        def z(k):
            m = d.mvar(k[0])
            v, n = d.cell(i, t, m)
            return over((tm.sub(v, cat("controls", m, "constant")), n), (cat("loadings", m, lat(l)), tm.FALSE))

        return lat(l), mean(d.meas(l, t, several), z)

    params = Params()
    for v in each(u, CH + "._get_factor_scores_data_for_single_period", (d.panel(), params, d.update_info, t, d.latent, d.observed)):
        columns_are(u, d, v, [(Plain(d.L), score), (Plain(d.O), lambda i, o: (d.obsf(o), d.cell(i, t, d.obsf(o))))])
        rows_are(u, v, lambda i: (i, t))


def kw_each(u, qual, kw):
    for kind, v in u.run(qual, (), kw):
        if kind == "raise":
            u.fail("no exception", str(v))
            continue
        yield v


SINGLE = {
    "_get_measurement_data": "_get_measurement_data_for_single_period",
    "_get_quasi_factor_scores_data": "_get_quasi_factor_scores_data_for_single_period",
    "_get_factor_scores_data": "_get_factor_scores_data_for_single_period",
}


def arguments(d, which):
    out = {"data": d.panel(), "update_info": d.update_info, "latent_factors": d.latent, "observed_factors": d.observed}
    if which == "_get_factor_scores_data":
        out["params"] = Params()
    return out


def c22_multiple(u, which):
    """one column per item and period, with the period as suffix, rows aligned by individual"""
    d = Corr(u)
    req = lambda p: app("requested", p, sort="I")
    u.theory.schemas["requested"] = lambda p: [tm.le(0, req(p)), tm.lt(req(p), d.T)]
    items = lambda t: app("n_items", t, sort="I")
    u.theory.schemas["n_items"] = lambda t: [tm.le(0, items(t))]
    label = lambda t, j: app("item", t, j, sort="S")
    cell = lambda i, t, j: (app("score", i, t, j), app("score_nan", i, t, j, sort="B"))
    args = arguments(d, which)

    def single(b):
        t = tm.lift(b["period"])
        rows = pm.Index([Seg(Plain(d.N), lambda i: (i, t))], ["id", "period"])
        return u.e.new(Sheet(rows, [fr.Col(Plain(items(t)), lambda j: label(t, j), lambda i, j: cell(i, t, j))]))

    wired(u, CH + "." + SINGLE[which], single, **{k: v for k, v in args.items()})
    periods = [Seg(Plain(d.P), req)]
    for v in kw_each(u, CH + "." + which + "_for_multiple_periods", {**args, "periods": periods}):
        ax = DepAxis(Plain(d.P), lambda p: Plain(items(req(p))))
        columns_are(u, d, v, [(ax, lambda i, j: (tm.fstr([label(req(j[0]), j[1]), ", ", req(j[0])]), cell(i, req(j[0]), j[1])))])
        rows_are(u, v, lambda i: i)


def c22_dispatch(u, which):
    """one period: its table; several periods: their tables side by side"""
    d = Corr(u)
    req = lambda p: app("requested", p, sort="I")
    args = arguments(d, which)
    periods = [Seg(Plain(d.P), req)]
    one, many = token("table of the period"), token("table of the periods")
    period = lambda b: u.check("the requested period is used", tm.eq(tm.lift(b["period"]), req(num(0))))
    wired(u, CH + "." + SINGLE[which], lambda b: (period(b), one)[1], **args)
    wired(u, CH + "." + which + "_for_multiple_periods", many, periods=periods, **args)
    for v in kw_each(u, CH + "." + which, {**args, "periods": periods}):
        if v is one:
            u.check("the plain table only if there is one period", tm.eq(d.P, 1))
        elif v is many:
            # the table of several periods has suffixes in the names of its columns
            u.check("suffixes only if there are several periods", tm.lt(1, d.P))
        else:
            raise Unsupported("result")


def c22_corr(u, fname, which):
    """correlations of the table of the requested factors and periods, from the balanced data"""
    data, model_dict, raw_factors, raw_periods = (token(n) for n in ("data", "model dict", "factors", "periods"))
    copied = token("copy of data")
    # a copy of the data or the data themselves: pre_process_data does not modify its argument (contract, C15)
    data.methods = {"copy": lambda e, deep=True: copied}
    model = {"labels": token("labels"), "update_info": token("update_info"), "dimensions": token("dimensions")}
    periods, panel, latent, observed = token("processed periods"), token("panel"), token("latent factors"), token("observed factors")
    result = token("correlations")
    table = Obj("table", methods={"corr": lambda e: result})
    wired(u, "skillmodels.process_model.process_model", model, model_dict=model_dict)
    wired(u, CH + "._process_periods", periods, periods=raw_periods, model=model)

    def pre(b):
        if b["df"] not in (data, copied):
            raise Unsupported("data of pre_process_data")
        return panel

    wired(u, "skillmodels.process_data.pre_process_data", pre, periods=periods)
    wired(u, CH + "._process_factors", (latent, observed), model=model, factors=raw_factors)
    want = {"data": panel, "update_info": model["update_info"], "periods": periods, "latent_factors": latent, "observed_factors": observed}
    args = {"data": data, "model_dict": model_dict, "factors": raw_factors, "periods": raw_periods}
    if which == "_get_factor_scores_data":
        args["params"] = want["params"] = Params()
    wired(u, CH + "." + which, lambda b: params_ok(u, b, table), **{k: v for k, v in want.items() if k != "params"})
    for v in kw_each(u, CH + "." + fname, args):
        if v is not result:
            raise Unsupported("not the correlations of the table")
        u.ok("correlations of the table")


def params_ok(u, b, table):
    p = b.get("params")
    if p is not None and (not isinstance(p, Params) or p.fixed or p.dropped or p.column):
        raise Unsupported("params")
    return table


def c22_factors(u, given):
    """given: None, a latent factor, an observed factor, or a list"""
    L, O, F = u.int("n_latent", 1), u.int("n_observed", 1), u.int("n_requested", 1)
    obs = lambda o: app("obsf", o, sort="S")
    la, ob = [Seg(Plain(L), lat)], [Seg(Plain(O), obs)]
    l0, o0 = app("any_latent", sort="I"), app("any_observed", sort="I")
    # precondition: names are not empty
    u.facts += [tm.le(0, l0), tm.lt(l0, L), tm.le(0, o0), tm.lt(o0, O), tm.not_(tm.eq(lat(l0), "")), tm.not_(tm.eq(obs(o0), ""))]
    # precondition: names of latent and observed factors differ
    req = lambda f: app("requested_factor", f, sort="S")
    is_l = lambda x: ar.reduce_exists(Plain(L), lambda l: tm.eq(lat(l), x))
    is_o = lambda x: ar.reduce_exists(Plain(O), lambda o: tm.eq(obs(o), x))
    k = tm.fresh("k", "I")
    u.facts += [tm.not_(tm.exists_(k, L, tm.eq(lat(k), obs(o0)))), tm.not_(tm.exists_(k, O, tm.eq(obs(k), lat(l0))))]
    model = {"labels": {"latent_factors": la, "observed_factors": ob}}
    arg, wl, wo = {
        "None": (None, la, ob),
        "latent": (lat(l0), [lat(l0)], []),
        "observed": (obs(o0), [], [obs(o0)]),
        "list": ([Seg(Plain(F), req)], [Seg(Dom([Plain(F)], lambda f: is_l(req(f[0]))), lambda f: req(f[0]))], [Seg(Dom([Plain(F)], lambda f: tm.and_(tm.not_(is_l(req(f[0]))), is_o(req(f[0])))), lambda f: req(f[0]))]),
    }[given]
    for v in each(u, CH + "._process_factors", (model, arg)):
        if not isinstance(v, tuple) or len(v) != 2:
            raise Unsupported("result")
        seqs.compare(u, "latent factors in the requested order", v[0], wl)
        seqs.compare(u, "observed factors in the requested order", v[1], wo)


def c22_periods(u, given):
    T, P = u.int("n_periods", 1), u.int("n_requested", 1)
    t = app("the_period", sort="I")
    req = [Seg(Plain(P), lambda p: app("requested", p, sort="I"))]
    arg, want = {"None": (None, [Seg(Plain(T), lambda t: t)]), "one": (t, [t]), "list": (req, req)}[given]
    for v in each(u, CH + "._process_periods", (arg, {"dimensions": {"n_periods": T}})):
        if isinstance(v, Arr):
            raise Unsupported("array of periods")
        seqs.compare(u, "the requested periods", u.e.entries(v), want)


# ------------------------------------------------------------------ masks
class Table2(Obj):
    """rows, columns, and cell(i, j) -> (value, nan); sort B for conditions"""

    def __init__(self, rows, cols, cell, sort="R", frame=True):
        self.kind = "table"
        self.rows, self.cols, self.cell, self.sort = rows, cols, cell, sort
        cond = lambda f: Table2(rows, cols, f, "B")
        self.methods = {
            "where": self.where, "round": lambda e, n=0: Table2(rows, cols, lambda i, j: (app("rounded", cell(i, j)[0], tm.lift(n)), cell(i, j)[1])), "copy": lambda e, deep=True: self,
            "notnull": lambda e: cond(lambda i, j: (tm.not_(cell(i, j)[1]), tm.FALSE)), "notna": lambda e: cond(lambda i, j: (tm.not_(cell(i, j)[1]), tm.FALSE)),
            "isnull": lambda e: cond(lambda i, j: (cell(i, j)[1], tm.FALSE)), "isna": lambda e: cond(lambda i, j: (cell(i, j)[1], tm.FALSE)),
            "any": self.any, "to_numpy": lambda e: self.to_array(),
        }

    def to_array(self, lib="np"):
        return Arr([self.rows, self.cols], lambda i: self.cell(*i)[0], lambda i: self.cell(*i)[1], self.sort, "np")

    def get_attr(self, e, name):
        if name == "T":
            return Table2(self.cols, self.rows, lambda i, j: self.cell(j, i), self.sort)
        if name == "shape":
            return (tm.unlift(self.rows.size()), tm.unlift(self.cols.size()))
        if name == "values":
            return self.to_array()
        return NOATTR

    def length(self):
        return self.rows.size()

    def where(self, e, mask):
        m = condition(mask, self)
        return Table2(self.rows, self.cols, lambda i, j: (self.cell(i, j)[0], tm.or_(self.cell(i, j)[1], tm.not_(m(i, j)))))

    def any(self, e, axis=0):
        if self.sort != "B":
            raise Unsupported("any")
        if axis in (1, "columns"):
            return Arr([self.rows], lambda i: ar.reduce_exists(self.cols, lambda j: self.cell(i[0], j)[0]), None, "B")
        return Arr([self.cols], lambda j: ar.reduce_exists(self.rows, lambda i: self.cell(i, j[0])[0]), None, "B")

    def getitem(self, e, k):
        if not isinstance(k, Arr) or k.ndim != 1 or k.sort != "B" or not ar.same_axis(k.axes[0], self.rows):
            raise Unsupported("selection")
        return Table2(Dom([self.rows], lambda i: k.fn((i[0],))), self.cols, lambda i, j: self.cell(i[0], j), self.sort)


def condition(mask, t):
    if isinstance(mask, Arr) and mask.ndim == 2:
        return lambda i, j: ar.tobool(mask.fn((i, j)))
    if isinstance(mask, Mask):
        return mask.cond
    if isinstance(mask, Table2) and mask.sort == "B":
        return lambda i, j: mask.cell(i, j)[0]
    raise Unsupported("mask")


def size_of(x):
    if isinstance(x, Table2):
        return x.rows.size()
    if isinstance(x, Mask):
        return x.n
    raise Unsupported("size of a mask")


def below(k):
    return lambda i, j: tm.le(j, tm.add(i, k))


def above(k):
    return lambda i, j: tm.le(tm.add(i, k), j)


@reg(np.tril_indices_from)
def _tril_from(e, a, k=0):
    return Triangle(size_of(a), below(k))


@reg(np.triu_indices_from)
def _triu_from(e, a, k=0):
    return Triangle(size_of(a), above(k))


_old_like = lib.LIB[id(np.zeros_like)]


@reg(np.zeros_like)
def _zeros_like(e, x, *a, **k):
    if isinstance(x, Table2) and k.get("dtype", a[0] if a else None) in (bool, "bool") and len(a) + len(k) == 1:
        return e.new(Mask(x.rows.size()))
    return _old_like(e, x, *a, **k)


@reg(np.fill_diagonal)
def _fill_diagonal(e, a, val, wrap=False):
    if not isinstance(a, Mask) or not isinstance(val, bool):
        raise Unsupported("fill_diagonal")
    a.fill(lambda i, j: tm.eq(i, j), val)


class Mask(Obj):
    """a Boolean array that is filled in place"""

    def __init__(self, n):
        self.kind = "mask"
        self.n, self.cond = n, lambda i, j: tm.FALSE
        self.methods = {"copy": self.copied, "any": lambda e, axis=0: self.table().any(e, axis)}

    def copied(self, e):
        m = Mask(self.n)
        m.cond = self.cond
        return e.new(m)

    def table(self):
        return Table2(Plain(self.n), Plain(self.n), lambda i, j: (self.cond(i, j), tm.FALSE), "B")

    def get_attr(self, e, name):
        return self.table().get_attr(e, name)

    def length(self):
        return self.n

    def getitem(self, e, k):
        return self.table().getitem(e, k)

    def fill(self, cond, v):
        old = self.cond
        self.cond = (lambda i, j: tm.or_(cond(i, j), old(i, j))) if v else (lambda i, j: tm.and_(tm.not_(cond(i, j)), old(i, j)))

    def setitem(self, e, k, v):
        if not isinstance(k, Triangle) or not isinstance(v, bool) or ar.E().decide(tm.eq(k.n, self.n)) is not True:
            raise Unsupported("assignment to a mask")
        self.fill(k.cond, v)


class Triangle(Obj):
    def __init__(self, n, cond):
        self.kind = "triangle"
        self.n, self.cond = n, cond


def square(u):
    n = u.int("n_items", 1)
    return n, Table2(Plain(n), Plain(n), lambda i, j: (app("corr", i, j), app("corr_nan", i, j, sort="B")))


def shown(i, j, upper, diagonal):
    return tm.or_(tm.lt(j, i), tm.and_(upper, tm.lt(i, j)), tm.and_(diagonal, tm.eq(i, j)))


def c22_mask(u):
    n, corr = square(u)
    up, diag = app("show_upper", sort="B"), app("show_diagonal", sort="B")
    for v in each(u, CH + "._get_mask", (corr, up, diag)):
        m = condition(v, corr)
        i, j = tm.fresh("i", "I"), tm.fresh("j", "I")
        fs = [f for x in (i, j) for f in (tm.le(0, x), tm.lt(x, n))]
        u.check("exactly the requested triangle and diagonal are shown", tm.eq(tm.lift(m(i, j)), shown(i, j, up, diag)), fs)


def c22_plot_data(u):
    """trimming drops exactly the rows and columns in which nothing is shown"""
    n, corr = square(u)
    up, diag, trim = (app(x, sort="B") for x in ("show_upper", "show_diagonal", "trim"))
    r = app("rounding", sort="I")

    def mask(b):
        m = Mask(n)
        m.cond = lambda i, j: shown(i, j, up, diag)
        return u.e.new(m)

    wired(u, CH + "._get_mask", mask, corr=corr, show_upper_triangle=up, show_diagonal=diag)
    ok = lambda i, j: tm.and_(shown(i, j, up, diag), tm.not_(corr.cell(i, j)[1]))
    row = lambda i: ar.reduce_exists(Plain(n), lambda j: ok(i, j))
    col = lambda j: ar.reduce_exists(Plain(n), lambda i: ok(i, j))
    for v in each(u, CH + "._process_corr_data_for_plotting", (corr, r, up, diag, trim)):
        e = u.e
        if not isinstance(v, Table2):
            raise Unsupported("result")
        i, j = tm.fresh("i", "I"), tm.fresh("j", "I")
        fs = [f for x in (i, j) for f in (tm.le(0, x), tm.lt(x, n))]
        with e.assuming(fs):
            (gi, xi), (gj, xj) = at(v.rows, i), at(v.cols, j)
            u.check("rows that are kept", tm.eq(gi, tm.or_(tm.not_(trim), row(i))), fs)
            u.check("columns that are kept", tm.eq(gj, tm.or_(tm.not_(trim), col(j))), fs)
            val, nan = v.cell(xi, xj)
            fs = fs + [gi, gj]
            u.check("cells that are not to be shown are missing, all others are not", tm.eq(nan, tm.not_(ok(i, j))), fs)
            u.check("correlations are rounded", tm.implies(tm.not_(nan), tm.eq(val, app("rounded", corr.cell(i, j)[0], r))), fs)


def at(ax, i):
    """condition that position i of the table is on the (filtered) axis, and its index there"""
    if isinstance(ax, Plain):
        return tm.TRUE, i
    if isinstance(ax, Dom) and len(ax.axes) == 1:
        g, x = at(ax.axes[0], i)
        return tm.and_(g, tm.lift(ax.guard((x,)))), (x,)
    raise Unsupported("filtered axis")


# ------------------------------------------------------------------ option dictionaries
def overrides(u, run, fixed=None):
    """options of the user override defaults, and their dictionary is not modified

    run(options) -> (qual, args).  Bounded: the dictionary of the user is None, empty, has one key that is no default,
    or has all default keys and one more; all values are arbitrary.  The engine reads and writes entries of a dictionary
    only through its keys.
    """
    u.bounded("options override defaults")
    u.bounded("options are not modified")
    qual, args = run(None)
    paths = [v for v in each(u, qual, args)]
    for d0 in paths:
        if not isinstance(d0, dict):
            u.fail("a dictionary of options", str(d0)[:200])
            return
    if len(paths) != 1:
        raise Unsupported("defaults depend on the path")
    d0 = paths[0]
    for k, w in (fixed or {}).items():
        if k not in d0:
            u.fail("options override defaults", f"no entry {k}")
        else:
            u.same_value(f"the default for {k} is the given value", d0[k], w)
    cases = [{}, {"an_option": token("new option")}, dict({k: token(f"option {k}") for k in d0}, an_option=token("new option"))]
    cases += [{k: token(f"option {k}")} for k in d0]
    for user in cases:
        want = {**d0, **user}
        before = dict(user)
        e = u.engine()
        e.freeze(user)
        qual, args = run(user)
        for kind, v in u.run(qual, args, engine=e):
            if kind == "raise":
                u.fail("options override defaults", str(v))
                continue
            if not isinstance(v, dict):
                u.fail("a dictionary of options", str(v)[:200])
                continue
            if v is user or user != before:
                u.fail("options are not modified", "the dictionary of the user is returned or changed")
            else:
                u.ok("options are not modified")
            u.same_value("options override defaults", dict(v), want)


def c22_heatmap_kwargs(u, given):
    n, corr = square(u)
    cs, bar = token("colorscale"), token("show_color_bar")
    z = [token(x) for x in ("zmax", "zmin", "zmid")] if given else [u.real("a_zmax"), None, None]
    want = dict(zip(("zmax", "zmin", "zmid"), z if given else (z[0], ar.scalar(tm.neg(app("a_zmax"))), 0)))
    overrides(u, lambda user: (CH + "._get_heatmap_kwargs", (corr, user, cs, bar, *z)), {"colorscale": cs, "showscale": bar, **want})


def c22_layout_kwargs(u):
    n, corr = square(u)
    a = [token(x) for x in ("annotate", "fontsize", "color", "angle", "tick size", "tick angle", "tick color")]
    ann, ticks = token("annotations"), {"xaxis": token("xaxis"), "yaxis": token("yaxis")}
    wired(u, CH + "._get_annotations", {"annotations": ann}, df=corr, annotate=a[0], annotation_fontsize=a[1], annotation_text_color=a[2], annotation_text_angle=a[3])
    wired(u, CH + "._get_axes_ticks_kwargs", ticks, axes_tick_fontsize=a[4], axes_tick_label_angle=a[5], axes_tick_label_color=a[6])
    overrides(u, lambda user: (CH + "._get_layout_kwargs", (corr, user, *a)), {"annotations": ann, **ticks})


def c22_ticks(u, pair):
    v = {n: [token(n + " x"), token(n + " y")] for n in ("size", "angle", "color")}
    arg = lambda n: tuple(v[n]) if pair == "tuple" else list(v[n]) if pair == "list" else {"y": v[n][1], "x": v[n][0]}
    for r in each(u, CH + "._get_axes_ticks_kwargs", (arg("size"), arg("angle"), arg("color"))):
        u.same_value("ticks", r, {f"{x}axis": {"tickangle": v["angle"][i], "tickfont": {"color": v["color"][i], "size": v["size"][i]}} for i, x in enumerate("xy")})


UNITS = {
    "C22": [
        ("correlation_heatmap._get_measurement_data_for_single_period", c22_measurements),
        ("correlation_heatmap._get_quasi_factor_scores_data_for_single_period", c22_quasi),
        ("correlation_heatmap._get_factor_scores_data_for_single_period", c22_scores),
    ]
    + [(f"correlation_heatmap.{w}_for_multiple_periods", lambda u, w=w: c22_multiple(u, w)) for w in SINGLE]
    + [(f"correlation_heatmap.{w}", lambda u, w=w: c22_dispatch(u, w)) for w in SINGLE]
    + [
        (f"correlation_heatmap.{f}", lambda u, f=f, w=w: c22_corr(u, f, w))
        for f, w in [("get_measurements_corr", "_get_measurement_data"), ("get_quasi_scores_corr", "_get_quasi_factor_scores_data"), ("get_scores_corr", "_get_factor_scores_data")]
    ]
    + [(f"correlation_heatmap._process_factors, {g}", lambda u, g=g: c22_factors(u, g)) for g in ("None", "latent", "observed", "list")]
    + [(f"correlation_heatmap._process_periods, {g}", lambda u, g=g: c22_periods(u, g)) for g in ("None", "one", "list")]
    + [("correlation_heatmap._get_mask", c22_mask), ("correlation_heatmap._process_corr_data_for_plotting", c22_plot_data)]
    + [(f"correlation_heatmap._get_heatmap_kwargs, {g}", lambda u, g=g: c22_heatmap_kwargs(u, g == "limits given")) for g in ("limits given", "only zmax given")]
    + [("correlation_heatmap._get_layout_kwargs", c22_layout_kwargs)]
    + [(f"correlation_heatmap._get_axes_ticks_kwargs, {g}", lambda u, g=g: c22_ticks(u, g)) for g in ("tuple", "list", "dict")]
}
