"""Symbolic model of DataFrames made from arrays and of their concatenation (assumed contracts of pandas).

Wide: rows are those of an Index, columns are blocks (axis, label, cell) that come from one array,
plus single columns.  Stacked: pd.concat along axis 0 of one Wide per element of a symbolic list.
"""
import numpy as np
import pandas as pd

from . import arrays as ar
from . import lib
from . import pdmodel as pm
from . import terms as tm
from .arrays import Arr, Plain, Unsupported, as_arr
from .interp import Obj, PyRaise, Seg, list_axis, match_seg, subst_axis, subst_idx, subst_value
from .lib import NOATTR, reg
from .terms import T, num


class Col:
    """a block of columns: label(j) and cell(i, j) -> (value, nan) for j in axis; one column if axis is None"""

    def __init__(self, axis, label, cell, sort="R"):
        self.axis, self.label, self.cell, self.sort = axis, label, cell, sort

    def subst(self, m, facts, eng):
        w = lambda x: subst_value(x, m, facts, eng)

        def cell(i, j):
            if eng is not None and facts:
                with eng.assuming(list(facts)):
                    v, n = self.cell(i, j)
            else:
                v, n = self.cell(i, j)
            return tm.subst(v, m), tm.subst(n, m)

        ax = None if self.axis is None else subst_axis(self.axis, m)
        return Col(ax, (lambda j: w(self.label(j))), cell, self.sort)


def subst_index(ix, m, facts, eng):
    out = pm.Index([subst_value(r, m, facts, eng) for r in ix.rows], ix.names)
    out.complete = getattr(ix, "complete", None)
    return out


class Wide(Obj):
    def __init__(self, index, cols):
        self.kind = "DataFrame"
        self.index, self.cols = index, list(cols)
        self.methods = {
            "to_numpy": lambda e, **k: self.to_array("np"),
            "copy": lambda e, deep=True: e.new(Wide(self.index, self.cols)),
            "assign": self.assign,
        }

    def length(self):
        return tm.lift(ar.E().length(self.index.rows))

    def to_array(self, lib="np"):
        if any(c.axis is None for c in self.cols) and len(self.cols) > 1:
            raise Unsupported("array of mixed columns")
        if len(self.cols) != 1:
            raise Unsupported("array of several blocks")
        c = self.cols[0]
        ax = c.axis if c.axis is not None else Plain(1)
        return Arr([self.index.axis, ax], lambda i: c.cell(*i)[0], lambda i: c.cell(*i)[1], c.sort, lib)

    def labels(self):
        return [Seg(c.axis, c.label) if c.axis is not None else c.label(num(0)) for c in self.cols]

    def get_attr(self, e, name):
        if name == "index":
            return self.index
        if name == "columns":
            return e.new(pm.Index(self.labels(), [None]))
        if name == "values":
            return self.to_array()
        if name in ("loc", "xs"):
            return Loc(self)
        if name == "shape":
            return (tm.unlift(self.length()), tm.unlift(tm.lift(e.length(self.labels()))))
        return NOATTR

    def setitem(self, e, k, v):
        if isinstance(k, T) or e.owner_depth(self) < len(e.frames):
            e.mutate(self, "column", (k, self.column(e, k, v)))
            return
        if not isinstance(k, str):
            raise Unsupported("column assignment")
        self.cols = [c for c in self.cols if not self.is_label(e, c, k)] + [self.column(e, k, v)]

    def apply(self, e, op, payload):
        k, col = payload
        if op != "column":
            raise Unsupported(op)
        if not isinstance(k, T):
            self.cols = [c for c in self.cols if not self.is_label(e, c, k)] + [col]
            return
        raise Unsupported("assignment to a column with a symbolic label")

    def generalise(self, e, entries, axis, g, facts, conv):
        """a loop over the labels of a block of columns replaces the columns of the block"""
        if e.owner_depth(self) < len(e.frames) or len(entries) != 1 or entries[0][0] is not tm.TRUE:
            raise Unsupported("column assignment in a symbolic loop")
        _, op, (k, col), fs = entries[0]
        if op != "column":
            raise Unsupported(op)
        for n, c in enumerate(self.cols):
            if c.axis is None:
                with e.assuming(list(facts)):
                    if e.decide(tm.lift(e.equal(c.label(num(0)), k))) is not False:
                        raise Unsupported("a loop assigns to a single column")
                continue
            if not ar.same_axis(c.axis, axis):
                continue
            with e.assuming(list(facts)):
                if e.decide(tm.lift(e.equal(c.label(g), k))) is not True:
                    continue
            gf = ar.flat(g)

            def cell(i, j):
                m = dict(zip(gf, ar.flat(conv(j))))
                with e.assuming([tm.subst(f, m) for f in fs]):
                    v, nan = col.cell(i, num(0))
                return tm.subst(v, m), tm.subst(nan, m)

            self.cols[n] = Col(c.axis, c.label, cell, col.sort)
            return
        raise Unsupported("columns assigned in a loop")

    def is_label(self, e, c, k):
        if c.axis is None:
            r = e.equal(c.label(num(0)), k)
        else:
            # labels of the blocks are names of variables or factors: no reserved column name
            for g, fs in c.axis.generic("q"):
                with e.assuming(fs):
                    if e.decide(tm.lift(e.equal(c.label(g), k))) is True:
                        raise Unsupported("assignment to a column of a block")
            return False
        if isinstance(r, T):
            raise Unsupported("undetermined column label")
        return bool(r)

    def column(self, e, k, v):
        if isinstance(v, (int, float, T)) and not isinstance(v, bool):
            t = tm.lift(v)
            return Col(None, lambda j: k, lambda i, j: (t, tm.FALSE), t.sort)
        if isinstance(v, Arr) and v.ndim == 1:
            e.require(tm.eq(v.axes[0].size(), self.length()), "length of the new column")
            try:
                inv = pos_map(self.index.axis, v.axes[0])
            except Unsupported:
                inv = lambda i: v.axes[0].from_int(self.index.axis.to_int(i))
            return Col(None, lambda j: k, lambda i, j: v.el((inv(i),)), v.sort)
        if isinstance(v, pm.Index) and v is self.index and len(v.names) == 1:
            s = tm.lift(v.fn(v.axis.generic()[0][0])).sort
            return Col(None, lambda j: k, lambda i, j: (tm.lift(v.fn(i)), tm.FALSE), s)
        if isinstance(v, pm.Series) and (v.index is self.index or ar.same_axis(v.index.axis, self.index.axis)):
            n = v.nan or (lambda i: tm.FALSE)
            return Col(None, lambda j: k, lambda i, j: (v.val(i), n(i)), v.sort)
        raise Unsupported("new column")

    def assign(self, e, **k):
        w = e.new(Wide(self.index, self.cols))
        for n, v in k.items():
            w.setitem(e, n, v)
        return w

    def find(self, e, k):
        """column with label k"""
        for c in reversed(self.cols):
            if c.axis is None:
                r = e.decide(tm.lift(e.equal(c.label(num(0)), k)))
                if r is True:
                    return c
                if r is None:
                    raise Unsupported("undetermined column label")
            else:
                j = match_seg(e, Seg(c.axis, c.label), k) if isinstance(k, T) else None
                if j is not None:
                    return Col(None, lambda _: k, lambda i, _, c=c: c.cell(i, j), c.sort)
                for g, fs in c.axis.generic("q"):
                    with e.assuming(fs):
                        if e.decide(tm.lift(e.equal(c.label(g), k))) is not False:
                            raise Unsupported("undetermined column label")
        raise PyRaise(KeyError, (k,))

    def getitem(self, e, k):
        for f in e.frames[e.owner_depth(self):]:
            f.reads.add(id(self))
        if isinstance(k, (str, T)):
            c = self.find(e, k)
            return pm.Series(self.index, lambda i: c.cell(i, num(0))[0], lambda i: c.cell(i, num(0))[1], c.sort)
        if isinstance(k, (list, pm.Index)) and not (isinstance(k, pm.Index) and k.names != [None]):
            return e.new(Wide(self.index, [self.select(e, x) for x in e.entries(k)]))
        raise Unsupported("column selection")

    def select(self, e, x):
        if not isinstance(x, Seg):
            return self.find(e, x)
        for c in self.cols:
            if c.axis is not None and ar.same_axis(c.axis, x.axis):
                (g, fs), *rest = c.axis.generic("q")
                with e.assuming(fs):
                    if not rest and e.decide(tm.lift(e.equal(c.label(g), x.fn(g)))) is True:
                        return Col(x.axis, x.fn, c.cell, c.sort)
        raise Unsupported("selection of symbolically many columns")

    def subst(self, m, facts, eng):
        return Wide(subst_index(self.index, m, facts, eng), [c.subst(m, facts, eng) for c in self.cols])


class Loc(Obj):
    def __init__(self, frame):
        self.kind = "loc"
        self.frame = frame

    def getitem(self, e, k):
        f = self.frame
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], ar.Slice) and (k[1].start, k[1].stop, k[1].step) == (None, None, None):
            k = k[0]
        if not isinstance(k, (int, T)) or len(f.index.names) < 2:
            raise Unsupported("loc")
        sub = f.index.select(e, lambda lab: e.equal(lab[0], k))
        n = tm.lift(e.length(sub.rows)) if sub.rows else num(0)
        complete = getattr(f.index, "complete", None)
        if not (complete is not None and complete(e, tm.lift(k))):
            if n is num(0) or not e.branch(tm.lt(0, n)):
                raise PyRaise(KeyError, (k,))
        drop = lambda lab: lab[1] if len(lab) == 2 else tuple(lab[1:])
        rows = [Seg(r.axis, lambda i, r=r: drop(r.fn(i))) if isinstance(r, Seg) else drop(r) for r in sub.rows]
        to = sub.to_parent
        ix = e.new(pm.Index(rows, f.index.names[1:]))
        cols = [Col(c.axis, c.label, lambda i, j, c=c: c.cell(to(i), j), c.sort) for c in f.cols]
        return e.new(Wide(ix, cols))


def make_wide(e, data, index, columns):
    a = as_arr(data)
    if a.ndim != 2:
        raise Unsupported("pd.DataFrame of an array that is not two-dimensional")
    if index is None:
        ix = pm.Index([Seg(a.axes[0], a.axes[0].to_int)], [None])
        row = lambda i: i
    else:
        ix = index if isinstance(index, pm.Index) else pm.Index(e.entries(index), [None])
        e.require(tm.eq(a.axes[0].size(), tm.lift(e.length(ix.rows))), "the index has one entry per row of the data")
        row = pos_map(ix.axis, a.axes[0])
    if columns is None:
        if a.axes[1].size() is not num(1):
            raise Unsupported("pd.DataFrame without column names")
        return e.new(Wide(ix, [Col(None, lambda j: 0, lambda i, j: a.el((row(i), a.axes[1].from_int(num(0)))), a.sort)]))
    labels = e.entries(columns)
    lax, lfn = list_axis(labels)
    e.require(tm.eq(a.axes[1].size(), lax.size()), "one column name per column of the data")
    col = pos_map(lax, a.axes[1])
    return e.new(Wide(ix, [Col(lax, lfn, lambda i, j: a.el((row(i), col(j))), a.sort)]))


def pos_map(src, dst):
    """index of dst at the same position as an index of src"""
    if src is dst or ar.same_axis(src, dst):
        return lambda i: i
    ax, f, g = ar.unify(src, dst)
    if ax is src:
        return g
    return lambda i: dst.from_int(src.to_int(i))


_old_frame = lib.LIB[id(pd.DataFrame)]


@reg(pd.DataFrame)
def _frame(e, data=None, index=None, columns=None, **k):
    if isinstance(data, Arr) and not k:
        return make_wide(e, data, index, columns)
    if isinstance(data, dict) and data and index is None and columns is None and all(isinstance(x, Grouped) for x in data.values()):
        return e.new(GroupedTable(list(data.values()), list(data)))
    return _old_frame(e, data, index, columns, **k)


class StackedIndex(Obj):
    def __init__(self, st):
        self.kind = "index of a concatenation"
        self.st = st


class Stacked(Obj):
    """rows of frame(t) for all t; extra columns; order: None or the list of labels it is sorted by"""

    def __init__(self, seg, ignore_index=False, keys=None):
        self.kind = "concatenated DataFrame"
        self.seg, self.extra, self.order, self.ignore = seg, {}, None, ignore_index
        self.methods = {"sort_values": self.sort_values, "copy": lambda e, deep=True: self.copied(e)}

    def copied(self, e):
        s = Stacked(self.seg, self.ignore)
        s.extra, s.order = dict(self.extra), self.order
        return e.new(s)

    def get_attr(self, e, name):
        if name == "index" and not self.ignore:
            return StackedIndex(self)
        return NOATTR

    def setitem(self, e, k, v):
        if e.frames or not isinstance(k, str):
            raise Unsupported("column assignment")
        if isinstance(v, StackedIndex) and v.st is self:
            self.extra[k] = "index"
            return
        raise Unsupported("column assignment to a concatenated table")

    def sort_values(self, e, by, inplace=False, **k):
        by = list(e.entries(by)) if not isinstance(by, str) else [by]
        if e.frames or any(not isinstance(x, str) for x in by) or k:
            raise Unsupported("sort_values")
        s = self if inplace else self.copied(e)
        s.order = by
        return None if inplace else s


class Grouped(Obj):
    """value per group of a table: aggregate how of the column label"""

    def __init__(self, table, by, how, label, name=None):
        self.kind = "aggregated column"
        self.table, self.by, self.how, self.label = table, by, how, label
        self.name = label if name is None else name
        self.methods = {"rename": lambda e, n: e.new(Grouped(table, by, how, label, n)), "copy": lambda e, deep=True: self}

    def subst(self, m, facts, eng):
        w = lambda x: subst_value(x, m, facts, eng)
        return Grouped(self.table, self.by, self.how, w(self.label), w(self.name))


class GroupedTable(Obj):
    """columns that are aggregates over the same groups"""

    def __init__(self, cols, names):
        self.kind = "aggregated table"
        self.cols, self.names = list(cols), list(names)

    def get_attr(self, e, name):
        return e.new(pm.Index(list(self.names), [None])) if name == "columns" else NOATTR

    def set_attr(self, e, name, v):
        if name != "columns":
            raise Unsupported("attribute assignment")
        e.mutate(self, "columns", list(e.entries(v)))

    def apply(self, e, op, payload):
        if len(payload) != len(self.cols):
            raise ar.CodeError("one name per column")
        self.names = list(payload)

    def subst(self, m, facts, eng):
        return GroupedTable([c.subst(m, facts, eng) for c in self.cols], [subst_value(n, m, facts, eng) for n in self.names])


def groupby(table):
    """groupby of a table that is used through its columns only"""

    def call(e, by, **k):
        if k or not isinstance(by, str):
            raise Unsupported("groupby")

        def agg(how):
            return lambda e: Obj("aggregated columns", getitem=lambda e, c: e.new(Grouped(table, by, how, c)))

        def item(e, c):
            if isinstance(c, (list, pm.Index)):
                raise Unsupported("selection of grouped columns")
            one = lambda how: lambda e: e.new(Grouped(table, by, how, c))

            def several(e, fs):
                return e.new(GroupedTable([Grouped(table, by, f, c) for f in e.entries(fs)], list(e.entries(fs))))

            return Obj("grouped column", methods={"min": one("min"), "max": one("max"), "agg": several})

        return Obj("groupby", methods={"min": agg("min"), "max": agg("max")}, getitem=item)

    return call


@reg(pd.concat)
def _concat(e, objs, axis=0, sort=False, ignore_index=False, **k):
    es = e.entries(objs)
    if axis in (1, "columns") and es and all(isinstance(x, Grouped) for x in es) and set(k) <= {"keys"} and not ignore_index:
        names = e.entries(k["keys"]) if k.get("keys") is not None else [x.name for x in es]
        return e.new(GroupedTable(es, names))
    if axis not in (0, "index") or k or len(es) != 1 or not isinstance(es[0], Seg):
        raise Unsupported("pd.concat")
    return e.new(Stacked(es[0], ignore_index))
