"""Symbolic models of the pandas objects used by the package (assumed contracts of pandas).

An Index is a list of row labels (with symbolic segments).  A Frame has an Index, column
labels and a cell function.  Selections keep the connection to the rows they came from.
"""
import ast
import re

import numpy as np
import pandas as pd

from . import arrays as ar
from . import terms as tm
from .arrays import Arr, Cat, CodeError, Comp, Dom, Plain, Unsupported, as_arr, flat
from .interp import DepAxis, Native, Obj, PyRaise, Seg, axis_list, list_axis, subst_idx
from .lib import CLSATTR, reg
from .terms import T, app, num


class PosTok(tuple):
    """position (structured index) of a row in an Index"""

    owner = None

    def subst(self, m):
        return postok(self.owner, subst_idx(self[1], m))


def postok(owner, idx):
    p = PosTok(("pos", idx))
    p.owner = owner
    return p


class Index(Obj):
    def __init__(self, rows, names, parent=None, to_parent=None):
        self.kind = "Index"
        self.rows, self.names = list(rows), list(names)
        self.parent, self.to_parent = parent, to_parent
        self.axis, self.fn = list_axis(self.rows)
        self.methods = {"get_level_values": self.level_values, "to_list": lambda e: e.new(list(self.rows)), "tolist": lambda e: e.new(list(self.rows))}

    def entries(self):
        return self.rows

    def length(self):
        return tm.lift(ar.E().length(self.rows))

    def get_attr(self, e, name):
        from .lib import NOATTR

        if name == "names":
            return e.new(list(self.names))
        if name == "empty":
            return e.truth(tm.eq(tm.lift(e.length(self.rows)), 0))
        return NOATTR

    def some(self, e, k):
        """a row whose label (its first level) is k"""
        first = lambda lab: lab[0] if isinstance(lab, tuple) else lab
        return ar.reduce_exists(self.axis, lambda i: tm.lift(e.equal(first(self.fn(i)), k)))

    def contains(self, e, k):
        if isinstance(k, (list, tuple)):
            raise Unsupported("membership of a tuple in an index")
        return self.some(e, k)

    def getitem(self, e, k):
        if isinstance(k, ar.Slice) and k.stop == 0 and k.start in (None, 0) and k.step in (None, 1):
            return Index([], self.names)
        if k == -1 and "last_row" in e.hooks:
            return e.hooks["last_row"](e, self)
        raise Unsupported("row of an index")

    def level_pos(self, lev):
        if isinstance(lev, int):
            return lev
        if lev in self.names:
            return self.names.index(lev)
        raise PyRaise(KeyError, (lev,))

    def level_values(self, e, lev):
        k = self.level_pos(lev)
        return LevelValues(self, k)

    def root(self):
        """(root index, map of a row index to the root's row index)"""
        if self.parent is None:
            return self, lambda i: i
        r, f = self.parent.root()
        return r, lambda i: f(self.to_parent(i))

    def select(self, e, cond):
        """sub-index of the rows with cond(label)"""
        out, conv = [], []
        ax = self.axis
        pieces = [(k, a) for k, a in enumerate(ax.axes)] if isinstance(ax, Cat) else [(None, ax)]
        for k, a in pieces:
            wrap = (lambda i, k=k: ("cat", k, i)) if k is not None else (lambda i: i)
            for sub, f in select_axis(e, a, lambda i: tm.lift(cond(self.fn(wrap(i))))):
                out.append((sub, lambda i, f=f, wrap=wrap: wrap(f(i))))
        rows = [Seg(s, lambda i, f=f: self.fn(f(i))) for s, f in out]
        fs = [f for _, f in out]
        if len(rows) == 1:
            return Index(rows, self.names, self, fs[0])
        return Index(rows, self.names, self, (lambda i: fs[i[1]](i[2])) if rows else None)


def select_axis(e, ax, cond):
    """[(axis, map)] of the indices of ax that satisfy cond"""
    if isinstance(ax, Plain) and tm.is_num(ax.n):
        keep = []
        for j in range(int(ax.n.args[0])):
            c = cond(num(j))
            d = True if c is tm.TRUE else (False if c is tm.FALSE else e.decide(c))
            if d is None:
                raise Unsupported("selection from constant rows is not determined")
            if d:
                keep.append(j)
        if not keep:
            return []
        if keep == list(range(keep[0], keep[-1] + 1)):
            return [(Plain(len(keep)), lambda i: tm.add(i, keep[0]))]
        return [(Plain(1), lambda i, j=j: num(j)) for j in keep]
    cases = ax.generic("q")
    if len(cases) == 1:
        i, fs = cases[0]
        with e.assuming(fs):
            c = cond(i)
            d = True if c is tm.TRUE else (False if c is tm.FALSE else e.decide(c))
        if d is True:
            return [(ax, lambda i: i)]
        if d is False:
            return []
        if isinstance(ax, DepAxis) and isinstance(i[0], T):
            from .interp import solve_eq

            sol = solve_eq(c, i[0]) if c.op == "eq0" else None
            if sol is not None and not (set(flat(i[1])) & set(sol.fv)):
                with e.assuming([]):
                    if e.decide(tm.and_(*[tm.subst(f, {i[0]: sol}) for g, f_ in ax.outer.generic("q") for f in [tm.subst(h, {g: sol}) for h in f_]])) is True:
                        return [(ax.inner(sol), lambda j: (sol, j))]
        if isinstance(ax, Comp):
            return [(Dom(ax.axes, lambda j: cond(j)), lambda j: j)]
        return [(Dom([ax], lambda j: cond(j[0])), lambda j: j[0])]
    if isinstance(ax, DepAxis):
        out = []
        for k, (i, fs) in enumerate(cases):
            with e.assuming(fs):
                c = cond(i)
                d = True if c is tm.TRUE else (False if c is tm.FALSE else e.decide(c))
            if d is None:
                raise Unsupported("selection of rows")
            if d:
                out.append(k)
        if len(out) == 1:
            return [ar.case_axis(ax, out[0])]
        if not out:
            return []
        if len(out) == len(cases):
            return [(ax, lambda i: i)]
    if isinstance(ax, Cat):
        out = []
        for k, a in enumerate(ax.axes):
            for s, f in select_axis(e, a, lambda i, k=k: cond(("cat", k, i))):
                out.append((s, lambda i, f=f, k=k: ("cat", k, f(i))))
        return out
    raise Unsupported("selection of rows")


class LevelValues(Obj):
    """values of one level of an index, also usable as a Series of labels"""

    def __init__(self, index, k):
        self.kind = "level values"
        self.index, self.k = index, k
        self.methods = {
            "to_numpy": lambda e, **kw: self.to_array(), "to_list": lambda e: e.new(self.entries()), "tolist": lambda e: e.new(self.entries()),
            "unique": self.unique, "drop_duplicates": self.unique,
        }

    def unique(self, e):
        h = e.hooks.get("unique_level")
        if h is None:
            raise Unsupported("distinct labels")
        return Index(h(e, self), [None])

    def to_array(self, lib="np"):
        i = self.index.axis.generic("q")[0][0]
        s = tm.lift(self.index.fn(i)[self.k]).sort
        return Arr([self.index.axis], lambda i: tm.lift(self.index.fn(i[0])[self.k]), None, s, lib)

    def entries(self):
        return [Seg(x.axis, lambda i, x=x: x.fn(i)[self.k]) if isinstance(x, Seg) else x[self.k] for x in self.index.rows]


# ------------------------------------------------------------------ series and frames
class Series(Obj):
    """values per row of an index"""

    def __init__(self, index, val, nan=None, sort="R"):
        self.kind = "Series"
        self.index, self.val, self.nan, self.sort = index, val, nan, sort
        self.methods = {
            "to_numpy": lambda e, **k: self.to_array("np"),
            "copy": lambda e, deep=True: self,
            "shift": self.shift,
            "replace": self.replace,
            "diff": lambda e, periods=1: self.binop(e, "-", self.shift(e, periods), False),
            "notnull": lambda e: self.isnull(e, True), "notna": lambda e: self.isnull(e, True),
            "isnull": lambda e: self.isnull(e, False), "isna": lambda e: self.isnull(e, False),
            "tolist": lambda e: e.new(axis_list(self.index.axis, self.val)), "to_list": lambda e: e.new(axis_list(self.index.axis, self.val)),
            "astype": self.astype,
            "eq": lambda e, o: self.compare(e, "==", o, False), "ne": lambda e, o: self.compare(e, "!=", o, False),
        }

    def astype(self, e, t):
        if t in (bool, "bool") and self.sort == "B":
            return self
        if t in (int, "int", "int64") and self.sort == "I":
            return self
        raise Unsupported("astype")

    def isnull(self, e, neg):
        f = (lambda i: self.nan(i)) if self.nan else (lambda i: tm.FALSE)
        return Series(self.index, (lambda i: tm.not_(f(i))) if neg else f, None, "B")

    def shift(self, e, periods=1, fill_value=None):
        p = tm.lift(periods)
        ax = self.index.axis
        if not isinstance(ax, Plain) or self.sort not in "IR":
            raise Unsupported("shift")
        src = lambda i: tm.sub(i, p)
        ok = lambda i: tm.and_(tm.le(0, src(i)), tm.lt(src(i), ax.n))
        old = self.nan or (lambda i: tm.FALSE)
        if fill_value is not None:
            fv = tm.lift(fill_value)
            return Series(self.index, lambda i: tm.ite(ok(i), self.val(src(i)), fv), lambda i: tm.and_(ok(i), old(src(i))), self.sort)
        return Series(self.index, lambda i: self.val(src(i)), lambda i: tm.or_(tm.not_(ok(i)), old(src(i))), self.sort)

    def replace(self, e, a=None, b=None, **k):
        a, b = k.get("to_replace", a), k.get("value", b)
        if not isinstance(a, (T, int, str)) or not isinstance(b, (T, int, str)):
            raise Unsupported("replace")
        return Series(self.index, lambda i: tm.ite(tm.eq(self.val(i), a), tm.lift(b), self.val(i)), self.nan, self.sort)

    def binop(self, e, op, other, swapped):
        if isinstance(other, Series):
            if other.index is not self.index and not (ar.same_axis(other.index.axis, self.index.axis) and other.index.names == self.index.names == [None]):
                raise Unsupported("arithmetic of Series with different indices")
            o = other.to_array()
        elif isinstance(other, (T, int, float, bool)):
            o = other
        elif isinstance(other, Arr) and other.ndim == 1 and ar.same_axis(other.axes[0], self.index.axis):
            o = other  # by position
        else:
            raise Unsupported("arithmetic of a Series")
        x = self.to_array()
        r = e.arr_binop(op, o, x) if swapped else e.arr_binop(op, x, o)
        return Series(self.index, lambda i: r.el((i,))[0], (lambda i: r.el((i,))[1]) if r.nan else None, r.sort)

    def unop(self, e, op):
        if op == "~" and self.sort == "B":
            return Series(self.index, lambda i: tm.not_(self.val(i)), None, "B")
        raise Unsupported("operator on a Series")

    def to_array(self, lib="np"):
        return Arr([self.index.axis], lambda i: self.val(i[0]), (lambda i: self.nan(i[0])) if self.nan else None, self.sort, lib)

    def get_attr(self, e, name):
        from .lib import NOATTR

        if name == "loc":
            return Loc(self)
        if name == "index":
            return self.index
        if name == "values":
            return self.to_array()
        return NOATTR

    def compare(self, e, op, other, swapped):
        if isinstance(other, (str, T, int)) and op in ("Eq", "NotEq", "==", "!="):
            neg = op in ("NotEq", "!=")
            nn = self.nan or (lambda i: tm.FALSE)
            f = lambda i: tm.or_(nn(i), tm.not_(tm.eq(self.val(i), other))) if neg else tm.and_(tm.not_(nn(i)), tm.eq(self.val(i), other))
            return Series(self.index, f, None, "B")
        if isinstance(other, (Series, T, int, float)):
            r = self.binop(e, op, other, swapped)
            return Series(self.index, r.val, None, "B")
        raise Unsupported("comparison of a Series")


class Loc(Obj):
    def __init__(self, sr):
        self.kind = "loc"
        self.sr = sr

    def getitem(self, e, k):
        sr = self.sr
        if isinstance(k, Index):
            root, f = k.root()
            base, g = sr.index.root()
            if root is not base or sr.index.parent is not None:
                raise Unsupported("loc with an index of other rows")
            return Series(k, lambda i: sr.val(f(i)), (lambda i: sr.nan(f(i))) if sr.nan else None, sr.sort)
        if isinstance(k, (str, T)):
            sub = sr.index.select(e, lambda lab: e.equal(lab[0], k))
            n = tm.lift(e.length(sub.rows)) if sub.rows else num(0)
            if n is num(0) or not e.branch(tm.lt(0, n)):
                raise PyRaise(KeyError, (k,))
            return Series(sub, lambda i: sr.val(sub.to_parent(i)), (lambda i: sr.nan(sub.to_parent(i))) if sr.nan else None, sr.sort)
        raise Unsupported("loc")


class FrameLoc(Obj):
    def __init__(self, df):
        self.kind = "loc"
        self.df = df

    def getitem(self, e, k):
        """the rows whose first index level is k; that level is dropped"""
        df = self.df
        if isinstance(k, (list, tuple, Obj)) or isinstance(k, ar.Slice):
            raise Unsupported("loc of a table")
        k = tm.lift(k)
        if len(df.index.names) != 2:
            raise Unsupported("loc of a table")
        if not e.branch(df.index.some(e, k)):
            raise PyRaise(KeyError, (k,))
        sub = df.filter(e, lambda i: tm.lift(e.equal(df.index.fn(i)[0], k)))
        fn = sub.index.fn
        idx = Index([Seg(s.axis, lambda i, s=s: s.fn(i)[1]) if isinstance(s, Seg) else s[1] for s in sub.index.rows], sub.index.names[1:], df.index, sub.index.to_parent)
        return Frame(idx, sub.cols, sub.cell, sub.sort)


class Frame(Obj):
    """cell(row index, column label) -> term; cols: list of labels"""

    def __init__(self, index, cols, cell, sort=lambda c: "R"):
        self.kind = "DataFrame"
        self.index, self.cols, self.cell, self.sort = index, list(cols), cell, sort
        self.methods = {
            "query": self.query,
            "to_numpy": lambda e, **k: self.to_array("np"),
            "any": self.any_,
            "copy": lambda e, deep=True: Frame(self.index, self.cols, self.cell, self.sort),
            "reset_index": self.reset_index,
        }

    def length(self):
        return tm.lift(ar.E().length(self.index.rows))

    def to_array(self, lib="np"):
        ax, fn = list_axis(self.cols)
        s = {self.sort(x.fn(x.axis.generic()[0][0]) if isinstance(x, Seg) else x) for x in self.cols}
        return Arr([self.index.axis, ax], lambda i: self.cell(i[0], fn(i[1])), None, s.pop() if len(s) == 1 else "S", lib)

    def get_attr(self, e, name):
        from .lib import NOATTR

        if name == "index":
            return self.index
        if name == "columns":
            return e.new(list(self.cols))
        if name == "values":
            return self.to_array()
        if name == "loc":
            return FrameLoc(self)
        return NOATTR

    def getitem(self, e, k):
        if isinstance(k, (list, tuple)):
            return Frame(self.index, e.entries(k), self.cell, self.sort)
        if isinstance(k, Series):
            if k.index is not self.index:
                raise Unsupported("boolean selection with another index")
            return self.filter(e, lambda i: ar.tobool(k.val(i)))
        if isinstance(k, (str, T)):
            return Series(self.index, lambda i: self.cell(i, k), None, self.sort(k))
        raise Unsupported("column selection")

    def any_(self, e, axis=0):
        if axis not in (0, "index"):
            raise Unsupported("any over columns")
        ax, fn = list_axis(self.cols)
        a = self.to_array()
        col = Index(self.cols, ["columns"])
        return Series(col, lambda j: ar.reduce_exists(self.index.axis, lambda i: ar.tobool(self.cell(i, fn(j)))), None, "B")

    def reset_index(self, e, level=None, drop=False):
        """the index levels become columns, the rows are numbered"""
        ix = self.index
        if level is not None or any(n in (None, "index") or any(isinstance(c, str) and c == n for c in self.cols) for n in ix.names):
            raise Unsupported("reset_index")
        part = (lambda i, n: ix.fn(i)) if len(ix.names) == 1 else (lambda i, n: ix.fn(i)[ix.names.index(n)])
        new = Index([Seg(ix.axis, ix.axis.to_int)], [None])
        is_level = lambda c: isinstance(c, str) and c in ix.names
        cell = lambda i, c: part(i, c) if is_level(c) else self.cell(i, c)
        sort = lambda c: tm.lift(part(ix.axis.generic()[0][0], c)).sort if is_level(c) else self.sort(c)
        return Frame(new, ([] if drop else list(ix.names)) + self.cols, cell, sort)

    def filter(self, e, cond):
        out, fs = [], []
        for s, f in select_axis(e, self.index.axis, cond):
            out.append(Seg(s, lambda i, f=f: self.index.fn(f(i))))
            fs.append(f)
        to = fs[0] if len(fs) == 1 else (lambda i: fs[i[1]](i[2]))
        idx = Index(out, self.index.names, self.index, to)
        return Frame(idx, self.cols, lambda i, c: self.cell(to(i), c), self.sort)

    def query(self, e, text):
        tree, holes = parse_query(text)
        if isinstance(self.index.fn, type(None)):
            raise Unsupported("query")
        return self.filter(e, lambda i: eval_query(e, tree, holes, lambda n: self.lookup(i, n)))

    def lookup(self, i, n):
        if n in self.index.names:
            lab = self.index.fn(i)
            return lab[self.index.names.index(n)] if isinstance(lab, tuple) else lab
        for c in self.cols:
            if isinstance(c, str) and c == n:
                return self.cell(i, n)
        if isinstance(n, T):
            return self.cell(i, n)
        raise Unsupported(f"query name {n}")


def parse_query(text):
    holes = {}
    if isinstance(text, T) and text.op == "fstr":
        s = ""
        for k, p in enumerate(text.args):
            if p.op == "str":
                s += p.args[0]
            else:
                holes[f"HOLE{k}"] = p
                s += f"HOLE{k}"
    elif isinstance(text, str):
        s = text
    else:
        raise Unsupported("query text")
    s = re.sub(r"&", " and ", s)
    s = re.sub(r"\|", " or ", s)
    try:
        return ast.parse(s.strip(), mode="eval").body, holes
    except SyntaxError:
        raise Unsupported(f"query {s!r}")


def eval_query(e, t, holes, look):
    if isinstance(t, ast.BoolOp):
        vs = [eval_query(e, v, holes, look) for v in t.values]
        return tm.and_(*vs) if isinstance(t.op, ast.And) else tm.or_(*vs)
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        a, b = (qval(e, x, holes, look) for x in (t.left, t.comparators[0]))
        eq = tm.lift(e.equal(a, b))
        if isinstance(t.ops[0], ast.Eq):
            return eq
        if isinstance(t.ops[0], ast.NotEq):
            return tm.not_(eq)
        if all(isinstance(x, int) or (isinstance(x, T) and x.sort in "IR") for x in (a, b)):
            order = {ast.Lt: lambda: tm.lt(a, b), ast.LtE: lambda: tm.le(a, b), ast.Gt: lambda: tm.lt(b, a), ast.GtE: lambda: tm.le(b, a)}
            if type(t.ops[0]) in order:
                return order[type(t.ops[0])]()
    raise Unsupported("query expression")


def qval(e, x, holes, look):
    if isinstance(x, ast.Name):
        if x.id in holes:
            h = holes[x.id]
            return h if h.sort == "I" else look(h)
        return look(x.id)
    if isinstance(x, ast.Constant):
        if isinstance(x.value, str) and x.value in holes:
            return holes[x.value]
        if isinstance(x.value, str) and "HOLE" in x.value:
            parts = []
            for p in re.split(r"(HOLE\d+)", x.value):
                if p:
                    parts.append(holes.get(p, p))
            return e.join_str(parts)
        return x.value
    raise Unsupported("query term")


# ------------------------------------------------------------------ constructors
def _from_tuples(e, args, kw):
    rows = e.entries(args[0] if args else kw["tuples"])
    names = kw.get("names", args[2] if len(args) > 2 else None)
    return e.new(Index(rows, names if names is None else e.entries(names)))


CLSATTR[(pd.MultiIndex, "from_tuples")] = _from_tuples


@reg(pd.Series)
def _series(e, data=None, index=None, **k):
    if index is None and isinstance(data, LevelValues):
        data = data.to_array()
    if index is None and isinstance(data, Arr) and data.ndim == 1:
        ax = data.axes[0]
        return Series(Index([Seg(ax, lambda i: i)], [None]), lambda i: data.el((i,))[0], (lambda i: data.el((i,))[1]) if data.nan else None, data.sort)
    if isinstance(index, Index) and isinstance(data, Arr) and data.ndim == 1:
        # the only supported data: positions 0..n-1
        (g, f), = data.axes[0].generic("g") if isinstance(data.axes[0], Plain) else [(None, None)]
        if g is None or data.fn((g,)) is not g:
            raise Unsupported("Series of arbitrary data")
        e.require(tm.eq(data.axes[0].size(), tm.lift(e.length(index.rows))), "length of the data equals the length of the index")
        return Series(index, lambda i: postok(index, i), None, "I")
    raise Unsupported("pd.Series")


@reg(pd.DataFrame)
def _frame(e, data=None, index=None, columns=None, **k):
    if data is None and columns is None and index is None and not k and "empty_frame" in e.hooks:
        return e.hooks["empty_frame"](e)
    if data is None and columns is None and isinstance(index, Index):
        return Frame(index, [], lambda i, c: num(0))
    if data is None and not k and isinstance(index, Index) and not index.rows and columns is not None and len(index.names) > 1:
        return e.new(Table(e, index.names, e.entries(columns)))
    raise Unsupported("pd.DataFrame")


# ------------------------------------------------------------------ a table filled cell by cell
class Table(Obj):
    """an initially empty DataFrame that is filled by `.loc[row, column] = value`

    pandas contract: the write log decides the table.  A write to a new row label appends the row;
    the columns are those of the constructor; a cell holds the last value written to it and is
    missing if there is none.
    """

    def __init__(self, e, names, cols):
        self.kind = "table"
        self.names, self.cols = list(names), list(cols)
        self.log, self.casts = e.new([]), e.new([])
        self.fill = None
        self.methods = {"fillna": self.fillna, "copy": lambda e, deep=True: self.copied(e), "to_string": lambda e, **k: e.hooks["report"](e, self)}

    def length(self):
        """only whether there are rows is determined: there is a row iff something was written"""
        e = ar.E()
        e.note_read(self.log)
        some = []
        for x in e.entries(self.log):
            if not isinstance(x, Seg):
                return tm.add(1, app("more_rows", sort="I"))
            some.append(ar.reduce_exists(x.axis, lambda i: tm.TRUE))
        return tm.add(1, app("more_rows", sort="I")) if some and e.branch(tm.or_(*some)) else num(0)

    def copied(self, e):
        t = Table(e, self.names, self.cols)
        for x, y in ((t.log, self.log), (t.casts, self.casts)):
            e.note_read(y)
            list.extend(x, y)
        t.fill = self.fill
        return e.new(t)

    def fillna(self, e, value=None, inplace=False, **k):
        if e.frames or k or not isinstance(value, (bool, int, float, str)):
            raise Unsupported("fillna")
        t = self if inplace else self.copied(e)
        if t.fill is None:
            t.fill = (value, len(t.log))
        return None if inplace else t

    def get_attr(self, e, name):
        from .lib import NOATTR

        if name == "loc":
            return TableLoc(self)
        if name == "columns":
            return e.new(list(self.cols))
        return NOATTR

    def getitem(self, e, k):
        if isinstance(k, list):
            return TableCols(self, e.entries(k))
        if isinstance(k, (str, T)):
            return TableCols(self, [k])
        raise Unsupported("column selection")

    def setitem(self, e, k, v):
        ks = e.entries(k) if isinstance(k, list) else [k]
        if isinstance(v, TableCols) and v.table is self and v.cast and self.same(e, ks, v.cols):
            if self.fill is None or self.fill[1] != len(self.log):
                raise Unsupported("astype of missing values")
            if len(ks) == 1 and not isinstance(ks[0], Seg):
                e.mutate(self.casts, "append", (ks[0], v.cast))
            else:
                for x in ks:
                    e.mutate(self.casts, "extend", [Seg(x.axis, lambda i, x=x: (x.fn(i), v.cast)) if isinstance(x, Seg) else (x, v.cast)])
            return
        raise Unsupported("column assignment")

    def same(self, e, a, b):
        if len(a) != len(b):
            return False
        return all((x is y) or (not isinstance(x, Seg) and not isinstance(y, Seg) and e.equal(x, y) in (True, tm.TRUE)) or (isinstance(x, Seg) and isinstance(y, Seg) and x.axis is y.axis and x.fn is y.fn) for x, y in zip(a, b))


class TableCols(Obj):
    def __init__(self, table, cols, cast=None):
        self.kind = "columns of a table"
        self.table, self.cols, self.cast = table, cols, cast
        self.methods = {"astype": self.astype}

    def astype(self, e, t):
        if t in (bool, "bool") and self.cast is None:
            return TableCols(self.table, self.cols, "bool")
        raise Unsupported("astype")


class TableLoc(Obj):
    def __init__(self, table):
        self.kind = "loc"
        self.table = table

    def setitem(self, e, k, v):
        t = self.table
        if not (isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], tuple) and len(k[0]) == len(t.names)):
            raise Unsupported("loc assignment")
        if t.fill is not None:
            raise Unsupported("loc assignment after fillna")
        cols = e.entries(k[1]) if isinstance(k[1], list) else [k[1]]
        vals = [v] * len(cols)
        if isinstance(k[1], list) and isinstance(v, (list, tuple)):
            vals = list(v)
        if len(vals) != len(cols) or any(isinstance(x, Seg) for x in list(cols) + vals) or any(not isinstance(x, (T, str, bool, int)) for x in vals):
            raise Unsupported("loc assignment")
        for c, x in zip(cols, vals):
            known = tm.or_(*[ar.reduce_exists(y.axis, lambda i, y=y: tm.lift(e.equal(y.fn(i), c))) if isinstance(y, Seg) else tm.lift(e.equal(y, c)) for y in t.cols])
            if e.decide(known) is not True:
                raise Unsupported("loc assignment to a possibly new column")
            e.mutate(t.log, "append", tuple(k[0]) + (c, x))


def _multi_index(e, args, kw):
    names = kw.get("names", [None, None])
    if args or any(len(x) for x in list(kw.get("levels", [])) + list(kw.get("codes", []))):
        raise Unsupported("pd.MultiIndex")
    return Index([], e.entries(names))


@reg(pd.MultiIndex)
def _multi(e, *args, **kw):
    return _multi_index(e, args, kw)
