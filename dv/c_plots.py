"""Contracts of the plotting modules (C23): which data a plot shows, and where.

Figures are logs of what is drawn (dv.figures).  Tables of states are functions of row and column name; their
quantiles are uninterpreted functions of the column, the period and the level.
"""
import numpy as np
import pandas as pd

from . import arrays as ar
from . import figures as fg
from . import frames as fr
from . import lib
from . import pdmodel as pm
from . import seqs
from . import terms as tm
from .arrays import Arr, Cat, CodeError, Comp, Dom, Plain, Unsupported
from .c_corr import CH, overrides, square
from .c_data import subterms
from .c_debug import columns, each, wired
from .c_likelihood import bound, lat, token
from .interp import DSeg, Obj, PyRaise, Seg, list_axis, match, subst_value
from .lib import NOATTR, reg
from .terms import T, app, num

VT = "skillmodels.visualize_transition_equations"
VD = "skillmodels.visualize_factor_distributions"
UP = "skillmodels.utils_plotting"


# ------------------------------------------------------------------ options
def c23_layout(u):
    leg, tit, sl = token("showlegend"), {"text": token("title text")}, token("showlegend")
    e = lambda: None
    cols, rows = [token("c0"), token("c1")], [token("r0"), token("r1"), token("r2")]
    legend = {"x": token("legend x")}
    run = lambda user: (UP + ".get_layout_kwargs", (user, dict(legend), dict(tit), sl, list(cols), list(rows)))
    overrides(u, run, {"showlegend": sl, "legend": legend, "title": tit})


def c23_layout_minimal(u):
    sl = token("showlegend")
    overrides(u, lambda user: (UP + ".get_layout_kwargs", (user, None, None, sl)), {"showlegend": sl})


def c23_layout_nested(u, which):
    """legend and title options arrive in the layout and are not modified"""
    user = {"text": token("text"), "x": token("x")}
    e = u.engine()
    e.freeze(user)
    args = {"legend": (None, user, None), "title": (None, None, user)}[which]
    for kind, v in u.run(UP + ".get_layout_kwargs", args, engine=e):
        if kind == "raise":
            u.fail("no exception", str(v))
            continue
        u.bounded(which)
        u.same_value(f"{which} has the options of the user", dict(v[which]), user)


def c23_subplots(u, shape, scenes):
    r, c = shape
    rows, cols = [token(f"r{i}") for i in range(r)], [token(f"c{i}") for i in range(c)]
    fixed = {"rows": r, "cols": c}
    x, y = app("sharex", sort="B"), True
    overrides(u, lambda user: (UP + ".get_make_subplot_kwargs", (x, y, cols, rows, user, scenes)), {**fixed, "shared_xaxes": x, "shared_yaxes": y})


def c23_distplot(u):
    names = ("show_curve", "show_hist", "show_rug", "curve_type", "bin_size")
    a = [token(n) for n in names]
    run = lambda user: (VD + "._process_distplot_kwargs", (*a, ["s0", "s1"], "Set1", user))
    overrides(u, run, {**dict(zip(names, a)), "group_labels": ["s0", "s1"]})


def c23_contour(u, coloring):
    names = ("contours_showlabels", "contours_coloring", "colorscale", "showscale")
    a = [token(n) for n in names]
    if not coloring:
        a[1] = None
    want = dict(zip(names, a))
    want["contours_coloring"] = a[1] if coloring else "none"
    overrides(u, lambda user: (VD + "._process_contour_kwargs", (user, *a)), want)


def c23_layout_3d(u, labels):
    g, a = token("showgrids"), token("showaxlines")
    ax = {"showgrid": g, "showline": a, **({} if labels else {"title": ""})}
    overrides(u, lambda user: (VD + "._process_layout_kwargs_3d", (user, g, a, labels)), {"scene": {x + "axis": dict(ax) for x in "xyz"}})


def c22_plot(u):
    """the heatmap shows the processed correlations with the processed options"""
    n, corr = square(u)
    names = (
        "heatmap_kwargs layout_kwargs rounding zmax zmin zmid colorscale show_color_bar show_diagonal show_upper_triangle trim_heatmap annotate annotation_fontsize "
        "annotation_text_color annotation_text_angle axes_tick_fontsize axes_tick_label_angle axes_tick_label_color"
    ).split()
    a = {x: token(x) for x in names}
    labels = {x: token(x + " labels") for x in ("columns", "index")}
    of = lambda x: Obj(x, get_attr=lambda e, m: labels[x] if m == "values" else NOATTR, methods={"to_numpy": lambda e: labels[x]})
    shown = Obj("processed correlations", token=True, get_attr=lambda e, m: of(m) if m in labels else NOATTR)
    heat, lay = {"colorscale": token("c"), "zmax": token("zmax")}, {"template": token("t")}
    pick = lambda *ns: {x: a[x] for x in ns}
    wired(u, CH + "._process_corr_data_for_plotting", shown, corr=corr, **pick("rounding", "show_upper_triangle", "show_diagonal", "trim_heatmap"))
    wired(u, CH + "._get_heatmap_kwargs", dict(heat), corr=shown, **pick("heatmap_kwargs", "colorscale", "show_color_bar", "zmax", "zmin", "zmid"))
    rest = [x for x in names if x.startswith(("annotat", "axes"))]
    wired(u, CH + "._get_layout_kwargs", dict(lay), corr=shown, **pick("layout_kwargs", *rest))
    for kind, v in u.run(CH + ".plot_correlation_heatmap", (corr,), a):
        if kind == "raise" or not isinstance(v, fg.Fig) or len(v.traces) != 1:
            u.fail("a figure with one heatmap", str(v)[:200])
            continue
        t = v.traces[0][0]
        u.same_value("heatmap", {**t.args, **t.changes}, {"z": shown, "x": labels["columns"], "y": labels["index"], **heat})
        u.same_value("layout", fg.layout(v), lay)


# ------------------------------------------------------------------ tables of states by column name
def member(e, entries, x):
    """condition that x is in the list; the names in a symbolic piece are distinct"""
    if callable(entries):
        return entries(tm.lift(x))
    out = []
    for s in entries:
        if not isinstance(s, Seg):
            out.append(tm.lift(e.equal(s, x)))
            continue
        hit = None
        for g, fs in s.axis.generic("m"):
            vs = set(ar.flat(g))
            b = match(tm.lift(s.fn(g)), tm.lift(x), vs, {})
            if b is not None and not any(v not in b for v in vs if isinstance(v, T) and v.op == "var"):
                hit = tm.and_(*[tm.subst(f, b) for f in fs])
                break
        out.append(hit if hit is not None else ar.reduce_exists(s.axis, lambda i, s=s: tm.lift(e.equal(s.fn(i), x))))
    return tm.or_(*out)


def known(e, cond, what):
    r = e.decide(tm.lift(cond))
    if r is False:
        raise PyRaise(KeyError, (what,))
    if r is None:
        if not e.branch(tm.lift(cond)):
            raise PyRaise(KeyError, (what,))


class LRow(Obj):
    """one value per name: a row of a table, or a statistic of its columns"""

    def __init__(self, labels, value):
        self.kind = "row"
        self.labels, self.value = labels, value
        self.methods = {"to_numpy": lambda e, **k: self.array(), "copy": lambda e, **k: self}

    def array(self):
        ax, fn = list_axis(self.labels)
        return Arr([ax], lambda i: self.value(fn(i[0])), None, "R", "np")

    def get_attr(self, e, name):
        return LLabels(self.labels) if name == "index" else self.array() if name == "values" else NOATTR

    def getitem(self, e, k):
        known(e, member(e, self.labels, k), k)
        return self.value(k)

    def subst(self, m, facts, eng):
        return LRow(subst_value(self.labels, m, facts, eng), sub(self.value, m, facts, eng))


class LLabels(Obj):
    def __init__(self, labels):
        self.kind = "labels"
        self.labels = labels
        self.methods = {"tolist": lambda e: list(labels), "to_list": lambda e: list(labels)}

    def entries(self):
        return list(self.labels)


def sub(f, m, facts, eng):
    """f(*args, name) under a substitution"""

    def g(*a):
        with eng.assuming(list(facts)):
            v = f(*a)
        return subst_value(v, m, (), eng)

    return g


class LCol(Obj):
    """a column with numbered rows"""

    def __init__(self, n, value):
        self.kind = "column"
        self.n, self.value = n, value
        self.methods = {"to_numpy": lambda e, **k: self.array()}

    def array(self):
        return Arr([self.n], lambda i: self.value(i[0]), None, "R", "np")

    def get_attr(self, e, name):
        return self.array() if name == "values" else NOATTR

    def subst(self, m, facts, eng):
        return LCol(self.n, sub(self.value, m, facts, eng))


class LFrame(Obj):
    """table with numbered rows that is built by assigning columns; parts: [(names, value(i, name))], later ones first"""

    def __init__(self, n=None, parts=(), labels=None):
        self.kind = "table"
        self.n, self.parts, self.labels = n, list(parts), labels
        self.methods = {"to_numpy": lambda e, **k: self.array(e), "copy": lambda e, **k: e.new(LFrame(self.n, self.parts, self.labels))}

    def setitem(self, e, k, v):
        e.mutate(self, "columns", (k, v))

    def apply(self, e, op, payload):
        k, v = payload
        if isinstance(v, Arr) and v.ndim == 1 and isinstance(k, (str, T)):
            if self.n is None:
                self.n = v.axes[0]
            else:
                e.require(tm.eq(v.axes[0].size(), self.n.size()), "length of the new column")
            to = fr.pos_map(self.n, v.axes[0])
            self.parts.insert(0, ([k], lambda i, x: v.el((to(i),))[0]))
            return
        if self.n is None and isinstance(v, LCol):
            self.n = v.n
        if self.n is None:
            raise Unsupported("first column of a table")
        if isinstance(v, LCol) and isinstance(k, (str, T)):
            if not ar.same_axis(v.n, self.n):
                raise Unsupported("column of a table with other rows")
            self.parts.insert(0, ([k], lambda i, x: v.value(i)))
        elif isinstance(v, (int, float, T)) and isinstance(k, (str, T)):
            self.parts.insert(0, ([k], lambda i, x: tm.lift(v)))
        elif isinstance(v, LRow):
            names = e.entries(k)
            if not same_entries(e, names, v.labels):
                raise Unsupported("names of a row")
            self.parts.insert(0, (names, lambda i, x: v.value(x)))
        else:
            raise Unsupported("new column")

    def at(self, e, i, x):
        out = None
        for names, f in reversed(self.parts):
            c = member(e, names, x)
            if e.decide(c) is False:
                continue
            out = tm.lift(f(i, x)) if out is None else tm.ite(c, tm.lift(f(i, x)), out)
        if out is None:
            raise PyRaise(KeyError, (x,))
        return out

    def has(self, e, x):
        return tm.or_(*[member(e, names, x) for names, _ in self.parts])

    def getitem(self, e, k):
        if isinstance(k, (str, T)):
            known(e, self.has(e, k), k)
            parts = self.snapshot()
            return LCol(self.n, lambda i: parts.at(ar.E(), i, k))
        names = e.entries(k)
        for s in names:
            for x, fs in ([(s, [])] if not isinstance(s, Seg) else [(s.fn(g), fs) for g, fs in s.axis.generic("c")]):
                with e.assuming(fs):
                    known(e, self.has(e, x), x)
        f = self.snapshot()
        f.labels = names
        return e.new(f)

    def snapshot(self):
        return LFrame(self.n, self.parts, self.labels)

    def array(self, e):
        if self.labels is None or self.n is None:
            raise Unsupported("order of the columns")
        ax, fn = list_axis(self.labels)
        f = self.snapshot()
        return Arr([self.n, ax], lambda i: f.at(ar.E(), i[0], fn(i[1])), None, "R", "np")

    def get_attr(self, e, name):
        return self.array(e) if name == "values" else NOATTR

    def subst(self, m, facts, eng):
        w = lambda x: subst_value(x, m, facts, eng)
        return LFrame(self.n, [(w(list(k)), sub(f, m, facts, eng)) for k, f in self.parts], None if self.labels is None else w(self.labels))


def same_entries(e, a, b):
    if a is b:
        return True
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, Seg) != isinstance(y, Seg):
            return False
        if not isinstance(x, Seg):
            if e.decide(tm.lift(e.equal(x, y))) is not True:
                return False
            continue
        if not ar.same_axis(x.axis, y.axis):
            return False
        for g, fs in x.axis.generic("q"):
            with e.assuming(fs):
                if e.decide(tm.lift(e.equal(x.fn(g), y.fn(g)))) is not True:
                    return False
    return True


class States(Obj):
    """any table of states: rows of all periods; value(r, name) of row r; rows: condition on r of the selected rows

    contracts of pandas: quantile(q) is a function of the values of a column in the selected rows; sample draws rows.
    """

    def __init__(self, u, R, per, names, cond=None, labels=None, val=None, extra=None):
        self.kind = "states"
        self.u, self.R, self.per, self.names = u, R, per, names
        self.val, self.extra = val or (lambda r, x: app("state", r, x)), dict(extra or {})
        self.cond, self.labels = cond or (lambda r: tm.TRUE), labels
        self.methods = {"query": self.query, "quantile": self.quantile, "drop": self.drop, "reset_index": self.reset, "sample": self.sample, "copy": lambda e, **k: e.new(self.with_())}

    def with_(self, **k):
        a = dict(R=self.R, per=self.per, names=self.names, cond=self.cond, labels=self.labels, val=self.val, extra=self.extra)
        a.update(k)
        return type(self)(self.u, **a)

    def value(self, r, x):
        return self.val(r, x)

    def isinstance_(self, e, ts):
        return pd.DataFrame in ts

    def freeze(self, e):
        e.frozen[id(self)] = self

    def setitem(self, e, k, v):
        if not isinstance(k, str) or not (v is None or isinstance(v, (str, int, T))):
            raise Unsupported("new column")
        e.mutate(self, "column", (k, v))

    def apply(self, e, op, payload):
        k, v = payload
        self.extra = {**self.extra, k: v}

    def have(self):
        return self.labels if self.labels is not None else self.names

    def contains(self, e, x):
        return member(e, self.have(), x)

    def query(self, e, text):
        tree, holes = pm.parse_query(text)

        def cond(r):
            def look(n):
                if n == "period":
                    return self.per(r)
                raise Unsupported("query")

            return tm.and_(self.cond(r), tm.lift(pm.eval_query(e, tree, holes, look)))

        return e.new(self.with_(cond=cond))

    def getitem(self, e, k):
        have = self.have()
        if isinstance(k, (str, T)):
            known(e, member(e, have, k), k)
            return e.new(SCol(self.with_(labels=[k]), k))
        names = e.entries(k)
        for s in names:
            for x, fs in ([(s, [])] if not isinstance(s, Seg) else [(s.fn(g), fs) for g, fs in s.axis.generic("c")]):
                with e.assuming(fs):
                    known(e, member(e, have, x), x)
        return e.new(self.with_(labels=names))

    def drop(self, e, labels=None, axis=0, columns=None, **k):
        if k or (columns is None) == (labels is None) or (labels is not None and axis not in (1, "columns")) or self.labels is None:
            raise Unsupported("drop")
        x = columns if columns is not None else labels
        if not isinstance(x, (str, T)):
            xs = e.entries(x)
            if len(xs) != 1 or isinstance(xs[0], Seg):
                raise Unsupported("drop")
            x = xs[0]
        known(e, member(e, self.labels, x), x)
        return e.new(self.with_(labels=without(e, self.labels, x)))

    numbered = False

    def reset(self, e, drop=False, **k):
        s = self.with_()
        s.numbered = True
        return e.new(s)

    def period(self, e):
        """the period of the selected rows"""
        r = tm.fresh("r", "I")
        c = self.cond(r)
        t = app("the_period", sort="I")
        with e.assuming([tm.le(0, r), tm.lt(r, self.R)]):
            return e.decide(tm.eq(c, tm.eq(self.per(r), t))) is True, c

    def stat(self, e, what):
        """name of the selected rows"""
        ok, c = self.period(e)
        if ok:
            return tm.lift("rows of the period")
        r = sorted(v for v in c.fv if str(v.args[0]).startswith("r"))
        if self.u.feasible() is not None:
            self.u.fail("rows of the requested period", f"selected rows: {tm.show(c)}")
        raise Unsupported("selection of rows")

    def quantile(self, e, q=0.5, **k):
        if k or self.labels is None:
            raise Unsupported("quantile")
        rows = self.stat(e, "quantile")
        q = tm.lift(q) if not isinstance(q, Arr) else q.el(())[0]
        return e.new(LRow(self.labels, lambda x: app("quantile_of", tm.lift(x), rows, q)))

    def sample(self, e, n=None, **k):
        if self.labels is None or n is None or set(k) - {"random_state", "replace"}:
            raise Unsupported("sample")
        self.stat(e, "sample")
        return e.new(Draws(self, tm.lift(n), self.labels))

    def subst(self, m, facts, eng):
        w = lambda x: subst_value(x, m, facts, eng)
        f = lambda g: sub(g, m, facts, eng)
        return self.with_(R=w(self.R), per=f(self.per), names=self.names if callable(self.names) else w(self.names), cond=f(self.cond), labels=None if self.labels is None else w(self.labels), val=f(self.val), extra={k: w(v) for k, v in self.extra.items()})


class SCol(Obj):
    """one column of the states"""

    def __init__(self, states, name):
        self.kind = "column of the states"
        self.states, self.name = states, name

    def subst(self, m, facts, eng):
        return SCol(self.states.subst(m, facts, eng), subst_value(self.name, m, facts, eng))


class Beside(Obj):
    """tables with numbered rows next to each other"""

    def __init__(self, parts):
        self.kind = "tables next to each other"
        self.parts = parts


class Draws(Obj):
    """drawn rows of the states"""

    def __init__(self, states, n, labels):
        self.kind = "draws"
        self.states, self.n, self.labels = states, n, labels
        self.methods = {"iterrows": self.iterrows}

    def iterrows(self, e):
        row = lambda d: LRow(self.labels, lambda x: self.states.value(app("drawn_row", d, sort="I"), tm.lift(x)))
        return [Seg(Plain(self.n), lambda d: (app("drawn_label", d, sort="I"), row(d)))]


def without(e, labels, x):
    out = []
    for s in labels:
        if isinstance(s, Seg):
            for a, f in pm.select_axis(e, s.axis, lambda i, s=s: tm.not_(tm.lift(e.equal(s.fn(i), x)))):
                out.append(Seg(a, lambda i, f=f, s=s: s.fn(f(i))))
        elif e.decide(tm.lift(e.equal(s, x))) is not True:
            out.append(s)
    return out


class LStack(Obj):
    """rows of tables below each other"""

    def __init__(self, seg, by=None):
        self.kind = "concatenation"
        self.seg, self.by = seg, by
        self.numbered = False
        self.methods = {"reset_index": self.reset}
        if by is None:
            self.methods["groupby"] = self.groupby

    def reset(self, e, **k):
        s = LStack(self.seg, self.by)
        s.numbered = True
        return e.new(s)

    def groupby(self, e, by, **k):
        if k or not isinstance(by, (str, T)):
            raise Unsupported("groupby")
        return Obj("groups", methods={"mean": lambda e, **k: e.new(LStack(self.seg, by))})


_old_concat = lib.LIB[id(pd.concat)]


@reg(pd.concat)
def _concat(e, objs, axis=0, sort=False, ignore_index=False, **k):
    es = e.entries(objs)
    if len(es) == 1 and isinstance(es[0], Seg) and axis in (0, "index") and not k:
        g = es[0].axis.generic("y")[0]
        with e.assuming(g[1]):
            y = es[0].fn(g[0])
            if isinstance(y, (LFrame, States)):
                return e.new(LStack(es[0]))
    if axis in (1, "columns") and not k and es:
        if all(isinstance(x, (States, LStack)) for x in es) and all(x.numbered for x in es):
            return e.new(Beside(es))
        gens = [(x, [], None) if not isinstance(x, Seg) else (x.fn(x.axis.generic("y")[0][0]), x.axis.generic("y"), x) for x in es]
        if all(isinstance(x[0], SCol) for x in gens):
            base, labels = None, []
            for x, gs, seg in gens:
                for g, fs in gs or [(None, [])]:
                    c = x if seg is None else seg.fn(g)
                    if base is None:
                        base = c.states
                    r = tm.fresh("r", "I")
                    with e.assuming(fs):
                        same = [tm.eq(base.R, c.states.R), tm.eq(base.cond(r), c.states.cond(r)), tm.eq(base.val(r, c.name), c.states.val(r, c.name))]
                        if any(e.decide(y) is not True for y in same) or base.numbered or c.states.numbered:
                            raise Unsupported("columns of different rows")
                    if seg is None:
                        labels.append(c.name)
                if seg is not None:
                    labels.append(Seg(seg.axis, lambda i, seg=seg: seg.fn(i).name))
            # the rows of an empty list of columns: an error of pd.concat
            n = e.nonempty(labels)
            if e.decide(n) is not True and not e.branch(n):
                raise PyRaise(ValueError, ("No objects to concatenate",))
            return e.new(base.with_(labels=labels, extra={}))
    return _old_concat(e, objs, axis, sort, ignore_index, **k)


fac = lambda j: app("fac", j, sort="S")


class OnePlot:
    """inputs of _prepare_data_for_one_plot_*"""

    def __init__(self, u, average):
        self.u = u
        self.F, self.R, self.n = u.int("n_factors", 1), u.int("n_rows", 1), u.int("n_points", 2)
        F = self.F
        pos = lambda s: app("position_of", s, sort="I")
        u.theory.schemas["fac"] = lambda j: [tm.eq(pos(fac(j)), j)]
        self.t, self.a, self.o = app("the_period", sort="I"), app("input_pos", sort="I"), app("output_pos", sort="I")
        u.facts += [tm.le(0, self.a), tm.lt(self.a, F), tm.le(0, self.o), tm.lt(self.o, F)]
        self.x, self.y = fac(self.a), fac(self.o)
        self.all = [Seg(Plain(F), fac)]
        per = lambda r: app("rowper", r, sort="I")
        self.states = States(u, self.R, per, self.all)
        lim = lambda which: lambda x, t: app("range_" + which, tm.lift(x), tm.lift(t))
        self.lo, self.hi = lim("minimum")(self.x, self.t), lim("maximum")(self.x, self.t)
        u.facts.append(tm.lt(self.lo, self.hi))

        def ranges(e, x):
            def row(e, t):
                def cell(e, c):
                    if c not in ("minimum", "maximum"):
                        raise PyRaise(KeyError, (c,))
                    return lim(c)(x, t)

                return Obj("row of ranges", getitem=cell)

            def loc(e, k):
                if isinstance(k, tuple) and len(k) == 2:
                    return row(e, k[0]).getitem(e, k[1])
                return row(e, k)

            return Obj("range", get_attr=lambda e, n: Obj("loc", getitem=loc) if n == "loc" else NOATTR)

        self.ranges = Obj("state ranges", getitem=ranges)
        self.tp = token("transition params")
        self.Q = u.int("n_draws" if average else "n_quantiles", 1)
        self.q = (lambda d: app("drawn_row", d, sort="I")) if average else (lambda k: app("qlevel", k))
        self.quantiles = [Seg(Plain(self.Q), self.q)]
        self.average = average
        u.hooks["empty_frame"] = lambda e: e.new(LFrame())
        self.tf = Obj("transition function", token=True, call=self.call)
        self.args = dict(states_data=self.states, state_ranges=self.ranges, period=self.t, input_factor=self.x, output_factor=self.y, n_points=self.n, transition_function=self.tf, transition_params=self.tp, all_factors=self.all)
        if average:
            self.args["n_draws"] = self.Q
        else:
            self.args["quantiles_of_other_factors"] = self.quantiles

    def grid(self, i):
        return tm.add(self.lo, tm.mul(tm.div(tm.lift(i), tm.sub(self.n, 1)), tm.sub(self.hi, self.lo)))

    def other(self, j, q):
        return app("state", q, fac(j)) if self.average else app("quantile_of", fac(j), tm.lift("rows of the period"), q)

    def call(self, e, args, kw):
        if kw or len(args) != 2:
            raise Unsupported("call of the transition function")
        u = self.u
        u.same_value("transition parameters", args[0], self.tp)
        a = ar.as_arr(args[1])
        # level or draw that the rows were built for
        i, j = tm.fresh("i", "I"), tm.fresh("j", "I")
        v = a.el((i, j))[0]
        name = "state" if self.average else "quantile_of"
        qs = {t.args[1] if self.average else t.args[3] for t in subterms(v) if t.op == "app" and t.args[0] == name}
        if len(qs) != 1:
            raise Unsupported(f"states of the other factors {tm.show(v)[:200]}")
        (q,) = qs
        u.arr_eq("states that are evaluated", a, ar.as_arr(Arr([Plain(self.n), Plain(self.F)], lambda i: tm.ite(tm.eq(i[1], self.a), self.grid(i[0]), self.other(i[1], q)), None, "R")))
        return Arr([a.axes[0]], lambda i: app("transition_value", i[0], q), None, "R", "jnp")


def c23_one_plot(u, average):
    d = OnePlot(u, average)
    f = "_prepare_data_for_one_plot_average_2d" if average else "_prepare_data_for_one_plot_fixed_quantile_2d"
    for kind, v in u.run(VT + "." + f, (), d.args):
        e = u.e
        if kind == "raise":
            u.fail("no exception", str(v))
            continue
        if not isinstance(v, LStack) or (v.by is not None) != average:
            raise Unsupported("result")
        xin, yout = e.join_str(["input_", d.x]), e.join_str(["output_", d.y])
        if average:
            u.same_value("averages over the draws at every grid point", v.by, xin)
        ax = v.seg.axis
        u.check("one block per quantile or draw", tm.eq(ax.size(), d.Q))
        for k, fs in ax.generic("b"):
            with e.assuming(fs):
                w = v.seg.fn(k)
            i = tm.fresh("i", "I")
            fs = list(fs) + [tm.le(0, i), tm.lt(i, d.n)]
            with e.assuming(fs):
                q = d.q(ax.to_int(k))
                u.check("grid over the range of the input factor", tm.and_(tm.eq(w.n.size(), d.n), w.has(e, xin), tm.eq(w.at(e, i, xin), d.grid(i))), fs)
                u.check("values of the transition function", tm.and_(w.has(e, yout), tm.eq(w.at(e, i, yout), app("transition_value", i, q))), fs)
                if not average:
                    u.check("quantile of the block", tm.and_(w.has(e, "quantile"), tm.eq(w.at(e, i, "quantile"), q)), fs)


# ------------------------------------------------------------------ transition plots of all factors
class Tagged(Obj):
    """object of the contract that is determined by its arguments"""

    def __init__(self, tag, *args, **methods):
        self.kind = tag
        self.tag, self.args = tag, args

    def subst(self, m, facts, eng):
        t = type(self)(self.tag, *[subst_value(a, m, facts, eng) for a in self.args])
        return t

    def __repr__(self):
        return f"<{self.tag} {self.args}>"


def is_tag(u, name, v, tag, *args, facts=()):
    if not isinstance(v, Tagged) or v.tag != tag:
        u.fail(name, f"got {v!r}, expected {tag}")
        return
    u.check(name, tm.and_(*[tm.lift(u.e.equal(x, y)) for x, y in zip(v.args, args)]), facts, detail=f"got {v!r}, expected {tag} {args}")


latf = lambda l: app("latent_name", l, sort="S")
allf = lambda j: app("fac", j, sort="S")


def c23_dictionary(u, how):
    """how: several (quantiles), one (quantile), None (average)"""
    L, F = u.int("n_latent_factors", 1), u.int("n_all_factors", 1)
    u.theory.schemas["fac"] = lambda j: [tm.eq(app("position_of", allf(j), sort="I"), j)]
    u.theory.schemas["latent_name"] = lambda j: [tm.eq(app("latent_position_of", latf(j), sort="I"), j)]
    latent, factors = [Seg(Plain(L), latf)], [Seg(Plain(F), allf)]
    t = app("the_period", sort="I")
    obs, data, states, raw_ranges, raw_params, lay = (token(x) for x in ("observed factors", "data", "states", "state_ranges", "params", "layout_kwargs"))
    functions = Obj("individual functions", getitem=lambda e, x: Tagged("transition function", x))
    model = {"labels": {"observed_factors": obs}, "transition_info": {"individual_functions": functions}}
    sd, params, ranges = (token(x) for x in ("states_data", "indexed params", "processed ranges"))
    of = lambda x: Obj("params of a factor", getitem=lambda e, k: Tagged("params", x, k))
    pardict = {"transition": Obj("transition params", getitem=lambda e, x: of(x))}
    options = {"template": token("template")}
    npts, nd = token("n_points"), token("n_draws")
    Q = u.int("n_quantiles", 2)
    quantiles = {"several": [Seg(Plain(Q), lambda k: app("qlevel", k))], "one": [app("a_level")], "None": None}[how]
    wired(u, VT + "._get_states_data", sd, model=model, period=t, data=data, states=states, observed_factors=obs)
    wired(u, VT + "._set_index_params", params, model=model, params=raw_params)
    wired(u, VT + "._get_pardict", pardict, model=model, params=params)
    wired(u, VT + "._get_state_ranges", ranges, state_ranges=raw_ranges, states_data=sd, all_factors=factors)

    def layout(b):
        u.same_value("layout options", b["layout_kwargs"], lay)
        return options

    wired(u, UP + ".get_layout_kwargs", layout)

    def prepare(b):
        o, x = b["output_factor"], b["input_factor"]
        is_tag(u, "the output factor's own transition function", b["transition_function"], "transition function", o)
        tp = b["transition_params"]
        if not isinstance(tp, dict) or len(tp) != 1:
            raise Unsupported("transition params")
        ((k, v),) = tp.items()
        u.check("parameters of the output factor", u.e.equal(k, o))
        is_tag(u, "parameters of the requested period", v, "params", o, t)
        return Tagged("plot data", o, x)

    want = dict(states_data=sd, state_ranges=ranges, period=t, n_points=npts, all_factors=factors)
    wired(u, VT + "._prepare_data_for_one_plot_fixed_quantile_2d", lambda b: prepare(b) if how != "None" else u.fail("average over draws", "fixed quantiles"), quantiles_of_other_factors=quantiles, **want)
    wired(u, VT + "._prepare_data_for_one_plot_average_2d", lambda b: prepare(b) if how == "None" else u.fail("fixed quantiles", "average over draws"), n_draws=nd, **want)
    args = dict(
        model=model, data=data, params=raw_params, states=states, state_ranges=raw_ranges, latent_factors=latent, all_factors=factors, quantiles_of_other_factors=quantiles,
        period=t, n_points=npts, n_draws=nd, colorscale="Magenta_r", layout_kwargs=lay,
    )
    for kind, v in u.run(VT + "._get_dictionary_with_plots", (), args):
        e = u.e
        if kind == "raise":
            u.fail("no exception", str(v))
            continue
        if not isinstance(v, dict) or len(v) != 1 or not isinstance(next(iter(v)), DSeg):
            raise Unsupported("result")
        (seg,) = v
        u.check("one plot per pair of input and output factor", tm.eq(seg.axis.size(), tm.mul(L, F)))
        for g, fs in seg.axis.generic("p"):
            with e.assuming(fs):
                key, fig = seg.key(g), seg.val(g)
                if not (isinstance(key, tuple) and len(key) == 2 and isinstance(fig, fg.Fig) and len(fig.traces) == 1):
                    u.fail("plots by input and output factor", f"{key} {fig}")
                    continue
                x, o = key
                u.check("keys are pairs of an input and a latent output factor", tm.and_(member(e, factors, x), member(e, latent, o)), fs)
                tr = fig.traces[0][0].args
                is_tag(u, "plot of the factors in the key", tr["data"], "plot data", o, x, facts=fs)
                u.check("axes of the line", tm.and_(e.equal(tr["x"], e.join_str(["input_", x])), e.equal(tr["y"], e.join_str(["output_", o]))), fs)
                color = "quantile" if how == "several" else None
                u.same_value("one line per quantile", tr.get("color"), color)
                lay_ = fg.layout(fig)
                u.same_value("layout", lay_.get("template"), options["template"])


def c23_plots(u):
    """the plots of get_transition_plots: states, model and arguments of the call"""
    n = "model_dict params data state_ranges n_points n_draws colorscale layout_kwargs".split()
    a = {x: token(x) for x in n}
    raw_q, q = token("raw quantiles"), token("quantiles")
    T_ = u.int("n_periods", 2)
    t = app("the_period", sort="I")
    u.facts += [tm.le(0, t), tm.lt(t, tm.sub(T_, 1))]
    labels = {"periods": [Seg(Plain(T_), lambda i: i)], "latent_factors": token("latent"), "all_factors": token("all")}
    model = {"labels": labels}
    states, out = token("filtered states"), token("plots")
    wired(u, VT + "._process_quantiles_of_other_factors", q, quantiles_of_other_factors=raw_q)
    wired(u, "skillmodels.process_model.process_model", model, model_dict=a["model_dict"])
    wired(u, "skillmodels.filtered_states.get_filtered_states", {"anchored_states": {"states": states}}, model_dict=a["model_dict"], data=a["data"], params=a["params"])
    wired(
        u, VT + "._get_dictionary_with_plots", out, model=model, data=a["data"], params=a["params"], states=states, state_ranges=a["state_ranges"], latent_factors=labels["latent_factors"],
        all_factors=labels["all_factors"], quantiles_of_other_factors=q, period=t, n_points=a["n_points"], n_draws=a["n_draws"], colorscale=a["colorscale"], layout_kwargs=a["layout_kwargs"],
    )
    for v in each_kw(u, VT + ".get_transition_plots", {**a, "period": t, "quantiles_of_other_factors": raw_q}):
        u.same_value("plots", v, out)


def each_kw(u, qual, kw):
    for kind, v in u.run(qual, (), kw):
        if kind == "raise":
            u.fail("no exception", str(v))
            continue
        yield v


def c23_last_period(u):
    """the last period has no transition"""
    n = "model_dict params data state_ranges n_points n_draws colorscale layout_kwargs".split()
    T_ = u.int("n_periods", 1)
    t = app("the_period", sort="I")
    u.facts += [tm.le(tm.sub(T_, 1), t)]
    labels = {"periods": [Seg(Plain(T_), lambda i: i)], "latent_factors": token("latent"), "all_factors": token("all")}
    q = token("quantiles")
    wired(u, VT + "._process_quantiles_of_other_factors", q)
    wired(u, "skillmodels.process_model.process_model", {"labels": labels})
    wired(u, "skillmodels.filtered_states.get_filtered_states", {"anchored_states": {"states": token("states")}})
    wired(u, VT + "._get_dictionary_with_plots", token("plots"))
    for kind, v in u.run(VT + ".get_transition_plots", (), {**{x: token(x) for x in n}, "period": t, "quantiles_of_other_factors": q}):
        if kind == "raise" and v.etype is ValueError:
            u.ok("the last period is rejected")
        else:
            u.fail("the last period is rejected", str(v))


def c23_quantiles(u, kind):
    q = app("a_level")
    seq = [Seg(Plain(u.int("n_quantiles", 1)), lambda k: app("qlevel", k))]
    arg, want = {"number": (q, [q]), "list": (seq, seq), "tuple": (tuple(seq), seq), "None": (None, None)}[kind]
    for v in each(u, VT + "._process_quantiles_of_other_factors", (arg,)):
        if want is None:
            u.same_value("no quantiles", v, None)
        elif not isinstance(v, list):
            u.fail("a list of quantiles", str(v))
        else:
            seqs.compare(u, "quantiles", v, want, lambda e: e)


def c23_ranges(u, given):
    r, s, f, out = (token(x) for x in ("state_ranges", "states_data", "all_factors", "created ranges"))
    wired(u, "skillmodels.process_debug_data.create_state_ranges", out, filtered_states=s, factors=f)
    for v in each(u, VT + "._get_state_ranges", (r if given else None, s, f)):
        u.same_value("state ranges", v, r if given else out)


def c23_index(u):
    t = {x: token(x) for x in ("update_info", "labels", "dimensions", "transition_info", "anchoring")}
    ix, out = token("params index"), token("reindexed params")
    wired(u, "skillmodels.params_index.get_params_index", ix, **{k: v for k, v in t.items() if k != "anchoring"})

    def reindex(e, index=None, **k):
        if index is not ix or k:
            raise Unsupported("reindex")
        return out

    for v in each(u, VT + "._set_index_params", (t, Obj("params", methods={"reindex": reindex}))):
        u.same_value("parameters in the order of the model", v, out)


def c23_pardict(u):
    t = {x: token(x) for x in ("update_info", "labels", "dimensions", "transition_info", "anchoring")}
    ix, info, out = token("index of the params"), token("parsing info"), token("pardict")
    values = u.array("value", u.int("n_params", 1), lib="np")
    column = Obj("Series", methods={"to_numpy": lambda e, **k: values}, get_attr=lambda e, n: values if n == "values" else NOATTR)
    params = Obj("params", getitem=lambda e, k: column if k == "value" else u.fail("values of the parameters", repr(k)), get_attr=lambda e, n: ix if n == "index" else NOATTR)
    wired(u, "skillmodels.parse_params.create_parsing_info", info, params_index=ix, update_info=t["update_info"], labels=t["labels"], anchoring=t["anchoring"])

    def parse(b):
        u.arr_eq("values of the parameters", ar.as_arr(b["params"]), values)
        return (token("s"), token("c"), token("w"), out)

    wired(u, "skillmodels.parse_params.parse_params", parse, parsing_info=info, dimensions=t["dimensions"], labels=t["labels"])
    for v in each(u, VT + "._get_pardict", (t, params)):
        u.same_value("parsed parameters", v, out)


def c23_factors(u, case):
    labels = {"all_factors": token("all factors"), "latent_factors": token("latent factors"), "observed_factors": token("observed")}
    own = token("requested factors")
    arg, obs, want = {"requested": (own, app("flag", sort="B"), own), "with observed": (None, True, labels["all_factors"]), "latent": (None, False, labels["latent_factors"])}[case]
    for v in each_kw(u, VD + "._get_factors", {"factors": arg, "observed_factors": obs, "model": {"labels": labels}}):
        u.same_value("factors", v, want)


def c23_ordered(u, case):
    fs, order, name = [Seg(Plain(u.int("n", 1)), lat)], [Seg(Plain(u.int("m", 1)), lambda i: app("ordered", i, sort="S"))], "a factor"
    arg, want = {"None": (None, fs), "name": (name, [name]), "list": (order, order)}[case]
    for v in each(u, VD + "._get_ordered_factors", (arg, fs)):
        seqs.compare(u, "order", v, want, lambda e: e)


def c23_mapping(u, qual, split, given):
    """custom names where given, the factor's name otherwise; bounded: three factors"""
    u.bounded("names that are displayed")
    names = ["f0", "f1", "f2"]
    args = (names[:1], names[1:]) if split else (names,)
    cases = [None] if not given else [{}, {"f1": token("n1")}, {"f2": token("n2"), "other": token("x")}, {n: token(n) for n in names}]
    for m in cases:
        e = u.engine()
        if m is not None:
            e.freeze(m)
        for kind, v in u.run(qual, (m, *args), engine=e):
            if kind == "raise" or not isinstance(v, dict):
                u.fail("names that are displayed", str(v))
                continue
            if v is m:
                u.fail("names that are displayed", "the mapping of the user is returned")
            for n in names:
                if n not in v:
                    u.fail("names that are displayed", f"no name for {n}")
                else:
                    u.same_value("names that are displayed", v[n], (m or {}).get(n, n))


def c23_orders(u, case):
    """bounded: plots of two input and three output factors"""
    u.bounded("columns")
    u.bounded("rows")
    ins, outs = ["a", "b"], ["b", "x", "y"]
    plots = {(i, o): token(f"{i} {o}") for o in outs for i in ins}
    c, r, wc, wr = {"inferred": (None, None, ins, outs), "names": ("b", "x", ["b"], ["x"]), "lists": (["b", "a"], ["y", "b"], ["b", "a"], ["y", "b"]), "columns": (["b"], None, ["b"], outs), "rows": (None, ["x"], ins, ["x"])}[case]
    e = u.engine()
    for x in (plots, c, r):
        if isinstance(x, (list, dict)):
            e.freeze(x)
    for kind, v in u.run(VT + "._process_orders", (c, r, plots), engine=e):
        if kind == "raise":
            u.fail("columns", str(v))
            continue
        u.same_value("columns", list(v[0]), wc)
        u.same_value("rows", list(v[1]), wr)


# ------------------------------------------------------------------ data of the distribution plots
class DistInputs:
    """any factors; states: a table or several of them by scenario; any table of observed states"""

    def __init__(self, u):
        self.F, self.O = u.int("n_factors", 1), u.int("n_columns_of_observed", 0)
        self.fs = [Seg(Plain(self.F), allf)]
        u.theory.schemas["fac"] = lambda j: [tm.eq(app("position_of", allf(j), sort="I"), j)]
        self.t = app("the_period", sort="I")
        S = self.S = u.int("n_scenarios", 1)
        # a table of states of some of the factors
        self.C = u.int("n_columns", 0)
        self.cols = [Seg(Plain(self.C), lambda c: app("column", c, sort="S"))]
        self.per = lambda r: app("rowper", r, sort="I")
        self.one = States(u, u.int("n_rows", 1), self.per, self.cols)
        # tables with all factors
        many = lambda s: States(u, app("n_rows_of", s, sort="I"), lambda r: app("rowper_of", s, r, sort="I"), self.fs, val=lambda r, x: app("state_of", s, r, x))
        self.many = many
        self.name = lambda s: app("scenario_name", s, sort="S")
        self.observed = States(u, u.int("n_data_rows", 1), lambda r: app("dataper", r, sort="I"), [Seg(Plain(self.O), lambda c: app("data_column", c, sort="S"))], val=lambda r, x: app("datum", r, x))
        self.observed.labels = self.observed.names


def rows_are(u, name, v, per, t, facts=()):
    r = tm.fresh("r", "I")
    fs = list(facts) + [tm.le(0, r), tm.lt(r, v.R)]
    with u.e.assuming(fs):
        c = v.cond(r)
    u.check(name, tm.eq(c, tm.eq(per(r), t)), fs)


def cells_are(u, name, v, val, names, has, facts=()):
    """the columns are those of the names (that the table has), with their own values"""
    e = u.e
    x, r = tm.fresh("x", "S"), tm.fresh("r", "I")
    with e.assuming(facts):
        u.check(name, tm.eq(v.val(r, x), val(r, x)), facts)
        for s in v.labels:
            for y, fs in ([(s, [])] if not isinstance(s, Seg) else [(s.fn(g), fs) for g, fs in s.axis.generic("c")]):
                with e.assuming(fs):
                    u.check(name, tm.and_(member(e, names, y), has(y)), list(facts) + list(fs))
        for s in names:
            for y, fs in ([(s, [])] if not isinstance(s, Seg) else [(s.fn(g), fs) for g, fs in s.axis.generic("d")]):
                with e.assuming(fs):
                    u.check(name, tm.implies(has(y), member(e, v.labels, y)), list(facts) + list(fs))


def c23_process_data(u, case, observed):
    """case: table, dict, list"""
    d = DistInputs(u)
    S, many = d.S, d.many
    if case == "table":
        states = d.one
    elif case == "dict":
        states = {DSeg(Plain(S), d.name, many): None}
    else:
        states = [Seg(Plain(S), many)]
    e = u.engine()
    e.freeze(states if case != "table" else d.one)
    e.frozen[id(d.observed)] = d.observed
    for kind, v in u.run(VD + "._process_data", (states, d.t, d.fs, d.observed if observed else None), engine=e):
        if kind == "raise":
            if case == "table" and v.etype is ValueError:
                u.ok("a table without any of the factors is rejected")
                continue
            u.fail("no exception", str(v))
            continue
        parts = v.parts if isinstance(v, Beside) else [v]
        if len(parts) != (2 if observed else 1):
            u.fail("states and observed factors", f"{len(parts)} tables")
            continue
        w = parts[0]
        if case == "table":
            if not isinstance(w, States):
                raise Unsupported("result")
            rows_are(u, "rows of the requested period", w, d.per, d.t)
            cells_are(u, "columns of the requested factors", w, d.one.val, d.fs, lambda y: member(u.e, d.cols, y))
            u.same_value("scenario", w.extra.get("scenario"), "none")
        else:
            if not isinstance(w, LStack):
                raise Unsupported("result")
            ax = w.seg.axis
            u.check("one block per scenario", tm.eq(ax.size(), S))
            for g, fs in ax.generic("s"):
                with u.e.assuming(fs):
                    x = w.seg.fn(g)
                    s = ax.to_int(g)
                    b = many(s)
                rows_are(u, "rows of the requested period", x, b.per, d.t, fs)
                cells_are(u, "columns of the requested factors", x, b.val, d.fs, lambda y: tm.TRUE, fs)
                u.check("scenario of the rows", tm.eq(tm.lift(x.extra.get("scenario", "?")), d.name(s) if case == "dict" else s), fs)
        if observed:
            o = parts[1]
            if not isinstance(o, States):
                raise Unsupported("result")
            rows_are(u, "observed factors of the requested period", o, d.observed.per, d.t)
            cells_are(u, "observed factors in their own columns", o, d.observed.val, d.observed.names, lambda y: tm.TRUE)


def c23_observed(u):
    d = DistInputs(u)
    data = d.observed
    data.labels, data.names = None, lambda x: app("is_data_column", x, sort="B")
    for v in each(u, VD + "._get_data_observed_factors", (data, d.fs)):
        e = u.e
        some = ar.reduce_exists(Plain(d.F), lambda j: member(e, data.names, allf(j)))
        if v is None:
            u.check("None only if there are no observed factors", tm.not_(some))
            continue
        if not isinstance(v, States):
            raise Unsupported("result")
        u.check("None if there are no observed factors", some)
        r = tm.fresh("r", "I")
        u.check("all rows of the data", tm.eq(v.cond(r), tm.TRUE))
        cells_are(u, "columns of the requested factors", v, data.val, d.fs, lambda y: member(u.e, data.names, y))


# ------------------------------------------------------------------ states with observed factors
class Merged(Obj):
    def __init__(self, left, right, args):
        self.kind = "merged tables"
        self.left, self.right, self.args = left, right, args


@reg(pd.merge)
def _merge(e, left=None, right=None, how="inner", on=None, left_on=None, right_on=None, **k):
    if k:
        raise Unsupported("merge")
    return e.new(Merged(left, right, (how, left_on if on is None else on, right_on if on is None else on)))


def c23_states(u, case):
    n = "update_info anchoring".split()
    t = {x: token(x) for x in n}
    O, N, T_ = u.int("n_observed", 1), u.int("n_obs", 1), u.int("n_periods", 1)
    p = app("the_period", sort="I")
    u.facts += [tm.le(0, p), tm.lt(p, T_)]
    obsf = lambda o: app("obsf", o, sort="S")
    u.theory.schemas["obsf"] = lambda o: [tm.not_(tm.eq(obsf(o), tm.lift(x))) for x in ("id", "period")]  # precondition
    names = [Seg(Plain(O), obsf)] if case != "no observed" else []
    model = {**t, "labels": {"observed_factors": names}}
    copied, data = token("copy of the states"), token("data") if case != "no data" else None
    states = Obj("states", token=True, methods={"copy": lambda e, deep=True: copied})
    arr_ = u.array("observed", T_, N, O)
    wired(u, "skillmodels.process_data.process_data", (token("m"), token("c"), arr_), df=data, labels=model["labels"], update_info=t["update_info"], anchoring_info=t["anchoring"])
    for kind, v in u.run(VT + "._get_states_data", (model, p, data, states, names)):
        if case == "no data":
            if kind == "raise" and v.etype is ValueError:
                u.ok("observed factors need data")
            else:
                u.fail("observed factors need data", str(v))
            continue
        if kind == "raise":
            u.fail("no exception", str(v))
            continue
        if case == "no observed":
            if v is not states and v is not copied:
                u.fail("states without observed factors", str(v))
            else:
                u.ok("states without observed factors")
            continue
        if not isinstance(v, Merged) or not isinstance(v.right, fr.Wide):
            raise Unsupported("result")
        how, lo, ro = v.args
        if v.left not in (states, copied) or how != "left":
            u.fail("all rows of the states", f"{v.left} {how}")
        else:
            u.ok("all rows of the states")
        if sorted(u.e.entries(lo)) != ["id", "period"] or list(u.e.entries(lo)) != list(u.e.entries(ro)):
            u.fail("rows are matched by individual and period", f"{lo} {ro}")
        else:
            u.ok("rows are matched by individual and period")
        columns(u, "observed factors", v.right, (N,), {"id": lambda i: i, "period": lambda i: p}, (names, lambda i, o: app("observed", p, i, o)), [])


# ------------------------------------------------------------------ combined figures (bounded: few factors)
def picture(name, k, titles=None):
    """figure with k traces"""
    return fg.Fig([(fg.Trace(f"{name} {i}", {"is": f"{name} {i}"}), None, None) for i in range(k)], titles=titles)


def placed(fig):
    """{(row, col): [(trace, changes)]}, and the last titles of the axes by subplot"""
    out, titles = {}, {}
    for t, r, c in fig.traces:
        out.setdefault((int(numeral(r)), int(numeral(c))), []).append((t.what, t.changes))
    for n, k in fig.calls:
        if n in ("update_xaxes", "update_yaxes") and k.get("row") is not None and k.get("col") is not None:
            x = k.get("title_text", k.get("title"))
            if isinstance(x, dict):
                x = x.get("text")
            if x is not None:
                titles[n[7], int(numeral(k["row"])), int(numeral(k["col"]))] = x
    return out, titles


def numeral(x):
    x = x.el(())[0] if isinstance(x, Arr) else x
    x = tm.unlift(x) if isinstance(x, T) else x
    if isinstance(x, T):
        raise Unsupported("position of a subplot")
    return x


def c23_combine_transition(u, cols, rows, missing):
    u.bounded("")
    raw_c, raw_r, raw_k, raw_m = (token(x) for x in ("column_order", "row_order", "make_subplot_kwargs", "factor_mapping"))
    ins, outs = ["a", "b", "c"], ["b", "x"]
    plots = {(i, o): picture(f"{i} on {o}", 2) for o in outs for i in ins}
    if missing:
        del plots["a", "x"]
    keys = list(plots)
    lay, mk = {"template": token("template")}, {"rows": len(rows), "cols": len(cols)}
    opts = {x: token(x) for x in ("layout_kwargs", "legend_kwargs", "title_kwargs")}
    show, sx, sy = token("showlegend"), token("sharex"), token("sharey")
    names = {x: "name of " + x for x in ins + outs}

    def orders(b):
        if not isinstance(b["plots_dict"], dict) or list(b["plots_dict"]) != keys:
            u.fail("orders are those of the plots", str(b["plots_dict"])[:200])
        return (list(cols), list(rows))

    def layout(b):
        for n, w in opts.items():
            u.same_value("options of the layout", b[n], w)
        return dict(lay)

    wired(u, VT + "._process_orders", orders, columns=raw_c, rows=raw_r)
    wired(u, UP + ".get_make_subplot_kwargs", mk, sharex=sx, sharey=sy, make_subplot_kwargs=raw_k, column_order=list(cols), row_order=list(rows))
    wired(u, VT + "._process_factor_mapping_trans", names, factor_mapper=raw_m)
    wired(u, UP + ".get_layout_kwargs", layout)
    e = u.engine()
    for f in plots.values():
        f.freeze(e)
    e.frozen[id(plots)] = plots
    kw = dict(plots_dict=plots, column_order=raw_c, row_order=raw_r, factor_mapping=raw_m, make_subplot_kwargs=raw_k, sharex=sx, sharey=sy, showlegend=show, **opts)
    for kind, v in u.run(VT + ".combine_transition_plots", (), kw, engine=e):
        if kind == "raise" or not isinstance(v, fg.Fig):
            u.fail("a figure", str(v))
            continue
        got, titles = placed(v)
        bad = []
        for r, o in enumerate(rows):
            for c, i in enumerate(cols):
                want = [f"{i} on {o} {k}" for k in range(2)] if (i, o) in plots else []
                have = got.pop((r + 1, c + 1), [])
                if [x for x, _ in have] != want:
                    bad.append(f"row {r} column {c}: {have}, expected {want}")
                if any((ch.get("showlegend") is False) != ((r, c) != (0, 0)) for _, ch in have):
                    bad.append(f"legend in row {r} column {c}")
                tx, ty = titles.get(("x", r + 1, c + 1)), titles.get(("y", r + 1, c + 1))
                if tx not in (None, names[i]) or ty not in (None, names[o]):
                    bad.append(f"titles in row {r} column {c}: {tx}, {ty}")
        if got:
            bad.append(f"further traces {got}")
        u.fail("subplots of the factors in their row and column", "; ".join(bad)) if bad else u.ok("subplots of the factors in their row and column")
        u.same_value("subplot options", v.init, mk)
        u.same_value("layout", fg.layout(v), lay)


def c23_combine_distribution(u, order, surfaces):
    u.bounded("")
    raw_o, raw_k, raw_m = (token(x) for x in ("factor_order", "make_subplot_kwargs", "factor_mapping"))
    fs = ["a", "b", "c"]
    kde = {f: picture("kde " + f, 2) for f in fs}
    contour = {(f, g): picture(f"contour {f} {g}", 2, {"xaxis": f, "yaxis": g}) for f in fs for g in fs if f != g}
    surface = {(f, g): picture(f"surface {f} {g}", 1) for f in fs for g in fs if f != g} if surfaces else None
    lay, mk = {"template": token("template")}, {"rows": len(order), "cols": len(order)}
    opts = {x: token(x) for x in ("layout_kwargs", "legend_kwargs", "title_kwargs")}
    show, sx, sy = token("showlegend"), token("sharex"), token("sharey")
    names = {x: "name of " + x for x in fs}
    wired(u, VD + "._process_factor_mapping_dist", names, mapper=raw_m, factors=fs)
    wired(u, VD + "._get_ordered_factors", list(order), factor_order=raw_o, factors=fs)
    wired(u, UP + ".get_make_subplot_kwargs", mk, sharex=sx, sharey=sy, make_subplot_kwargs=raw_k, column_order=list(order), row_order=list(order), add_scenes=True)
    wired(u, UP + ".get_layout_kwargs", lay, **opts)
    e = u.engine()
    for d in (kde, contour, surface or {}):
        for f in d.values():
            f.freeze(e)
        e.frozen[id(d)] = d
    kw = dict(kde_plots=kde, contour_plots=contour, surface_plots=surface, factor_order=raw_o, factor_mapping=raw_m, make_subplot_kwargs=raw_k, sharex=sx, sharey=sy, showlegend=show, **opts)
    for kind, v in u.run(VD + ".combine_distribution_plots", (), kw, engine=e):
        if kind == "raise" or not isinstance(v, fg.Fig):
            u.fail("a figure", str(v))
            continue
        got, titles = placed(v)
        bad = []
        for r, f2 in enumerate(order):
            for c, f1 in enumerate(order):
                have = [x for x, _ in got.pop((r + 1, c + 1), [])]
                tx, ty = titles.get(("x", r + 1, c + 1)), titles.get(("y", r + 1, c + 1))
                if r == c:
                    want, ok = [f"kde {f1} {k}" for k in range(2)], tx in (None, names[f1])
                elif r > c:
                    want, ok = [f"contour {f1} {f2} {k}" for k in range(2)], tx in (None, names[f1]) and ty in (None, names[f2])
                else:
                    want, ok = [f"surface {f1} {f2} 0"] if surfaces else [], True
                if have != want or not ok:
                    bad.append(f"row {r} column {c}: {have} with titles {tx}, {ty}, expected {want}")
        if got:
            bad.append(f"further traces {got}")
        u.fail("subplots of the factors in their row and column", "; ".join(bad)) if bad else u.ok("subplots of the factors in their row and column")
        u.same_value("subplot options", v.init, mk)
        u.same_value("layout", fg.layout(v), lay)


# ------------------------------------------------------------------ density plots
class Densities:
    """arguments and callees of the density functions; any factors, two scenarios"""

    def __init__(self, u, states_given, more, names=None):
        self.u = u
        n = "model_dict data params".split()
        self.a = {x: token(x) for x in n}
        self.t = app("the_period", sort="I")
        self.more = {x: token(x) for x in more}
        raw_factors, raw_obs = token("factors"), token("observed_factors")
        states = Obj("states", token=True, isinstance_=lambda e, ts: pd.DataFrame in ts) if states_given else None
        filtered, model, observed = token("filtered states"), token("model"), token("observed states")
        if names is None:
            self.F = u.int("n_factors", 1)
            u.theory.schemas["fac"] = lambda j: [tm.eq(app("position_of", allf(j), sort="I"), j)]
            self.factors = [Seg(Plain(self.F), allf)]
        else:
            self.factors = names
        self.scenarios = ["s0", "s1"]
        R = u.int("n_rows", 1)
        ix = pm.Index([Seg(Plain(R), lambda r: r)], [None])
        r = self.r = tm.var("a_row", "I")
        scen = self.scen = lambda r: app("scenario_of", r, sort="S")

        def scenario():
            s = pm.Series(ix, scen, None, "S")
            s.methods["unique"] = lambda e: list(self.scenarios)
            return s

        def column(x):
            return Obj("column", getitem=lambda e, c: Tagged("cells", x, c.val(r)) if isinstance(c, pm.Series) else NOATTR)

        def df(e, k):
            if isinstance(k, pm.Series):
                return Tagged("rows", k.val(r))
            return scenario() if k == "scenario" else column(k)

        self.df = Obj("data of the plots", token=True, getitem=df)
        wired(u, "skillmodels.filtered_states.get_filtered_states", {"anchored_states": {"states": filtered}}, **self.a)
        wired(u, "skillmodels.process_model.process_model", model, model_dict=self.a["model_dict"])
        wired(u, VD + "._get_factors", self.factors, factors=raw_factors, observed_factors=raw_obs, model=model)
        wired(u, VD + "._get_data_observed_factors", observed, data=self.a["data"], factors=self.factors)
        wired(u, VD + "._process_data", self.df, states=states if states_given else filtered, period=self.t, factors=self.factors, observed_states=observed)
        self.args = {**self.a, "period": self.t, "factors": raw_factors, "observed_factors": raw_obs, "states": states, **self.more}

    def kde(self):
        m = self.u.int("n_mesh", 1)

        def call(b):
            self.u.same_value("grid of the density", b["n_points"], self.more["n_points"])
            x, y = b["factors"]
            rows = b["data"]
            tag = tm.lift(f"{x} {y} {'all rows' if rows is self.df else tm.show(rows.args[0]) if isinstance(rows, Tagged) else '?'}")
            f = lambda k: Arr([Plain(m), Plain(m)], lambda i: app("mesh", tag, k, i[0], i[1]), None, "R", "np")
            return (f(0), f(1), f(2))

        wired(self.u, VD + "._calculate_kde_for_3d", call)


def c23_univariate(u, given):
    d = Densities(u, given, "show_hist show_curve show_rug curve_type colorscale bin_size distplot_kwargs layout_kwargs".split())
    dist, lay = {"group_labels": token("group labels"), "colors": token("colors")}, {"template": token("template"), "showlegend": token("showlegend")}
    wired(u, VD + "._process_distplot_kwargs", dist, scenarios=d.scenarios, **{x: d.more[x] for x in d.more if x != "layout_kwargs"})
    wired(u, UP + ".get_layout_kwargs", lay, layout_kwargs=d.more["layout_kwargs"])
    for v in each_kw(u, VD + ".univariate_densities", d.args):
        e = u.e
        if not isinstance(v, dict) or len(v) != 1 or not isinstance(next(iter(v)), DSeg):
            raise Unsupported("result")
        (seg,) = v
        u.check("one plot per factor", tm.eq(seg.axis.size(), d.F))
        for g, fs in seg.axis.generic("f"):
            with e.assuming(fs):
                x, fig = seg.key(g), seg.val(g)
                u.check("plots by factor", member(e, d.factors, x), fs)
                if not isinstance(fig, fg.Fig) or len(fig.traces) != 1 or fig.traces[0][0].what != "distplot":
                    u.fail("a distribution plot", str(fig))
                    continue
                tr = dict(fig.traces[0][0].args)
                data = tr.pop("data")
                u.same_value("options of the plot", {k: tr.get(k) for k in dist}, dist)
                if not isinstance(data, list) or len(data) != 2:
                    raise Unsupported("data by scenario")
                for s, y in zip(d.scenarios, data):
                    is_tag(u, "column of the factor, by scenario", y, "cells", x, tm.eq(d.scen(d.r), tm.lift(s)), facts=fs)
                got = fg.layout(fig)
                u.same_value("layout", {k: got.get(k) for k in lay}, lay)


def c23_contours(u, given):
    u.bounded("")
    more = "n_points contour_kwargs contours_showlabels contours_coloring contours_colorscale lines_colorscale showcolorbar layout_kwargs".split()
    d = Densities(u, given, more, ["a", "b", "c"])
    d.args["lines_colorscale"] = "Set1"
    con, lay = {"colorscale": token("colorscale")}, {"template": token("template")}
    wired(
        u, VD + "._process_contour_kwargs", con, contours_showscale=d.more["showcolorbar"], **{x: d.more[x] for x in ("contour_kwargs", "contours_showlabels", "contours_coloring", "contours_colorscale")}
    )
    wired(u, VD + "._process_layout_kwargs", lay, layout_kwargs=d.more["layout_kwargs"])
    d.kde()
    for v in each_kw(u, VD + ".bivariate_density_contours", d.args):
        pairs(u, d, v, 2)
        for (x, y), fig in v.items():
            for s, (t, _, _) in zip(d.scenarios, fig.traces):
                tag = tm.lift(f"{x} {y} {tm.show(tm.eq(d.scen(d.r), tm.lift(s)))}")
                i, j = tm.fresh("i", "I"), tm.fresh("j", "I")
                u.check("density of the pair in the scenario", tm.eq(ar.as_arr(t.args["z"]).el((i, j))[0], app("mesh", tag, 2, i, j)))
                u.check("first factor on the x axis", tm.eq(ar.as_arr(t.args["x"]).el((i,))[0], app("mesh", tag, 0, i, 0)))
                u.check("second factor on the y axis", tm.eq(ar.as_arr(t.args["y"]).el((i,))[0], app("mesh", tag, 1, 0, i)))
            u.same_value("layout", fg.layout(fig), lay)
            titles(u, fig, x, y)


def titles(u, fig, x, y):
    got = {}
    for n, k in fig.calls:
        if n in ("update_xaxes", "update_yaxes"):
            t = k.get("title", k.get("title_text"))
            got[n[7]] = t.get("text") if isinstance(t, dict) else t
    u.same_value("axes are labelled with the factors", [got.get("x"), got.get("y")], [x, y])


def pairs(u, d, v, n):
    want = {(x, y) for x in d.factors for y in d.factors if x != y}
    if not isinstance(v, dict) or set(v) != want or any(not isinstance(f, fg.Fig) or len(f.traces) != n for f in v.values()):
        u.fail("one plot per pair of factors", str(v)[:300])
        raise Unsupported("plots")
    u.ok("one plot per pair of factors")


def c23_surfaces(u, given):
    u.bounded("")
    more = "n_points layout_kwargs colorscale opacity showcolorbar showgrids showaxlines showlabels".split()
    d = Densities(u, given, more, ["a", "b", "c"])
    lay = {"template": token("template")}
    wired(u, VD + "._process_layout_kwargs_3d", lay, **{x: d.more[x] for x in ("layout_kwargs", "showgrids", "showaxlines", "showlabels")})
    d.kde()
    for v in each_kw(u, VD + ".bivariate_density_surfaces", d.args):
        pairs(u, d, v, 1)
        for (x, y), fig in v.items():
            t = fig.traces[0][0]
            tag = tm.lift(f"{x} {y} all rows")
            i, j = tm.fresh("i", "I"), tm.fresh("j", "I")
            for k, n in enumerate("xyz"):
                u.check("density of the pair", tm.eq(ar.as_arr(t.args[n]).el((i, j))[0], app("mesh", tag, k, i, j)))
            u.same_value("options", [t.args["showscale"], t.args["colorscale"], t.args["opacity"]], [d.more["showcolorbar"], d.more["colorscale"], d.more["opacity"]])
            got = fg.layout(fig)
            u.same_value("layout", got.get("template"), lay["template"])
            u.same_value("axes are labelled with the factors", [got["scene"]["xaxis"]["title"], got["scene"]["yaxis"]["title"]], [x, y])


UNITS = {
    "C22": [("correlation_heatmap.plot_correlation_heatmap", c22_plot)],
    "C23": [("utils_plotting.get_layout_kwargs", c23_layout), ("utils_plotting.get_layout_kwargs, defaults", c23_layout_minimal)]
    + [(f"utils_plotting.get_layout_kwargs, {w}", lambda u, w=w: c23_layout_nested(u, w)) for w in ("legend", "title")]
    + [(f"utils_plotting.get_make_subplot_kwargs, {s}, {'scenes' if b else 'no scenes'}", lambda u, s=s, b=b: c23_subplots(u, s, b)) for s in ((1, 1), (1, 3), (3, 2)) for b in (False,)]
    + [(f"visualize_transition_equations.{f}", lambda u, b=b: c23_one_plot(u, b)) for f, b in (("_prepare_data_for_one_plot_fixed_quantile_2d", False), ("_prepare_data_for_one_plot_average_2d", True))]
    + [(f"visualize_transition_equations._get_dictionary_with_plots, quantiles: {h}", lambda u, h=h: c23_dictionary(u, h)) for h in ("several", "one", "None")]
    + [("visualize_transition_equations.get_transition_plots", c23_plots), ("visualize_transition_equations.get_transition_plots, last period", c23_last_period)]
    + [(f"visualize_transition_equations._process_quantiles_of_other_factors, {h}", lambda u, h=h: c23_quantiles(u, h)) for h in ("number", "list", "tuple", "None")]
    + [(f"visualize_transition_equations._get_state_ranges, {'given' if h else 'None'}", lambda u, h=h: c23_ranges(u, h)) for h in (True, False)]
    + [("visualize_transition_equations._set_index_params", c23_index), ("visualize_transition_equations._get_pardict", c23_pardict)]
    + [(f"visualize_factor_distributions._get_factors, {h}", lambda u, h=h: c23_factors(u, h)) for h in ("requested", "with observed", "latent")]
    + [(f"visualize_factor_distributions._get_ordered_factors, {h}", lambda u, h=h: c23_ordered(u, h)) for h in ("None", "name", "list")]
    + [(f"{q.split('.', 1)[1]}, {'given' if g else 'None'}", lambda u, q=q, s=s, g=g: c23_mapping(u, q, s, g)) for q, s in ((VT + "._process_factor_mapping_trans", True), (VD + "._process_factor_mapping_dist", False)) for g in (True, False)]
    + [(f"visualize_transition_equations._process_orders, {h}", lambda u, h=h: c23_orders(u, h)) for h in ("inferred", "names", "lists", "columns", "rows")]
    + [(f"visualize_factor_distributions._process_data, {c}, {'observed' if o else 'no observed'}", lambda u, c=c, o=o: c23_process_data(u, c, o)) for c in ("table", "dict", "list") for o in (False, True)]
    + [("visualize_factor_distributions._get_data_observed_factors", c23_observed)]
    + [(f"visualize_transition_equations._get_states_data, {c}", lambda u, c=c: c23_states(u, c)) for c in ("observed", "no observed", "no data")]
    + [
        (f"visualize_transition_equations.combine_transition_plots, {g}", lambda u, a=a: c23_combine_transition(u, *a))
        for g, a in (("all", (["a", "b", "c"], ["b", "x"], False)), ("some", (["c", "a"], ["x"], False)), ("one missing", (["b", "a"], ["x", "b"], True)))
    ]
    + [
        (f"visualize_factor_distributions.combine_distribution_plots, {g}", lambda u, a=a: c23_combine_distribution(u, *a))
        for g, a in (("all", (["a", "b", "c"], True)), ("some", (["c", "a"], True)), ("no surfaces", (["b", "c", "a"], False)))
    ]
    + [
        (f"visualize_factor_distributions.{f}, {'states given' if g else 'filtered states'}", lambda u, c=c, g=g: c(u, g))
        for f, c in (("univariate_densities", c23_univariate), ("bivariate_density_contours", c23_contours), ("bivariate_density_surfaces", c23_surfaces)) for g in (True, False)
    ]
    + [("visualize_factor_distributions._process_distplot_kwargs", c23_distplot)]
    + [(f"visualize_factor_distributions._process_contour_kwargs, {g}", lambda u, g=g: c23_contour(u, g == "coloring")) for g in ("coloring", "no coloring")]
    + [("visualize_factor_distributions._process_layout_kwargs", lambda u: overrides(u, lambda user: (VD + "._process_layout_kwargs", (user,))))]
    + [(f"visualize_factor_distributions._process_layout_kwargs_3d, labels {g}", lambda u, g=g: c23_layout_3d(u, g)) for g in (True, False)],
}
