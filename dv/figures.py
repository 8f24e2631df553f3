"""Figures of plotly: what is drawn, in which subplot, and with which options.

A figure is a list of traces (each with its row and column) and a log of layout calls; nothing is rendered.
"""
import plotly.express as px
from plotly import figure_factory as ff
from plotly import graph_objects as go
from plotly.subplots import make_subplots

from .arrays import Unsupported
from .interp import Obj, subst_value
from .lib import NOATTR, deep, reg


class Trace(Obj):
    def __init__(self, what, args, own=False):
        self.kind = "trace"
        self.what, self.args, self.changes, self.own = what, args, {}, own
        self.methods = {"update": self.update}

    def update(self, e, d=None, **k):
        e.mutate(self, "update", {**(d or {}), **k})
        return self

    def apply(self, e, op, payload):
        self.changes = {**self.changes, **payload}

    def copy(self, e):
        t = e.new(Trace(self.what, self.args))
        t.changes = dict(self.changes)
        return t

    def subst(self, m, facts, eng):
        t = Trace(self.what, subst_value(self.args, m, facts, eng))
        t.changes = {k: subst_value(v, m, facts, eng) for k, v in self.changes.items()}
        return t


class Fig(Obj):
    """traces: [(trace, row, col)]; calls: [(method, options)]"""

    def __init__(self, traces=(), calls=(), init=None, titles=None):
        self.kind = "figure"
        self.titles = titles
        self.traces, self.calls, self.init = list(traces), list(calls), init
        self.methods = {"add_trace": self.add_trace}
        for n in ("update_layout", "update_xaxes", "update_yaxes", "update_traces", "update_scenes"):
            self.methods[n] = self.caller(n)

    def caller(self, n):
        def f(e, d=None, **k):
            e.mutate(self, n, {**(d or {}), **k})
            return self

        return f

    def add_trace(self, e, trace, row=None, col=None, **k):
        if k:
            raise Unsupported("add_trace")
        e.mutate(self, "add_trace", (trace, row, col))
        return self

    def apply(self, e, op, payload):
        if op == "add_trace":
            t, r, c = payload
            n = Trace(t.what, t.args)  # the figure keeps a copy
            n.changes = dict(t.changes)
            self.traces = self.traces + [(n, r, c)]
        else:
            self.calls = self.calls + [(op, payload)]

    def get_attr(self, e, name):
        if name == "data":
            return tuple(t for t, _, _ in self.traces)
        if name == "layout" and self.titles is not None:
            titles = self.titles
            text = lambda ax: Obj("title", get_attr=lambda e, n: titles[ax] if n == "text" else NOATTR)
            axis = lambda ax: Obj("axis", get_attr=lambda e, n: text(ax) if n == "title" else NOATTR)
            return Obj("layout", get_attr=lambda e, n: axis(n) if n in titles else NOATTR)
        return NOATTR

    def freeze(self, e):
        e.frozen[id(self)] = self
        for t, _, _ in self.traces:
            e.frozen[id(t)] = t

    def copy(self, e):
        return e.new(Fig([(t.copy(e), r, c) for t, r, c in self.traces], list(self.calls), self.init, self.titles))

    def subst(self, m, facts, eng):
        w = lambda x: subst_value(x, m, facts, eng)
        return Fig([(w(t), w(r), w(c)) for t, r, c in self.traces], [(n, {k: w(v) for k, v in p.items()}) for n, p in self.calls], w(self.init), self.titles)


@reg(go.Figure)
def _figure(e, data=None, **k):
    if k:
        raise Unsupported("go.Figure")
    ts = [] if data is None else list(e.entries(data)) if isinstance(data, (list, tuple)) else [data]
    if any(not isinstance(t, Trace) for t in ts):
        raise Unsupported("go.Figure")
    return e.new(Fig([(t, None, None) for t in ts]))


@reg(go.Heatmap)
def _heatmap(e, **k):
    return e.new(Trace("heatmap", k))


@reg(go.Contour)
def _contour(e, **k):
    return e.new(Trace("contour", k))


@reg(go.Surface)
def _surface(e, **k):
    return e.new(Trace("surface", k))


@reg(px.line)
def _line(e, data_frame=None, x=None, y=None, **k):
    return e.new(Fig([(Trace("line", {"data": data_frame, "x": x, "y": y, **k}), None, None)]))


@reg(make_subplots)
def _subplots(e, rows=1, cols=1, **k):
    return e.new(Fig([], [], {"rows": rows, "cols": cols, **k}))


@reg(ff.create_distplot)
def _distplot(e, hist_data, group_labels=None, **k):
    return e.new(Fig([(Trace("distplot", {"data": hist_data, "group_labels": group_labels, **k}), None, None)]))


def layout(fig):
    """options given to update_layout, later ones last"""
    out = {}
    for n, p in fig.calls:
        if n == "update_layout":
            out.update(p)
    return out
