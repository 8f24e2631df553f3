"""Contracts of process_debug_data.py and filtered_states.py."""
from . import arrays as ar
from . import frames as fr
from . import pdmodel as pm
from . import terms as tm
from .arrays import Arr, Comp, Plain, Unsupported
from .c_filter import S, arr
from .c_likelihood import bound, lat, token
from .interp import Obj, Seg
from .lib import NOATTR
from .terms import app, num

PD = "skillmodels.process_debug_data"
FS = "skillmodels.filtered_states"


class DebugInputs:
    """update table of an arbitrary processed model and the raw debug output of the likelihood function"""

    def __init__(self, u):
        self.u = u
        self.K, self.N, self.M, self.L, self.T = u.int("n_updates", 1), u.int("n_obs", 1), u.int("n_mixtures", 1), u.int("n_latent", 1), u.int("n_periods", 2)
        K, N, M, L = self.K, self.N, self.M, self.L
        per = self.per = lambda k: app("per", k, sort="I")
        u.theory.schemas["per"] = lambda k: [tm.le(0, per(k)), tm.lt(per(k), self.T)]
        self.mvar = lambda k: app("mvar", k, sort="S")
        self.anch = lambda k: app("isanch", k, sort="B")
        self.latent = [Seg(Plain(L), lat)]
        self.index = pm.Index([Seg(Plain(K), lambda k: (per(k), self.mvar(k)))], ["period", "variable"])
        cell = lambda k, c: tm.ite(self.anch(k), tm.lift("anchoring"), tm.lift("measurement")) if c == "purpose" else app("isload", k, c, sort="B")
        self.update_info = pm.Frame(self.index, self.latent + ["purpose"], cell, lambda c: "S" if c == "purpose" else "B")
        self.states = u.array("fs", K, N, M, L)
        self.lw = u.array("lw", K, N, M)
        self.res = u.array("res", K, N, M)
        self.contrib = u.array("contrib", K, N)


def blocks(u, name, v, axis):
    """blocks of rows of a concatenated table, one per element of axis: [(index, facts, table)]"""
    if not isinstance(v, fr.Stacked):
        raise Unsupported(f"{name}: not a concatenation of tables")
    if v.extra:
        raise Unsupported(f"{name}: columns of the concatenated table")
    u.check(name + ": one block of rows per update", tm.eq(v.seg.axis.size(), axis.size()))
    e = u.e
    for g, fs in v.seg.axis.generic("b"):
        with e.assuming(fs):
            yield g, list(fs), v.seg.fn(g)


def columns(u, name, w, rows, singles, block, facts):
    """the table has exactly these columns: singles: label -> f(*row); block: (labels, f(*row, column)) or None"""
    e = u.e
    ax = Comp([Plain(n) for n in rows]) if len(rows) > 1 else Plain(rows[0])
    u.check(name + ": number of rows", tm.eq(tm.lift(w.length()), ax.size()), facts)
    got = {c.label(num(0)): c for c in w.cols if c.axis is None}
    blk = [c for c in w.cols if c.axis is not None]
    if len(blk) == 1 and block is None and blk[0].axis.size() is num(1):
        c = blk.pop()
        j = c.axis.from_int(num(0))
        got[c.label(j)] = fr.Col(None, lambda _: None, lambda i, _: c.cell(i, j), c.sort)
    if set(got) != set(singles) or len(blk) != (1 if block else 0):
        u.fail(name + ": columns", f"columns {sorted(map(str, got))}")
        return
    u.ok(name + ": columns")
    axis, f, g = ar.unify(w.index.axis, ax)
    for idx, fs in axis.generic("r"):
        fs = list(facts) + list(fs)
        with e.assuming(fs):
            row = ar.flat(g(idx))
            for n, want in singles.items():
                v, nan = got[n].cell(f(idx), num(0))
                wv = want(*row)
                wv = wv.pick(v) if isinstance(wv, Either) else wv
                u.check(f"{name}: {n}", tm.and_(tm.not_(nan), tm.eq(v, wv)), fs)
    if block:
        labels, want = block
        u.same_list(name + ": one column per factor", [Seg(blk[0].axis, blk[0].label)], labels)
        lax, _ = pm.list_axis(labels)
        b = blk[0]
        u.arr_eq(
            name + ": values", Arr([w.index.axis, b.axis], lambda x: b.cell(*x)[0], lambda x: b.cell(*x)[1]),
            Arr([ax, lax], lambda x: want(*ar.flat(x[0]), x[1])), facts,
        )


def each(u, qual, args):
    for kind, v in u.run(qual, args):
        if kind == "raise":
            u.fail("no exception", str(v))
            continue
        yield v


def c20_post(u):
    d = DebugInputs(u)
    for v in each(u, PD + "._create_post_update_states", (d.states, d.latent, d.update_info)):
        for k, fs, w in blocks(u, "states", v, Plain(d.K)):
            columns(
                u, "states", w, (d.N, d.M), {"period": lambda i, m: d.per(k), "measurement": lambda i, m: d.mvar(k), "id": lambda i, m: i, "mixture": lambda i, m: m},
                (d.latent, lambda i, m, l: app("fs", k, i, m, l)), fs,
            )


def c20_residuals(u, which):
    d = DebugInputs(u)
    for v in each(u, PD + "." + which, (d.res, d.update_info)):
        for k, fs, w in blocks(u, "residuals", v, Plain(d.K)):
            columns(
                u, "residuals", w, (d.N, d.M),
                {"period": lambda i, m: d.per(k), "measurement": lambda i, m: d.mvar(k), "id": lambda i, m: i, "mixture": lambda i, m: m, "residual": lambda i, m: app("res", k, i, m)}, None, fs,
            )


def c20_contributions(u):
    d = DebugInputs(u)
    for v in each(u, PD + "._process_all_contributions", (d.contrib, d.update_info)):
        for k, fs, w in blocks(u, "contributions", v, Plain(d.K)):
            columns(
                u, "contributions", w, (d.N,), {"period": lambda i: d.per(k), "measurement": lambda i: d.mvar(k), "id": lambda i: i, "contribution": lambda i: app("contrib", k, i)}, None, fs,
            )


def c20_filtered(u):
    d = DebugInputs(u)
    K, N, M, L, T = d.K, d.N, d.M, d.L, d.T
    last = lambda t: app("lastm", t, sort="I")
    # precondition: every period has a measurement
    u.theory.schemas["lastm"] = lambda t: [tm.implies(tm.and_(tm.le(0, t), tm.lt(t, T)), tm.and_(tm.le(0, last(t)), tm.lt(last(t), K), tm.not_(d.anch(last(t))), tm.eq(d.per(last(t)), t)))]

    def maximal(k, t):
        """definition of the last measurement of a period"""
        return tm.implies(tm.and_(tm.not_(d.anch(k)), tm.eq(d.per(k), t)), tm.le(k, last(t)))

    def unique(i, j):
        """contract of _get_update_info (C14): the rows are unique"""
        return tm.implies(tm.and_(tm.eq(d.per(i), d.per(j)), tm.eq(d.mvar(i), d.mvar(j))), tm.eq(i, j))

    def last_row(e, ix):
        ax = ix.axis
        if not (isinstance(ax, ar.Dom) and len(ax.axes) == 1 and isinstance(ax.axes[0], Plain)):
            raise Unsupported("last row of an index")
        q = tm.fresh("q", "I")
        fs = [tm.le(0, q), tm.lt(q, K)]
        gens = [g for g in e.generic_vars() if g.sort == "I"]
        if not gens:
            raise Unsupported("last row outside of a loop")
        goal = lambda t: tm.eq(ax.guard((q,)), tm.and_(tm.not_(d.anch(q)), tm.eq(d.per(q), t)))
        for t in (gens[-1], d.per(gens[-1])):
            if e.prove_under(fs, goal(t)):
                break
        nm = "last measurement of a period: among the measurements of the period"
        u.check(nm, goal(t), fs)
        return (d.per(last(t)), d.mvar(last(t)))

    u.hooks["last_row"] = last_row
    for v in each(u, PD + "._create_filtered_states", (d.states, d.lw, d.update_info, d.latent)):
        if not isinstance(v, fr.Stacked):
            raise Unsupported("not a concatenation of tables")
        ax = v.seg.axis
        if not (isinstance(ax, ar.Dom) and len(ax.axes) == 1 and isinstance(ax.axes[0], Plain)):
            raise Unsupported("blocks of the filtered states")
        e = u.e
        cond = lambda k: ax.guard((k,))
        i, j, t = tm.fresh("i", "I"), tm.fresh("j", "I"), tm.fresh("t", "I")
        inn = [tm.le(0, i), tm.lt(i, K), tm.le(0, j), tm.lt(j, K)]
        u.check("states are taken after the last measurement of a period", tm.eq(i, last(d.per(i))), inn + [cond(i), unique(i, last(d.per(i)))])
        u.check("every period has filtered states", tm.lift(cond(last(t))), [tm.le(0, t), tm.lt(t, T)])
        # rows of the update table are ordered by period (C14)
        u.check(
            "the k-th block is the one of period k", tm.lt(d.per(i), d.per(j)),
            inn + [cond(i), cond(j), tm.lt(i, j), tm.le(d.per(i), d.per(j)), unique(i, last(d.per(i))), unique(j, last(d.per(j)))],
        )
        for g, fs in ax.generic("b"):
            fs = list(fs)
            with e.assuming(fs):
                w = v.seg.fn(g)
                k = ar.flat(g)[0]
                pos = ax.to_int(g)
                # by the three obligations above the position of a block is its period
                columns(
                    u, "filtered states", w, (N,), {"period": lambda n: Either(pos, d.per(k)), "id": lambda n: n},
                    (d.latent, lambda n, l: S(M, lambda m: tm.mul(app("fs", k, n, m, l), tm.fn("exp", app("lw", k, n, m))))), fs,
                )


class Either:
    """one of two terms that are equal by a lemma"""

    def __init__(self, *terms):
        self.terms = terms

    def pick(self, v):
        for t in self.terms:
            if tm.eq(v, t) is tm.TRUE:
                return t
        return self.terms[-1]


def c20_ranges(u):
    L = u.int("n_latent", 1)
    latent = [Seg(Plain(L), lat)]
    table = Obj("states")
    table.methods = {"groupby": fr.groupby(table), "copy": lambda e, deep=True: table}
    for v in each(u, PD + ".create_state_ranges", (table, latent)):
        e = u.e
        if not isinstance(v, dict):
            u.fail("ranges: a dict", repr(v))
            continue
        u.same_list("ranges: one entry per factor", e.entries(v), latent)
        l = tm.fresh("l", "I")
        fs = [tm.le(0, l), tm.lt(l, L)]
        with e.assuming(fs):
            t = e.dict_item(v, lat(l))
            if not isinstance(t, fr.GroupedTable):
                raise Unsupported("table of ranges")
            if list(t.names) != ["minimum", "maximum"]:
                u.fail("ranges: columns", repr(t.names))
                continue
            u.ok("ranges: columns")
            for c, how in zip(t.cols, ("min", "max")):
                if c.table is not table or c.by != "period" or c.how != how:
                    u.fail(f"ranges: {how}imum per period of the states", f"{c.how} by {c.by}")
                    continue
                u.check(f"ranges: {how}imum per period of the states of the factor", tm.lift(e.equal(c.label, lat(l))), fs)


def wired(u, qual, res, **want):
    """replaces a function by its contract: the arguments are the given ones, the result is res"""

    def stub(e, a, kw):
        b = bound(e, qual, a, kw)
        for n, w in want.items():
            u.same_value(f"{qual.split('.')[-1]} is called with the right {n}", b[n], w)
        return res(b) if callable(res) else res

    u.stubs[qual] = stub


def c20_debug_data(u, optional):
    """optional: value and contributions are part of the debug data"""
    names = ["filtered_states", "log_mixture_weights", "residuals", "residual_sds", "all_contributions"] + (["value", "contributions"] if optional else [])
    raw = {n: token("raw " + n) for n in names}
    t = {n: token(n) for n in ("post_update_states", "filtered_states", "state_ranges", "residuals", "residual_sds", "all_contributions")}
    upd = token("update_info")
    factors = [Seg(Plain(u.int("n_latent", 1)), lat)]
    wired(u, PD + "._create_post_update_states", t["post_update_states"], filtered_states=raw["filtered_states"], factors=factors, update_info=upd)
    wired(u, PD + "._create_filtered_states", t["filtered_states"], filtered_states=raw["filtered_states"], log_mixture_weights=raw["log_mixture_weights"], update_info=upd, factors=factors)
    wired(u, PD + ".create_state_ranges", t["state_ranges"], filtered_states=t["filtered_states"], factors=factors)
    wired(u, PD + "._process_residuals", t["residuals"], residuals=raw["residuals"], update_info=upd)
    wired(u, PD + "._process_residual_sds", t["residual_sds"], residual_sds=raw["residual_sds"], update_info=upd)
    wired(u, PD + "._process_all_contributions", t["all_contributions"], all_contributions=raw["all_contributions"], update_info=upd)
    want = dict(t)
    if optional:
        want.update(value=raw["value"], contributions=raw["contributions"])
    for v in each(u, PD + ".process_debug_data", (raw, {"update_info": upd, "labels": {"latent_factors": factors}})):
        u.same_value("tables of the result", v, want)


def c20_get_filtered(u):
    t = {n: token(n) for n in ("model_dict", "data", "index", "selected", "states", "ranges", "anchored", "anchored_ranges")}
    params = rows_of("params", "index", t)
    factors = [Seg(Plain(u.int("n_latent", 1)), lat)]
    template = Obj("template", get_attr=lambda e, n: t["index"] if n == "index" else NOATTR)

    def loglike(en, a, kw):
        u.same_value("the likelihood is evaluated at the parameters of the model", a[0] if a else kw["params"], t["selected"])
        return {"filtered_states": t["states"], "state_ranges": t["ranges"]}

    from .interp import Native

    inputs = {"params_template": template, "debug_loglike": Native(loglike, "debug_loglike")}
    wired(u, "skillmodels.likelihood_function.get_maximization_inputs", inputs, model_dict=t["model_dict"], data=t["data"])
    wired(u, "skillmodels.process_model.process_model", {"labels": {"latent_factors": factors}}, model_dict=t["model_dict"])
    wired(u, FS + ".anchor_states_df", t["anchored"], states_df=t["states"], model_dict=t["model_dict"], params=t["selected"])
    wired(u, PD + ".create_state_ranges", t["anchored_ranges"], filtered_states=t["anchored"], factors=factors)
    for v in each(u, FS + ".get_filtered_states", (t["model_dict"], t["data"], params)):
        u.same_value(
            "tables of the result", v,
            {"anchored_states": {"states": t["anchored"], "state_ranges": t["anchored_ranges"]}, "unanchored_states": {"states": t["states"], "state_ranges": t["ranges"]}},
        )


def rows_of(name, index, t):
    """a table that is used by selecting the rows of the index (loc or reindex)"""

    def pick(e, k, *a, **kw):
        if k is not t[index]:
            raise Unsupported("rows of the parameters")
        return t["selected"]

    loc = Obj("loc", getitem=pick)
    return Obj(name, methods={"reindex": pick}, get_attr=lambda e, n: loc if n == "loc" else NOATTR)


def c04_anchor(u):
    """states of any table: period column, one column per factor, further columns, any row order"""
    R, T, L, O, X = u.int("n_rows", 1), u.int("n_periods", 1), u.int("n_latent", 1), u.int("n_observed", 0), u.int("n_other", 0)
    F = tm.add(L, O)
    t = {n: token(n) for n in ("model_dict", "update_info", "transition_info", "anchoring", "p_index", "parsing_info", "selected")}
    factors = [Seg(Plain(L), lat)]
    labels = {"latent_factors": factors, "observed_factors": [Seg(Plain(O), lambda o: app("obsf", o, sort="S"))]}
    dims = {"n_latent_factors": L, "n_periods": T, "n_observed_factors": O}
    S_ = "skillmodels."
    wired(u, S_ + "process_model.process_model", {"labels": labels, "dimensions": dims, "update_info": t["update_info"], "transition_info": t["transition_info"], "anchoring": t["anchoring"]}, model_dict=t["model_dict"])
    wired(u, S_ + "params_index.get_params_index", t["p_index"], update_info=t["update_info"], labels=labels, dimensions=dims, transition_info=t["transition_info"])
    wired(u, S_ + "parse_params.create_parsing_info", t["parsing_info"], params_index=t["p_index"], update_info=t["update_info"], labels=labels, anchoring=t["anchoring"])
    values = u.array("value", u.int("n_params", 1), lib="np")
    column = Obj("Series", methods={"to_numpy": lambda e, **k: values}, get_attr=lambda e, n: values if n == "values" else NOATTR)
    t["selected"].getitem = lambda e, k: column if k == "value" else u.fail("parameters are the values of the table", repr(k))
    params = rows_of("params", "p_index", t)
    pardict = {"anchoring_scaling_factors": u.array("scal", T, F), "anchoring_constants": u.array("cons", T, F)}

    def parse(b):
        u.arr_eq("parse_params is called with the values of the table", ar.as_arr(b["params"]), arr((tm.var("n_params", "I"),), lambda i: app("value", i)))
        n = tm.lift(b["n_obs"])
        u.check("parse_params is called with a positive number of individuals", tm.le(1, n))
        return (token("states"), token("covs"), token("log_weights"), pardict)

    wired(u, S_ + "parse_params.parse_params", parse, parsing_info=t["parsing_info"], dimensions=dims, labels=labels)
    per = lambda r: app("rowper", r, sort="I")
    u.theory.schemas["rowper"] = lambda r: [tm.le(0, per(r)), tm.lt(per(r), T)]
    ix = pm.Index([Seg(Plain(R), lambda r: app("rowlabel", r, sort="S"))], [None])
    other = lambda x: app("othercol", x, sort="S")
    # precondition: column names are unique, no factor is called period
    isf = lambda s: app("isfactorname", s, sort="B")
    u.theory.schemas["othercol"] = lambda x: [tm.not_(tm.eq(other(x), tm.lift("period"))), tm.not_(isf(other(x)))]
    u.theory.schemas["lat"] = lambda l: [tm.not_(tm.eq(lat(l), tm.lift("period"))), isf(lat(l))]
    no = lambda f: lambda i, j: (f(i, j), tm.FALSE)

    def table():
        return fr.Wide(ix, [
            fr.Col(Plain(X), other, no(lambda i, j: app("x", i, j))),
            fr.Col(None, lambda j: "period", no(lambda i, j: per(i)), "I"),
            fr.Col(Plain(L), lat, no(lambda i, j: app("s", i, j))),
        ])

    states = table()
    for v in each(u, FS + ".anchor_states_df", (states, t["model_dict"], params)):
        e = u.e
        if not isinstance(v, fr.Wide):
            raise Unsupported("table of anchored states")
        if v is states:
            u.fail("a new table", "the table of the caller is returned")
            continue
        u.ok("a new table")
        if v.index is not ix:
            u.fail("rows and index are unchanged", repr(v.index))
            continue
        u.ok("rows and index are unchanged")
        u.same_list("columns are unchanged", v.labels(), table().labels())
        for nm, w, cols in (("anchored: ", v, True), ("states of the caller are not modified: ", states, False)):
            by = {("period" if c.axis is None else c.label(num(0)).args[0]): c for c in w.cols}
            r, j = tm.fresh("r", "I"), tm.fresh("j", "I")
            inn = [tm.le(0, r), tm.lt(r, R)]
            for key, n, want in (
                ("period", 1, lambda r, j: per(r)), ("othercol", X, lambda r, j: app("x", r, j)),
                ("lat", L, lambda r, j: tm.add(app("cons", per(r), j), tm.mul(app("s", r, j), app("scal", per(r), j))) if cols else app("s", r, j)),
            ):
                fs = inn + [tm.le(0, j), tm.lt(j, n)]
                with e.assuming(fs):
                    val, nan = by[key].cell(r, j)
                    u.check(nm + {"period": "period of a row", "othercol": "other columns", "lat": "states of a factor"}[key], tm.and_(tm.not_(nan), tm.eq(val, want(r, j))), fs)


UNITS = {
    "C20": [
        ("process_debug_data._create_post_update_states", c20_post),
        ("process_debug_data._process_residuals", lambda u: c20_residuals(u, "_process_residuals")),
        ("process_debug_data._process_residual_sds", lambda u: c20_residuals(u, "_process_residual_sds")),
        ("process_debug_data._process_all_contributions", c20_contributions),
        ("process_debug_data._create_filtered_states", c20_filtered),
        ("process_debug_data.create_state_ranges", c20_ranges),
        ("process_debug_data.process_debug_data", lambda u: c20_debug_data(u, False)),
        ("process_debug_data.process_debug_data [with value and contributions]", lambda u: c20_debug_data(u, True)),
        ("filtered_states.get_filtered_states", c20_get_filtered),
    ],
    "C04": [("filtered_states.anchor_states_df", c04_anchor), ("filtered_states.get_filtered_states", c20_get_filtered)],
}
