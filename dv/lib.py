"""Contracts of library functions (jax, numpy, functools, itertools, builtins, ...).

These are assumptions about the dependencies, stated as executable symbolic definitions:
shape and index behaviour of array functions, logsumexp, normal density, and the QR
contract (upper triangular R with R'R = A'A).
"""
import builtins
import functools
import itertools
import math
import operator
import types
import warnings

import jax
import jax.numpy as jnp
import numpy as np

from . import arrays as ar
from . import terms as tm
from .arrays import BIN, Arr, CodeError, Comp, Dom, Plain, Slice, Unsupported, as_arr, scalar
from .interp import (
    conditional,
    LIB,
    AtIndexer,
    Closure,
    DictView,
    DSeg,
    Engine,
    ExcValue,
    Method,
    Native,
    Obj,
    Partial,
    PyRaise,
    Seg,
    SetOf,
    VMap,
    all_native,
    axis_list,
    hashable,
    list_axis,
    merge_values,
    native_ok,
)
from .terms import T, num


def reg(*objs):
    def deco(f):
        for o in objs:
            LIB[id(o)] = f
        return f

    return deco


def both(name):
    out = []
    for m in (jnp, np):
        o = m
        try:
            for p in name.split("."):
                o = getattr(o, p)
            out.append(o)
        except AttributeError:
            pass
    return out


def lib_of(eng, r, lib):
    if isinstance(r, Arr):
        r.lib = lib
    return r


def regboth(*names):
    def deco(f):
        for name in names:
            for lib, m in (("jnp", jnp), ("np", np)):
                o = m
                try:
                    for p in name.split("."):
                        o = getattr(o, p)
                except AttributeError:
                    continue

                def h(eng, *a, _f=f, _lib=lib, **k):
                    k.pop("dtype", None)
                    r = _f(eng, *a, **k)
                    if isinstance(r, Arr):
                        r = Arr(r.axes, r.fn, r.nan, r.sort, _lib)
                    return r

                LIB[id(o)] = h
        return f

    return deco


def ival(x):
    """axis argument"""
    if x is None:
        return None
    if isinstance(x, Arr) and x.ndim == 0:
        x = x.fn(())
    if isinstance(x, T):
        x = tm.unlift(x)
    if isinstance(x, (tuple, list)):
        return tuple(ival(y) for y in x)
    if isinstance(x, T):
        raise Unsupported("symbolic axis argument")
    return int(x)


def shape_of(s):
    if isinstance(s, (tuple, list)):
        return [dimval(x) for x in s]
    return [dimval(s)]


def dimval(x):
    if isinstance(x, Arr):
        if x.ndim == 0:
            return x.fn(())
        raise CodeError("shape entry is an array")
    if isinstance(x, Seg):
        raise Unsupported("symbolic number of dimensions")
    if isinstance(x, float):
        raise CodeError("shape entries must be integers")
    return tm.lift(x)


# ------------------------------------------------------------------ array functions
regboth("sum")(lambda e, a, axis=None, keepdims=False: ar.asum(arr(a), ival(axis), keepdims))
regboth("mean")(lambda e, a, axis=None, keepdims=False: ar.amean(arr(a), ival(axis), keepdims))
regboth("any")(lambda e, a, axis=None, keepdims=False: ar.aany(arr(a), ival(axis), keepdims))
regboth("all")(lambda e, a, axis=None, keepdims=False: ar.aall(arr(a), ival(axis), keepdims))
regboth("sqrt")(lambda e, x: ar.a_sqrt(arr(x)))
regboth("exp")(lambda e, x: ar.a_exp(arr(x)))
regboth("log")(lambda e, x: ar.a_log(arr(x)))
regboth("abs", "absolute", "fabs")(lambda e, x: ar.a_abs(arr(x)))
regboth("negative")(lambda e, x: ar.a_neg(arr(x)))
regboth("isfinite")(lambda e, x: ar.a_isfinite(arr(x)))
regboth("isnan")(lambda e, x: ar.a_isnan(arr(x)))
regboth("nan_to_num")(lambda e, x, copy=True, nan=0.0: ar.a_nan_to_num(arr(x), nan))
regboth("square")(lambda e, x: ar.a_pow(arr(x), 2))
regboth("dot")(lambda e, x, y: ar.dot(arr(x), arr(y)))
regboth("matmul")(lambda e, x, y: ar.matmul(arr(x), arr(y)))
regboth("einsum")(lambda e, s, *o: ar.einsum(s, *[arr(x) for x in o]))
regboth("transpose")(lambda e, x, axes=None: ar.transpose(arr(x), ival(axes)))
regboth("reshape")(lambda e, x, *s, **k: do_reshape(arr(x), s or (k.get("newshape", k.get("shape")),)))
regboth("ravel")(lambda e, x: ar.flatten(arr(x)))
regboth("squeeze")(lambda e, x, axis=None: squeeze(arr(x), axis))
regboth("concatenate")(lambda e, xs, axis=0: ar.concatenate([arr(x) for x in e.entries(xs)], ival(axis)))
regboth("hstack")(lambda e, xs: hstack([arr(x) for x in e.entries(xs)]))
regboth("vstack")(lambda e, xs: ar.concatenate([atleast2(arr(x)) for x in e.entries(xs)], 0))
regboth("stack")(lambda e, xs, axis=0: ar.stack([arr(x) for x in e.entries(xs)], ival(axis)))
regboth("column_stack")(lambda e, xs: ar.column_stack([arr(x) for x in e.entries(xs)]))
regboth("expand_dims")(lambda e, x, axis: expand(arr(x), axis))
regboth("broadcast_to")(lambda e, x, shape: ar.broadcast_to(arr(x), shape_of(shape)))
regboth("repeat")(lambda e, x, repeats, axis=None, **k: ar.repeat(arr(x), dimval(repeats), ival(axis)))
regboth("tile")(lambda e, x, reps: ar.tile(arr(x), shape_of(reps)))
regboth("zeros")(lambda e, shape: ar.full(shape_of(shape), 0, "R"))
regboth("ones")(lambda e, shape: ar.full(shape_of(shape), 1, "R"))
regboth("full")(lambda e, shape, v: ar.full(shape_of(shape), v))
regboth("zeros_like")(lambda e, x: like(arr(x), 0))
regboth("ones_like")(lambda e, x: like(arr(x), 1))
regboth("full_like")(lambda e, x, v: like(arr(x), v))
regboth("arange")(lambda e, *a: ar.arange(*[scal(x) for x in a]))
regboth("eye", "identity")(lambda e, n: ar.eye(scal(n)))
regboth("diag")(lambda e, x, k=0: ar.diag(arr(x), k))
regboth("tril_indices")(lambda e, n, k=0, m=None: ar.tril_indices(scal(n), k, m))
regboth("triu_indices")(lambda e, n, k=0, m=None: ar.tril_indices(scal(n), k, m, True))
regboth("maximum")(lambda e, x, y: ar.a_max2(arr(x), arr(y)))
regboth("minimum")(lambda e, x, y: ar.a_min2(arr(x), arr(y)))
regboth("multiply")(lambda e, x, y: BIN["*"](arr(x), arr(y)))
regboth("add")(lambda e, x, y: BIN["+"](arr(x), arr(y)))
regboth("subtract")(lambda e, x, y: BIN["-"](arr(x), arr(y)))
regboth("divide", "true_divide")(lambda e, x, y: BIN["/"](arr(x), arr(y)))
regboth("power")(lambda e, x, y: ar.a_pow(arr(x), y))
regboth("logical_and")(lambda e, x, y: BIN["&"](arr(x), arr(y)))
regboth("logical_or")(lambda e, x, y: BIN["|"](arr(x), arr(y)))
regboth("logical_not")(lambda e, x: logical_not(e, arr(x)))
regboth("array", "asarray")(lambda e, x, copy=True: conv(e, x))
regboth("float64")(lambda e, x: arr(x))
regboth("tril")(lambda e, x, k=0: trimask(arr(x), lambda i, j: tm.le(j, tm.add(i, k))))
regboth("triu")(lambda e, x, k=0: trimask(arr(x), lambda i, j: tm.le(tm.add(i, k), j)))
regboth("swapaxes")(lambda e, x, a, b: swap(arr(x), a, b))
regboth("moveaxis")(lambda e, x, a, b: moveaxis(arr(x), a, b))
regboth("outer")(lambda e, x, y: BIN["*"](ar.expand_dims(arr(x), 1), ar.expand_dims(arr(y), 0)))
regboth("linspace")(lambda e, a, b, n=50: linspace(scal(a), scal(b), scal(n)))
regboth("prod")(lambda e, *a, **k: unsup("prod"))
regboth("atleast_1d")(lambda e, x: ar.expand_dims(arr(x), 0) if arr(x).ndim == 0 else arr(x))
regboth("atleast_2d")(lambda e, x: atleast2(arr(x)))
regboth("take")(lambda e, a, idx, axis=None, **k: take(e, arr(a), idx, axis))


def take(e, a, idx, axis):
    if axis is None:
        raise Unsupported("take without axis")
    key = [Slice(None, None, None)] * a.ndim
    key[axis % a.ndim] = e.norm_key(idx)
    return ar.getitem(a, tuple(key))


def linspace(a, b, n):
    a, b, n = tm.lift(a), tm.lift(b), tm.lift(n)
    return Arr(
        [Plain(n)],
        lambda i: tm.add(a, tm.div(tm.mul(tm.toR(i[0]) if hasattr(tm, "toR") else i[0], tm.sub(b, a)), tm.sub(n, 1))),
        None,
        "R",
    )


def unsup(name):
    raise Unsupported(name)


def moveaxis(x, a, b):
    perm = list(range(x.ndim))
    d = perm.pop(a % x.ndim)
    perm.insert(b % x.ndim, d)
    return ar.transpose(x, perm)


def swap(x, a, b):
    perm = list(range(x.ndim))
    perm[a], perm[b] = perm[b], perm[a]
    return ar.transpose(x, perm)


def trimask(a, cond):
    c = Arr(a.axes, lambda i: cond(a.axes[-2].to_int(i[-2]), a.axes[-1].to_int(i[-1])), None, "B")
    return ar.a_where(c, a, 0)


def like(a, v):
    t, n = as_arr(v).el(())
    return Arr(a.axes, lambda i: t, None if n is tm.FALSE else (lambda i: n), "R", a.lib)


def atleast2(a):
    return ar.expand_dims(a, 0) if a.ndim == 1 else a


def hstack(xs):
    return ar.concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def expand(a, axis):
    axs = axis if isinstance(axis, (tuple, list)) else [axis]
    n = a.ndim + len(axs)
    for x in sorted(int(y) % n for y in axs):
        a = ar.expand_dims(a, x)
    return a


def squeeze(a, axis=None):
    dims = [ival(axis) % a.ndim] if axis is not None else [d for d, x in enumerate(a.axes) if ar.is_one(x)]
    key = tuple(0 if d in dims else Slice(None, None, None) for d in range(a.ndim))
    return ar.getitem(a, key)


def arr(x):
    if isinstance(x, Obj) and hasattr(x, "to_array"):
        return x.to_array()
    if isinstance(x, (list, tuple)) and any(isinstance(y, Seg) for y in x):
        return conv(ar.E(), x)
    if isinstance(x, (list, tuple)) and any(isinstance(y, (Obj,)) for y in x):
        return as_arr([arr(y) for y in x])
    return as_arr(x)


def scal(x):
    if isinstance(x, Arr):
        if x.ndim:
            raise Unsupported("array where a scalar is expected")
        return x.fn(())
    return tm.lift(x)


def conv(e, x):
    """array from a nested list, possibly with symbolically many entries"""
    if isinstance(x, Obj) and hasattr(x, "to_array"):
        return x.to_array()
    if isinstance(x, (list, tuple)) and any(isinstance(y, Seg) for y in x):
        parts = []
        for y in x:
            if isinstance(y, Seg):
                (g, f), = y.axis.generic("g") if len(y.axis.generic("g")) == 1 else [(None, None)]
                if g is None:
                    raise Unsupported("array of a composite symbolic list")
                with e.assuming(f):
                    sample = conv(e, y.fn(g))
                sub = sample.axes
                from .arrays import flat

                def mk_(get, y=y, f=f, g=g):
                    gf = flat(g)

                    def fn(idx):
                        with e.assuming(f):
                            s = conv(e, y.fn(g))
                            t = get(s)(tuple(idx[1:]))
                        return tm.subst(t, dict(zip(gf, flat(idx[0]))))

                    return ar.memo_fn(fn)

                parts.append(
                    Arr(
                        (y.axis,) + tuple(sub),
                        mk_(lambda s: s.fn),
                        mk_(lambda s: s.nan) if sample.nan is not None else None,
                        sample.sort,
                    )
                )
            else:
                parts.append(ar.expand_dims(conv(e, y), 0))
        return ar.concatenate(parts, 0) if len(parts) > 1 else parts[0]
    if isinstance(x, (list, tuple)) and x:
        return ar.stack([conv(e, y) for y in x], 0)
    return as_arr(x)


def logical_not(e, x):
    if isinstance(x, T):
        if x.sort == "B":
            return tm.not_(x)
        raise Unsupported("bitwise not")
    if isinstance(x, bool):
        return not x if False else ~x
    if isinstance(x, Obj) and hasattr(x, "invert"):
        return x.invert(e)
    x = as_arr(x)
    if x.sort != "B":
        raise Unsupported("bitwise not of a non-boolean array")
    return Arr(x.axes, lambda i: tm.not_(ar.tobool(x.fn(i))), None, "B", x.lib)


def do_reshape(a, args):
    if len(args) == 1 and isinstance(args[0], (tuple, list)):
        args = args[0]
    return ar.reshape(a, shape_of(list(args)))


@regboth("where")
def _where(e, c, x=None, y=None):
    if x is None:
        raise Unsupported("where with one argument")
    return ar.a_where(arr(c), arr(x), arr(y))


@regboth("clip")
def _clip(e, a, a_min=None, a_max=None):
    r = arr(a)
    if a_min is not None:
        r = ar.a_max2(r, arr(a_min))
    if a_max is not None:
        r = ar.a_min2(r, arr(a_max))
    return r


@regboth("linalg.qr")
def _qr(e, a, mode="reduced"):
    return ar.qr(arr(a), mode)


@regboth("linalg.norm")
def _norm(e, *a, **k):
    raise Unsupported("norm")


@reg(jax.scipy.stats.norm.logpdf)
def _logpdf(e, x, loc=0, scale=1):
    return ar.norm_logpdf(arr(x), arr(loc), arr(scale))


@reg(jax.scipy.stats.norm.pdf)
def _pdf(e, x, loc=0, scale=1):
    return ar.norm_pdf(arr(x), arr(loc), arr(scale))


@reg(jax.scipy.special.logsumexp, jax.nn.logsumexp)
def _lse(e, a, axis=None, b=None, keepdims=False):
    a = arr(a)
    # -inf entries are allowed: they stand for a term that is zero
    return ar.logsumexp(a, ival(axis), None if b is None else arr(b), keepdims)


@regboth("logaddexp")
def _lae(e, x, y):
    s = BIN["+"](ar.a_exp(arr(x)), ar.a_exp(arr(y)))
    return Arr(s.axes, lambda i: tm.fn("log", s.fn(i)), s.nan, "R")


def _softplus(e, x):
    s = BIN["+"](scalar(num(1)), ar.a_exp(arr(x)))
    return Arr(s.axes, lambda i: tm.fn("log", s.fn(i)), s.nan, "R")


LIB[id(jax.nn.softplus)] = _softplus


@reg(jax.nn.softmax)
def _softmax(e, x, axis=-1):
    ex = ar.a_exp(arr(x))
    return BIN["/"](ex, ar.asum(ex, ival(axis), True))


# ------------------------------------------------------------------ jax transformations
@reg(jax.vmap)
def _vmap(e, f, in_axes=0, out_axes=0, **k):
    return VMap(f, in_axes, out_axes)


@reg(jax.jit)
def _jit(e, f=None, **k):
    if f is None:
        return Native(lambda en, a, kw: a[0], "jit")
    return f


@reg(jax.lax.cond)
def _cond(e, pred, tf, ff, *ops, **k):
    p = pred
    if isinstance(p, Arr):
        if p.ndim:
            raise CodeError("lax.cond needs a scalar predicate")
        p = p.fn(())
    p = ar.tobool(tm.lift(p))
    if "operand" in k:
        ops = (k["operand"],)
    h = e.hooks.get("cond")
    if h is not None:
        return h(e, p, tf, ff, ops)
    if e.truth(p):
        return e.call(tf, list(ops), {})
    return e.call(ff, list(ops), {})


@reg(jax.lax.scan)
def _scan(e, f, init, xs=None, length=None, **k):
    h = e.hooks.get("scan")
    if h is None:
        raise Unsupported("lax.scan without a recurrence contract")
    return h(e, f, init, xs, length, k)


@reg(jax.tree_util.tree_map)
def _tree_map(e, f, t, *rest):
    def go(x, *r):
        if isinstance(x, dict):
            return {k: go(v, *[y[k] for y in r]) for k, v in x.items()}
        if isinstance(x, (tuple, list)):
            return type(x)(go(v, *[y[i] for y in r]) for i, v in enumerate(x))
        return e.call(f, [x, *r], {})

    return go(t, *rest)


# ------------------------------------------------------------------ functools, itertools
@reg(functools.partial)
def _partial(e, f, *a, **k):
    return Partial(f, list(a), dict(k))


@reg(functools.wraps)
def _wraps(e, f):
    def deco(en, a, kw):
        g = a[0]
        if hasattr(g, "attrs") and hasattr(f, "attrs"):
            g.attrs.update({k: v for k, v in f.attrs.items()})
            g.attrs["__wrapped__"] = f
        elif hasattr(g, "attrs"):
            g.attrs["__wrapped__"] = f
            if hasattr(f, "__name__"):
                g.attrs["__name__"] = f.__name__
        return g

    return Native(deco, "wraps")


@reg(functools.reduce)
def _reduce(e, f, seq, *init):
    es = e.entries(seq)
    if any(isinstance(x, Seg) for x in es):
        raise Unsupported("reduce over a symbolic sequence")
    it = list(init) + es
    v = it[0]
    for x in it[1:]:
        v = e.call(f, [v, x], {})
    return v


@reg(itertools.combinations)
def _combinations(e, seq, r):
    es = e.entries(seq)
    if not any(isinstance(x, Seg) for x in es):
        return list(itertools.combinations(es, r))
    if r != 2:
        raise Unsupported("combinations of more than two")
    ax, fn = list_axis(es)
    d = e.simplify_dom(Dom([ax, ax], lambda ij: tm.lt(ax.to_int(ij[0]), ax.to_int(ij[1])), tag="pairs"))
    return [Seg(d, lambda ij: (fn(ij[0]), fn(ij[1])))]


@reg(itertools.combinations_with_replacement)
def _combinations_wr(e, seq, r):
    es = e.entries(seq)
    if not any(isinstance(x, Seg) for x in es):
        return list(itertools.combinations_with_replacement(es, r))
    if r != 2:
        raise Unsupported("combinations of more than two")
    ax, fn = list_axis(es)
    d = Dom([ax, ax], lambda ij: tm.le(ax.to_int(ij[0]), ax.to_int(ij[1])), tag="pairs")
    return [Seg(d, lambda ij: (fn(ij[0]), fn(ij[1])))]


@reg(itertools.product)
def _product(e, *seqs, repeat=1):
    es = [e.entries(s) for s in seqs] * repeat
    if not any(isinstance(x, Seg) for s in es for x in s):
        return list(itertools.product(*es))
    pa = [list_axis(s) for s in es]
    c = Comp([p[0] for p in pa])

    def fn(idx):
        out, k = [], 0
        for ax, f in pa:
            if isinstance(ax, Comp):
                m = len(ax.axes)
                out.append(f(tuple(idx[k : k + m])))
                k += m
            else:
                out.append(f(idx[k]))
                k += 1
        return tuple(out)

    return [Seg(c, fn)]


@reg(itertools.chain)
def _chain(e, *seqs):
    return [x for s in seqs for x in e.entries(s)]


@reg(itertools.chain.from_iterable)
def _chain_fi(e, seq):
    es = e.entries(seq)
    if any(isinstance(x, Seg) for x in es):
        raise Unsupported("chain.from_iterable of a symbolic sequence")
    return [x for s in es for x in e.entries(s)]


# ------------------------------------------------------------------ builtins
@reg(len)
def _len(e, x):
    if isinstance(x, SetOf):
        raise Unsupported("number of distinct values")
    return e.length(x)


@reg(range)
def _range(e, *a):
    a = [tm.unlift(scal(x)) if isinstance(x, (Arr, T)) else x for x in a]
    if all(isinstance(x, int) for x in a):
        return list(range(*a))
    if len(a) == 3 and a[2] != 1:
        raise Unsupported("range with a step")
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    n = tm.sub(tm.lift(hi), tm.lift(lo))
    if e.decide(tm.le(0, n)) is not True:
        n = tm.max_(n, num(0))
    if tm.is_num(n):
        return [tm.unlift(tm.add(tm.lift(lo), k)) for k in range(int(n.args[0]))]
    return [Seg(Plain(n), lambda i: tm.unlift(tm.add(i, lo)))]


@reg(np.diff)
def _diff(e, a, n=1, axis=-1):
    a = arr(a)
    if n != 1 or a.ndim != 1 or axis not in (-1, 0) or not isinstance(a.axes[0], Plain):
        raise Unsupported("np.diff")
    m = a.axes[0].n
    d = e.decide(tm.le(1, m))
    if d is None:
        d = e.branch(tm.le(1, m))
    k = tm.sub(m, 1) if d else num(0)
    return Arr([Plain(k)], lambda i: tm.sub(a.fn((tm.add(i[0], 1),)), a.fn(i)), None, a.sort, "np")


@reg(np.isin)
def _isin(e, x, test, assume_unique=False, invert=False):
    x = arr(x)
    vals = e.entries(test)
    if any(isinstance(v, Seg) for v in vals) or invert:
        raise Unsupported("np.isin")
    return Arr(x.axes, lambda i: tm.or_(*[tm.eq(x.fn(i), tm.lift(v)) for v in vals]), None, "B", "np")


@reg(enumerate)
def _enumerate(e, seq, start=0):
    out = []
    off = tm.lift(start)
    for x in e.entries(seq):
        if isinstance(x, Seg):
            out.append(Seg(x.axis, lambda i, x=x, off=off: (tm.unlift(tm.add(off, x.axis.to_int(i))), x.fn(i))))
            off = tm.add(off, x.axis.size())
        else:
            out.append((tm.unlift(off), x))
            off = tm.add(off, num(1))
    return out


@reg(zip)
def _zip(e, *seqs, strict=False):
    es = [e.entries(s) for s in seqs]
    if not es:
        return []
    if not any(isinstance(x, Seg) for s in es for x in s):
        return [tuple(x) for x in zip(*es)]
    if len({len(s) for s in es}) == 1 and all(
        len({isinstance(s[k], Seg) for s in es}) == 1
        and (not isinstance(es[0][k], Seg) or all(ar.same_axis(es[0][k].axis, s[k].axis) for s in es))
        for k in range(len(es[0]))
    ):
        out = []
        for k in range(len(es[0])):
            if isinstance(es[0][k], Seg):
                out.append(Seg(es[0][k].axis, lambda i, k=k: tuple(s[k].fn(i) for s in es)))
            else:
                out.append(tuple(s[k] for s in es))
        return out
    cur, fs = None, []
    for s in es:
        ax, fn = list_axis(s)
        if cur is None:
            cur, fs = ax, [fn]
            continue
        # zip stops at the shorter sequence
        n, m = cur.size(), ax.size()
        if e.decide(tm.eq(n, m)) is not True:
            if isinstance(cur, Plain) and isinstance(ax, Plain):
                cur = Plain(tm.min_(n, m))
                fs.append(fn)
                continue
        new, fo, fn_ = ar.unify(cur, ax)
        fs = [lambda i, f=f, fo=fo: f(fo(i)) for f in fs] + [lambda i, fn=fn, fn_=fn_: fn(fn_(i))]
        cur = new
    return axis_list(cur, lambda i: tuple(f(i) for f in fs))


@reg(list)
def _list(e, x=()):
    return e.new(list(e.entries(x)))


@reg(tuple)
def _tuple(e, x=()):
    return tuple(e.entries(x))


@reg(set)
def _set(e, x=()):
    es = e.entries(x)
    if any(isinstance(y, Seg) for y in es):
        return SetOf(es)
    return e.new({hashable(y) for y in es})


@reg(dict)
def _dict(e, x=None, **k):
    d = e.new({})
    if isinstance(x, dict):
        e.note_read(x)
        dict.update(d, x)
    elif x is not None:
        for y in e.entries(x):
            if isinstance(y, Seg):
                from .interp import apply_mutation

                apply_mutation(e, d, "dseg", DSeg(y.axis, lambda i, y=y: e.unpack(y.fn(i), 2)[0], lambda i, y=y: e.unpack(y.fn(i), 2)[1]))
            else:
                a, b = e.unpack(y, 2)
                e.mutate(d, "setitem", (hashable(a), b))
    merge_dict(e, d, k)
    return d


@reg(str)
def _str(e, x=""):
    return e.join_str([x])


@reg(int)
def _int(e, x=0):
    if isinstance(x, (T, Arr)):
        t = scal(x)
        if t.sort == "I":
            return tm.unlift(t)
        # exact quotients of integers
        if t.op == "div":
            q = tm.exact_div(t.args[0], t.args[1]) if t.args[0].sort == "I" and t.args[1].sort == "I" else None
            if q is not None:
                return tm.unlift(q)
        raise Unsupported("int() of a real")
    return int(x)


@reg(float)
def _float(e, x=0.0):
    if isinstance(x, (T, Arr)):
        return arr(x)
    return float(x)


@reg(bool)
def _bool(e, x=False):
    if isinstance(x, T) and x.sort == "B":
        return x
    return e.truth(x)


@reg(abs)
def _abs(e, x):
    if isinstance(x, (T, Arr)):
        return ar.a_abs(arr(x))
    return abs(x)


@reg(sum)
def _sum(e, seq, start=0):
    tot = start
    for x in e.entries(seq):
        if isinstance(x, Seg):
            def f(i, x=x):
                v = x.fn(i)
                if isinstance(v, Arr) and v.ndim:
                    raise Unsupported("sum of arrays")
                return ar.tobool_num(scal(v)) if scal(v).sort == "B" else scal(v)

            t = ar.reduce_sum_term(x.axis, f)
            tot = e.binop("+", tot, tm.unlift(t))
        else:
            tot = e.binop("+", tot, x)
    return tot


@reg(any, builtins.any)
def _any(e, seq):
    return quant(e, seq, False)


@reg(all, builtins.all)
def _all(e, seq):
    r = quant(e, seq, True)
    return (not r) if isinstance(r, bool) else tm.unlift(tm.not_(r))


def quant(e, seq, neg):
    if isinstance(seq, Arr):
        seq = e.entries(seq)
    out = []
    for x in e.entries(seq):
        def b(v):
            t = v if isinstance(v, bool) else (ar.tobool(scal(v)) if isinstance(v, (T, Arr)) else e.truth(v))
            t = tm.lift(t)
            return tm.not_(t) if neg else t

        if isinstance(x, Seg):
            out.append(ar.reduce_exists(x.axis, lambda i, x=x: b(x.fn(i))))
        else:
            out.append(b(x))
    return tm.unlift(tm.or_(*out)) if out else False


def _minmax(e, args, pick, name):
    if len(args) == 1:
        es = e.entries(args[0])
    else:
        es = list(args)
    if any(isinstance(x, Seg) for x in es):
        h = e.hooks.get("minmax")
        if h is not None:
            r = h(e, es, name)
            if r is not None:
                return r
        raise Unsupported(f"{name} of a symbolic sequence")
    if all_native(es):
        return (max if name == "max" else min)(es)
    v = es[0]
    for x in es[1:]:
        v = tm.unlift(pick(scal(v), scal(x)))
    return v


@reg(max)
def _max(e, *a, **k):
    if k:
        raise Unsupported("max with key")
    return _minmax(e, a, tm.max_, "max")


@reg(min)
def _min(e, *a, **k):
    if k:
        raise Unsupported("min with key")
    return _minmax(e, a, tm.min_, "min")


@reg(sorted)
def _sorted(e, seq, key=None, reverse=False):
    es = e.entries(seq)
    if all_native(es) and key is None:
        return e.new(sorted(es, reverse=reverse))
    h = e.hooks.get("sorted")
    if h is not None:
        r = h(e, es, key, reverse)
        if r is not None:
            return r
    raise Unsupported("sorted of symbolic values")


@reg(reversed)
def _reversed(e, seq):
    es = e.entries(seq)
    if any(isinstance(x, Seg) for x in es):
        raise Unsupported("reversed of a symbolic sequence")
    return list(reversed(es))


PYT = {"I": (int,), "R": (float,), "B": (bool,), "S": (str,)}


@reg(isinstance)
def _isinstance(e, x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, Obj) and hasattr(x, "isinstance_"):
        return x.isinstance_(e, ts)
    if isinstance(x, T):
        py = {"I": int, "R": float, "B": bool, "S": str}[x.sort]
        return any(isinstance(k, type) and issubclass(py, k) for k in ts)
    if isinstance(x, Arr):
        for k in ts:
            if k in (np.ndarray, jnp.ndarray, jax.Array):
                return True
        if x.ndim == 0 and float in ts:
            return True
        return False
    if isinstance(x, (Closure, Partial, Native, VMap)):
        return any(k in (types.FunctionType, object) for k in ts)
    return any(isinstance(k, type) and isinstance(x, k) for k in ts)


@reg(callable)
def _callable(e, x):
    if isinstance(x, (Closure, Partial, Native, VMap, Method)):
        return True
    if isinstance(x, (T, Arr)):
        return False
    if isinstance(x, Obj):
        return hasattr(x, "call")
    return callable(x)


@reg(hasattr)
def _hasattr(e, o, name):
    if isinstance(name, T):
        h = e.hooks.get("hasattr")
        if h is not None:
            return h(e, o, name)
        if isinstance(o, types.ModuleType):
            return tm.unlift(tm.or_(*[tm.eq(name, tm.lift(a)) for a in dir(o)]))
        raise Unsupported("hasattr with a symbolic name")
    try:
        e.getattr(o, name)
        return True
    except (PyRaise, CodeError):
        return False


@reg(getattr)
def _getattr(e, o, name, *default):
    if isinstance(name, T):
        h = e.hooks.get("getattr")
        if h is not None:
            return h(e, o, name, default)
        if isinstance(o, types.ModuleType):
            for a in dir(o):
                c = tm.eq(name, tm.lift(a))
                if c is not tm.FALSE and e.branch(c):
                    return e.getattr(o, a)
            if default:
                return default[0]
            raise PyRaise(AttributeError, (name,))
        raise Unsupported("getattr with a symbolic name")
    try:
        return e.getattr(o, name)
    except (PyRaise, CodeError):
        if default:
            return default[0]
        raise


@reg(print)
def _print(e, *a, **k):
    return None


@reg(warnings.warn)
def _warn(e, msg, *a, **k):
    e.warned.append((msg, list(e.trail.conds)))


@reg(warnings.catch_warnings)
def _cw(e, **k):
    return None


@reg(warnings.filterwarnings, warnings.simplefilter)
def _fw(e, *a, **k):
    return None


@reg(np.isscalar)
def _isscalar(e, x):
    if isinstance(x, T):
        return True
    if isinstance(x, Arr):
        return False if x.lib == "jnp" else x.ndim == 0
    return np.isscalar(x)


import copy as _copymod  # noqa: E402


@reg(_copymod.deepcopy)
def _deepcopy(e, x):
    return deep(e, x)


@reg(_copymod.copy)
def _shallow(e, x):
    if isinstance(x, list):
        return e.new(list(x))
    if isinstance(x, dict):
        return e.new(dict(x))
    return x


def deep(e, x, own=True):
    """own: the copy is an object of its own (not part of an element of a symbolic sequence)"""
    new = e.new if own else lambda y: y
    if isinstance(x, list):
        e.note_read(x)
        return new([deep(e, y, own) for y in x])
    if isinstance(x, tuple):
        return tuple(deep(e, y, own) for y in x)
    if isinstance(x, dict):
        e.note_read(x)
        return new({(DSeg(k.axis, k.key, deep_fn(e, k, k.val)) if isinstance(k, DSeg) else k): deep(e, v, own) for k, v in x.items()})
    if isinstance(x, Seg):
        return Seg(x.axis, deep_fn(e, x, x.fn))
    if isinstance(x, Obj) and hasattr(x, "copy"):
        return x.copy(e)
    return x


def deep_fn(e, seg, f):
    if conditional(seg) is None:
        return lambda i: deep(e, f(i), False)
    v = []

    def get(i):
        if not v:
            v.append(deep(e, f(i), False))
        return v[0]

    return get


@reg(id)
def _id(e, x):
    raise Unsupported("id()")


# ------------------------------------------------------------------ attributes and methods
ARR_METHODS = {
    "reshape", "flatten", "ravel", "sum", "mean", "any", "all", "repeat", "astype", "copy", "dot",
    "transpose", "tolist", "item", "squeeze", "clip", "to_numpy", "block_until_ready", "swapaxes",
}
LIST_METHODS = {"append", "extend", "copy", "index", "insert", "count", "pop", "sort", "remove", "reverse"}
DICT_METHODS = {"items", "keys", "values", "get", "copy", "update", "pop", "setdefault"}


def get_attr(e, o, name):
    if isinstance(o, types.ModuleType):
        if o.__name__.startswith("skillmodels"):
            m = e.module(o.__name__)
            if name in m.defs:
                return m.get(name)
        if not hasattr(o, name):
            raise PyRaise(AttributeError, (f"module has no attribute {name}",))
        return e.wrap_real(getattr(o, name))
    if isinstance(o, Arr):
        if name == "shape":
            return o.shape()
        if name == "ndim":
            return o.ndim
        if name == "T":
            return ar.transpose(o)
        if name == "size":
            n = num(1)
            for a in o.axes:
                n = tm.mul(n, a.size())
            return tm.unlift(n)
        if name == "at":
            if o.lib != "jnp":
                raise PyRaise(AttributeError, ("numpy arrays have no attribute 'at'",))
            return AtIndexer(o)
        if name == "dtype":
            return {"B": np.dtype(bool), "I": np.dtype("int64"), "R": np.dtype("float64"), "S": np.dtype(object)}[o.sort]
        if name in ARR_METHODS:
            return Method(o, name)
        if hasattr(np.ndarray, name) or hasattr(jax.Array, name):
            raise Unsupported(f"array attribute {name}")
        raise PyRaise(AttributeError, (name,))
    if isinstance(o, AtIndexer):
        if name in ("set", "add", "multiply", "mul", "get"):
            return Method(o, name)
        raise Unsupported(f".at[].{name}")
    if isinstance(o, Obj):
        h = getattr(o, "get_attr", None)
        if h is not None:
            r = h(e, name)
            if r is not NOATTR:
                return r
        if name in getattr(o, "methods", {}):
            return Method(o, name)
        raise Unsupported(f"attribute '{name}' of {o.kind}")
    if hasattr(o, "attrs") and isinstance(getattr(o, "attrs"), dict):
        if name in o.attrs:
            return o.attrs[name]
        if isinstance(o, Closure) and name in ("__doc__", "__module__", "__qualname__"):
            return None
        raise PyRaise(AttributeError, (name,))
    if isinstance(o, (list, tuple)):
        if name in LIST_METHODS:
            return Method(o, name)
        if hasattr(type(o), name):
            raise Unsupported(f"attribute {name} of a {type(o).__name__}")
        raise PyRaise(AttributeError, (name,))
    if isinstance(o, dict):
        if name in DICT_METHODS:
            return Method(o, name)
        if hasattr(dict, name):
            raise Unsupported(f"attribute {name} of a dict")
        raise PyRaise(AttributeError, (name,))
    if isinstance(o, (str, set, int, float, range)):
        if hasattr(o, name):
            return Method(o, name)
        raise PyRaise(AttributeError, (name,))
    if isinstance(o, T):
        if o.sort == "S":
            return Method(o, name)
        if o.sort in "IR":
            return Method(o, name)
        raise Unsupported(f"attribute {name} of a symbolic scalar")
    if isinstance(o, ExcValue):
        if name == "args":
            return o.args
        raise Unsupported(f"attribute {name} of an exception")
    if o is None:
        raise PyRaise(AttributeError, (f"'NoneType' object has no attribute '{name}'",))
    if isinstance(o, SetOf) and name in ("difference", "intersection"):
        return Method(o, name)
    if isinstance(o, (DictView, SetOf)):
        raise Unsupported(f"attribute {name}")
    if isinstance(o, type) and (o, name) in CLSATTR:
        return Native(CLSATTR[(o, name)], name)
    if hasattr(o, name):
        v = getattr(o, name)
        return v
    raise PyRaise(AttributeError, (name,))


NOATTR = object()
CLSATTR = {}  # (class, attribute) -> contract


def set_filter(e, s, name, others):
    """difference or intersection of a symbolic set"""

    def keep(x):
        c = [tm.lift(e.contains(y, x)) for y in others]
        return tm.not_(tm.or_(*c)) if name == "difference" else tm.and_(*c)

    out = []
    for x in s.items:
        if isinstance(x, Seg):
            if not isinstance(x.axis, Plain):
                raise Unsupported(f"{name} of a set")
            out.append(Seg(Dom([x.axis], lambda j, x=x: keep(x.fn(j[0]))), lambda j, x=x: x.fn(j[0])))
        else:
            out.append(Seg(Dom([Plain(1)], lambda j, x=x: keep(x)), lambda j, x=x: x))
    return SetOf(out)


def call_method(e, o, name, a, k):
    if isinstance(o, SetOf):
        if k:
            raise CodeError(f"{name}() takes no keyword arguments")
        return set_filter(e, o, name, a)
    if isinstance(o, Arr):
        return arr_method(e, o, name, a, k)
    if isinstance(o, AtIndexer):
        if o.key is None:
            raise Unsupported("at without an index")
        key = o.key[1]
        if name == "get":
            return ar.getitem(o.a, key)
        mode = {"set": "set", "add": "add", "multiply": "mul", "mul": "mul"}[name]
        return ar.setitem(o.a, key, arr(a[0]), mode)
    if isinstance(o, Obj):
        return o.methods[name](e, *a, **k)
    if isinstance(o, list) or isinstance(o, tuple):
        return list_method(e, o, name, a, k)
    if isinstance(o, dict):
        return dict_method(e, o, name, a, k)
    if isinstance(o, str):
        if name == "format":
            return fmt(e, o, a, k)
        if name == "join":
            es = e.entries(a[0])
            if all_native(es):
                return o.join(es)
            h = e.hooks.get("join")
            if h is not None:
                return h(e, o, es)
            if any(isinstance(x, Seg) for x in es):
                n = e.length(es)
                return JoinText(o, es, n)
            parts = []
            for i, x in enumerate(es):
                if i:
                    parts.append(o)
                parts.append(x)
            return e.join_str(parts)
        if all_native(a) and all_native(list(k.values())):
            return getattr(o, name)(*a, **k)
        raise Unsupported(f"str.{name} of a symbolic value")
    if isinstance(o, set):
        if all_native([o]) and all_native(a):
            if name in ("add", "update", "discard", "remove", "pop", "clear") and e.owner_depth(o) < len(e.frames):
                raise Unsupported("set mutation in a symbolic loop")
            return getattr(o, name)(*a, **k)
        raise Unsupported(f"set.{name}")
    if isinstance(o, T):
        h = e.hooks.get("label_method")
        if h is not None:
            return h(e, o, name, a, k)
        if name in ("tolist", "item", "copy"):
            return o
        raise Unsupported(f"method {name} of a symbolic scalar")
    if all_native([o]) and all_native(a) and all_native(list(k.values())):
        return getattr(o, name)(*a, **k)
    raise Unsupported(f"method {name} of {type(o).__name__}")


class JoinText(Obj):
    """text of a joined symbolic list: empty iff the list is empty"""

    def __init__(self, sep, es, n):
        Obj.__init__(self, "joined text")
        self.sep, self.es, self.n = sep, es, n

    def compare(self, e, op, other, swapped):
        if op in ("==", "!=") and other == "":
            # entries are non-empty messages
            r = tm.eq(tm.lift(self.n), 0)
            return tm.unlift(r if op == "==" else tm.not_(r))
        raise Unsupported("comparison of a text")

    def truth(self):
        return tm.lt(0, tm.lift(self.n))


def fmt(e, s, a, k):
    import string

    parts = []
    auto = 0
    for lit, field, spec, convn in string.Formatter().parse(s):
        parts.append(lit)
        if field is None:
            continue
        if spec or convn:
            raise Unsupported("format specification")
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        else:
            v = k[field]
        parts.append(v)
    return e.join_str(parts)


def arr_method(e, o, name, a, k):
    k.pop("dtype", None) if name not in ("astype",) else None
    r = None
    if name == "reshape":
        r = do_reshape(o, a)
    elif name in ("flatten", "ravel"):
        r = ar.flatten(o)
    elif name == "sum":
        r = ar.asum(o, ival(k.get("axis", a[0] if a else None)), k.get("keepdims", False))
    elif name == "mean":
        r = ar.amean(o, ival(k.get("axis", a[0] if a else None)), k.get("keepdims", False))
    elif name == "any":
        r = ar.aany(o, ival(k.get("axis", a[0] if a else None)), k.get("keepdims", False))
    elif name == "all":
        r = ar.aall(o, ival(k.get("axis", a[0] if a else None)), k.get("keepdims", False))
    elif name == "repeat":
        r = ar.repeat(o, dimval(k.get("repeats", a[0] if a else None)), ival(k.get("axis", a[1] if len(a) > 1 else None)))
    elif name == "astype":
        t = a[0] if a else k.get("dtype")
        if t in (bool, "bool") and o.sort != "B":
            r = Arr(o.axes, lambda i: ar.tobool(o.fn(i)), None, "B", o.lib)
        elif t in (float, "float", "float64", np.float64) or t in (int, "int"):
            if o.sort == "R" and t in (int, "int"):
                raise Unsupported("astype(int)")
            r = Arr(o.axes, lambda i: num_of(o.fn(i)), o.nan, "R" if t not in (int, "int") else "I", o.lib)
        else:
            r = o
    elif name in ("copy", "block_until_ready", "to_numpy"):
        r = o
    elif name == "dot":
        r = ar.dot(o, arr(a[0]))
    elif name == "transpose":
        r = ar.transpose(o, ival(a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else (a or None)))
    elif name == "swapaxes":
        r = swap(o, a[0], a[1])
    elif name == "squeeze":
        r = squeeze(o, a[0] if a else k.get("axis"))
    elif name == "clip":
        r = LIB[id(jnp.clip)](e, o, *a, **k)
    elif name == "tolist":
        return e.new(e.entries(o)) if o.ndim else tm.unlift(o.fn(()))
    elif name == "item":
        return tm.unlift(o.fn(()))
    if r is None:
        raise Unsupported(f"array method {name}")
    r = Arr(r.axes, r.fn, r.nan, r.sort, o.lib)
    return r


def num_of(t):
    t = tm.lift(t)
    return tm.ite(t, num(1), num(0)) if t.sort == "B" else t


ar.tobool_num = num_of


def list_method(e, o, name, a, k):
    if name == "append":
        e.mutate(o, "append", a[0])
        return None
    if name == "extend":
        e.mutate(o, "extend", e.entries(a[0]))
        return None
    e.note_read(o)
    if name == "copy":
        return e.new(list(o))
    if name == "index":
        for i, x in enumerate(o):
            if isinstance(x, Seg):
                from .interp import match_seg

                m = match_seg(e, x, a[0])
                if m is not None and len(o) == 1:
                    # position of the first equal element: elements are distinct labels
                    for (g, f), in [x.axis.generic("q")]:
                        pass
                    (g1, f1), = x.axis.generic("q")
                    (g2, f2), = x.axis.generic("q")
                    eqv = tm.lift(e.equal(x.fn(g1), x.fn(g2)))
                    if e.prove_under(f1 + f2 + [eqv], ar.idx_struct_eq(g1, g2)):
                        return tm.unlift(x.axis.to_int(m))
                raise Unsupported("index in a symbolic list")
            r = e.equal(x, a[0])
            if isinstance(r, T):
                r = e.branch(r)
            if r:
                return i
        raise PyRaise(ValueError, ("not in list",))
    if name in ("count",) and all_native([o]) and all_native(a):
        return getattr(o, name)(*a)
    if any(isinstance(x, Seg) for x in o) or e.owner_depth(o) < len(e.frames):
        raise Unsupported(f"list.{name} on a symbolic list")
    if name == "insert":
        o.insert(*a)
        return None
    if name == "pop":
        return o.pop(*a)
    if name == "reverse":
        o.reverse()
        return None
    if all_native([o]) and all_native(a):
        return getattr(o, name)(*a, **k)
    raise Unsupported(f"list.{name}")


def merge_dict(e, o, src):
    """o.update(src): later entries override earlier ones"""
    e.note_read(src)
    for kk, v in list(src.items()):
        if isinstance(kk, DSeg) and conditional(kk) is not None and not e.frames:
            if e.branch(conditional(kk)):
                e.mutate(o, "setitem", (hashable(kk.key((num(0),))), kk.val((num(0),))))
        elif isinstance(kk, DSeg):
            e.mutate(o, "dseg", kk)
        else:
            e.mutate(o, "setitem", (kk, v))


def dict_method(e, o, name, a, k):
    if name in ("items", "keys", "values"):
        return DictView(o, name)
    if name == "get":
        e.note_read(o)
        r = e.dict_lookup(o, a[0])
        return r[0] if r is not None else (a[1] if len(a) > 1 else k.get("default"))
    if name == "copy":
        e.note_read(o)
        return e.new(dict(o))
    if name == "update":
        if a:
            src = a[0]
            if isinstance(src, dict):
                merge_dict(e, o, src)
            elif isinstance(src, Obj) and hasattr(src, "update_into"):
                src.update_into(e, o)
            else:
                for y in e.entries(src):
                    if isinstance(y, Seg):
                        raise Unsupported("dict.update with a symbolic sequence")
                    kk, v = e.unpack(y, 2)
                    e.mutate(o, "setitem", (hashable(kk), v))
        for kk, v in k.items():
            e.mutate(o, "setitem", (kk, v))
        return None
    if name == "pop":
        e.note_read(o)
        r = e.dict_lookup(o, a[0])
        if r is None:
            if len(a) > 1:
                return a[1]
            raise PyRaise(KeyError, (a[0],))
        if e.owner_depth(o) < len(e.frames) or a[0] not in o:
            raise Unsupported("dict.pop")
        return o.pop(a[0])
    if name == "setdefault":
        e.note_read(o)
        r = e.dict_lookup(o, a[0])
        if r is None:
            v = a[1] if len(a) > 1 else None
            e.mutate(o, "setitem", (hashable(a[0]), v))
            return v
        return r[0]
    raise Unsupported(f"dict.{name}")


# operator module
for _n, _s in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/")):
    LIB[id(getattr(operator, _n))] = (lambda s: (lambda e, x, y: e.binop(s, x, y)))(_s)


# ------------------------------------------------------------------ dags
def signature_names(f):
    """names of the free arguments of a function value (inspect.signature follows __wrapped__)"""
    if isinstance(f, Partial):
        names = signature_names(f.f)[len(f.args) :]
        return [n for n in names if n not in f.kwargs]
    attrs = getattr(f, "attrs", {})
    if "__signature__" in attrs:
        return list(attrs["__signature__"])
    if "__wrapped__" in attrs:
        return signature_names(attrs["__wrapped__"])
    if isinstance(f, Closure):
        a = f.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.kwarg.arg] if a.kwarg else [])
    if isinstance(f, functools.partial):
        return [n for n in signature_names(f.func)[len(f.args) :] if n not in f.keywords]
    raise Unsupported(f"signature of {type(f).__name__}")


def _rename_arguments(e, func=None, *, mapper=None):
    def deco(en, a, k):
        f = a[0]
        names = [mapper.get(n, n) for n in signature_names(f)]
        back = {v: k for k, v in mapper.items()}

        def call(en2, args, kw):
            return en2.call(f, args, {back.get(k, k): v for k, v in kw.items()})

        g = Native(call, getattr(f, "name", "renamed"))
        g.attrs.update({k: v for k, v in getattr(f, "attrs", {}).items() if k != "__wrapped__"})
        g.attrs["__signature__"] = names
        g.attrs["__wrapped__"] = f
        return g

    return deco(e, [func], {}) if func is not None else Native(deco, "rename_arguments")


def _concatenate_functions(e, functions, targets=None, return_type="tuple", aggregator=None, enforce_signature=True):
    """contract of dags: arguments in alphabetical order, results by name in the order of the targets"""
    if aggregator is not None:
        raise Unsupported("concatenate_functions with aggregator")
    if isinstance(functions, (list, tuple)):
        functions = {e.getattr(f, "__name__"): f for f in functions}
    functions = dict(functions)
    if any(not isinstance(k, str) for k in functions):
        raise Unsupported("concatenate_functions with symbolic names")
    if targets is None:
        targets = list(functions)
    single = isinstance(targets, str)
    tl = [targets] if single else list(targets)
    for t in tl:
        if not isinstance(t, str):
            raise Unsupported("symbolic targets")
        if t not in functions:
            raise PyRaise(ValueError, ("targets without function",))
    sigs = {}
    need, order, state = [], [], {}

    def visit(n):
        if state.get(n) == 1:
            raise PyRaise(ValueError, ("The DAG contains one or more cycles",))
        if state.get(n) == 2:
            return
        state[n] = 1
        if n in functions:
            sigs[n] = signature_names(functions[n])
            for d in sigs[n]:
                visit(d)
            order.append(n)
        else:
            need.append(n)
        state[n] = 2

    for t in tl:
        visit(t)
    args = sorted(need)

    def call(en, a, kw):
        if len(a) > len(args) or (set(kw) - set(args)):
            raise CodeError(f"concatenated function takes the arguments {args}")
        res = dict(zip(args, a))
        res.update(kw)
        if set(res) != set(args):
            raise CodeError(f"concatenated function misses arguments {sorted(set(args) - set(res))}")
        for n in order:
            res[n] = en.call(functions[n], [], {d: res[d] for d in sigs[n]})
        if single:
            return res[tl[0]]
        out = [res[t] for t in tl]
        if return_type == "dict":
            return en.new(dict(zip(tl, out)))
        return en.new(out) if return_type == "list" else tuple(out)

    f = Native(call, "concatenated")
    f.attrs["__signature__"] = args
    return f


try:
    import dags
    import dags.signature

    LIB[id(dags.concatenate_functions)] = _concatenate_functions
    LIB[id(dags.signature.rename_arguments)] = _rename_arguments
except ImportError:
    pass


@reg(np.size)
def _size(e, a, axis=None):
    if isinstance(a, (list, tuple)):
        a = as_arr_list(e, a)
    a = arr(a)
    if axis is not None:
        return tm.unlift(a.axes[axis].size())
    n = num(1)
    for x in a.axes:
        n = tm.mul(n, x.size())
    return tm.unlift(n)


def as_arr_list(e, a):
    n = e.length(a)
    return Arr([Plain(tm.lift(n))], lambda i: num(0))


@reg(map)
def _map(e, f, *xs):
    if len(xs) != 1 or f not in (tuple, list, str, int, float, bool, len):
        raise Unsupported("map")
    call = lambda x: e.call(f, [x], {})
    return e.new([Seg(x.axis, lambda i, x=x: call(x.fn(i))) if isinstance(x, Seg) else call(x) for x in e.entries(xs[0])])
