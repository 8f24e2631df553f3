"""Symbolic n-dimensional arrays with symbolic shapes (numpy / jax.numpy semantics).

An array is a tuple of axes and a closure from index tuples to terms, plus a closure that
says whether the element is NaN/undefined (None: never).  Floats are treated as
mathematical reals; NaN is tracked explicitly, infinities are treated as undefined.
"""
from . import terms as tm
from .terms import T, num


class Unsupported(Exception):
    """the code is outside the modelled subset: the obligation is undecided"""


class CodeError(Exception):
    """the code itself would fail here (shape mismatch, bad index, ...)"""


CUR = {"E": None}  # current engine


def E():
    return CUR["E"]


def decide(b):
    return E().decide(b)


def require(cond, msg):
    E().require(cond, msg)


# ---------------------------------------------------------------------------- axes
class Axis:
    pass


class Plain(Axis):
    def __init__(self, n):
        self.n = tm.lift(n)

    def size(self):
        return self.n

    def generic(self, p="i"):
        if tm.is_num(self.n) and self.n.args[0] == 1:
            return [(num(0), [])]
        k = tm.fresh(p)
        return [(k, [tm.le(0, k), tm.lt(k, self.n)])]

    def to_int(self, idx):
        return idx

    def from_int(self, t):
        return t

    def __repr__(self):
        return f"{self.n!r}"


class Comp(Axis):
    """flattened product of axes (row major)"""

    def __init__(self, axes):
        out = []
        for a in axes:
            out.extend(a.axes if isinstance(a, Comp) else [a])
        self.axes = tuple(out)

    def size(self):
        r = num(1)
        for a in self.axes:
            r = tm.mul(r, a.size())
        return r

    def generic(self, p="i"):
        cases = [((), [])]
        for a in self.axes:
            cases = [(i + (j,), f + g) for i, f in cases for j, g in a.generic(p)]
        return cases

    def to_int(self, idx):
        r = num(0)
        for a, i in zip(self.axes, idx):
            r = tm.add(tm.mul(r, a.size()), a.to_int(i))
        return r

    def from_int(self, t):
        out = []
        for a in reversed(self.axes[1:]):
            out.append(a.from_int(smod(t, a.size())))
            t = sdiv(t, a.size())
        out.append(self.axes[0].from_int(t))
        return tuple(reversed(out))

    def __repr__(self):
        return "Comp(" + ",".join(map(repr, self.axes)) + ")"


class RawComp(Comp):
    """product without flattening (the index structure of a Dom)"""

    def __init__(self, axes):
        self.axes = tuple(axes)


class Cat(Axis):
    """concatenation of axes; index (piece, subindex)"""

    def __init__(self, axes):
        out = []
        for a in axes:
            out.extend(a.axes if isinstance(a, Cat) else [a])
        self.axes = tuple(out)

    def size(self):
        r = num(0)
        for a in self.axes:
            r = tm.add(r, a.size())
        return r

    def generic(self, p="i"):
        return [(("cat", k, i), f) for k, a in enumerate(self.axes) for i, f in a.generic(p)]

    def offset(self, k):
        r = num(0)
        for a in self.axes[:k]:
            r = tm.add(r, a.size())
        return r

    def to_int(self, idx):
        return tm.add(self.offset(idx[1]), self.axes[idx[1]].to_int(idx[2]))

    def from_int(self, t):
        for k, a in enumerate(self.axes):
            lo, hi = self.offset(k), self.offset(k + 1)
            if decide(tm.and_(tm.le(lo, t), tm.lt(t, hi))) is True:
                return ("cat", k, a.from_int(tm.sub(t, lo)))
        raise Unsupported("position in concatenated axis not determined")

    def __repr__(self):
        return "Cat(" + ",".join(map(repr, self.axes)) + ")"


DOMS = {}


class Dom(Axis):
    """row-major enumeration of the index tuples of `axes` that satisfy guard"""

    def __init__(self, axes, guard, tag=None):
        self.axes = tuple(axes)
        self.guard = guard
        self.tag = tag

    def size(self):
        return self._count(0, ())

    def _count(self, d, idx):
        # nested counts are only available for a single plain axis; otherwise opaque sum
        if d == len(self.axes):
            return self.guard(idx)
        a = self.axes[d]
        if len(self.axes) == 1 and isinstance(a, Plain):
            k = tm.fresh("c")
            return tm.count_(k, a.n, self.guard((k,)))
        return opaque_count(self)

    def generic(self, p="i"):
        return [(i, f + [self.guard(i)]) for i, f in RawComp(self.axes).generic(p)]

    def to_int(self, idx):
        return opaque_pos(self, idx)

    def from_int(self, t):
        if len(self.axes) == 1 and decide(self.guard((self.axes[0].from_int(t),))) is True:
            pass
        raise Unsupported("integer index into a filtered enumeration")

    def __repr__(self):
        return "Dom(" + ",".join(map(repr, self.axes)) + ")"


def member(ax, i):
    """the index i (of the structure of ax) lies in ax"""
    if isinstance(ax, Plain):
        return tm.and_(tm.le(0, i), tm.lt(i, ax.n))
    if isinstance(ax, Comp):
        return tm.and_(*[member(a, x) for a, x in zip(ax.axes, i)])
    if isinstance(ax, Cat):
        return member(ax.axes[i[1]], i[2])
    if isinstance(ax, Dom):
        return tm.and_(member(RawComp(ax.axes), i), ax.guard(i))
    if hasattr(ax, "inner"):
        return tm.and_(member(ax.outer, i[0]), member(ax.inner(i[0]), i[1]))
    raise Unsupported("membership in this kind of axis")


def total_size(ax):
    """the number of elements as one (nested) sum; determines the axis up to renaming"""
    tot = num(0)
    for vs, i, g in iter_axis(ax):
        x = tm.ite(g, num(1), num(0)) if g is not tm.TRUE else num(1)
        for v, n in reversed(vs):
            x = tm.sum_(v, n, x)
        tot = tm.add(tot, x)
    return tot


def int_size(ax):
    """the number of elements as an integer term without sums, or None"""
    tot = num(0)
    for vs, i, g in iter_axis(ax):
        x = num(1)
        for v, n in reversed(vs):
            cs = list(g.args) if g.op == "and" else [g]
            mine = [c for c in cs if v in c.fv]
            if v in x.fv:
                return None
            x = tm.mul(x, tm.count_(v, n, tm.and_(*mine)) if mine else n)
            g = tm.and_(*[c for c in cs if v not in c.fv])
        if g is not tm.TRUE:
            if g is tm.FALSE:
                continue
            return None
        tot = tm.add(tot, x)
    return tot


def opaque_count(ax):
    r = int_size(ax)
    if r is not None:
        return r
    tot = total_size(ax)
    if tot.sort == "I":
        return tot
    fv = sorted(tot.fv, key=tm.key)
    ren = {v: tm.var(f"@f{n}", v.sort) for n, v in enumerate(fv)}
    name = "ncount:" + tm.key(tm.subst(tot, ren))
    DOMS.setdefault(name, (ax, fv))
    return tm.app(name, *fv, sort="I")


def _axis_name(ax):
    """a name that determines the enumeration (index structure, sizes, guards) up to its free variables"""
    pieces, fv = [], set()
    for vs, i, g in iter_axis(ax):
        ren = {v: tm.var(f"@s{k}") for k, (v, _) in enumerate(vs)}
        pieces.append((i, ren, [tm.subst(n, ren) for _, n in vs] + [tm.subst(g, ren)]))
        for t in pieces[-1][2]:
            fv |= {v for v in t.fv if not v.args[0].startswith("@s")}
    fv = sorted(fv, key=tm.key)
    ren2 = {v: tm.var(f"@f{n}", v.sort) for n, v in enumerate(fv)}

    def shape(i, ren):
        if isinstance(i, tuple):
            return "(" + ",".join(x if isinstance(x, str) else str(x) if isinstance(x, int) else shape(x, ren) for x in i) + ")"
        return tm.key(tm.subst(tm.lift(i), ren))

    name = "|".join(shape(i, r) + ";" + ";".join(tm.key(tm.subst(t, ren2)) for t in ts) for i, r, ts in pieces)
    return name, fv


def opaque_pos(ax, idx):
    """the position of idx in the enumeration of ax (0 <= position < size and injective)"""
    name, fv = _axis_name(ax)
    path, args = [], []

    def walk(i):
        if isinstance(i, tuple):
            if i and i[0] == "cat":
                path.append(str(i[1]))
                return ("cat", i[1], walk(i[2]))
            return tuple(walk(x) for x in i)
        args.append(tm.lift(i))
        return tm.var(f"@p{len(args) - 1}")

    template = walk(idx)
    full = "npos:" + name + ":" + ".".join(path)
    DOMS.setdefault(full, (ax, fv, template, len(args), "npos:" + name))
    return tm.app(full, *fv, *args, sort="I")


def pos_parts(x):
    """(axis, index) of an opaque position"""
    from .interp import subst_axis, subst_idx

    ax, fv, template, n, _ = DOMS[x.args[0]]
    m = {v: a for v, a in zip(fv, x.args[1:]) if v is not a}
    return subst_axis(ax, m), subst_idx(template, {tm.var(f"@p{k}"): a for k, a in enumerate(x.args[1 + len(fv):])})


def sdiv(t, n):
    """t // n, simplified with the context (t = q*n + r with 0 <= r < n)"""
    return _divmod(t, n)[0]


def smod(t, n):
    return _divmod(t, n)[1]


def _divmod(t, n):
    t, n = tm.lift(t), tm.lift(n)
    if tm.is_num(n) and n.args[0] == 1:
        return t, num(0)
    if decide(tm.and_(tm.le(0, t), tm.lt(t, n))) is True:
        return num(0), t
    # split monomials divisible by n
    if t.sort == "I":
        q, r = num(0), num(0)
        for m, c in tm._ipoly(t).items():
            x = tm._from_ipoly({m: c})
            d = tm.exact_div(x, n)
            if d is not None:
                q = tm.add(q, d)
            else:
                r = tm.add(r, x)
        if decide(tm.and_(tm.le(0, r), tm.lt(r, n))) is True:
            return q, r
    return tm.floordiv(t, n), tm.mod(t, n)


def flat(i):
    if isinstance(i, tuple):
        out = []
        for x in i:
            if isinstance(x, str):
                continue
            out.extend(flat(x))
        return out
    return [i]


def same_axis(a, b):
    if a is b:
        return True
    if isinstance(a, Plain) and isinstance(b, Plain):
        return a.n is b.n or decide(tm.eq(a.n, b.n)) is True
    if type(a) is not type(b):
        return False
    if isinstance(a, Dom):
        if len(a.axes) != len(b.axes) or not all(same_axis(x, y) for x, y in zip(a.axes, b.axes)):
            return False
        for i, f in RawComp(a.axes).generic():
            g1, g2 = a.guard(i), b.guard(i)
            if g1 is not g2 and not E().prove_under(f, tm.eq(g1, g2)):
                return False
        return True
    if hasattr(a, "inner"):
        if not same_axis(a.outer, b.outer):
            return False
        for i, f in a.outer.generic():
            with E().assuming(f):
                if not same_axis(a.inner(i), b.inner(i)):
                    return False
        return True
    return len(a.axes) == len(b.axes) and all(same_axis(x, y) for x, y in zip(a.axes, b.axes))


def is_one(a):
    n = a.size()
    return tm.is_num(n) and n.args[0] == 1


def unify(a, b):
    """common axis for two axes of equal size; conversions of an index of it"""
    ident = lambda i: i
    if same_axis(a, b):
        return a, ident, ident
    if isinstance(a, Plain) and not isinstance(b, (Plain, Dom)):
        require(tm.eq(a.size(), b.size()), f"axis lengths {a!r} and {b!r} agree")
        return b, (lambda i: b.to_int(i)), ident
    if isinstance(b, Plain) and not isinstance(a, (Plain, Dom)):
        require(tm.eq(a.size(), b.size()), f"axis lengths {a!r} and {b!r} agree")
        return a, ident, (lambda i: a.to_int(i))
    if isinstance(a, Comp) and isinstance(b, Comp):
        require(tm.eq(a.size(), b.size()), f"axis lengths {a!r} and {b!r} agree")
        r = regroup(list(a.axes), list(b.axes))
        if r is not None:
            comp, fa, fb = r
            return comp, fa, fb
    m = E().match_axes(a, b)
    if m is not None:
        return m
    if isinstance(a, Plain) and isinstance(b, Plain):
        require(tm.eq(a.size(), b.size()), f"axis lengths {a!r} and {b!r} agree")
        return a, ident, ident
    raise Unsupported(f"cannot align axes {a!r} and {b!r}")


def regroup(xs, ys):
    """refine two factorisations of the same product: returns (Comp, toX, toY)"""
    pieces, mapx, mapy = [], [], []
    i = j = 0
    xs, ys = list(xs), list(ys)
    curx = cury = None
    px, py = [], []
    while i < len(xs) or j < len(ys):
        if i < len(xs) and is_one(xs[i]):
            pieces.append(xs[i])
            mapx.append(("one",))
            i += 1
            continue
        if j < len(ys) and is_one(ys[j]):
            j += 1
            continue
        if i >= len(xs) or j >= len(ys):
            return None
        if same_axis(xs[i], ys[j]):
            pieces.append(xs[i])
            i += 1
            j += 1
            continue
        return None
    comp = Comp(pieces)

    def tox(idx):
        return tuple(idx)

    def toy(idx):
        it = [x for a, x in zip(comp.axes, idx) if not is_one(a)]
        out = []
        k = 0
        for a in ys:
            if is_one(a):
                out.append(num(0))
            else:
                out.append(it[k])
                k += 1
        return tuple(out)

    return comp, tox, toy


# ---------------------------------------------------------------------------- arrays
class Arr:
    def __init__(self, axes, fn, nan=None, sort="R", lib="jnp"):
        self.axes = tuple(axes)
        self.fn = fn
        self.nan = nan
        self.sort = sort
        self.lib = lib

    @property
    def ndim(self):
        return len(self.axes)

    def at(self, *idx):
        return self.fn(tuple(idx))

    def nan_at(self, *idx):
        return tm.FALSE if self.nan is None else self.nan(tuple(idx))

    def el(self, idx):
        return self.fn(tuple(idx)), (tm.FALSE if self.nan is None else self.nan(tuple(idx)))

    def __repr__(self):
        return f"Arr[{', '.join(map(repr, self.axes))}]"

    def shape(self):
        return tuple(tm.unlift(a.size()) for a in self.axes)

    def generic(self):
        """generic index tuples with facts"""
        cases = [((), [])]
        for a in self.axes:
            cases = [(i + (j,), f + g) for i, f in cases for j, g in a.generic()]
        return cases

    def __bool__(self):
        raise Unsupported("truth value of an array")


def scalar(t, nan=None, sort=None):
    t = tm.lift(t)
    return Arr((), lambda i: t, (None if nan is None or nan is tm.FALSE else (lambda i: nan)), sort or t.sort)


def memo_fn(fn):
    if fn is None:
        return None
    cache = {}

    def f(idx):
        k = _ikey(idx)
        r = cache.get(k)
        if r is None:
            r = cache[k] = fn(idx)
        return r

    return f


def _ikey(i):
    if isinstance(i, tuple):
        return tuple(_ikey(x) for x in i)
    if isinstance(i, T):
        return i.id
    return ("py", i)


def as_arr(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, T):
        return scalar(x)
    if isinstance(x, (bool, int, float)) or type(x).__name__ in ("Fraction",):
        if isinstance(x, float) and x != x:
            return scalar(tm.app("nan"), tm.TRUE)
        return scalar(tm.lift(x))
    if isinstance(x, str):
        return scalar(tm.lift(x))
    if isinstance(x, (list, tuple)):
        if not x:
            return Arr((Plain(0),), lambda i: num(0), None, "R", "np")
        return stack([as_arr(y) for y in x], 0)
    import numpy as np

    if isinstance(x, np.generic):
        return as_arr(x.item())
    if hasattr(x, "__array__"):
        return from_numpy(np.asarray(x))
    raise Unsupported(f"cannot treat {type(x).__name__} as an array")


def from_numpy(a):
    import numpy as np

    flatv = a.tolist()
    sort = "B" if a.dtype == bool else ("I" if a.dtype.kind in "iu" else ("R" if a.dtype.kind == "f" else "S"))
    axes = [Plain(n) for n in a.shape]
    hasnan = sort == "R" and bool(np.isnan(a).any())

    def get(idx):
        v = flatv
        for i in idx:
            i = tm.lift(i)
            if not tm.is_num(i):
                return _select(idx)
            v = v[int(i.args[0])]
        return num(0) if isinstance(v, float) and v != v else tm.lift(v)

    def _select(idx):
        def rec(v, k):
            if k == len(idx):
                return num(0) if isinstance(v, float) and v != v else tm.lift(v)
            i = tm.lift(idx[k])
            if tm.is_num(i):
                return rec(v[int(i.args[0])], k + 1)
            r = rec(v[-1], k + 1)
            for j in range(len(v) - 2, -1, -1):
                r = tm.ite(tm.eq(i, j), rec(v[j], k + 1), r)
            return r

        return rec(flatv, 0)

    def nan(idx):
        def rec(v, k):
            if k == len(idx):
                return tm.lift(v != v)
            i = tm.lift(idx[k])
            return tm.or_(*[tm.and_(tm.eq(i, j), rec(v[j], k + 1)) for j in range(len(v))])

        return rec(flatv, 0)

    return Arr(axes, get, nan if hasnan else None, sort, "np")


def res_sort(*sorts):
    if "R" in sorts:
        return "R"
    if "S" in sorts:
        return "S"
    if "I" in sorts:
        return "I"
    return "B"


def broadcast(arrs):
    """common axes and converted closures"""
    nd = max(a.ndim for a in arrs)
    axes, convs = [], [[] for _ in arrs]
    for d in range(nd):
        cur = None
        which = []
        for k, a in enumerate(arrs):
            p = d - (nd - a.ndim)
            if p < 0:
                continue
            which.append((k, a.axes[p]))
        cur, maps = None, {}
        for k, ax in which:
            if is_one(ax):
                continue
            if cur is None:
                cur = ax
                maps[k] = lambda i: i
            else:
                new, fold, fnew = unify(cur, ax)
                for kk in list(maps):
                    old = maps[kk]
                    maps[kk] = lambda i, old=old, fold=fold: old(fold(i))
                maps[k] = fnew
                cur = new
        if cur is None:
            cur = Plain(1)
        axes.append(cur)
        for k, ax in which:
            if is_one(ax) and not (k in maps):
                convs[k].append((d, lambda i, ax=ax: first(ax)))
            else:
                convs[k].append((d, maps[k]))

    def conv(k):
        c = convs[k]
        return lambda idx: tuple(f(idx[d]) for d, f in c)

    return axes, [conv(k) for k in range(len(arrs))]


def first(ax):
    """the only index of an axis of length one"""
    if isinstance(ax, Plain):
        return num(0)
    if isinstance(ax, Comp):
        return tuple(first(a) for a in ax.axes)
    if isinstance(ax, Cat):
        for k, a in enumerate(ax.axes):
            if is_one(a):
                return ("cat", k, first(a))
    raise Unsupported("single index of filtered axis")


def elementwise(f, *xs, sort=None, nanf=None):
    arrs = [as_arr(x) for x in xs]
    axes, convs = broadcast(arrs)

    def fn(idx):
        return f(*[a.fn(c(idx)) for a, c in zip(arrs, convs)])

    if nanf is None:
        if all(a.nan is None for a in arrs):
            nan = None
        else:

            def nan(idx):
                return tm.or_(*[a.nan(c(idx)) for a, c in zip(arrs, convs) if a.nan is not None])

    else:

        def nan(idx):
            return nanf(*[a.el(c(idx)) for a, c in zip(arrs, convs)])

    return Arr(axes, memo_fn(fn), memo_fn(nan), sort or res_sort(*[a.sort for a in arrs]))


def iter_axis(ax):
    """generic enumeration of an axis for reductions: list of (vars, lens, idx, guard)"""
    if isinstance(ax, Plain):
        k = tm.fresh("s")
        return [([(k, ax.n)], k, tm.TRUE)]
    if isinstance(ax, Comp):
        out = [([], (), tm.TRUE)]
        for a in ax.axes:
            out = [(vs + v2, i + (j,), tm.and_(g, g2)) for vs, i, g in out for v2, j, g2 in iter_axis(a)]
        return out
    if isinstance(ax, Cat):
        return [(vs, ("cat", k, i), g) for k, a in enumerate(ax.axes) for vs, i, g in iter_axis(a)]
    if isinstance(ax, Dom):
        return [(vs, i, tm.and_(g, ax.guard(i))) for vs, i, g in iter_axis(RawComp(ax.axes))]
    if hasattr(ax, "inner"):
        out = []
        for vs, i, g in iter_axis(ax.outer):
            for v2, j, g2 in iter_axis(ax.inner(i)):
                out.append((vs + v2, (i, j), tm.and_(g, g2)))
        return out
    raise Unsupported("iteration over axis")


def reduce_sum_term(ax, f):
    """sum over the axis of f(idx)"""
    tot = num(0)
    for vs, i, g in iter_axis(ax):
        with E().assuming([h for v, n in vs for h in (tm.le(0, v), tm.lt(v, n))] + [g]):
            x = f(i)
        if g is not tm.TRUE:
            x = tm.ite(g, x, num(0))
        for v, n in reversed(vs):
            x = tm.sum_(v, n, x)
        tot = tm.add(tot, x)
    return tot


def reduce_exists(ax, f):
    out = tm.FALSE
    for vs, i, g in iter_axis(ax):
        with E().assuming([h for v, n in vs for h in (tm.le(0, v), tm.lt(v, n))] + [g]):
            x = f(i)
        x = tm.and_(g, x)
        for v, n in reversed(vs):
            x = tm.exists_(v, n, x)
        out = tm.or_(out, x)
    return out


def reduce_axes(a, axis, keepdims, red, nanred):
    a = as_arr(a)
    if axis is None:
        which = list(range(a.ndim))
    else:
        which = [axis] if isinstance(axis, int) else list(axis)
        which = [w % a.ndim if -a.ndim <= w < a.ndim else _bad(w) for w in which]
    keep = [d for d in range(a.ndim) if d not in which]

    def build(idx, f):
        return f(idx)

    def full(idx, sub):
        out = [None] * a.ndim
        if keepdims:
            for d in keep:
                out[d] = idx[d]
        else:
            for p, d in enumerate(keep):
                out[d] = idx[p]
        for d, s in zip(which, sub):
            out[d] = s
        return tuple(out)

    raxis = Comp([a.axes[d] for d in which]) if len(which) != 1 else a.axes[which[0]]

    def subidx(i):
        if len(which) == 1:
            return (i,)
        # Comp flattens nested Comps
        out, k = [], 0
        for d in which:
            ax = a.axes[d]
            if isinstance(ax, Comp):
                m = len(ax.axes)
                out.append(tuple(i[k : k + m]))
                k += m
            else:
                out.append(i[k])
                k += 1
        return tuple(out)

    axes = [a.axes[d] if d in keep else Plain(1) for d in range(a.ndim) if keepdims or d in keep]

    def fn(idx):
        return red(raxis, lambda i: a.fn(full(idx, subidx(i))))

    nan = None
    if a.nan is not None:

        def nan(idx):
            return nanred(raxis, lambda i: a.nan(full(idx, subidx(i))))

    return axes, memo_fn(fn), memo_fn(nan), raxis, (lambda idx, i: full(idx, subidx(i)))


def _bad(w):
    raise CodeError(f"axis {w} is out of bounds")


def asum(a, axis=None, keepdims=False):
    a = as_arr(a)
    axes, fn, nan, _, _ = reduce_axes(a, axis, keepdims, reduce_sum_term, reduce_exists)
    return Arr(axes, fn, nan, "I" if a.sort in "IB" and False else "R", a.lib)


def amean(a, axis=None, keepdims=False):
    a = as_arr(a)
    axes, fn, nan, raxis, _ = reduce_axes(a, axis, keepdims, reduce_sum_term, reduce_exists)
    n = raxis.size()
    zero = tm.eq(n, 0)
    if decide(zero) is False:
        return Arr(axes, lambda i: tm.div(fn(i), n), nan, "R", a.lib)
    return Arr(
        axes, lambda i: tm.div(fn(i), n), lambda i: tm.or_(zero, nan(i) if nan else tm.FALSE), "R", a.lib
    )


def aany(a, axis=None, keepdims=False):
    a = as_arr(a)
    axes, fn, nan, _, _ = reduce_axes(a, axis, keepdims, lambda ax, f: reduce_exists(ax, lambda i: tobool(f(i))), reduce_exists)
    return Arr(axes, fn, None, "B", a.lib)


def aall(a, axis=None, keepdims=False):
    a = as_arr(a)
    axes, fn, nan, _, _ = reduce_axes(
        a, axis, keepdims, lambda ax, f: tm.not_(reduce_exists(ax, lambda i: tm.not_(tobool(f(i))))), reduce_exists
    )
    return Arr(axes, fn, None, "B", a.lib)


def tobool(t):
    t = tm.lift(t)
    if t.sort == "B":
        return t
    return tm.not_(tm.eq(t, 0))


# ---- arithmetic -----------------------------------------------------------------------
def div_nan(x, y):
    (a, na), (b, nb) = x, y
    z = tm.eq(b, 0)
    return tm.or_(na, nb, z)


def a_div(x, y):
    y_ = as_arr(y)
    return elementwise(tm.div, x, y, sort="R", nanf=div_nan)


BIN = {
    "+": lambda x, y: elementwise(tm.add, x, y),
    "-": lambda x, y: elementwise(tm.sub, x, y),
    "*": lambda x, y: elementwise(tm.mul, x, y),
    "/": a_div,
    "<": lambda x, y: cmp_(tm.lt, x, y),
    "<=": lambda x, y: cmp_(tm.le, x, y),
    ">": lambda x, y: cmp_(lambda a, b: tm.lt(b, a), x, y),
    ">=": lambda x, y: cmp_(lambda a, b: tm.le(b, a), x, y),
    "==": lambda x, y: cmp_(tm.eq, x, y),
    "!=": lambda x, y: ne_(x, y),
    "&": lambda x, y: elementwise(lambda a, b: tm.and_(tobool(a), tobool(b)), x, y, sort="B"),
    "|": lambda x, y: elementwise(lambda a, b: tm.or_(tobool(a), tobool(b)), x, y, sort="B"),
    "//": lambda x, y: elementwise(sdiv, x, y),
    "%": lambda x, y: elementwise(smod, x, y),
}


def cmp_(f, x, y):
    """comparisons with NaN are False"""
    xs = [as_arr(x), as_arr(y)]
    if all(a.nan is None for a in xs):
        return elementwise(f, x, y, sort="B")
    axes, convs = broadcast(xs)

    def fn(idx):
        (a, na), (b, nb) = (z.el(c(idx)) for z, c in zip(xs, convs))
        return tm.and_(f(a, b), tm.not_(na), tm.not_(nb))

    return Arr(axes, memo_fn(fn), None, "B")


def ne_(x, y):
    e = cmp_(tm.eq, x, y)
    return Arr(e.axes, lambda i: tm.not_(e.fn(i)), None, "B")


def a_pow(x, y):
    y = tm.unlift(as_arr(y).fn(())) if not isinstance(y, (int, float)) and as_arr(y).ndim == 0 else y
    if isinstance(y, Arr):
        raise Unsupported("array exponent")
    if isinstance(y, (int,)) and y >= 0:
        return elementwise(lambda a: tm.power(a, y), x)
    if isinstance(y, int) and y < 0:
        return elementwise(lambda a: tm.power(a, y), x, nanf=lambda e: tm.or_(e[1], tm.eq(e[0], 0)))
    if y == 0.5 or str(y) == "1/2":
        return a_sqrt(x)
    if isinstance(y, float) and y.is_integer():
        return a_pow(x, int(y))
    raise Unsupported("real exponent")


def a_sqrt(x):
    return elementwise(lambda a: tm.fn("sqrt", a), x, sort="R", nanf=lambda e: tm.or_(e[1], tm.lt(e[0], 0)))


def a_exp(x):
    return elementwise(lambda a: tm.fn("exp", a), x, sort="R")


def a_log(x):
    # log(0) = -inf, log(negative) = nan: both are treated as undefined
    return elementwise(lambda a: tm.fn("log", a), x, sort="R", nanf=lambda e: tm.or_(e[1], tm.le(e[0], 0)))


def a_abs(x):
    return elementwise(lambda a: tm.fn("abs", a), x)


def a_neg(x):
    return elementwise(tm.neg, x)


def a_where(c, x, y):
    arrs = [as_arr(c), as_arr(x), as_arr(y)]
    axes, cv = broadcast(arrs)
    C, X, Y = arrs

    def fn(idx):
        return tm.ite(tobool(C.fn(cv[0](idx))), X.fn(cv[1](idx)), Y.fn(cv[2](idx)))

    nan = None
    if X.nan is not None or Y.nan is not None:

        def nan(idx):
            c_ = tobool(C.fn(cv[0](idx)))
            return tm.or_(
                tm.and_(c_, X.nan(cv[1](idx)) if X.nan else tm.FALSE),
                tm.and_(tm.not_(c_), Y.nan(cv[2](idx)) if Y.nan else tm.FALSE),
            )

    return Arr(axes, memo_fn(fn), memo_fn(nan), res_sort(X.sort, Y.sort))


def a_isfinite(x):
    x = as_arr(x)
    return Arr(x.axes, (lambda i: tm.TRUE) if x.nan is None else (lambda i: tm.not_(x.nan(i))), None, "B")


def a_isnan(x):
    x = as_arr(x)
    return Arr(x.axes, (lambda i: tm.FALSE) if x.nan is None else x.nan, None, "B")


def a_nan_to_num(x, nan=0.0):
    x = as_arr(x)
    if x.nan is None:
        return x
    v = tm.lift(nan)
    return Arr(x.axes, lambda i: tm.ite(x.nan(i), v, x.fn(i)), None, x.sort)


def a_max2(x, y):
    return elementwise(tm.max_, x, y)


def a_min2(x, y):
    return elementwise(tm.min_, x, y)


def dot(x, y):
    x, y = as_arr(x), as_arr(y)
    if x.ndim == 0 or y.ndim == 0:
        return BIN["*"](x, y)
    return contract(x, y, x.ndim - 1, max(y.ndim - 2, 0))


def contract(x, y, dx, dy):
    ax, fx, fy = unify(x.axes[dx], y.axes[dy])
    xa = [a for d, a in enumerate(x.axes) if d != dx]
    ya = [a for d, a in enumerate(y.axes) if d != dy]
    nx = len(xa)

    def ix(idx, i):
        l = list(idx[:nx])
        l.insert(dx, fx(i))
        return tuple(l)

    def iy(idx, i):
        l = list(idx[nx:])
        l.insert(dy, fy(i))
        return tuple(l)

    def fn(idx):
        return reduce_sum_term(ax, lambda i: tm.mul(x.fn(ix(idx, i)), y.fn(iy(idx, i))))

    nan = None
    if x.nan is not None or y.nan is not None:

        def nan(idx):
            return reduce_exists(
                ax,
                lambda i: tm.or_(
                    x.nan(ix(idx, i)) if x.nan else tm.FALSE, y.nan(iy(idx, i)) if y.nan else tm.FALSE
                ),
            )

    return Arr(xa + ya, memo_fn(fn), memo_fn(nan), "R")


def matmul(x, y):
    x, y = as_arr(x), as_arr(y)
    if x.ndim == 1 or y.ndim == 1:
        return dot(x, y)
    if x.ndim == 2 and y.ndim == 2:
        return dot(x, y)
    return einsum_batched(x, y)


def einsum_batched(x, y):
    nb = max(x.ndim, y.ndim) - 2
    letters = "abcdefgh"[:nb]
    sx = letters[nb - (x.ndim - 2) :] + "yz"
    sy = letters[nb - (y.ndim - 2) :] + "zw"
    return einsum(f"{sx},{sy}->{letters}yw", x, y)


def einsum(spec, *ops):
    spec = spec.replace(" ", "")
    ins, out = spec.split("->") if "->" in spec else (spec, None)
    ins = ins.split(",")
    ops = [as_arr(o) for o in ops]
    if any("." in s for s in ins):
        raise Unsupported("einsum with ellipsis")
    if out is None:
        allc = "".join(ins)
        out = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    ax, maps = {}, {}
    for k, (s, o) in enumerate(zip(ins, ops)):
        if len(s) != o.ndim:
            raise CodeError("einsum operand has wrong number of dimensions")
        for d, c in enumerate(s):
            if c not in ax:
                ax[c] = o.axes[d]
                maps[(k, d)] = [lambda i: i]
            elif is_one(o.axes[d]) and not is_one(ax[c]):
                maps[(k, d)] = [lambda i, a=o.axes[d]: first(a)]
            else:
                new, fo, fn_ = unify(ax[c], o.axes[d])
                for (kk, dd), l in maps.items():
                    if ins[kk][dd] == c:
                        l.append(fo)
                maps[(k, d)] = [fn_]
                ax[c] = new

    def cv(k, d, i):
        for f in reversed(maps[(k, d)]):
            i = f(i)
        return i

    red = [c for c in ax if c not in out]

    def fn(idx):
        env = dict(zip(out, idx))

        def rec(rs):
            if not rs:
                r = num(1)
                for k, (s, o) in enumerate(zip(ins, ops)):
                    r = tm.mul(r, o.fn(tuple(cv(k, d, env[c]) for d, c in enumerate(s))))
                return r

            def f(i):
                env[rs[0]] = i
                return rec(rs[1:])

            return reduce_sum_term(ax[rs[0]], f)

        return rec(red)

    nan = None
    if any(o.nan is not None for o in ops):

        def nan(idx):
            env = dict(zip(out, idx))

            def rec(rs):
                if not rs:
                    return tm.or_(
                        *[
                            o.nan(tuple(cv(k, d, env[c]) for d, c in enumerate(s)))
                            for k, (s, o) in enumerate(zip(ins, ops))
                            if o.nan is not None
                        ]
                    )

                def f(i):
                    env[rs[0]] = i
                    return rec(rs[1:])

                return reduce_exists(ax[rs[0]], f)

            return rec(red)

    return Arr([ax[c] for c in out], memo_fn(fn), memo_fn(nan), "R")


# ---- shape manipulation ---------------------------------------------------------------
def transpose(a, perm=None):
    a = as_arr(a)
    perm = list(perm) if perm is not None else list(reversed(range(a.ndim)))
    perm = [p % a.ndim for p in perm]
    inv = [perm.index(d) for d in range(a.ndim)]

    def mp(idx):
        return tuple(idx[inv[d]] for d in range(a.ndim))

    return Arr([a.axes[p] for p in perm], lambda i: a.fn(mp(i)), (lambda i: a.nan(mp(i))) if a.nan else None, a.sort, a.lib)


def prim_factors(axes):
    out = []
    for d, a in enumerate(axes):
        if isinstance(a, Comp):
            for k, b in enumerate(a.axes):
                out.append((d, k, b))
        else:
            out.append((d, None, a))
    return out


def split_dom(ax):
    """Dom whose guard ignores its leading axes = product of these axes and a smaller Dom"""
    if not isinstance(ax, Dom) or len(ax.axes) < 2:
        return None
    cases = RawComp(ax.axes).generic("d")
    p = 0
    while p < len(ax.axes) - 1 and isinstance(ax.axes[p], Plain) and all(not (set(flat(i[p])) & set(ax.guard(i).fv)) for i, _ in cases):
        p += 1
    if p == 0:
        return None
    lead = ax.axes[:p]
    z = tuple(first(x) for x in lead)
    rest = Dom(ax.axes[p:], lambda i: ax.guard(z + tuple(i)))
    return Comp(list(lead) + [rest]), lambda i: tuple(i[:p]) + tuple(i[p])


def split_doms(a):
    conv = [split_dom(x) for x in a.axes]
    if not any(conv):
        return a
    axes = [c[0] if c else x for c, x in zip(conv, a.axes)]
    mp = lambda idx: tuple(c[1](i) if c else i for c, i in zip(conv, idx))
    return Arr(axes, lambda i: a.fn(mp(i)), (lambda i: a.nan(mp(i))) if a.nan else None, a.sort, a.lib)


def reshape(a, shape):
    """reshape by regrouping the primitive factors of the source axes (row major)"""
    a = split_doms(as_arr(a))
    shape = [tm.lift(s) for s in shape]
    total = num(1)
    for x in a.axes:
        total = tm.mul(total, x.size())
    src = [f for f in prim_factors(a.axes)]
    # -1 entry
    neg = [k for k, s in enumerate(shape) if tm.is_num(s) and s.args[0] == -1]
    if len(neg) > 1:
        raise CodeError("can only specify one unknown dimension")
    # match target groups to source factors
    groups = _match(src, shape, neg[0] if neg else None)
    if groups is None:
        m = E().reshape_hook(a, shape, neg[0] if neg else None)
        if m is not None:
            return m
        known = num(1)
        for k, s in enumerate(shape):
            if k not in neg:
                known = tm.mul(known, s)
        if not neg:
            require(tm.eq(total, known), f"cannot reshape {a!r} to ({', '.join(map(repr, shape))})")
        # an array without elements can take any shape
        if decide(tm.eq(total, 0)) is True:
            if neg:
                raise Unsupported("reshape of an empty array")
            return Arr([Plain(s) for s in shape], lambda i: num(0), None, a.sort, a.lib)
        raise Unsupported(f"reshape of {a!r} to {shape!r}")
    axes = []
    for k, g in enumerate(groups):
        fs = [("f", x) for x in g]
        if len(g) == 0:
            axes.append(Plain(1))
        elif len(g) == 1:
            axes.append(g[0][-1])
        else:
            axes.append(Comp([x[-1] for x in g]))

    def mp(idx):
        vals = {}
        for k, g in enumerate(groups):
            if len(g) == 1:
                vals[id(g[0])] = idx[k]
            elif len(g) > 1:
                for x, i in zip(g, idx[k]):
                    vals[id(x)] = i
        out = [None] * a.ndim
        for d, ax in enumerate(a.axes):
            if isinstance(ax, Comp):
                parts = []
                for x in src:
                    if x[0] == d:
                        parts.append(_val(x, vals))
                out[d] = tuple(parts)
            else:
                x = [y for y in src if y[0] == d][0]
                out[d] = _val(x, vals)
        return tuple(out)

    def _val(x, vals):
        if id(x) in vals:
            return vals[id(x)]
        sp = splits.get(id(x))
        if sp is not None:
            q, r = sp
            return tm.add(tm.mul(_val(q, vals), r[2].size()), _val(r, vals))
        return first(x[2])

    splits = groups.splits
    return Arr(axes, memo_fn(lambda i: a.fn(mp(i))), memo_fn((lambda i: a.nan(mp(i))) if a.nan else None), a.sort, a.lib)


class _Groups(list):
    pass


def _match(src, shape, neg):
    """assign consecutive primitive factors to target dims; Plain factors may be split"""
    groups = _Groups([[] for _ in shape])
    groups.splits = {}
    src = list(src)

    def fit(factors, dims):
        """forward matching of factors to dims (no -1 inside); returns leftover factors"""
        fi = list(factors)
        for k in dims:
            s = shape[k]
            rem = s
            while not (tm.is_num(rem) and rem.args[0] == 1):
                while fi and is_one(fi[0][2]):
                    fi.pop(0)
                if not fi:
                    return None
                f = fi[0]
                n = f[2].size()
                if n is rem or decide(tm.eq(n, rem)) is True:
                    groups[k].append(f)
                    fi.pop(0)
                    rem = num(1)
                    break
                q = tm.exact_div(rem, n)
                if q is not None:
                    groups[k].append(f)
                    fi.pop(0)
                    rem = q
                    continue
                # the factor is bigger than what remains: split it if it is plain
                q = tm.exact_div(n, rem)
                if q is not None and isinstance(f[2], Plain):
                    a_ = (f[0], f[1], Plain(rem))
                    b_ = (f[0], f[1], Plain(q))
                    groups.splits[id(f)] = (a_, b_)
                    keepalive.append(f)
                    groups[k].append(a_)
                    fi[0] = b_
                    rem = num(1)
                    break
                return None
        return fi

    keepalive = []
    groups.keep = keepalive
    if neg is None:
        left = fit(src, range(len(shape)))
        if left is None or any(not is_one(f[2]) for f in left):
            return None
        return groups
    # match dims before -1 from the left, dims after from the right
    left = fit(src, range(neg))
    if left is None:
        return None
    # from the right
    after = list(range(neg + 1, len(shape)))
    rest = list(left)
    for k in reversed(after):
        s = shape[k]
        rem = s
        g = []
        while not (tm.is_num(rem) and rem.args[0] == 1):
            while rest and is_one(rest[-1][2]):
                rest.pop()
            if not rest:
                return None
            f = rest[-1]
            n = f[2].size()
            if n is rem or decide(tm.eq(n, rem)) is True:
                g.insert(0, f)
                rest.pop()
                break
            q = tm.exact_div(rem, n)
            if q is not None:
                g.insert(0, f)
                rest.pop()
                rem = q
                continue
            q = tm.exact_div(n, rem)
            if q is not None and isinstance(f[2], Plain):
                b_ = (f[0], f[1], Plain(rem))
                a_ = (f[0], f[1], Plain(q))
                groups.splits[id(f)] = (a_, b_)
                keepalive.append(f)
                g.insert(0, b_)
                rest[-1] = a_
                break
            return None
        groups[k].extend(g)
    groups[neg].extend([f for f in rest if not is_one(f[2])])
    return groups


def repeat(a, n, axis=None):
    a = as_arr(a)
    if axis is None:
        a = flatten(a)
        axis = 0
    axis %= a.ndim
    n = tm.lift(n)
    new = Comp([a.axes[axis], Plain(n)])
    was_comp = isinstance(a.axes[axis], Comp)
    m = len(a.axes[axis].axes) if was_comp else 1

    def mp(idx):
        i = idx[axis]
        s = tuple(i[:m]) if was_comp else i[0]
        return idx[:axis] + (s,) + idx[axis + 1 :]

    axes = list(a.axes)
    axes[axis] = new
    return Arr(axes, lambda i: a.fn(mp(i)), (lambda i: a.nan(mp(i))) if a.nan else None, a.sort, a.lib)


def tile(a, reps):
    """np.tile for as many repetitions as dimensions, or of a vector"""
    a = as_arr(a)
    reps = [tm.lift(r) for r in reps]
    while len(reps) < a.ndim:
        reps.insert(0, num(1))
    if len(reps) != a.ndim:
        raise Unsupported("tile")
    axes, maps = [], []
    for r, ax in zip(reps, a.axes):
        if r is num(1):
            axes.append(ax)
            maps.append(lambda i: i)
            continue
        if isinstance(ax, Comp):
            axes.append(Comp([Plain(r)] + list(ax.axes)))
            maps.append(lambda i: tuple(i[1:]))
        else:
            axes.append(Comp([Plain(r), ax]))
            maps.append(lambda i: i[1])
    mp = lambda idx: tuple(m(i) for m, i in zip(maps, idx))
    return Arr(axes, lambda i: a.fn(mp(i)), (lambda i: a.nan(mp(i))) if a.nan else None, a.sort, a.lib)


def flatten(a):
    a = as_arr(a)
    if a.ndim == 1:
        return a
    return reshape(a, [num(-1)])


def concatenate(arrs, axis=0):
    arrs = [as_arr(x) for x in arrs]
    nd = arrs[0].ndim
    if any(x.ndim != nd for x in arrs):
        raise CodeError("all the input arrays must have the same number of dimensions")
    axis %= nd
    # unify the other axes pairwise
    axes = list(arrs[0].axes)
    convs = [[(lambda i: i)] * nd for _ in arrs]
    for k in range(1, len(arrs)):
        for d in range(nd):
            if d == axis:
                continue
            new, fo, fn_ = unify(axes[d], arrs[k].axes[d])
            if new is not axes[d]:
                for kk in range(k):
                    old = convs[kk][d]
                    convs[kk] = list(convs[kk])
                    convs[kk][d] = lambda i, old=old, fo=fo: old(fo(i))
                axes[d] = new
            convs[k] = list(convs[k])
            convs[k][d] = fn_
    parts = [x.axes[axis] for x in arrs]
    if all(isinstance(p, Plain) for p in parts):
        tot = num(0)
        offs = []
        for p in parts:
            offs.append(tot)
            tot = tm.add(tot, p.n)
        axes[axis] = Plain(tot)

        def pick(idx, get):
            i = idx[axis]
            res = None
            for k in reversed(range(len(arrs))):
                if tm.is_num(parts[k].n) and parts[k].n.args[0] == 0:
                    continue
                hi = tm.add(offs[k], parts[k].n)
                c = tm.lt(i, hi)
                if res is not None:
                    d_ = decide(c)
                    if d_ is False:
                        continue
                    if d_ is None and tm.le(hi, offs[k]) is tm.TRUE:
                        continue
                j = tuple(
                    (convs[k][d](idx[d]) if d != axis else tm.sub(i, offs[k])) for d in range(nd)
                )
                v = get(arrs[k], j)
                res = v if res is None else (v if d_ is True else tm.ite(c, v, res))
            return res if res is not None else num(0)

    else:
        axes[axis] = Cat(parts)

        def pick(idx, get):
            _, k, sub = idx[axis]
            # nested Cats were flattened
            n = 0
            for m, p in enumerate(parts):
                w = len(p.axes) if isinstance(p, Cat) else 1
                if k < n + w:
                    s = ("cat", k - n, sub) if isinstance(p, Cat) else sub
                    j = tuple((convs[m][d](idx[d]) if d != axis else s) for d in range(nd))
                    return get(arrs[m], j)
                n += w
            raise IndexError

    nan = None
    if any(x.nan is not None for x in arrs):

        def nan(idx):
            return pick(idx, lambda x, j: x.nan(j) if x.nan else tm.FALSE)

    return Arr(axes, memo_fn(lambda idx: pick(idx, lambda x, j: x.fn(j))), memo_fn(nan), res_sort(*[x.sort for x in arrs]), arrs[0].lib)


def expand_dims(a, axis):
    a = as_arr(a)
    axis = axis % (a.ndim + 1)
    axes = list(a.axes)
    axes.insert(axis, Plain(1))
    mp = lambda i: i[:axis] + i[axis + 1 :]
    return Arr(axes, lambda i: a.fn(mp(i)), (lambda i: a.nan(mp(i))) if a.nan else None, a.sort, a.lib)


def stack(arrs, axis=0):
    arrs = [as_arr(x) for x in arrs]
    nd = arrs[0].ndim
    axis = axis % (nd + 1)
    return concatenate([expand_dims(x, axis) for x in arrs], axis)


def column_stack(arrs):
    arrs = [as_arr(x) for x in arrs]
    return concatenate([expand_dims(x, 1) if x.ndim == 1 else x for x in arrs], 1)


def broadcast_to(a, shape):
    a = as_arr(a)
    tgt = Arr([Plain(s) for s in shape], lambda i: num(0))
    axes, cv = broadcast([a, tgt])
    return Arr(axes, lambda i: a.fn(cv[0](i)), (lambda i: a.nan(cv[0](i))) if a.nan else None, a.sort, a.lib)


def full(shape, value, sort=None, lib="jnp"):
    v = as_arr(value)
    axes = [Plain(s) for s in shape]
    if v.ndim == 0:
        t, nn = v.el(())
        return Arr(axes, lambda i: t, None if nn is tm.FALSE else (lambda i: nn), sort or v.sort, lib)
    r = broadcast_to(v, shape)
    r.lib = lib
    return r


def arange(a, b=None, step=1):
    if b is None:
        a, b = num(0), a
    a, b = tm.lift(a), tm.lift(b)
    if step != 1:
        raise Unsupported("arange with a step")
    n = tm.sub(b, a)
    if decide(tm.le(0, n)) is not True:
        n = tm.max_(n, num(0))
    return Arr([Plain(n)], lambda i: tm.add(a, i[0]), None, "I")


def diag(a, k=0):
    a = as_arr(a)
    if k != 0:
        raise Unsupported("diag with an offset")
    if a.ndim == 1:
        ax = a.axes[0]
        return Arr(
            [ax, ax],
            lambda i: tm.ite(tm.eq(ax.to_int(i[0]), ax.to_int(i[1])), a.fn((i[0],)), num(0)),
            (lambda i: tm.and_(tm.eq(ax.to_int(i[0]), ax.to_int(i[1])), a.nan((i[0],)))) if a.nan else None,
            a.sort,
        )
    if a.ndim == 2:
        ax, f, g = unify(a.axes[0], a.axes[1])
        return Arr([ax], lambda i: a.fn((f(i[0]), g(i[0]))), (lambda i: a.nan((f(i[0]), g(i[0])))) if a.nan else None, a.sort)
    raise Unsupported("diag")


def eye(n):
    return Arr([Plain(n), Plain(n)], lambda i: tm.ite(tm.eq(i[0], i[1]), num(1), num(0)))


# ---- indexing -------------------------------------------------------------------------
class Slice:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


def _norm_bound(x, n, default):
    if x is None:
        return default
    x = tm.lift(x)
    d = decide(tm.lt(x, 0))
    if d is None:
        raise Unsupported("sign of a slice bound is not determined")
    if d:
        x = tm.add(x, n)
    # clamp to [0, n]
    if decide(tm.le(0, x)) is not True:
        if decide(tm.lt(x, 0)) is True:
            x = num(0)
        else:
            x = tm.max_(x, num(0))
    if decide(tm.le(x, n)) is not True:
        if decide(tm.lt(n, x)) is True:
            x = n
        else:
            x = tm.min_(x, n)
    return x


def slice_axis(ax, s):
    """returns (new axis, map new idx -> old idx)"""
    step = tm.unlift(s.step) if s.step is not None else 1
    if s.start is None and s.stop is None and step == 1:
        return ax, (lambda i: i)
    n = ax.size()
    if step == -1 and s.start is None and s.stop is None and isinstance(ax, Plain):
        return ax, (lambda i: tm.sub(tm.sub(n, 1), i))
    if step != 1:
        raise Unsupported("slice with a step")
    lo = _norm_bound(s.start, n, num(0))
    hi = _norm_bound(s.stop, n, n)
    if isinstance(ax, Plain):
        m = tm.sub(hi, lo)
        if decide(tm.le(0, m)) is not True:
            m = tm.max_(m, num(0))
        return Plain(m), (lambda i: tm.add(i, lo))
    if isinstance(ax, Cat):
        pieces = []
        for k, a in enumerate(ax.axes):
            o, e = ax.offset(k), ax.offset(k + 1)
            if decide(tm.le(e, lo)) is True or decide(tm.le(hi, o)) is True:
                continue
            if decide(tm.le(lo, o)) is True and decide(tm.le(e, hi)) is True:
                pieces.append((k, a, lambda i: i))
            elif isinstance(a, Plain):
                l2 = _clamp(tm.sub(lo, o), a.n)
                h2 = _clamp(tm.sub(hi, o), a.n)
                pieces.append((k, Plain(tm.sub(h2, l2)), lambda i, l2=l2: tm.add(i, l2)))
            else:
                raise Unsupported("slice cuts through an enumeration")
        if not pieces:
            return Plain(0), (lambda i: ("cat", 0, first(ax.axes[0])))
        if len(pieces) == 1:
            k, a, f = pieces[0]
            return a, (lambda i: ("cat", k, f(i)))
        na = Cat([p[1] for p in pieces])
        return na, (lambda i: ("cat", pieces[i[1]][0], pieces[i[1]][2](i[2])))
    if decide(tm.and_(tm.eq(lo, 0), tm.eq(hi, n))) is True:
        return ax, (lambda i: i)
    if isinstance(ax, Comp):
        # slice of a product at full rows of the leading axis
        inner = num(1)
        for a in ax.axes[1:]:
            inner = tm.mul(inner, a.size())
        l2, h2 = tm.exact_div(lo, inner), tm.exact_div(hi, inner)
        if l2 is not None and h2 is not None and isinstance(ax.axes[0], Plain):
            return Comp([Plain(tm.sub(h2, l2))] + list(ax.axes[1:])), (
                lambda i: (tm.add(i[0], l2),) + tuple(i[1:])
            )
    raise Unsupported("slice of a composite axis")


def _clamp(x, n):
    if decide(tm.le(x, 0)) is True:
        return num(0)
    if decide(tm.le(n, x)) is True:
        return n
    if decide(tm.and_(tm.le(0, x), tm.le(x, n))) is True:
        return x
    return tm.min_(tm.max_(x, num(0)), n)


def int_index(ax, i, what="index"):
    """integer position -> axis index, with bounds obligation (python semantics)"""
    i = tm.lift(i)
    n = ax.size()
    if i.sort == "B":
        raise Unsupported("boolean index")
    d = decide(tm.lt(i, 0))
    if d is True:
        i = tm.add(i, n)
    elif d is None:
        i = tm.ite(tm.lt(i, 0), tm.add(i, n), i)
    if isinstance(ax, Plain):
        E().check_index(i, n)
        return i
    E().check_index(i, n)
    return ax.from_int(i)


class IndexPlan:
    """result axes + map from result index to source index"""


def plan_index(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    # expand ellipsis
    def consumed(k):
        if k is None or k is Ellipsis:
            return 0
        if isinstance(k, Arr) and k.sort == "B":
            return k.ndim
        return 1

    used = sum(consumed(k) for k in key)
    if Ellipsis in [k for k in key if k is Ellipsis]:
        p = [n for n, k in enumerate(key) if k is Ellipsis][0]
        key[p : p + 1] = [Slice(None, None, None)] * (a.ndim - used)
    else:
        key += [Slice(None, None, None)] * (a.ndim - used)
    # classify
    d = 0
    out_axes = []  # list of ('axis', axis) in order; adv block inserted at first adv pos
    src = [None] * a.ndim  # functions of (result idx parts)
    adv = []  # (dims, arr) advanced
    parts = []
    for k in key:
        if k is None:
            parts.append(("new",))
        elif isinstance(k, (Slice, slice)):
            ax, f = slice_axis(a.axes[d], k if isinstance(k, Slice) else Slice(k.start, k.stop, k.step))
            parts.append(("slice", d, ax, f))
            d += 1
        elif isinstance(k, Arr) and k.sort == "B" and k.ndim >= 1:
            parts.append(("mask", list(range(d, d + k.ndim)), k))
            d += k.ndim
        elif isinstance(k, Arr) and k.ndim >= 1:
            parts.append(("adv", d, k))
            d += 1
        else:
            if isinstance(k, Arr):
                k = k.fn(())
            parts.append(("int", d, int_index(a.axes[d], k)))
            d += 1
    if d > a.ndim:
        raise CodeError("too many indices for array")
    return parts


def getitem(a, key):
    a = as_arr(a)
    parts = plan_index(a, key)
    n_adv = [p for p in parts if p[0] in ("mask", "adv")]
    if len(n_adv) > 1:
        return _adv_multi(a, parts)
    axes = []
    maps = []  # per part: how many result axes consumed & setter

    for p in parts:
        if p[0] == "new":
            axes.append(Plain(1))
        elif p[0] == "slice":
            axes.append(p[2])
        elif p[0] == "mask":
            dims, m = p[1], p[2]
            dom, conv = mask_axis([a.axes[q] for q in dims], m)
            axes.append(dom)
            maps.append(conv)
        elif p[0] == "adv":
            axes.extend(p[2].axes)

    def mp(idx):
        out = [None] * a.ndim
        r = 0
        mi = 0
        for p in parts:
            if p[0] == "new":
                r += 1
            elif p[0] == "slice":
                out[p[1]] = p[3](idx[r])
                r += 1
            elif p[0] == "int":
                out[p[1]] = p[2]
            elif p[0] == "mask":
                for q, v in zip(p[1], maps[mi](idx[r])):
                    out[q] = v
                mi += 1
                r += 1
            elif p[0] == "adv":
                m = p[2].ndim
                pos = p[2].fn(tuple(idx[r : r + m]))
                out[p[1]] = gather_index(a.axes[p[1]], pos, a.lib, p[2], tuple(idx[r : r + m]))
                r += m
        return tuple(out)

    return Arr(axes, memo_fn(lambda i: a.fn(mp(i))), memo_fn((lambda i: a.nan(mp(i))) if a.nan else None), a.sort, a.lib)


def mask_axis(src_axes, m):
    """Dom axis selected by a boolean mask over src_axes"""
    convs = []
    axes = []
    for s, x in zip(src_axes, m.axes):
        ax, fs, fm = unify(s, x)
        axes.append(ax)
        convs.append((fs, fm))

    def guard(idx):
        return tobool(m.fn(tuple(c[1](i) for c, i in zip(convs, idx))))

    r = narrow_dom(axes, guard)
    if r is not None:
        dom, f = r
        return dom, lambda i: tuple(c[0](x) for c, x in zip(convs, f(i)))
    dom = E().simplify_dom(Dom(axes, guard))

    def conv(i):
        i = dom.unwrap(i) if hasattr(dom, "unwrap") else i
        return tuple(c[0](x) for c, x in zip(convs, i))

    return dom, conv


def case_axis(ax, k):
    """part of an axis that belongs to its k-th generic case, with the map back"""
    ident = lambda i: i
    if len(ax.generic()) == 1:
        return ax, ident
    if isinstance(ax, Cat):
        n = 0
        for j, a in enumerate(ax.axes):
            m = len(a.generic())
            if k < n + m:
                s, f = case_axis(a, k - n)
                return s, lambda i: ("cat", j, f(i))
            n += m
    if hasattr(ax, "inner") and len(ax.outer.generic()) == 1:
        from .interp import DepAxis, depvars

        (g, _), = ax.outer.generic("d")
        s, f = case_axis(ax.inner(g), k)
        vs = set(flat(g))
        if not (vs & depvars(s)):
            c = Comp([ax.outer, s])
            m = len(ax.outer.axes) if isinstance(ax.outer, Comp) else 1
            q = len(s.axes) if isinstance(s, Comp) else 1
            return c, lambda i: (tuple(i[:m]) if isinstance(ax.outer, Comp) else i[0], f(tuple(i[m:]) if isinstance(s, Comp) else i[m]))
        return DepAxis(ax.outer, lambda i: case_axis(ax.inner(i), k)[0]), lambda i: (i[0], case_axis(ax.inner(i[0]), k)[1](i[1]))
    raise Unsupported("case of an axis")


def conjuncts(g):
    return list(g.args) if g.op == "and" else ([] if g is tm.TRUE else [g])


def narrow_dom(axes, guard):
    """selection that keeps one case of the first (structured) axis and determines the others"""
    if all(isinstance(a, Plain) for a in axes):
        return None
    if any(len(a.generic()) != 1 for a in axes[1:]):
        return None
    alive = []
    for k, (i, fs) in enumerate(axes[0].generic("n")):
        rest = [a.generic("n")[0] for a in axes[1:]]
        idx = (i,) + tuple(r[0] for r in rest)
        facts = list(fs) + [f for r in rest for f in r[1]]
        with E().assuming(facts):
            g = guard(idx)
            if g is tm.FALSE or decide(g) is False:
                continue
        alive.append((k, idx, facts, g))
    if len(alive) != 1:
        return None
    k, idx, facts, g = alive[0]
    base, f = case_axis(axes[0], k)
    cs = conjuncts(g)
    det = []
    for a, v in zip(axes[1:], idx[1:]):
        if not isinstance(a, Plain):
            return None
        sol = None
        for c in cs:
            if c.op == "eq0" and v in c.fv:
                sol = tm._solve1(c, v)
                if sol is not None and set(sol.fv) & {w for w in idx[1:]}:
                    sol = None
            if sol is not None:
                break
        if sol is None:
            return None
        det.append((a, v, sol))
    m = {v: s for _, v, s in det}
    with E().assuming([tm.subst(x, m) for x in facts if not (set(x.fv) & set(m))]):
        for a, v, s in det:
            if decide(tm.and_(tm.le(0, s), tm.lt(s, a.n))) is not True:
                return None
        if decide(tm.subst(g, m)) is not True:
            return None
    src = flat(idx[0])

    def back(i):
        j = f(i)
        mm = {
            a: b
            for a, b in zip(src, flat(j))
            if isinstance(a, T) and a.op == "var" and isinstance(b, T)
        }
        return (j,) + tuple(tm.subst(s, mm) for _, _, s in det)

    return base, back


def gather_index(ax, pos, lib, arr=None, idx=None):
    """index produced by an integer array"""
    if isinstance(pos, tuple):
        if getattr(pos, "owner", None) is None or pos.owner.axis is not ax:
            raise Unsupported("positions of another index")
        return pos[1]
    h = E().gather_hook(ax, pos)
    if h is not None:
        return h
    n = ax.size()
    d = decide(tm.lt(pos, 0))
    if d is True:
        pos = tm.add(pos, n)
    elif d is None:
        pos = tm.ite(tm.lt(pos, 0), tm.add(pos, n), pos)
    if lib == "jnp":
        # out of bounds gathers are clamped in jax; require in-bounds
        E().check_index(pos, n)
    else:
        E().check_index(pos, n)
    return ax.from_int(pos) if not isinstance(ax, Plain) else pos


def _adv_multi(a, parts):
    advs = [p for p in parts if p[0] == "adv"]
    if any(p[0] == "mask" for p in parts):
        raise Unsupported("mixed advanced indexing")
    pos = [n for n, p in enumerate(parts) if p[0] == "adv"]
    if pos != list(range(pos[0], pos[0] + len(pos))):
        raise Unsupported("separated advanced indices")
    axes_b, convs = broadcast([p[2] for p in advs])
    axes = []
    for n, p in enumerate(parts):
        if p[0] == "new":
            axes.append(Plain(1))
        elif p[0] == "slice":
            axes.append(p[2])
        elif n == pos[0]:
            axes.extend(axes_b)

    def mp(idx):
        out = [None] * a.ndim
        r = 0
        for n, p in enumerate(parts):
            if p[0] == "new":
                r += 1
            elif p[0] == "slice":
                out[p[1]] = p[3](idx[r])
                r += 1
            elif p[0] == "int":
                out[p[1]] = p[2]
            elif n == pos[0]:
                sub = tuple(idx[r : r + len(axes_b)])
                for q, c in zip(advs, convs):
                    out[q[1]] = gather_index(a.axes[q[1]], q[2].fn(c(sub)), a.lib)
                r += len(axes_b)
        return tuple(out)

    return Arr(axes, memo_fn(lambda i: a.fn(mp(i))), memo_fn((lambda i: a.nan(mp(i))) if a.nan else None), a.sort, a.lib)


def setitem(a, key, value, mode="set"):
    """functional update a[key] = value / += value (returns a new array)"""
    a = as_arr(a)
    v = as_arr(value)
    parts = plan_index(a, key)
    advs = [p for p in parts if p[0] in ("mask", "adv")]
    if len(advs) > 1:
        return _set_multi(a, parts, v, mode)
    # region: axes of the selected region in order
    raxes = []
    for p in parts:
        if p[0] == "new":
            raxes.append(Plain(1))
        elif p[0] == "slice":
            raxes.append(p[2])
        elif p[0] == "mask":
            dom, conv = mask_axis([a.axes[q] for q in p[1]], p[2])
            raxes.append(dom)
            p_conv = conv
        elif p[0] == "adv":
            raxes.extend(p[2].axes)
    tgt = Arr(raxes, lambda i: num(0))
    # value must broadcast to the region
    nd = len(raxes)
    if v.ndim > nd:
        if all(is_one(x) for x in v.axes[: v.ndim - nd]):
            vv = v
            pre = tuple(first(x) for x in v.axes[: v.ndim - nd])
            v = Arr(v.axes[len(pre) :], lambda i: vv.fn(pre + tuple(i)), (lambda i: vv.nan(pre + tuple(i))) if vv.nan else None, v.sort)
        else:
            raise CodeError("could not broadcast input array into the selected region")
    vconvs = []
    for d in range(v.ndim):
        rax = raxes[nd - v.ndim + d]
        if is_one(v.axes[d]) and not is_one(rax):
            vconvs.append(lambda i, x=v.axes[d]: first(x))
        elif is_one(v.axes[d]) and is_one(rax):
            vconvs.append(lambda i, x=v.axes[d]: first(x))
        else:
            vconvs.append(_conv_to(rax, v.axes[d]))

    def vidx(ridx):
        ridx = ridx[nd - v.ndim :] if v.ndim else ()
        return tuple(f(i) for f, i in zip(vconvs, ridx))

    def locate(idx):
        """condition that source index idx lies in the region, and its region index"""
        conds, ridx = [], []
        for p in parts:
            if p[0] == "new":
                ridx.append(num(0))
            elif p[0] == "int":
                conds.append(idx_eq(a.axes[p[1]], idx[p[1]], p[2]))
            elif p[0] == "slice":
                c, i = inv_slice(a.axes[p[1]], p[2], p[3], idx[p[1]])
                conds.append(c)
                ridx.append(i)
            elif p[0] == "mask":
                dom = raxes[len(ridx)]
                ii = tuple(idx[q] for q in p[1])
                c, i = dom.locate(ii) if hasattr(dom, "locate") else (dom.guard(ii), ii)
                conds.append(c)
                ridx.append(i)
            elif p[0] == "adv":
                c, i = E().inv_gather(a.axes[p[1]], p[2], idx[p[1]])
                conds.append(c)
                ridx.extend(i)
        return tm.and_(*conds), tuple(ridx)

    def comb(c, new, old):
        return tm.ite(c, new, old)

    def fn(idx):
        c, r = locate(idx)
        if c is tm.FALSE or decide(c) is False:
            return a.fn(idx)
        new = v.fn(vidx(r))
        old = a.fn(idx)
        if mode == "add":
            new = tm.add(old, new)
        elif mode == "mul":
            new = tm.mul(old, new)
        if decide(c) is True:
            return new
        return tm.ite(c, new, old)

    nan = None
    if a.nan is not None or v.nan is not None:

        def nan(idx):
            c, r = locate(idx)
            n = v.nan(vidx(r)) if v.nan else tm.FALSE
            o = a.nan(idx) if a.nan else tm.FALSE
            if mode in ("add", "mul"):
                n = tm.or_(n, o)
            return tm.or_(tm.and_(c, n), tm.and_(tm.not_(c), o))

    sort = a.sort if a.lib == "np" and a.sort != "B" else res_sort(a.sort, v.sort)
    return Arr(a.axes, memo_fn(fn), memo_fn(nan), sort, a.lib)


def _conv_to(rax, vax):
    """map an index of the region axis rax to an index of the value axis vax"""
    if same_axis(rax, vax):
        return lambda i: i
    new, fr, fv = unify(rax, vax)
    if new is rax:
        return fv
    if isinstance(rax, Plain):
        # region index is an int, value axis composite
        return lambda i: fv(new.from_int(i))
    m = E().match_axes(rax, vax)
    if m is not None and m[0] is rax:
        return m[2]
    raise Unsupported(f"assignment of {vax!r} into {rax!r}")


def idx_eq(ax, i, j):
    if isinstance(ax, Plain):
        return tm.eq(i, j)
    return idx_struct_eq(i, j)


def idx_struct_eq(i, j):
    if isinstance(i, tuple) and isinstance(j, tuple):
        if i and i[0] == "cat":
            if i[1] != j[1]:
                return tm.FALSE
            return idx_struct_eq(i[2], j[2])
        return tm.and_(*[idx_struct_eq(x, y) for x, y in zip(i, j)])
    return tm.eq(i, j)


def inv_slice(ax, new_ax, f, i):
    """condition that i is in the slice and its index there"""
    if new_ax is ax:
        return tm.TRUE, i
    if isinstance(ax, Plain) and isinstance(new_ax, Plain):
        lo = f(num(0))
        d = tm.sub(i, lo)
        return tm.and_(tm.le(lo, i), tm.lt(d, new_ax.n)), d
    raise Unsupported("assignment to a slice of a composite axis")


def _set_multi(a, parts, v, mode):
    """a.at[rows, cols].set(v) with several integer arrays in a row"""
    if any(p[0] not in ("adv",) for p in parts):
        raise Unsupported("assignment with several advanced indices")
    advs = [p for p in parts if p[0] == "adv"]
    axes_b, convs = broadcast([p[2] for p in advs])
    if len(axes_b) != 1:
        raise Unsupported("assignment with index matrices")
    ax = axes_b[0]
    vconv = None
    if v.ndim == 1:
        vconv = _conv_to(ax, v.axes[0])
    elif v.ndim > 1:
        raise CodeError("could not broadcast value")
    if not isinstance(ax, Dom):
        raise Unsupported("scatter over a plain index array")
    # enumeration index must be the index tuple itself (e.g. tril_indices)
    for gi, f in ax.generic():
        pos = [p[2].fn(c((gi,))) for p, c in zip(advs, convs)]
        if len(pos) != len(gi) or any(not (x is y) for x, y in zip(pos, gi)):
            raise Unsupported("scatter indices are not an enumeration of index tuples")

    def fn(idx):
        c = ax.guard(idx)
        new = v.fn((vconv(idx),)) if vconv else v.fn(())
        if mode == "add":
            new = tm.add(a.fn(idx), new)
        return tm.ite(c, new, a.fn(idx))

    nan = None
    if a.nan is not None or v.nan is not None:

        def nan(idx):
            c = ax.guard(idx)
            n = (v.nan((vconv(idx),)) if vconv else v.nan(())) if v.nan else tm.FALSE
            return tm.or_(tm.and_(c, n), tm.and_(tm.not_(c), a.nan(idx) if a.nan else tm.FALSE))

    return Arr(a.axes, memo_fn(fn), memo_fn(nan), res_sort(a.sort, v.sort), a.lib)


def tril_mask_axis(n, k=0, m=None, upper=False):
    n = tm.lift(n)
    if upper:
        return Dom([Plain(n), Plain(m if m is not None else n)], lambda i: tm.le(tm.add(i[0], k), i[1]), tag=("triu", k))
    return Dom([Plain(n), Plain(m if m is not None else n)], lambda i: tm.le(i[1], tm.add(i[0], k)), tag=("tril", k))


def tril_indices(n, k=0, m=None, upper=False):
    dom = tril_mask_axis(n, k, m, upper)
    r = Arr([dom], lambda i: i[0][0], None, "I")
    c = Arr([dom], lambda i: i[0][1], None, "I")
    return (r, c)


# ---- QR -------------------------------------------------------------------------------
class QRInfo:
    def __init__(self, name, A, extra, rows, cols):
        self.name, self.A, self.extra = name, A, extra
        self.rows, self.cols = rows, cols
        self.rewrite_first = True

    @property
    def nrows(self):
        """number of rows of R"""
        if decide(tm.le(self.cols, self.rows)) is True:
            return self.cols
        if decide(tm.le(self.rows, self.cols)) is True:
            return self.rows
        return tm.min_(self.rows, self.cols)

    def gram(self, batch, i, j):
        ne = len(self.extra)
        ren = {v: b for v, b in zip(self.extra, batch[:ne])}
        nb = len(batch) - ne
        k = tm.fresh("s")
        gi, gj = tm.fresh("g"), tm.fresh("g")
        bs = [tm.fresh("g") for _ in range(nb)]
        x = tm.mul(self.A.fn(tuple(bs) + (k, gi)), self.A.fn(tuple(bs) + (k, gj)))
        m = dict(ren)
        m.update({v: b for v, b in zip(bs, batch[ne:])})
        m[gi], m[gj] = i, j
        x = tm.subst(x, m)
        return tm.sum_(k, self.rows, x)


_QRN = [0]


def qr(A, mode="reduced"):
    A = as_arr(A)
    if A.ndim < 2:
        raise CodeError("qr needs a matrix")
    for ax in A.axes:
        if not isinstance(ax, Plain):
            raise Unsupported("qr of a composite axis")
    _QRN[0] += 1
    name = f"qr{_QRN[0]}"
    eng = E()
    gi, _ = A.generic()[0]
    sample = A.fn(gi)
    extra = [v for v in eng.generic_vars() if v in sample.fv and v not in gi]
    rows, cols = A.axes[-2].n, A.axes[-1].n
    info = QRInfo(name, A, extra, rows, cols)
    eng.theory.qr[name] = info
    eng.theory.interp[name] = _qr_interp(info)
    nr = info.nrows
    R = Arr(
        list(A.axes[:-2]) + [Plain(nr), Plain(cols)],
        memo_fn(lambda i: tm.app(name, *extra, *i, sort="R")),
        _qr_nan(A),
        "R",
    )
    qn = name + ".Q"
    Q = Arr(
        list(A.axes[:-2]) + [Plain(rows), Plain(nr)],
        memo_fn(lambda i: tm.app(qn, *extra, *i, sort="R")),
        R.nan,
        "R",
    )
    if mode == "r":
        return R
    return (Q, R)


def _qr_nan(A):
    if A.nan is None:
        return None

    def nan(idx):
        b = idx[:-2]
        return reduce_exists(
            Comp([A.axes[-2], A.axes[-1]]), lambda i: A.nan(tuple(b) + tuple(i))
        )

    return memo_fn(nan)


def _qr_interp(info):
    cache = {}

    def f(ev, args):
        import numpy as np

        k = args[:-2]
        if k not in cache or cache[k][0] is not ev.token:
            r, c = int(ev(info.rows)), int(ev(info.cols))
            ne = len(info.extra)
            ren = {v: num(int(x)) for v, x in zip(info.extra, k[:ne])}
            M = np.zeros((r, c))
            b = tuple(num(int(x)) for x in k[ne:])
            for i in range(r):
                for j in range(c):
                    M[i, j] = ev(tm.subst(info.A.fn(b + (num(i), num(j))), ren))
            R = np.linalg.qr(M)[1]
            # sign flips per row are allowed by the contract; flip to keep tests honest
            cache[k] = (ev.token, R)
        return float(cache[k][1][int(args[-2]), int(args[-1])])

    return f


# ---- special functions ----------------------------------------------------------------
PI = tm.app("pi")


def norm_logpdf(x, loc=0, scale=1):
    def f(x_, m, s):
        z = tm.sub(x_, m)
        q = tm.div(tm.power(z, 2), tm.power(s, 2))
        return tm.sub(
            tm.sub(tm.mul(tm.lift(-0.5), q), tm.fn("log", s)),
            tm.mul(tm.lift(0.5), tm.fn("log", tm.mul(2, PI))),
        )

    def nn(x_, m, s):
        return tm.or_(x_[1], m[1], s[1], tm.le(s[0], 0))

    return elementwise(f, x, loc, scale, sort="R", nanf=nn)


def norm_pdf(x, loc=0, scale=1):
    return a_exp(norm_logpdf(x, loc, scale))


def logsumexp(a, axis=None, b=None, keepdims=False):
    a = as_arr(a)
    e = a_exp(a)
    if b is not None:
        e = BIN["*"](e, b)
    s = asum(e, axis, keepdims)
    out = Arr(s.axes, lambda i: tm.fn("log", s.fn(i)), s.nan, "R")
    # the sum of exponentials is positive unless the axis is empty
    if b is not None:
        return a_log(s)
    return out


def index0(a, i):
    """a[i] for an integer term i along the first axis"""
    return getitem(a, (i,))
