"""Ordered comparison of symbolic lists as loop trees.

A list is a sequence of nodes: Leaf(element) | Loop(var, n, guard, body).  Two lists are equal if
their trees are equal after normalization: projections of the elements, removal of elements,
merging of adjacent loops over the same range that have the same body under exclusive guards, and
(dedup=True) collapsing of adjacent equal elements, which keeps the order of first mentions.
"""
from . import arrays as ar
from . import terms as tm
from .arrays import Cat, CodeError, Comp, Dom, Plain, Unsupported
from .interp import Seg, subst_value
from .prove import prove
from .unit import Unit, terms_in


class Leaf:
    def __init__(self, x):
        self.x = x

    def __repr__(self):
        return repr(self.x)


class Loop:
    def __init__(self, v, n, g, body):
        self.v, self.n, self.g, self.body = v, n, g, body

    def __repr__(self):
        return f"for {self.v!r}<{self.n!r} if {self.g!r}: {self.body!r}"


def rng(v, n, g=tm.TRUE):
    return ([tm.le(0, v), tm.lt(v, n)] if v is not None else []) + ([g] if g is not tm.TRUE else [])


def tree(e, lst):
    out = []
    for x in e.entries(lst):
        if isinstance(x, Seg):
            out += walk(e, x.axis, lambda i, x=x: [Leaf(x.fn(i))])
        else:
            out.append(Leaf(x))
    return out


def walk(e, ax, cont):
    """nodes of the enumeration of ax with cont(index) at every index"""
    if isinstance(ax, Plain):
        if tm.is_num(ax.n):
            k = int(ax.n.args[0])
            if k <= 8:
                return [n for j in range(k) for n in cont(tm.num(j))]
        v = tm.fresh("w")
        with e.assuming(rng(v, ax.n)):
            body = cont(v)
        return [Loop(v, ax.n, tm.TRUE, body)] if body else []
    if isinstance(ax, Comp):

        def rec(k, i):
            return cont(i) if k == len(ax.axes) else walk(e, ax.axes[k], lambda j: rec(k + 1, i + (j,)))

        return rec(0, ())
    if isinstance(ax, Cat):
        return [n for k, a in enumerate(ax.axes) for n in walk(e, a, lambda i, k=k: cont(("cat", k, i)))]
    if isinstance(ax, Dom):

        def guarded(i):
            g = tm.lift(ax.guard(i))
            with e.assuming([g]):
                if g is tm.FALSE or e.ctx.prove(tm.FALSE):
                    return []
                body = cont(i)
            return cond(g, body)

        return walk(e, ar.RawComp(ax.axes), guarded)
    if hasattr(ax, "inner"):
        return walk(e, ax.outer, lambda i: walk(e, ax.inner(i), lambda j: cont((i, j))))
    raise Unsupported("enumeration of an axis")


def cond(g, body):
    if not body or g is tm.TRUE:
        return body
    return [Loop(None, tm.num(1), g, body)]


def project(e, nodes, f):
    """f(element) -> element or None (dropped)"""
    out = []
    for n in nodes:
        if isinstance(n, Leaf):
            y = f(n.x)
            if y is not None:
                out.append(Leaf(y))
        else:
            with e.assuming(rng(n.v, n.n, n.g)):
                b = project(e, n.body, f)
            if b:
                out.append(Loop(n.v, n.n, n.g, b))
    return out


def lift_guards(n):
    """guards of the body that do not depend on the loop variable move outwards"""
    if isinstance(n, Loop) and n.v is not None and len(n.body) == 1:
        b = n.body[0]
        if isinstance(b, Loop) and b.v is None:
            parts = b.g.args if b.g.op == "and" else (b.g,)
            free = [p for p in parts if n.v not in p.fv]
            rest = [p for p in parts if n.v in p.fv]
            if free:
                inner = Loop(n.v, n.n, n.g, cond(tm.and_(*rest), b.body))
                return cond(tm.and_(*free), [lift_guards(inner)])[0]
    return n


def norm(e, nodes, dedup):
    out = []
    for n in nodes:
        if isinstance(n, Loop):
            with e.assuming(rng(n.v, n.n, n.g)):
                b = norm(e, n.body, dedup)
            if not b:
                continue
            n = Loop(n.v, n.n, n.g, b)
            if n.v is None and len(b) == 1 and isinstance(b[0], Loop) and b[0].v is None:
                n = Loop(None, n.n, tm.and_(n.g, b[0].g), b[0].body)
            if n.v is None and e.ctx.prove(n.g):
                for x in n.body:
                    push(e, out, x, dedup)
                continue
            n = lift_guards(n)
        push(e, out, n, dedup)
    return out


def push(e, out, n, dedup):
    if out:
        p = out[-1]
        if dedup and isinstance(p, Leaf) and isinstance(n, Leaf) and elem_eq(e, p.x, n.x):
            return
        if isinstance(p, Loop) and isinstance(n, Loop) and p.v is None and n.v is None and same(e, p.body, n.body, [tm.or_(p.g, n.g)]):
            if dedup or e.ctx.prove(tm.not_(tm.and_(p.g, n.g))):
                out.pop()
                g = tm.or_(p.g, n.g)
                if e.ctx.prove(g):
                    for x in n.body:
                        push(e, out, x, dedup)
                else:
                    push(e, out, Loop(None, n.n, g, n.body), dedup)
                return
    out.append(n)


def elem_eq(e, x, y):
    if any(e.leaks(t) for t in terms_in((x, y))):
        raise Unsupported(f"loop variable in {x!r}")
    t = tm.lift(e.equal(x, y))
    return t is tm.TRUE or prove(e.ctx, t)[0] is True


def rename(n, m):
    if isinstance(n, Leaf):
        return Leaf(subst_value(n.x, m, (), None))
    return Loop(n.v, tm.subst(n.n, m), tm.subst(n.g, m), [rename(x, m) for x in n.body])


def same(e, A, B, facts=()):
    if len(A) != len(B):
        return False
    with e.assuming(list(facts)):
        for a, b in zip(A, B):
            if isinstance(a, Leaf) != isinstance(b, Leaf):
                return False
            if isinstance(a, Leaf):
                if not elem_eq(e, a.x, b.x):
                    return False
                continue
            if (a.v is None) != (b.v is None) or e.decide(tm.eq(a.n, b.n)) is not True:
                return False
            m = {a.v: b.v} if a.v is not None else {}
            g = tm.subst(a.g, m)
            fs = rng(b.v, b.n)
            if g is not b.g and prove(e.ctx.extend(*fs), tm.and_(tm.implies(g, b.g), tm.implies(b.g, g)))[0] is not True:
                return False
            if not same(e, [rename(x, m) for x in a.body], b.body, fs + [b.g]):
                return False
    return True


def compare(u, name, got, want, pick=lambda x: x, dedup=False, view=lambda rows: rows):
    """the projected sequences are equal; refuted by evaluation of view(projected list)"""
    e = u.e
    try:
        A = norm(e, project(e, tree(e, got), pick), dedup)
        B = norm(e, project(e, tree(e, want), pick), dedup)
        ok = same(e, A, B)
        why = "" if ok else f"{A} instead of {B}"[:1500]
    except CodeError as x:
        u.fail(name, str(x))
        return
    except Unsupported as x:
        ok, why = False, f"order of entries: {x}"
    if ok:
        u.ok(name, "z3")
    else:
        u.list_diff(name, got, want, why, True, view)


Unit.compare_seq = compare
