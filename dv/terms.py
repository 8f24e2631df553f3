"""Hash-consed first-order terms over Int, Real, Bool and Label (S) with binders.

Sorts: 'I' mathematical integers, 'R' mathematical reals, 'B' booleans, 'S' labels
(strings and other opaque hashables).  Integer terms are kept in polynomial normal
form; everything else is normalised on demand by nf.py.
"""
import math
from fractions import Fraction

_TABLE = {}
_COUNTER = [0]


class T:
    __slots__ = ("op", "args", "sort", "id", "fv", "depth", "_key", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    # terms must never be used as python booleans by accident
    def __bool__(self):
        raise TypeError(f"symbolic term used as a python bool: {show(self)}")


_EMPTY = frozenset()


def mk(op, args, sort):
    key = (op, sort, tuple(("t", a.id) if isinstance(a, T) else (type(a).__name__, a) for a in args))
    t = _TABLE.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.sort = op, tuple(args), sort
    _COUNTER[0] += 1
    t.id = _COUNTER[0]
    t._key = None
    if op == "var":
        t.fv = frozenset([t])
        t.depth = 0
    elif op in ("sum", "exists", "count"):
        # args: canonical var, length, body
        v, n, body = args
        t.fv = (body.fv - {v}) | n.fv
        t.depth = max(n.depth, body.depth) + 1
    else:
        fv = _EMPTY
        d = 0
        for a in args:
            if isinstance(a, T):
                if a.fv:
                    fv = fv | a.fv if fv else a.fv
                if a.depth > d:
                    d = a.depth
        t.fv = fv
        t.depth = d
    _TABLE[key] = t
    return t


# --------------------------------------------------------------------------------------
# constructors
# --------------------------------------------------------------------------------------
TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")
_fresh = [0]


def num(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return mk("num", (Fraction(x),), "I")
    if isinstance(x, Fraction):
        return mk("num", (x,), "I" if x.denominator == 1 else "R")
    if isinstance(x, float):
        if math.isinf(x):
            return mk("app", ("+inf" if x > 0 else "-inf",), "R")
        if math.isnan(x):
            return mk("app", ("nan",), "R")
        return mk("num", (Fraction(repr(x)),), "I" if float(x).is_integer() else "R")
    raise TypeError(f"cannot lift {x!r} to a term")


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, str):
        return mk("str", (x,), "S")
    if hasattr(x, "item") and not isinstance(x, (list, tuple, dict)):
        x = x.item()
    return num(x)


def var(name, sort="I"):
    return mk("var", (name,), sort)


def fresh(prefix="k", sort="I"):
    _fresh[0] += 1
    return mk("var", (f"{prefix}!{_fresh[0]}",), sort)


def app(name, *args, sort="R"):
    return mk("app", (name,) + tuple(lift(a) for a in args), sort)


def is_num(t):
    return isinstance(t, T) and t.op == "num"


def numval(t):
    return t.args[0]


def is_const(t):
    return t.op in ("num", "str", "true", "false")


def unlift(t):
    """Turn constant terms into native python values."""
    if not isinstance(t, T):
        return t
    if t.op == "num":
        v = t.args[0]
        return int(v) if v.denominator == 1 else v
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    if t.op == "str":
        return t.args[0]
    return t


# ---- integers: polynomial normal form -------------------------------------------------
def key(t):
    """Structural key used for deterministic ordering (independent of creation order)."""
    if t._key is None:
        t._key = show(t)
    return t._key


def _ipoly(t):
    """dict monomial(tuple of atoms sorted) -> int/Fraction"""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "ipoly":
        return dict(t.args[0])
    return {(t,): Fraction(1)}


class _Frozen(tuple):
    pass


def _from_ipoly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return num(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items = sorted(p.items(), key=lambda mc: (len(mc[0]), [key(a) for a in mc[0]]))
    k = ("ipoly", "I", tuple((tuple(a.id for a in m), c) for m, c in items))
    t = _TABLE.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.sort = "ipoly", (tuple(items),), "I"
        _COUNTER[0] += 1
        t.id = _COUNTER[0]
        t._key = None
        fv = _EMPTY
        d = 0
        for m, _ in items:
            for a in m:
                fv = fv | a.fv
                d = max(d, a.depth)
        t.fv, t.depth = fv, d
        _TABLE[k] = t
    return t


def iadd(a, b):
    p = _ipoly(a)
    for m, c in _ipoly(b).items():
        p[m] = p.get(m, 0) + c
    return _from_ipoly(p)


def imul(a, b):
    p = {}
    for m1, c1 in _ipoly(a).items():
        for m2, c2 in _ipoly(b).items():
            m = tuple(sorted(m1 + m2, key=key))
            p[m] = p.get(m, 0) + c1 * c2
    return _from_ipoly(p)


def ineg(a):
    return _from_ipoly({m: -c for m, c in _ipoly(a).items()})


# ---- arithmetic -----------------------------------------------------------------------
def _ind(t):
    """booleans used as numbers"""
    if t.sort == "B":
        return ite(t, num(1), num(0))
    return t


def add(a, b):
    a, b = _ind(lift(a)), _ind(lift(b))
    if a.sort == "I" and b.sort == "I":
        return iadd(a, b)
    if is_num(a) and is_num(b):
        return num(numval(a) + numval(b))
    if is_num(a) and numval(a) == 0:
        return toR(b)
    if is_num(b) and numval(b) == 0:
        return toR(a)
    return mk("add", (a, b), "R")


def mul(a, b):
    a, b = _ind(lift(a)), _ind(lift(b))
    if a.sort == "I" and b.sort == "I":
        return imul(a, b)
    for x, y in ((a, b), (b, a)):
        if is_num(x):
            if numval(x) == 0:
                return num(0)
            if numval(x) == 1:
                return toR(y)
            if is_num(y):
                return num(numval(x) * numval(y))
    return mk("mul", (a, b), "R")


def toR(t):
    return t


def neg(a):
    a = _ind(lift(a))
    if a.sort == "I":
        return ineg(a)
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    a, b = _ind(lift(a)), _ind(lift(b))
    if is_num(b) and numval(b) != 0:
        if is_num(a):
            return num(numval(a) / numval(b))
        return mk("mul", (num(1 / numval(b)), a), "R") if numval(b) != 1 else a
    if is_num(a) and numval(a) == 0:
        return num(0)
    return mk("div", (a, b), "R")


def power(a, b):
    a, b = _ind(lift(a)), _ind(lift(b))
    if is_num(b) and numval(b).denominator == 1:
        e = int(numval(b))
        if is_num(a) and (e >= 0 or numval(a) != 0):
            return num(numval(a) ** e)
        if e == 0:
            return num(1)
        if e == 1:
            return a
        if a.sort == "I" and e > 0:
            r = a
            for _ in range(e - 1):
                r = imul(r, a)
            return r
        if e < 0:
            return div(num(1), power(a, num(-e)))
        return mk("pow", (a, e), "R")
    if is_num(b) and numval(b) == Fraction(1, 2):
        return fn("sqrt", a)
    return mk("fn", ("powr", a, b), "R")


def floordiv(a, b):
    a, b = _ind(lift(a)), _ind(lift(b))
    if is_num(a) and is_num(b) and numval(b) != 0:
        return num(Fraction(numval(a) // numval(b)))
    if is_num(b) and numval(b) == 1 and a.sort == "I":
        return a
    q = exact_div(a, b)
    if q is not None:
        return q
    return mk("idiv", (a, b), "I")


def mod(a, b):
    a, b = _ind(lift(a)), _ind(lift(b))
    if is_num(a) and is_num(b) and numval(b) != 0:
        return num(Fraction(numval(a) % numval(b)))
    if exact_div(a, b) is not None:
        return num(0)
    return mk("imod", (a, b), "I")


def exact_div(a, b):
    """a // b as a polynomial if b divides a exactly (b a single monomial)."""
    if a.sort != "I" or b.sort != "I":
        return None
    pb = _ipoly(b)
    if len(pb) != 1:
        return None
    (mb, cb), = pb.items()
    out = {}
    for m, c in _ipoly(a).items():
        mm = list(m)
        for x in mb:
            if x in mm:
                mm.remove(x)
            else:
                return None
        if (c / cb).denominator != 1:
            return None
        out[tuple(mm)] = c / cb
    return _from_ipoly(out)


def fn(name, a):
    a = _ind(lift(a))
    if is_num(a):
        v = numval(a)
        if name == "abs":
            return num(abs(v))
        if name == "exp" and v == 0:
            return num(1)
        if name == "log" and v == 1:
            return num(0)
        if name == "sqrt" and v >= 0:
            r = Fraction(math.isqrt(v.numerator), math.isqrt(v.denominator))
            if r * r == v:
                return num(r)
    if name == "exp" and a.op == "fn" and a.args[0] == "log":
        pass
    return mk("fn", (name, a), "I" if (name == "abs" and a.sort == "I") else "R")


# ---- booleans -------------------------------------------------------------------------
def not_(a):
    a = lift(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le0":  # not (p<=0)  <=> -p+1 <= 0
        return le0(iadd(ineg(a.args[0]), num(1)))
    return mk("not", (a,), "B")


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        x = lift(x)
        for y in x.args if x.op == "and" else (x,):
            if y is FALSE:
                return FALSE
            if y is TRUE or y in seen:
                continue
            seen.add(y)
            out.append(y)
    for y in out:
        if not_(y) in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(sorted(out, key=key)), "B")


def or_(*xs):
    out = []
    seen = set()
    for x in xs:
        x = lift(x)
        for y in x.args if x.op == "or" else (x,):
            if y is TRUE:
                return TRUE
            if y is FALSE or y in seen:
                continue
            seen.add(y)
            out.append(y)
    for y in out:
        if not_(y) in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(sorted(out, key=key)), "B")


def implies(a, b):
    return or_(not_(a), b)


def _igcd_norm(p, eq):
    """divide by content; for eq make the leading coefficient positive"""
    d = _ipoly(p)
    coefs = [c for m, c in d.items() if m != ()]
    if not coefs:
        return p
    den = 1
    for c in d.values():
        den = den * c.denominator // math.gcd(den, c.denominator)
    d = {m: c * den for m, c in d.items()}
    g = 0
    for m, c in d.items():
        if m != ():
            g = math.gcd(g, abs(int(c)))
    const = d.get((), Fraction(0))
    if g > 1:
        if eq:
            if int(const) % g != 0:
                return None
            d = {m: c / g for m, c in d.items()}
        else:
            new = {m: c / g for m, c in d.items() if m != ()}
            # p/g + const/g <= 0  <=>  p/g <= floor(-const/g)
            new[()] = -Fraction((-const) // g)
            d = new
    if eq:
        lead = sorted((m for m in d if m != ()), key=lambda m: (len(m), [key(a) for a in m]))[0]
        if d[lead] < 0:
            d = {m: -c for m, c in d.items()}
    return _from_ipoly(d)


def le0(p):
    if is_num(p):
        return TRUE if numval(p) <= 0 else FALSE
    p = _igcd_norm(p, False)
    if is_num(p):
        return TRUE if numval(p) <= 0 else FALSE
    return mk("le0", (p,), "B")


def le(a, b):
    a, b = _ind(lift(a)), _ind(lift(b))
    if a.sort == "I" and b.sort == "I":
        return le0(iadd(a, ineg(b)))
    if is_num(a) and is_num(b):
        return TRUE if numval(a) <= numval(b) else FALSE
    if a is b:
        return TRUE
    return mk("rle", (a, b), "B")


def lt(a, b):
    a, b = _ind(lift(a)), _ind(lift(b))
    if a.sort == "I" and b.sort == "I":
        return le0(iadd(iadd(a, ineg(b)), num(1)))
    if is_num(a) and is_num(b):
        return TRUE if numval(a) < numval(b) else FALSE
    if a is b:
        return FALSE
    return not_(mk("rle", (b, a), "B"))


# label functions: name -> family. Apps of an injective function are equal iff their
# arguments are; apps of functions in different families are never equal; members of a
# family are never equal to string constants unless listed.
INJECTIVE = set()
# injective in the last argument: apps that differ in it only are different (keys of one dict)
INJECTIVE_LAST = set()
FAMILY = {}


def eq(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return TRUE
    if a.sort == "B" and b.sort == "B":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    a, b = (_ind(a) if a.sort == "B" else a), (_ind(b) if b.sort == "B" else b)
    if a.sort == "I" and b.sort == "I":
        p = iadd(a, ineg(b))
        if is_num(p):
            return TRUE if numval(p) == 0 else FALSE
        p = _igcd_norm(p, True)
        if p is None:
            return FALSE
        return mk("eq0", (p,), "B")
    if a.sort == "S" or b.sort == "S":
        if a.sort != b.sort:
            return FALSE
        if a.op == "str" and b.op == "str":
            return FALSE
        if a.op == "ite":
            return or_(and_(a.args[0], eq(a.args[1], b)), and_(not_(a.args[0]), eq(a.args[2], b)))
        if b.op == "ite":
            return eq(b, a)
        if a.op == "app" and b.op == "app":
            fa, fb = a.args[0], b.args[0]
            if fa == fb and fa in INJECTIVE:
                return and_(*[eq(x, y) for x, y in zip(a.args[1:], b.args[1:])])
            if fa == fb and fa in INJECTIVE_LAST and len(a.args) == len(b.args) and all(x is y for x, y in zip(a.args[1:-1], b.args[1:-1])):
                return eq(a.args[-1], b.args[-1])
            if fa != fb and fa in FAMILY and fb in FAMILY and FAMILY[fa] != FAMILY[fb]:
                return FALSE
        for x, y in ((a, b), (b, a)):
            if x.op == "app" and x.args[0] in FAMILY and y.op == "str":
                return FALSE
            if x.op == "app" and x.args[0] in FAMILY and y.op == "fstr" and skeleton(y) in SEPARABLE:
                return FALSE
            if x.op == "str" and y.op == "fstr":
                if not _matches(y, x.args[0]):
                    return FALSE
                holes = [p for p in y.args if p.op != "str"]
                if len(holes) == 1 and holes[0].sort == "S":
                    k = y.args.index(holes[0])
                    pre = "".join(p.args[0] for p in y.args[:k])
                    post = "".join(p.args[0] for p in y.args[k + 1 :])
                    t = x.args[0]
                    return eq(holes[0], lift(t[len(pre) : len(t) - len(post)]))
        if a.op == "fstr" and b.op == "fstr":
            r = _eq_fstr(a, b)
            if r is not None:
                return r
        if key(b) < key(a):
            a, b = b, a
        return mk("seq", (a, b), "B")
    if is_num(a) and is_num(b):
        return TRUE if numval(a) == numval(b) else FALSE
    if key(b) < key(a):
        a, b = b, a
    return mk("req", (a, b), "B")


def _eq_fstr(a, b):
    """Formatted labels: same skeleton -> componentwise; different literal head/tail -> no."""
    pa, pb = a.args, b.args
    if len(pa) == len(pb) and all(
        (x is y) if (x.op == "str" and y.op == "str") else (x.op != "str" and y.op != "str")
        for x, y in zip(pa, pb)
    ):
        holes = [(x, y) for x, y in zip(pa, pb) if x.op != "str"]
        if len(holes) == 1 or a.args in SEPARABLE or skeleton(a) in SEPARABLE:
            return and_(*[eq(x, y) for x, y in holes])
        return None
    if skeleton(a) in SEPARABLE and skeleton(b) in SEPARABLE and skeleton(a) != skeleton(b):
        return FALSE
    # different literal prefix or suffix lengths known to conflict
    ha = pa[0].args[0] if pa[0].op == "str" else ""
    hb = pb[0].args[0] if pb[0].op == "str" else ""
    n = min(len(ha), len(hb))
    if ha[:n] != hb[:n]:
        return FALSE
    ta = pa[-1].args[0] if pa[-1].op == "str" else ""
    tb = pb[-1].args[0] if pb[-1].op == "str" else ""
    n = min(len(ta), len(tb))
    if n and ta[-n:] != tb[-n:]:
        return FALSE
    return None


SEPARABLE = set()


def _matches(f, s):
    import re

    pat = "".join(re.escape(p.args[0]) if p.op == "str" else "(.*)" for p in f.args)
    return re.fullmatch(pat, s, re.S) is not None


def skeleton(a):
    return tuple(x.args[0] if x.op == "str" else None for x in a.args)


def fstr(parts):
    out = []
    for p in parts:
        p = lift(p)
        if p.op == "num":
            v = p.args[0]
            p = lift(str(int(v)) if v.denominator == 1 else str(float(v)))
        if p.op == "fstr":
            for q in p.args:
                _push(out, q)
        else:
            _push(out, p)
    out = [p for p in out if not (p.op == "str" and p.args[0] == "")]
    if not out:
        return lift("")
    if len(out) == 1 and out[0].sort == "S":
        return out[0]
    return mk("fstr", tuple(out), "S")


def _push(out, p):
    if p.op == "str" and out and out[-1].op == "str":
        out[-1] = lift(out[-1].args[0] + p.args[0])
    else:
        out.append(p)


def ite(c, a, b):
    c, a, b = lift(c), lift(a), lift(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        c, a, b = c.args[0], b, a
    if a.sort == "B" and b.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if a.sort == "B":
        a = _ind(a)
    if b.sort == "B":
        b = _ind(b)
    if a.sort == "S" or b.sort == "S":
        s = "S"
    elif a.sort == "I" and b.sort == "I":
        s = "I"
    else:
        s = "R"
    return mk("ite", (c, a, b), s)


def min_(a, b):
    return ite(le(a, b), a, b)


def max_(a, b):
    return ite(le(a, b), b, a)


# ---- binders --------------------------------------------------------------------------
def _close(v, body):
    """rename v to the canonical binder variable of body"""
    if v not in body.fv:
        return var("#0"), body
    w = var(f"#{body.depth + 1}")
    return w, subst(body, {v: w})


def sum_(v, n, body):
    n, body = lift(n), _ind(lift(body))
    if is_num(n) and numval(n) <= 0:
        return num(0)
    if is_num(body) and numval(body) == 0:
        return num(0)
    w, body = _close(v, body)
    return mk("sum", (w, n, body), "R")


def count_(v, n, body):
    """number of k in [0,n) with body(k) as an integer term"""
    n, body = lift(n), lift(body)
    if body is TRUE:
        return n
    if body is FALSE:
        return num(0)
    w, body = _close(v, body)
    return mk("count", (w, n, body), "I")


def exists_(v, n, body):
    n, body = lift(n), lift(body)
    if is_num(n) and numval(n) <= 0:
        return FALSE
    if body is FALSE:
        return FALSE
    if v not in body.fv:
        return and_(body, lt(num(0), n))
    if body.op == "or":
        return or_(*[exists_(v, n, x) for x in body.args])
    # one-point rule: exists v: v == t and P(v)
    for x in body.args if body.op == "and" else (body,):
        if x.op == "eq0" and v in x.fv:
            s = _solve1(x, v)
            if s is not None:
                return and_(le(num(0), s), lt(s, n), subst(body, {v: s}))
    w, body = _close(v, body)
    return mk("exists", (w, n, body), "B")


def _solve1(x, k):
    coef, rest = None, num(0)
    for m, c in _ipoly(x.args[0]).items():
        if m == (k,):
            coef = c
        elif any(k in a.fv for a in m):
            return None
        else:
            rest = add(rest, _from_ipoly({m: c}))
    return neg(rest) if coef == 1 else (rest if coef == -1 else None)


def forall_(v, n, body):
    return not_(exists_(v, n, not_(body)))


def open_binder(t, prefix="k"):
    v, n, body = t.args
    k = fresh(prefix)
    return k, n, subst(body, {v: k})


_SUBST = {}


def subst(t, m):
    if not m:
        return t
    if not isinstance(t, T):
        return t.subst(m)  # structured position
    mk_ = frozenset((k.id, v.id) for k, v in m.items())
    return _subst(t, m, mk_)


def _subst(t, m, mkey):
    if not t.fv or not any(v in t.fv for v in m):
        return t
    if t.op == "var":
        return m.get(t, t)
    ck = (t.id, mkey)
    r = _SUBST.get(ck)
    if r is not None:
        return r
    op = t.op
    if op == "ipoly":
        r = num(0)
        for mono, c in t.args[0]:
            x = num(c)
            for a in mono:
                x = mul(x, _subst(a, m, mkey))
            r = add(r, x)
    elif op in ("sum", "exists", "count"):
        v, n, body = t.args
        n2 = _subst(n, m, mkey)
        k = fresh("s")
        b2 = subst(subst(body, {v: k}), {a: b for a, b in m.items() if a is not v})
        r = {"sum": sum_, "exists": exists_, "count": count_}[op](k, n2, b2)
    else:
        args = [(_subst(a, m, mkey) if isinstance(a, T) else a) for a in t.args]
        r = rebuild(op, args, t.sort)
    _SUBST[ck] = r
    return r


def rebuild(op, args, sort):
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "div":
        return div(*args)
    if op == "pow":
        return power(args[0], num(args[1]))
    if op == "fn":
        if args[0] == "powr":
            return power(args[1], args[2])
        return fn(args[0], args[1])
    if op == "ite":
        return ite(*args)
    if op == "not":
        return not_(args[0])
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "le0":
        return le0(args[0])
    if op == "eq0":
        return eq(args[0], num(0))
    if op == "rle":
        return le(*args)
    if op in ("req", "seq"):
        return eq(*args)
    if op == "fstr":
        return fstr(args)
    if op == "idiv":
        return floordiv(*args)
    if op == "imod":
        return mod(*args)
    return mk(op, tuple(args), sort)


# --------------------------------------------------------------------------------------
# printing
# --------------------------------------------------------------------------------------
def show(t):
    if not isinstance(t, T):
        return repr(t)
    if t._key is not None:
        return t._key
    op = t.op
    if op == "num":
        s = str(t.args[0])
    elif op == "str":
        s = repr(t.args[0])
    elif op in ("true", "false"):
        s = op
    elif op == "var":
        s = t.args[0]
    elif op == "ipoly":
        parts = []
        for m, c in t.args[0]:
            x = "*".join(show(a) for a in m)
            if not m:
                parts.append(str(c))
            elif c == 1:
                parts.append(x)
            else:
                parts.append(f"{c}*{x}")
        s = "(" + " + ".join(parts) + ")"
    elif op == "app":
        s = t.args[0] + ("(" + ",".join(show(a) for a in t.args[1:]) + ")" if len(t.args) > 1 else "")
    elif op in ("sum", "exists", "count"):
        s = f"{op}({show(t.args[0])}<{show(t.args[1])}: {show(t.args[2])})"
    elif op == "add":
        s = f"({show(t.args[0])} + {show(t.args[1])})"
    elif op == "mul":
        s = f"{show(t.args[0])}*{show(t.args[1])}"
    elif op == "le0":
        s = f"[{show(t.args[0])}<=0]"
    elif op == "eq0":
        s = f"[{show(t.args[0])}==0]"
    else:
        s = f"{op}({','.join(show(a) for a in t.args)})"
    t._key = s
    return s


def walk(t, f, seen=None):
    """call f on every sub term (binder bodies with their canonical variables)"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        f(x)
        if x.op == "ipoly":
            for m, _ in x.args[0]:
                stack.extend(m)
        else:
            stack.extend(a for a in x.args if isinstance(a, T))


# --------------------------------------------------------------------------------------
# numeric evaluation (used for counter-models and engine cross-checks)
# --------------------------------------------------------------------------------------
class EvalError(Exception):
    pass


def evaluate(t, env, model, memo=None):
    """env: var T -> value; model: callable(name, args, sort) -> value."""
    if memo is None:
        memo = {}
    return _ev(t, env, model, memo)


def _ev(t, env, model, memo):
    closed = not t.fv
    if closed and t.id in memo:
        return memo[t.id]
    op = t.op
    a = t.args
    if op == "num":
        v = a[0]
        r = int(v) if v.denominator == 1 else float(v)
    elif op == "str":
        r = a[0]
    elif op == "true":
        r = True
    elif op == "false":
        r = False
    elif op == "var":
        if t in env:
            return env[t]
        r = model("var:" + a[0], (), t.sort)
    elif op == "ipoly":
        r = 0
        for m, c in a[0]:
            x = c
            for y in m:
                x = x * _ev(y, env, model, memo)
            r = r + x
        r = int(r) if r == int(r) else float(r)
    elif op == "app":
        args = tuple(_ev(x, env, model, memo) for x in a[1:])
        r = model(a[0], args, t.sort)
    elif op == "add":
        r = _ev(a[0], env, model, memo) + _ev(a[1], env, model, memo)
    elif op == "mul":
        r = _ev(a[0], env, model, memo) * _ev(a[1], env, model, memo)
    elif op == "div":
        d = _ev(a[1], env, model, memo)
        n = _ev(a[0], env, model, memo)
        r = n / d if d != 0 else float("nan")
    elif op == "pow":
        r = _ev(a[0], env, model, memo) ** a[1]
    elif op == "fn":
        x = _ev(a[1], env, model, memo)
        try:
            if a[0] == "exp":
                r = math.exp(x)
            elif a[0] == "log":
                r = math.log(x) if x > 0 else (float("-inf") if x == 0 else float("nan"))
            elif a[0] == "sqrt":
                r = math.sqrt(x) if x >= 0 else float("nan")
            elif a[0] == "abs":
                r = abs(x)
            elif a[0] == "powr":
                r = x ** _ev(a[2], env, model, memo)
            else:
                raise EvalError(a[0])
        except OverflowError:
            r = float("inf")
    elif op == "ite":
        r = _ev(a[1] if _ev(a[0], env, model, memo) else a[2], env, model, memo)
    elif op == "not":
        r = not _ev(a[0], env, model, memo)
    elif op == "and":
        r = all(_ev(x, env, model, memo) for x in a)
    elif op == "or":
        r = any(_ev(x, env, model, memo) for x in a)
    elif op == "le0":
        r = _ev(a[0], env, model, memo) <= 0
    elif op == "eq0":
        r = _ev(a[0], env, model, memo) == 0
    elif op == "rle":
        r = _ev(a[0], env, model, memo) <= _ev(a[1], env, model, memo)
    elif op == "req":
        r = _ev(a[0], env, model, memo) == _ev(a[1], env, model, memo)
    elif op == "seq":
        r = _ev(a[0], env, model, memo) == _ev(a[1], env, model, memo)
    elif op == "fstr":
        r = "".join(str(_ev(x, env, model, memo)) for x in a)
    elif op == "idiv":
        d = _ev(a[1], env, model, memo)
        r = _ev(a[0], env, model, memo) // d if d else 0
    elif op == "imod":
        d = _ev(a[1], env, model, memo)
        r = _ev(a[0], env, model, memo) % d if d else 0
    elif op in ("sum", "exists", "count"):
        v, n, body = a
        nn = _ev(n, env, model, memo)
        e2 = dict(env)
        if op == "sum":
            r = 0
            for i in range(int(nn)):
                e2[v] = i
                r = r + _ev(body, e2, model, memo)
        elif op == "count":
            r = 0
            for i in range(int(nn)):
                e2[v] = i
                r += bool(_ev(body, e2, model, memo))
        else:
            r = False
            for i in range(int(nn)):
                e2[v] = i
                if _ev(body, e2, model, memo):
                    r = True
                    break
    else:
        raise EvalError(f"op {op}")
    if closed:
        memo[t.id] = r
    return r
