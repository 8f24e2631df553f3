"""Normal form for real terms: polynomials over atoms with multi-index sums.

A monomial is   coef * SUM_{b0<n0, b1<n1, ...}  prod atom_i ** e_i   with the bound
indices in a canonical order.  Sums of products, products of sums, index ranges split
at constant thresholds, Kronecker deltas, inverses, exp/log/sqrt/abs and the assumed
contract of the QR decomposition (triangularity and R'R = A'A) are normalised here; the
resulting equality is then handed to z3 (prove.py).
"""
import itertools
from fractions import Fraction

from . import terms as tm
from .terms import T, num


class NFError(Exception):
    pass


F1 = Fraction(1)


def bvar(i):
    return tm.var(f"%{i}")


def p_add(a, b, c=1):
    r = dict(a)
    for m, k in b.items():
        v = r.get(m, 0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def p_scale(a, c):
    return {m: k * c for m, k in a.items()} if c != 0 else {}


ONE = ((), ())


def p_const(c):
    return {ONE: Fraction(c)} if c != 0 else {}


class NF:
    """Normaliser bound to a context (assumptions decide conditions and ranges)."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.theory = ctx.theory
        self.budget = 400000

    # ------------------------------------------------------------------ entry
    def nf(self, t):
        t = tm.lift(t)
        memo = self.ctx.nfmemo
        r = memo.get(t.id)
        if r is None:
            self.budget -= 1
            if self.budget < 0:
                raise NFError("normaliser budget exhausted")
            r = self._nf(t)
            memo[t.id] = r
        return r

    def _nf(self, t):
        op, a = t.op, t.args
        if op == "num":
            return p_const(a[0])
        if op == "add":
            return p_add(self.nf(a[0]), self.nf(a[1]))
        if op == "mul":
            return self.p_mul(self.nf(a[0]), self.nf(a[1]))
        if op == "pow":
            p = self.nf(a[0])
            return self.p_pow(p, a[1])
        if op == "div":
            return self.p_mul(self.nf(a[0]), self.p_inv(self.nf(a[1])))
        if op == "inv":
            return self.p_inv(self.nf(a[0]))
        if op == "ind":
            return self.ind(a[0])
        if op == "ipoly":
            r = {}
            for m, c in a[0]:
                x = p_const(c)
                for y in m:
                    x = self.p_mul(x, self.nf(y))
                r = p_add(r, x)
            return r
        if op == "ite":
            return self.nf_ite(t)
        if op == "sum":
            return self.nf_sum(t)
        if op == "fn":
            return self.nf_fn(t)
        if op == "app":
            return self.nf_app(t)
        if op in ("var", "count", "idiv", "imod"):
            return self.atom(t)
        if t.sort == "B":
            return self.ind(t)
        raise NFError(f"cannot normalise {op}")

    def atom(self, t, e=1):
        return {((), ((t, e),)): F1}

    def nf_app(self, t):
        name = t.args[0]
        if name in self.theory.qr:
            q = self.theory.qr[name]
            i, j = t.args[-2], t.args[-1]
            if self.ctx.decide(tm.lt(j, i)) is True:
                return {}
            batch = t.args[1:-2]
            if self.ctx.decide(tm.eq(i, 0)) is True:
                if self.ctx.decide(tm.eq(j, 0)) is True:
                    return self.atom(t)
                if self.ctx.decide(tm.eq(j, 0)) is False and q.rewrite_first:
                    r00 = tm.app(name, *batch, 0, 0, sort="R")
                    return self.p_mul(self.nf(q.gram(batch, num(0), j)), {((), ((r00, -1),)): F1})
        d = self.theory.defs.get(name)
        if d is not None:
            r = d(*t.args[1:])
            if r is not None:
                return self.nf(r)
        return self.atom(t)

    # ------------------------------------------------------------------ ite / indicators
    def nf_ite(self, t):
        c, a, b = t.args
        d = self.ctx.decide(c)
        if d is True:
            return self.nf(a)
        if d is False:
            return self.nf(b)
        ca = NF(self.ctx.extend(c)) if not _has_bound(c) else NF(self.ctx.extend(c))
        cb = NF(self.ctx.extend(tm.not_(c)))
        ic = self.ind(c)
        pa = ca.nf(a)
        pb = cb.nf(b)
        r = self.p_mul(ic, pa)
        if pb:
            r = p_add(r, self.p_mul(p_add(p_const(1), ic, -1), pb))
        return r

    def ind(self, c):
        d = self.ctx.decide(c)
        if d is True:
            return p_const(1)
        if d is False:
            return {}
        if c.op == "not":
            return p_add(p_const(1), self.ind(c.args[0]), -1)
        if c.op == "and":
            r = p_const(1)
            for x in c.args:
                r = self.p_mul(r, self.ind(x))
            return r
        if c.op == "or":
            return p_add(p_const(1), self.ind(tm.and_(*[tm.not_(x) for x in c.args])), -1)
        if c.op == "le0":
            n = tm.not_(c)
            if tm.key(n) < tm.key(c):
                return p_add(p_const(1), self.atom(tm.mk("ind", (n,), "R")), -1)
        return self.atom(tm.mk("ind", (c,), "R"))

    # ------------------------------------------------------------------ functions
    def _lift_ite(self, t):
        """find an undecided ite inside t (not below a binder)"""
        found = []

        def go(x):
            if found or not isinstance(x, T):
                return
            if x.op == "ite":
                d = self.ctx.decide(x.args[0])
                if d is None:
                    found.append(x.args[0])
                    return
                go(x.args[1] if d else x.args[2])
                return
            if x.op in ("sum", "exists", "count"):
                return
            if x.op == "ipoly":
                for m, _ in x.args[0]:
                    for y in m:
                        go(y)
                return
            for y in x.args:
                go(y)

        go(t)
        return found[0] if found else None

    def nf_fn(self, t):
        name, arg = t.args[0], t.args[1]
        c = self._lift_ite(arg)
        if c is not None:
            return self.nf(tm.mk("ite", (c, assume(t, c, True), assume(t, c, False)), "R"))
        if name == "powr":
            raise NFError("real powers are not supported")
        p = self.nf(arg)
        if name == "exp":
            return self.p_exp(p)
        if name == "log":
            return self.p_log(p)
        if name == "sqrt":
            return self.p_sqrt(p)
        if name == "abs":
            at = self.to_term(p)
            d = self.ctx.decide(tm.le(0, at))
            if d is True:
                return p
            if d is False:
                return p_scale(p, -1)
            # |R00| = sqrt(R00^2) with R00^2 given by the QR contract
            if len(p) == 1:
                (m, k), = p.items()
                if not m[0] and len(m[1]) == 1 and m[1][0][1] == 1:
                    x = m[1][0][0]
                    if x.op == "app" and x.args[0] in self.theory.qr:
                        q = self.theory.qr[x.args[0]]
                        if self.ctx.decide(tm.eq(x.args[-2], 0)) is True and self.ctx.decide(tm.eq(x.args[-1], 0)) is True:
                            g = self.nf(q.gram(x.args[1:-2], num(0), num(0)))
                            return p_scale(self.p_sqrt(g), abs(k))
            return self.atom(tm.fn("abs", at))
        return self.atom(tm.mk("fn", (name, self.to_term(p)), "R"))

    def p_exp(self, p):
        rest = {}
        out = p_const(1)
        for m, c in p.items():
            b, f = m
            if not b and len(f) == 1 and f[0][1] == 1 and f[0][0].op == "fn" and f[0][0].args[0] == "log" and c.denominator == 1:
                out = self.p_mul(out, self.p_pow(self.nf(f[0][0].args[1]), int(c)))
            elif not b and len(f) == 1 and f[0][1] == 1 and f[0][0].op == "fn" and f[0][0].args[0] == "log" and c.denominator == 2:
                out = self.p_mul(out, self.p_pow(self.p_sqrt(self.nf(f[0][0].args[1])), int(2 * c)))
            else:
                rest[m] = c
        if rest:
            out = self.p_mul(out, self.atom(tm.mk("fn", ("exp", self.to_term(rest)), "R")))
        return out

    def p_log(self, p):
        if not p:
            raise NFError("log of zero")
        if len(p) == 1:
            (m, c), = p.items()
            b, f = m
            if not b and c > 0:
                out = self.p_logconst(c)
                rest = []
                for a, e in f:
                    if a.op == "fn" and a.args[0] == "exp":
                        out = p_add(out, self.nf(a.args[1]), e)
                    elif a.op == "fn" and a.args[0] == "sqrt" and self._pos(a):
                        out = p_add(out, self.p_log(self.nf(a.args[1])), Fraction(e, 2))
                    elif a.op == "inv" and self._pos(a.args[0]):
                        out = p_add(out, self.p_log(self.nf(a.args[0])), -e)
                    elif self._pos(a):
                        out = p_add(out, self.atom(tm.mk("fn", ("log", a), "R")), e)
                    else:
                        rest.append((a, e))
                if rest:
                    t = self.to_term({((), tuple(rest)): F1})
                    out = p_add(out, self.atom(tm.mk("fn", ("log", t), "R")))
                return out
        return self.atom(tm.mk("fn", ("log", self.to_term(p)), "R"))

    def p_logconst(self, c):
        out = {}
        for v, s in ((c.numerator, 1), (c.denominator, -1)):
            d = 2
            while v > 1:
                while v % d == 0:
                    out = p_add(out, self.atom(tm.mk("fn", ("log", num(d)), "R")), s)
                    v //= d
                d += 1
                if d > 1000 and v > 1:
                    out = p_add(out, self.atom(tm.mk("fn", ("log", num(v)), "R")), s)
                    break
        return out

    def _pos(self, a):
        from .smt import positive_syntactic

        if a.op == "app" and a.args[0] == "pi":
            return True
        if positive_syntactic(a):
            return True
        if a.op == "fn" and a.args[0] == "sqrt" and self.positive(self.nf(a.args[1])):
            return True
        if a.op == "inv":
            return self.positive(self.nf(a.args[0]))
        if a.op == "add" and self.positive(self.nf(a)):
            return True
        return self.ctx.decide(tm.lt(0, a)) is True

    # ------------------------------------------------------------------ signs
    def positive(self, p, strict=True):
        """the polynomial is a sum of non-negative monomials, one of them positive"""
        ok = not strict
        for (b, f), c in p.items():
            if c <= 0:
                return False
            if not b and all(self._posfac(x, e) for x, e in f):
                ok = True
            elif not self._mono_nonneg(b, f):
                return False
        return ok

    def _posfac(self, x, e):
        if x.op == "ind":
            return False
        if self._pos(x):
            return True
        if e % 2 == 0:
            if x.op == "app" and x.args[0] in self.theory.qr:
                q = self.theory.qr[x.args[0]]
                if self.ctx.decide(tm.eq(x.args[-2], 0)) is True and self.ctx.decide(tm.eq(x.args[-1], 0)) is True:
                    return self.positive(self.nf(q.gram(x.args[1:-2], num(0), num(0))))
            return self.ctx.decide(tm.not_(tm.eq(x, 0))) is True
        return False

    def _mono_nonneg(self, binders, fac):
        vs = [bvar(i) for i in range(len(binders))]
        ctx = self.ctx.extend(*[f for v, n in zip(vs, binders) for f in (tm.le(0, v), tm.lt(v, n))])
        inner = NF(ctx)
        rest = {}
        for x, e in fac:
            if e % 2 == 0 or inner._pos_or_zero(x):
                continue
            rest[x] = e
        if not rest:
            return True
        if any(e != 1 for e in rest.values()) or len(vs) > 6:
            return False
        xs = set(rest)

        def matchings(free):
            if not free:
                yield []
                return
            v = free[0]
            for m in matchings(free[1:]):
                yield m
            for w in free[1:]:
                for m in matchings([z for z in free[1:] if z is not w]):
                    yield [(v, w)] + m

        for m in matchings(vs):
            if not m:
                continue
            swap = {}
            for a, b in m:
                swap[a], swap[b] = b, a
            left = set(a for a, _ in m)
            right = set(b for _, b in m)
            if any(binders[vs.index(a)] is not tm.subst(binders[vs.index(b)], swap) for a, b in m):
                continue
            good = True
            for x in xs:
                if not (x.fv & (left | right)) or ((x.fv & left) and (x.fv & right)):
                    good = False
                    break
                if tm.subst(x, swap) not in xs:
                    good = False
                    break
            if good:
                # every pair may be oriented independently; one consistent orientation is enough
                A = set()
                comp_ok = True
                for x in xs:
                    if x.fv & left:
                        A.add(x)
                if set(tm.subst(x, swap) for x in A) != xs - A:
                    comp_ok = False
                if comp_ok:
                    return True
        return False

    def _pos_or_zero(self, x):
        if x.op == "ind":
            return True
        if self._pos(x):
            return True
        from .smt import nonneg_syntactic

        return nonneg_syntactic(x) or self.ctx.decide(tm.le(0, x)) is True

    def p_sqrt(self, p):
        if not p:
            return {}
        # numeric square factors
        c = None
        if len(p) == 1:
            (m, c), = p.items()
            b, f = m
            if not b and c > 0 and all(e % 2 == 0 for _, e in f):
                s = tm.fn("sqrt", num(c))
                base = self.to_term({((), tuple((a, e // 2) for a, e in f)): F1})
                d = self.ctx.decide(tm.le(0, base))
                if d is True:
                    return self.p_mul(self.nf(base), p_const(s.args[0]) if s.op == "num" else self.atom(s))
            if not b and c > 0 and len(f) >= 1 and all(self._pos(a) for a, e in f):
                r = p_const(1)
                s = tm.fn("sqrt", num(c))
                r = p_const(s.args[0]) if s.op == "num" else self.atom(s)
                for a, e in f:
                    if a.op == "fn" and a.args[0] == "exp":
                        r = self.p_mul(r, self.p_exp(p_scale(self.nf(a.args[1]), Fraction(e, 2))))
                    elif a.op == "inv":
                        r = self.p_mul(r, self.atom(tm.mk("fn", ("sqrt", a.args[0]), "R"), -e))
                    else:
                        r = self.p_mul(r, self.atom(tm.mk("fn", ("sqrt", a), "R"), e))
                return r
        return self.atom(tm.mk("fn", ("sqrt", self.to_term(p)), "R"))

    # ------------------------------------------------------------------ products
    def p_mul(self, a, b):
        if not a or not b:
            return {}
        if len(a) == 1 and ONE in a:
            return p_scale(b, a[ONE])
        if len(b) == 1 and ONE in b:
            return p_scale(a, b[ONE])
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                r = p_add(r, self.m_mul(m1, m2), c1 * c2)
        return r

    def p_pow(self, p, e):
        if e == 0:
            return p_const(1)
        if e < 0:
            return self.p_pow(self.p_inv(p), -e)
        if len(p) == 1:
            (m, c), = p.items()
            if not m[0]:
                return p_scale(self.mono([], [(x, k * e) for x, k in m[1]]), c**e)
        r = p
        for _ in range(e - 1):
            r = self.p_mul(r, p)
        return r

    def p_inv(self, p):
        if not p:
            raise NFError("division by zero")
        if len(p) == 1:
            (m, c), = p.items()
            if not m[0] and not any(x.op == "ind" for x, _ in m[1]):
                return p_scale(self.mono([], [(x, -e) for x, e in m[1]]), 1 / c)
        # content: make the leading coefficient one
        lead = sorted(p.items(), key=lambda mc: mono_key(mc[0]))[0][1]
        t = self.to_term(p_scale(p, 1 / lead))
        return p_scale(self.atom(tm.mk("inv", (t,), "R")), 1 / lead)

    def m_mul(self, m1, m2):
        b1, f1 = m1
        b2, f2 = m2
        if not b1 and not b2:
            return self.mono([], list(f1) + list(f2))
        # rename apart with fresh variables
        bs, fs = [], []
        for b, f in ((b1, f1), (b2, f2)):
            ren = {bvar(i): tm.fresh("m") for i in range(len(b))}
            for i, n in enumerate(b):
                bs.append((ren[bvar(i)], tm.subst(n, ren)))
            for x, e in f:
                fs.append((tm.subst(x, ren), e))
        return self.mono(bs, fs)

    # ------------------------------------------------------------------ monomials
    def mono(self, binders, factors):
        """canonical polynomial of  SUM binders prod factors  (coefficient 1)"""
        ctx = self.ctx
        if binders:
            ctx = ctx.extend(*[f for v, n in binders for f in (tm.le(0, v), tm.lt(v, n))])
        sub = NF(ctx) if ctx is not self.ctx else self
        fac = {}
        exps = None
        for x, e in factors:
            if x.op == "fn" and x.args[0] == "exp":
                exps = (exps or []) + [(x, e)]
                continue
            fac[x] = fac.get(x, 0) + e
        if exps:
            if len(exps) == 1 and exps[0][1] == 1:
                fac[exps[0][0]] = 1
            else:
                tot = {}
                for x, e in exps:
                    tot = p_add(tot, sub.nf(x.args[1]), e)
                if tot:
                    pe = sub.p_exp(tot)
                    # p_exp may produce several factors; multiply in
                    if len(pe) == 1:
                        (m, c), = pe.items()
                        if not m[0]:
                            for x, e in m[1]:
                                fac[x] = fac.get(x, 0) + e
                            return p_scale(self._mono2(binders, fac, ctx, sub), c)
                    raise NFError("exponential product")
        return self._mono2(binders, fac, ctx, sub)

    def _mono2(self, binders, fac, ctx, sub):
        fac = {x: e for x, e in fac.items() if e != 0}
        # indicators are idempotent
        for x in list(fac):
            if x.op == "ind":
                fac[x] = 1
                d = ctx.decide(x.args[0])
                if d is True:
                    del fac[x]
                elif d is False:
                    return {}
        # rewriting of special atoms -> polynomial factors
        for x, e in list(fac.items()):
            rep = None
            if x.op == "fn" and x.args[0] == "sqrt" and abs(e) >= 2:
                k = e // 2 if e > 0 else -((-e) // 2)
                fac2 = dict(fac)
                fac2[x] = e - 2 * k
                rep = sub.p_pow(sub.nf(x.args[1]), k)
            elif x.op == "fn" and x.args[0] == "abs" and abs(e) >= 2:
                k = e // 2 if e > 0 else -((-e) // 2)
                fac2 = dict(fac)
                fac2[x] = e - 2 * k
                rep = sub.p_pow(sub.nf(x.args[1]), 2 * k)
            elif x.op == "inv" and e < 0:
                fac2 = dict(fac)
                del fac2[x]
                rep = sub.p_pow(sub.nf(x.args[0]), -e)
            elif x.op == "app" and x.args[0] in self.theory.qr and abs(e) >= 2:
                q = self.theory.qr[x.args[0]]
                i, j = x.args[-2], x.args[-1]
                if tm.is_num(i) and tm.is_num(j) and i.args[0] == 0 and j.args[0] == 0:
                    k = e // 2 if e > 0 else -((-e) // 2)
                    fac2 = dict(fac)
                    fac2[x] = e - 2 * k
                    rep = sub.p_pow(sub.nf(q.gram(x.args[1:-2], num(0), num(0))), k)
            if rep is not None:
                return self._combine(binders, fac2, rep)
        if not binders:
            return {((), tuple(sorted(fac.items(), key=lambda xe: (tm.key(xe[0]), xe[1])))): F1}
        # Kronecker deltas
        for x in list(fac):
            if x.op == "ind" and x.args[0].op == "eq0":
                p = tm._ipoly(x.args[0].args[0])
                for bi, (v, n) in enumerate(binders):
                    c = p.get((v,))
                    if c in (1, -1) and not any(v in a.fv for m, _ in p.items() for a in m if m != (v,)):
                        e = tm._from_ipoly({m: -k / c for m, k in p.items() if m != (v,)})
                        if any(v in nn.fv for w, nn in binders if w is not v):
                            continue
                        rest = binders[:bi] + binders[bi + 1 :]
                        f2 = [(tm.subst(y, {v: e}), k) for y, k in fac.items() if y is not x]
                        f2.append((tm.mk("ind", (tm.le(0, e),), "R"), 1))
                        f2.append((tm.mk("ind", (tm.lt(e, n),), "R"), 1))
                        return self._renorm(rest, f2)
        # QR columns:  SUM_k R[k+c,i] R[k+c,j]
        r = self._qr_pattern(binders, fac)
        if r is not None:
            return r
        # unused binders
        for bi, (v, n) in enumerate(binders):
            if not any(v in x.fv for x in fac) and not any(v in nn.fv for w, nn in binders if w is not v):
                rest = binders[:bi] + binders[bi + 1 :]
                return self._combine(rest, fac, sub.nf(n), check_nonneg=n)
        return {self._canon(binders, fac): F1}

    def _renorm(self, binders, factors):
        """atoms may have become reducible after a substitution"""
        ctx = self.ctx.extend(*[f for v, n in binders for f in (tm.le(0, v), tm.lt(v, n))])
        sub = NF(ctx)
        poly = p_const(1)
        for x, e in factors:
            poly = sub.p_mul(poly, sub.p_pow(sub.nf(x), e))
        return self._sum_poly(binders, poly)

    def _sum_poly(self, binders, poly):
        r = {}
        for (b, f), c in poly.items():
            ren = {bvar(i): tm.fresh("m") for i in range(len(b))}
            bs = list(binders) + [(ren[bvar(i)], tm.subst(n, ren)) for i, n in enumerate(b)]
            fs = [(tm.subst(x, ren), e) for x, e in f]
            r = p_add(r, self.mono(bs, fs), c)
        return r

    def _combine(self, binders, fac, poly, check_nonneg=None):
        if check_nonneg is not None and self.ctx.decide(tm.le(0, check_nonneg)) is not True:
            pass  # lengths are non-negative by construction of arrays
        r = {}
        for (b, f), c in poly.items():
            ren = {bvar(i): tm.fresh("m") for i in range(len(b))}
            bs = list(binders) + [(ren[bvar(i)], tm.subst(n, ren)) for i, n in enumerate(b)]
            fs = list(fac.items()) + [(tm.subst(x, ren), e) for x, e in f]
            r = p_add(r, self.mono(bs, fs), c)
        return r

    def _qr_pattern(self, binders, fac):
        for bi, (v, n) in enumerate(binders):
            uses = [(x, e) for x, e in fac.items() if v in x.fv]
            if any(v in nn.fv for w, nn in binders if w is not v):
                continue
            if not uses or any(x.op != "app" or x.args[0] not in self.theory.qr for x, _ in uses):
                continue
            if sum(e for _, e in uses) != 2 or any(e < 1 for _, e in uses):
                continue
            xs = [x for x, e in uses for _ in range(e)]
            x, y = xs
            if x.args[0] != y.args[0] or x.args[1:-2] != y.args[1:-2] or x.args[-2] is not y.args[-2]:
                continue
            q = self.theory.qr[x.args[0]]
            off = tm.sub(x.args[-2], v)
            if not tm.is_num(off) or any(v in z.fv for z in (x.args[-1], y.args[-1])):
                continue
            c = int(off.args[0])
            if c < 0 or self.ctx.decide(tm.eq(tm.add(n, c), q.nrows)) is not True:
                continue
            batch = x.args[1:-2]
            t = q.gram(batch, x.args[-1], y.args[-1])
            for k in range(c):
                t = tm.sub(t, tm.mul(tm.app(x.args[0], *batch, k, x.args[-1]), tm.app(x.args[0], *batch, k, y.args[-1])))
            rest = binders[:bi] + binders[bi + 1 :]
            ctx = self.ctx.extend(*[f for w, m in rest for f in (tm.le(0, w), tm.lt(w, m))])
            f2 = {z: e for z, e in fac.items() if v not in z.fv}
            return self._combine(rest, f2, NF(ctx).nf(t))
        return None

    def _canon(self, binders, fac):
        items = list(fac.items())
        vs = [v for v, _ in binders]
        hole = tm.var("@")
        other = tm.var("?")

        def sig(v):
            ren = {w: (hole if w is v else other) for w in vs}
            n = dict(binders)[v]
            return (
                tm.key(tm.subst(n, ren)),
                tuple(sorted((tm.key(tm.subst(x, ren)), e) for x, e in items if v in x.fv)),
            )

        groups = {}
        for v in vs:
            groups.setdefault(sig(v), []).append(v)
        ordered = [groups[k] for k in sorted(groups)]
        best = None
        count = 0
        for perm in itertools.product(*[itertools.permutations(g) for g in ordered]):
            order = [v for g in perm for v in g]
            ren = {v: bvar(i) for i, v in enumerate(order)}
            d = dict(binders)
            bs = tuple(tm.subst(d[v], ren) for v in order)
            fs = tuple(
                sorted(
                    ((self._recanon(tm.subst(x, ren)), e) for x, e in items),
                    key=lambda xe: (tm.key(xe[0]), xe[1]),
                )
            )
            m = (bs, fs)
            k = mono_key(m)
            if best is None or k < best[0]:
                best = (k, m)
            count += 1
            if count > 720:
                break
        return best[1]

    def _recanon(self, x):
        """re-sort composite atoms after renaming bound indices"""
        if x.op == "inv":
            return tm.mk("inv", (self.resort(x.args[0]),), "R")
        if x.op == "fn":
            return tm.mk("fn", (x.args[0], self.resort(x.args[1])) + x.args[2:], x.sort)
        return x

    def resort(self, t):
        """canonical ordering of a term produced by to_term"""
        if t.op in ("add", "mul"):
            flat = []

            def go(y):
                if y.op == t.op:
                    go(y.args[0])
                    go(y.args[1])
                else:
                    flat.append(self.resort(y))

            go(t)
            flat.sort(key=lambda y: (0 if y.op == "num" else 1, tm.key(y)))
            r = flat[0]
            for y in flat[1:]:
                r = tm.mk(t.op, (r, y), "R")
            return r
        if t.op == "pow":
            return tm.mk("pow", (self.resort(t.args[0]), t.args[1]), "R")
        if t.op in ("inv", "fn"):
            return self._recanon(t)
        return t

    # ------------------------------------------------------------------ sums
    def nf_sum(self, t):
        v, n, body = t.args
        if tm.is_num(n) and n.args[0] <= 12:
            r = {}
            for i in range(int(n.args[0])):
                r = p_add(r, self.nf(tm.subst(body, {v: num(i)})))
            return r
        k = tm.fresh("s")
        return self.sum_range(k, n, tm.subst(body, {v: k}), depth=0)

    def sum_range(self, k, n, body, depth):
        ctx = self.ctx
        if ctx.decide(tm.le(n, 0)) is True:
            return {}
        if tm.is_num(n) and n.args[0] <= 12:
            r = {}
            for i in range(int(n.args[0])):
                r = p_add(r, self.nf(tm.subst(body, {k: num(i)})))
            return r
        inner = ctx.extend(tm.le(0, k), tm.lt(k, n))
        if depth < 8:
            for th in self._thresholds(k, body, inner):
                lo, hi = ctx.decide(tm.le(0, th)), ctx.decide(tm.le(th, n))
                if lo is True and hi is True:
                    if ctx.decide(tm.eq(th, 0)) is True or ctx.decide(tm.eq(th, n)) is True:
                        continue
                    k2 = tm.fresh("s")
                    left = self.sum_range(k, th, body, depth + 1)
                    right = self.sum_range(k2, tm.sub(n, th), tm.subst(body, {k: tm.add(k2, th)}), depth + 1)
                    return p_add(left, right)
        sub = NF(inner)
        poly = sub.nf(body)
        return self._sum_poly([(k, n)], poly)

    def _thresholds(self, k, body, inner):
        out = []
        seen = set()

        def cond(c):
            if c.op == "le0":
                self._lin(k, c.args[0], 1, out)
            elif c.op == "eq0":
                self._lin(k, c.args[0], 2, out)

        def visit(x):
            if x.op in ("le0", "eq0") and k in x.fv:
                if not any(w.args[0].startswith("#") or (w is not k and w.args[0].startswith(("s!", "m!"))) for w in x.fv):
                    if inner.decide(x) is None:
                        cond(x)

        tm.walk(body, visit, seen)
        return out

    def _lin(self, k, p, kind, out):
        d = tm._ipoly(p)
        c = d.get((k,))
        if c not in (1, -1) or any(k in a.fv for m in d if m != (k,) for a in m):
            return
        e = tm._from_ipoly({m: -x / c for m, x in d.items() if m != (k,)})
        if kind == 2:
            out.append(e)
            out.append(tm.add(e, 1))
        elif c == 1:  # k <= e
            out.append(tm.add(e, 1))
        else:  # k >= e
            out.append(e)

    # ------------------------------------------------------------------ back to terms
    def to_term(self, p):
        items = sorted(p.items(), key=lambda mc: mono_key(mc[0]))
        parts = []
        for (b, f), c in items:
            x = None
            for a, e in f:
                y = a if e == 1 else tm.mk("pow", (a, e), "R")
                x = y if x is None else tm.mk("mul", (x, y), "R")
            if x is None:
                x = num(c)
            elif c != 1:
                x = tm.mk("mul", (num(c), x), "R")
            for i in reversed(range(len(b))):
                w = tm.fresh("b")
                ren = {bvar(j): None for j in ()}
                x = tm.sum_(w, b[i], tm.subst(x, {bvar(i): w}))
            parts.append(x)
        if not parts:
            return num(0)
        r = parts[0]
        for y in parts[1:]:
            r = tm.mk("add", (r, y), "R")
        return self.resort(r)


def _has_bound(c):
    return any(v.args[0].startswith(("s!", "m!")) for v in c.fv)


def mono_key(m):
    return (len(m[0]), tuple(tm.key(n) for n in m[0]), tuple((tm.key(x), e) for x, e in m[1]))


def assume(t, c, val):
    """simplify t by replacing condition c with a constant"""
    memo = {}

    def go(x):
        if not isinstance(x, T):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        if x is c:
            r = tm.TRUE if val else tm.FALSE
        elif x.op == "ite":
            cc = go(x.args[0])
            if cc is tm.TRUE:
                r = go(x.args[1])
            elif cc is tm.FALSE:
                r = go(x.args[2])
            else:
                r = tm.ite(cc, go(x.args[1]), go(x.args[2]))
        elif x.op in ("num", "str", "var", "true", "false"):
            r = x
        elif x.op == "ipoly":
            r = num(0)
            for m, k in x.args[0]:
                y = num(k)
                for z in m:
                    y = tm.mul(y, go(z))
                r = tm.add(r, y)
        elif x.op in ("sum", "exists", "count"):
            v, n, body = x.args
            b2 = go(body)
            n2 = go(n)
            if b2 is body and n2 is n:
                r = x
            else:
                k = tm.fresh("s")
                b2 = tm.subst(b2, {v: k})
                r = {"sum": tm.sum_, "exists": tm.exists_, "count": tm.count_}[x.op](k, n2, b2)
        else:
            r = tm.rebuild(x.op, [go(y) for y in x.args], x.sort)
        memo[x.id] = r
        return r

    return go(t)
