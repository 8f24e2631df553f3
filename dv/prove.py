"""Proof obligations: discharge by normal form / z3 / cvc5, refute by evaluation."""
import hashlib
import math
import random
import time
from fractions import Fraction

from . import terms as tm
from .nf import NF, NFError
from .smt import STATS, Ctx, cvc5_check, to_z3
from .terms import T, num


class Outcome:
    def __init__(self, status, backend="", detail="", replay=None):
        self.status, self.backend, self.detail, self.replay = status, backend, detail, replay


# ------------------------------------------------------------------ case splits
def find_split(ctx, t, seen=None):
    """an undecided condition without bound variables inside t"""
    out = []
    seen = set()

    def visit(x):
        if out:
            return
        if x.op == "ite":
            c = x.args[0]
            if any(v.args[0][0] in "#%" for v in c.fv):
                return
            if ctx.decide(c) is None:
                out.append(_atom_of(ctx, c))

    tm.walk(t, visit, seen)
    return out[0] if out else None


def _atom_of(ctx, c):
    if c.op in ("and", "or"):
        for x in c.args:
            if ctx.decide(x) is None:
                return _atom_of(ctx, x)
    if c.op == "not":
        return _atom_of(ctx, c.args[0])
    return c


def resolve(ctx, t, memo=None):
    """drop ite branches that the context decides"""
    if memo is None:
        memo = {}

    def go(x):
        if not isinstance(x, T) or x.op in ("num", "str", "var", "true", "false"):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == "ite" and not any(v.args[0][0] in "#%" for v in x.args[0].fv):
            d = ctx.decide(x.args[0])
            if d is True:
                r = go(x.args[1])
            elif d is False:
                r = go(x.args[2])
            else:
                r = tm.ite(go(x.args[0]), go(x.args[1]), go(x.args[2]))
        elif x.op == "ipoly":
            r = num(0)
            for m, k in x.args[0]:
                y = num(k)
                for z in m:
                    y = tm.mul(y, go(z))
                r = tm.add(r, y)
        elif x.op in ("sum", "exists", "count"):
            v, n, body = x.args
            k = tm.fresh("s")
            r = {"sum": tm.sum_, "exists": tm.exists_, "count": tm.count_}[x.op](
                k, go(n), go(tm.subst(body, {v: k}))
            )
        else:
            r = tm.rebuild(x.op, [go(y) for y in x.args], x.sort)
        memo[x.id] = r
        return r

    return go(t)


def prove_eq_R(ctx, a, b, depth=0, budget=None):
    """equality of real terms; returns (True/False/None, backend, detail)"""
    budget = budget if budget is not None else [60]
    a, b = resolve(ctx, a), resolve(ctx, b)
    if a is b:
        return True, "syntactic", ""
    c = None
    if depth < 8:
        c = find_split(ctx, a)
        if c is None:
            c = find_split(ctx, b)
    if c is not None and budget[0] > 0:
        budget[0] -= 1
        backs = []
        for cc in (c, tm.not_(c)):
            cx = ctx.extend(cc)
            if not cx.consistent():
                continue
            r, be, d = prove_eq_R(cx, a, b, depth + 1, budget)
            backs.append(be)
            if r is not True:
                return r, be, d
        return True, "+".join(sorted(set("+".join(backs).split("+")) - {""})) or "vacuous", ""
    try:
        nf = NF(ctx)
        d = nf.nf(tm.sub(a, b))
    except NFError as e:
        return _z3_eq(ctx, a, b, str(e))
    if not d:
        return True, "nf", ""
    # clear denominators given by inv atoms
    try:
        d2 = clear(nf, d)
        if not d2:
            return True, "nf", ""
        t = nf.to_term(d2)
        return _z3_eq(ctx, t, num(0), "difference: " + tm.show(t)[:1500])
    except NFError as e:
        return None, "nf", str(e)


def clear(nf, p):
    from .nf import p_add

    def free(x):
        return not any(v.args[0].startswith("#") for v in x.fv)

    for _ in range(12):
        invs = set()
        negs = set()
        for (b, f), c in p.items():
            for x, e in f:
                if not free(x):
                    continue
                if x.op == "inv" and e > 0:
                    invs.add(x)
                if e < 0 and x.op != "inv":
                    negs.add(x)
        if not invs and not negs:
            return p
        if invs:
            x = sorted(invs, key=tm.key)[0]
            q = nf.nf(x.args[0])
            sign = 1
        else:
            x = sorted(negs, key=tm.key)[0]
            q = nf.nf(x)
            sign = -1
        mx = max(sign * dict(f).get(x, 0) for (b, f), c in p.items())
        new = {}
        for (b, f), c in p.items():
            e = sign * dict(f).get(x, 0)
            g = tuple((y, k) for y, k in f if y is not x)
            new = p_add(new, nf.p_mul({(b, g): c}, nf.p_pow(q, mx - e)))
        if new == p:
            return p
        p = new
        if not p:
            return p
    return p


def _z3_eq(ctx, a, b, detail):
    if ctx.prove_logged(tm.eq(a, b)):
        return True, "z3", ""
    return None, "nf+z3", detail


def has_exists(t):
    found = []

    def visit(x):
        if x.op == "exists":
            found.append(1)

    tm.walk(t, visit, set())
    return bool(found)


def assume(ctx, fs):
    """add facts; existential facts get a witness"""
    out = []
    for f in fs:
        if f.op == "exists":
            k, n, body = tm.open_binder(f, "w")
            out += [tm.le(0, k), tm.lt(k, n)]
            f = body
        if f.op == "and":
            out += list(f.args)
        else:
            out.append(f)
    return ctx.extend(*out)


def sign_goal(ctx, goal):
    """sign conditions by normal form"""
    try:
        nf = NF(ctx)
        if goal.op == "rle":
            return nf.positive(nf.nf(tm.sub(goal.args[1], goal.args[0])), strict=False)
        if goal.op == "not" and goal.args[0].op == "rle":
            a, b = goal.args[0].args
            return nf.positive(nf.nf(tm.sub(a, b)))
        if goal.op == "not" and goal.args[0].op == "req":
            a, b = goal.args[0].args
            d = nf.nf(tm.sub(a, b))
            return nf.positive(d) or nf.positive(nf.p_mul(d, d))
    except NFError:
        return False
    return False


def prove(ctx, goal, depth=0):
    """goal: boolean term.  Returns (True/None, backend, detail)"""
    goal = tm.lift(goal)
    if goal is tm.TRUE:
        return True, "syntactic", ""
    if goal.op == "and":
        backs = set()
        for g in goal.args:
            r, be, d = prove(ctx, g, depth)
            if r is not True:
                return r, be, d
            backs.add(be)
        return True, "+".join(sorted(backs)), ""
    if goal.op == "req":
        return prove_eq_R(ctx, *goal.args)
    if goal.op == "not" and goal.args[0].op == "exists":
        k, n, body = tm.open_binder(goal.args[0], "u")
        cx = ctx.extend(tm.le(0, k), tm.lt(k, n))
        return prove(cx, tm.not_(body), depth + 1)
    if goal.op == "not" and goal.args[0].op in ("and", "or") and has_exists(goal):
        g = goal.args[0]
        neg = [tm.not_(x) for x in g.args]
        return prove(ctx, tm.mk("or" if g.op == "and" else "and", tuple(neg), "B"), depth + 1)
    if goal.op == "or":
        # assume the negation of all but one disjunct
        real = [g for g in goal.args if g.op in ("req", "and") or (g.op == "not" and g.args[0].op in ("exists", "and", "or"))]
        if len(real) != 1 and ctx.prove(goal):
            return True, "z3", ""
        last = None
        for x in real if depth < 12 else []:
            rest = [tm.not_(g) for g in goal.args if g is not x]
            cx = assume(ctx, rest)
            if not cx.consistent():
                return True, "z3", ""
            last = prove(cx, x, depth + 1)
            if last[0] is True:
                return last
        if last is not None and len(real) == 1:
            return last
    if ctx.prove_logged(goal):
        return True, "z3", ""
    if sign_goal(ctx, goal):
        return True, "nf", ""
    return None, "z3", "not proved: " + tm.show(goal)[:1500]


# ------------------------------------------------------------------ evaluation
def _h(*x):
    return int(hashlib.md5(repr(x).encode()).hexdigest()[:12], 16)


class Model:
    """random interpretation of variables and uninterpreted functions"""

    def __init__(self, theory, seed):
        self.theory, self.seed = theory, seed
        self.token = object()
        self.env = {}
        self.memo = {}
        self.visited = {}

    def respects_schemas(self):
        """the instances of the axioms that were used hold in this interpretation"""
        for _ in range(4):
            todo = [k for k, done in self.visited.items() if not done]
            if not todo:
                return True
            for name, args in todo:
                self.visited[(name, args)] = True
                for f in self.theory.schemas[name](*[tm.lift(a) for a in args]):
                    if not _holds(self, f):
                        return False
        return False

    def ev(self, t):
        return tm.evaluate(t, self.env, self.value, self.memo)

    __call__ = ev

    def value(self, name, args, sort):
        if name.startswith(("acc!", "var:acc!", "accnan!", "var:accnan!")):
            raise tm.EvalError("loop-carried value")
        if name in self.theory.schemas and (name, args) not in self.visited:
            self.visited[(name, args)] = False
        f = self.theory.interp.get(name)
        if f is not None:
            return f(self, args)
        if name == "pi":
            return math.pi
        if name == "nan":
            return 0.0
        if name.startswith("ncount:"):
            from .arrays import DOMS
            from .interp import subst_axis
            from .unit import concrete_axis

            ax, fv = DOMS[name]
            return len(concrete_axis(self, subst_axis(ax, {v: tm.lift(a) for v, a in zip(fv, args)})))
        if name.startswith("npos:"):
            from .arrays import flat, pos_parts
            from .unit import concrete_axis

            ax, i = pos_parts(tm.app(name, *[tm.lift(a) for a in args], sort="I"))
            want = tuple(self.ev(tm.lift(x)) for x in flat(i))
            for k, j in enumerate(concrete_axis(self, ax)):
                if _path(i) == _path(j) and tuple(self.ev(tm.lift(x)) for x in flat(j)) == want:
                    return k
            return 0
        d = self.theory.defs.get(name)
        if d is not None:
            r = d(*[tm.lift(_py(a)) for a in args])
            if r is not None:
                return self.ev(r)
        args = tuple(round(a, 9) if isinstance(a, float) else a for a in args)
        h = _h(self.seed, name, args)
        if sort == "I":
            return 1 + h % 3 if name.startswith("var:") or not args else h % 4
        if sort == "B":
            # some interpretations make a predicate nearly always (never) true
            bias = (4, 4, 7, 7, 1)[_h(self.seed, "bias", name) % 5]
            return h % 8 < bias
        if sort == "S" and name in self.theory.literals:
            c = self.theory.literals[name]
            return c[h % len(c)]
        if sort == "S":
            if args and name not in tm.INJECTIVE and _h(self.seed, "pool") % 3 == 0:
                return f"L{args[-1] if name in tm.INJECTIVE_LAST else h % 3}"
            return f"L{name}{args}" if args else f"L{name}"
        lo, hi = self.theory.ranges.get(name, (-1.7, 1.9))
        return lo + (hi - lo) * ((h % 99991) / 99991.0)


def _path(i):
    if isinstance(i, tuple):
        return (i[1], _path(i[2])) if i and i[0] == "cat" else tuple(_path(x) for x in i)
    return 0


def _py(a):
    return a


def refute(ctx, goal, tries=30, extra=()):
    """search for an interpretation in which the facts hold and the goal does not"""
    t_end = time.time() + 20
    goal = tm.lift(goal)
    eqs = goal.op == "req"
    hits = 0
    for s in range(tries * 20):
        if time.time() > t_end or hits >= tries:
            break
        m = Model(ctx.theory, s)
        try:
            if not assign(ctx, m, goal):
                continue
            if not all(_holds(m, f) for f in ctx.facts):
                continue
            hits += 1
            if eqs:
                a, b = m.ev(goal.args[0]), m.ev(goal.args[1])
                if a != a or b != b:
                    if (a != a) != (b != b):
                        return f"left side {a!r}, right side {b!r}", m
                    continue
                if abs(a - b) > 1e-6 * max(1, abs(a), abs(b)) and m.respects_schemas():
                    return f"left side {a!r}, right side {b!r}", m
            elif not _holds(m, goal, strict=True) and m.respects_schemas():
                return "condition is false", m
        except (tm.EvalError, OverflowError, ZeroDivisionError, ValueError, RecursionError):
            continue
        except tm_CodeErrors:
            continue
    return None


tm_CodeErrors = (TypeError, KeyError, IndexError)


def _holds(m, f, strict=False):
    if f.op in ("req", "rle") or (f.op == "not" and f.args[0].op in ("req", "rle")):
        g = f.args[0] if f.op == "not" else f
        a, b = m.ev(g.args[0]), m.ev(g.args[1])
        if a != a or b != b:
            return False if not strict else False
        tol = 1e-7 * max(1, abs(a), abs(b))
        r = abs(a - b) <= tol if g.op == "req" else a <= b + (tol if f.op != "not" else -tol)
        return r if f.op != "not" else not r
    return bool(m.ev(f))


def assign(ctx, m, goal):
    """choose values of the integer variables that satisfy the simple integer facts (via z3)"""
    import z3

    ints = {}
    seen = set()

    def visit(x):
        if x.op == "var" and x.sort == "I" and not x.args[0][0] in "#%":
            ints[x] = 1

    for f in list(ctx.facts) + [goal]:
        tm.walk(f, visit, seen)
    consts = {}

    def visit2(x):
        if x.op == "app" and len(x.args) == 1 and x.sort == "I":
            consts[x] = 1

    seen = set()
    for f in list(ctx.facts) + [goal]:
        tm.walk(f, visit2, seen)
    rnd = random.Random(m.seed)
    s = z3.Solver()
    s.set("timeout", 400)
    s.set("random_seed", m.seed)
    from .smt import _int_only

    zs = []
    for f in ctx.facts:
        if _int_only(f):
            s.add(to_z3(f))
    for v in list(ints) + list(consts):
        z = to_z3(v)
        zs.append((v, z))
        s.add(z <= 6, z >= -3)
    if s.check() != z3.sat:
        return False
    rnd.shuffle(zs)
    vals = {}
    for v, z in zs:
        # prefer a random value
        for cand in rnd.sample([0, 1, 2, 3], 4):
            s.push()
            s.add(z == cand)
            if s.check() == z3.sat:
                vals[v] = cand
                break
            s.pop()
        else:
            if s.check() != z3.sat:
                return False
            vals[v] = s.model().eval(z, model_completion=True).as_long()
            s.add(z == vals[v])
    m.env = {v: x for v, x in vals.items() if v.op == "var"}
    base = m.value
    cm = {v.args[0]: x for v, x in vals.items() if v.op == "app"}
    if cm:

        def value(name, args, sort, base=base, cm=cm):
            if not args and name in cm:
                return cm[name]
            return base(name, args, sort)

        m.value = value
    return True
