"""Translation of terms to z3 (and SMT-LIB for cvc5) and the logical context."""
import collections
import sys
import time

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3

from . import terms as tm
from .terms import T

STATS = {"z3_queries": 0, "z3_time": 0.0, "decide": 0, "cvc5_queries": 0, "cvc5_time": 0.0}

PROVED_QUERIES = []
_Z = {}
_FUN = {}
_LABEL = z3.DeclareSort("Label")
_STR = {}


def zsort(s):
    return {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort(), "S": _LABEL}[s]


def _real(z):
    return z3.ToReal(z) if z.sort() == z3.IntSort() else z


def to_z3(t):
    r = _Z.get(t.id)
    if r is None:
        r = _conv(t)
        _Z[t.id] = r
    return r


def _num(v, real=False):
    if v.denominator == 1 and not real:
        return z3.IntVal(v.numerator)
    return z3.RealVal(f"{v.numerator}/{v.denominator}")


def _fun(name, argsorts, sort):
    k = (name, tuple(argsorts), sort)
    f = _FUN.get(k)
    if f is None:
        f = z3.Function(f"{name}/{''.join(argsorts)}{sort}", *[zsort(s) for s in argsorts], zsort(sort))
        _FUN[k] = f
    return f


def _conv(t):
    op, a = t.op, t.args
    if op == "num":
        return _num(a[0], t.sort == "R")
    if op == "str":
        c = _STR.get(a[0])
        if c is None:
            c = z3.Const(f"str:{a[0]}", _LABEL)
            _STR[a[0]] = c
        return c
    if op == "true":
        return z3.BoolVal(True)
    if op == "false":
        return z3.BoolVal(False)
    if op == "var":
        return z3.Const(a[0], zsort(t.sort))
    if op == "ipoly":
        parts = []
        for m, c in a[0]:
            x = None
            for y in m:
                zy = to_z3(y)
                x = zy if x is None else x * zy
            if x is None:
                x = _num(c)
            elif c != 1:
                if c.denominator != 1:
                    x = z3.ToInt(_num(c) * _real(x))
                else:
                    x = _num(c) * x
            parts.append(x)
        r = parts[0]
        for p in parts[1:]:
            r = r + p
        return r
    if op == "app":
        if len(a) == 1:
            return z3.Const(a[0], zsort(t.sort))
        f = _fun(a[0], [x.sort for x in a[1:]], t.sort)
        return f(*[to_z3(x) for x in a[1:]])
    if op == "add":
        return _real(to_z3(a[0])) + _real(to_z3(a[1]))
    if op == "mul":
        return _real(to_z3(a[0])) * _real(to_z3(a[1]))
    if op == "div":
        return _real(to_z3(a[0])) / _real(to_z3(a[1]))
    if op == "pow":
        x = _real(to_z3(a[0]))
        r = x
        for _ in range(abs(a[1]) - 1):
            r = r * x
        return r if a[1] > 0 else 1 / r
    if op == "fn":
        if a[0] == "abs":
            x = to_z3(a[1])
            return z3.If(x >= 0, x, -x)
        f = _fun("fn:" + a[0], ["R"] * (len(a) - 1), "R")
        return f(*[_real(to_z3(x)) for x in a[1:]])
    if op == "ite":
        x, y = to_z3(a[1]), to_z3(a[2])
        if t.sort == "R":
            x, y = _real(x), _real(y)
        return z3.If(to_z3(a[0]), x, y)
    if op == "not":
        return z3.Not(to_z3(a[0]))
    if op == "and":
        return z3.And(*[to_z3(x) for x in a])
    if op == "or":
        return z3.Or(*[to_z3(x) for x in a])
    if op == "le0":
        return to_z3(a[0]) <= 0
    if op == "eq0":
        return to_z3(a[0]) == 0
    if op in ("rle", "req"):
        x, y = _real(to_z3(a[0])), _real(to_z3(a[1]))
        return x <= y if op == "rle" else x == y
    if op == "seq":
        return to_z3(a[0]) == to_z3(a[1])
    if op == "idiv":
        return to_z3(a[0]) / to_z3(a[1])
    if op == "imod":
        return to_z3(a[0]) % to_z3(a[1])
    if op in ("sum", "count", "exists", "fstr", "ind", "inv"):
        if op == "exists":
            v, n, body = a
            zv = z3.Int(v.args[0])
            return z3.Exists([zv], z3.And(zv >= 0, zv < to_z3(n), to_z3(body)))
        # opaque: a function of its free variables
        fvs = sorted(t.fv, key=tm.key)
        if fvs:
            f = _fun(f"{op}#{t.id}", [x.sort for x in fvs], t.sort)
            return f(*[to_z3(x) for x in fvs])
        return z3.Const(f"{op}#{t.id}", zsort(t.sort))
    raise NotImplementedError(op)


def _int_only(t, memo={}):
    r = memo.get(t.id)
    if r is None:
        if t.op in ("exists",):
            r = False
        elif t.sort in ("R", "S"):
            r = False
        elif t.op in ("req", "rle", "seq"):
            r = False
        elif t.op == "ipoly":
            r = all(_int_only(x) for m, _ in t.args[0] for x in m)
        elif t.op in ("app", "var", "num", "count", "sum"):
            r = t.sort in ("I", "B")
        else:
            r = all(_int_only(x) for x in t.args if isinstance(x, T))
        memo[t.id] = r
    return r


class Theory:
    """UF metadata shared by all contexts of one verification unit.

    schemas: app name -> function(args) -> list of facts, instantiated for every
    occurrence of the function symbol in a query.
    interp: app name -> numeric interpretation (used for counter-models).
    """

    def __init__(self):
        self.schemas = {}
        self.interp = {}
        self.qr = {}
        self.defs = {}
        self.rewrites = []
        self.ranges = {}
        self.schemas_prefix = {}
        self.positions = {}
        self.literals = {}  # label functions whose values are often one of these literals (counter-models)

    def instances(self, ts, depth=2):
        self.positions = {}  # the positions that occur in this query
        facts, seen, done = [], set(), set()
        queue = list(ts)
        for _ in range(depth):
            apps = []

            def visit(x):
                if x.op == "app" and (x.args[0] in self.schemas or x.args[0] in self.qr):
                    if x not in done and not any(v.args[0].startswith("#") for v in x.fv):
                        done.add(x)
                        apps.append(x)
                elif (x.op in ("fn", "sum", "count") or (x.op == "app" and x.args[0].startswith(("ncount:", "npos:")))) and x not in done and not any(
                    v.args[0].startswith("#") for v in x.fv
                ):
                    done.add(x)
                    apps.append(x)

            for t in queue:
                tm.walk(t, visit, seen)
            queue = []
            for x in apps:
                for f in self._inst(x):
                    if f is not tm.TRUE:
                        facts.append(f)
                        queue.append(f)
            if not queue:
                break
        return facts

    def _inst(self, x):
        if x.op == "app" and x.args[0] in self.qr:
            if tm.is_num(x.args[-1]) and x.args[-1].args[0] == 0 and tm.is_num(x.args[-2]) and x.args[-2].args[0] == 0:
                return [tm.eq(tm.mul(x, x), self.qr[x.args[0]].gram(x.args[1:-2], x.args[-1], x.args[-1]))]
            return []
        if x.op == "app" and x.args[0].startswith("ncount:"):
            out = [tm.le(0, x)]
            from .arrays import DOMS, Dom, Plain

            d, fv = DOMS[x.args[0]]
            if isinstance(d, Dom) and all(isinstance(a, Plain) for a in d.axes):
                m = {v: a for v, a in zip(fv, x.args[1:])}
                if d.guard(tuple(tm.num(0) for _ in d.axes)) is tm.TRUE:  # the first element is in the set
                    out.append(tm.implies(tm.and_(*[tm.lt(0, tm.subst(a.n, m)) for a in d.axes]), tm.lt(0, x)))
            return out
        if x.op == "app" and x.args[0].startswith("npos:"):
            from .arrays import DOMS, flat, member, pos_parts

            ax, i = pos_parts(x)
            mem = member(ax, i)
            out = [tm.implies(mem, tm.and_(tm.le(0, x), tm.lt(x, ax.size())))]
            base, n = DOMS[x.args[0]][4], len(DOMS[x.args[0]][1])
            for y in self.positions.setdefault(base, []):
                if y is x or y.args[1:n + 1] != x.args[1:n + 1]:
                    continue
                _, j = pos_parts(y)
                same = tm.and_(*[tm.eq(a, b) for a, b in zip(flat(i), flat(j))]) if y.args[0] == x.args[0] else tm.FALSE
                out.append(tm.implies(tm.and_(mem, member(ax, j), tm.eq(x, y)), same))
            if x not in self.positions[base]:
                self.positions[base].append(x)
            return out
        if x.op == "app":
            return self.schemas[x.args[0]](*x.args[1:])
        if x.op == "fn":
            name, arg = x.args[0], x.args[1]
            if name == "exp":
                return [tm.lt(0, x)]
            if name == "sqrt":
                return [
                    tm.le(0, x),
                    tm.implies(tm.le(0, arg), tm.eq(tm.mul(x, x), arg)),
                ]
            return []
        if x.op == "count":
            v, n, body = x.args
            return [tm.le(0, x), tm.or_(tm.le(x, n), tm.lt(n, 0)), tm.eq(tm.lt(0, x), tm.exists_(v, n, body))]
        if x.op == "sum":
            return sum_facts(x)
        return []


def nonneg_syntactic(t):
    """t >= 0 for syntactic reasons (squares, sums of squares, exp, sqrt, ...)."""
    if t.op == "num":
        return t.args[0] >= 0
    if t.op == "pow":
        return t.args[1] % 2 == 0 or nonneg_syntactic(t.args[0])
    if t.op == "mul":
        if t.args[0] is t.args[1]:
            return True
        return nonneg_syntactic(t.args[0]) and nonneg_syntactic(t.args[1])
    if t.op in ("add", "div"):
        return all(nonneg_syntactic(x) for x in t.args)
    if t.op == "fn":
        return t.args[0] in ("exp", "sqrt", "abs")
    if t.op == "sum":
        return nonneg_syntactic(t.args[2])
    if t.op == "ite":
        return nonneg_syntactic(t.args[1]) and nonneg_syntactic(t.args[2])
    if t.op == "ind":
        return True
    return False


def positive_syntactic(t):
    if t.op == "num":
        return t.args[0] > 0
    if t.op == "fn":
        return t.args[0] == "exp"
    if t.op == "mul":
        return all(positive_syntactic(x) for x in t.args)
    if t.op == "add":
        a, b = t.args
        return (positive_syntactic(a) and nonneg_syntactic(b)) or (
            positive_syntactic(b) and nonneg_syntactic(a)
        )
    return False


def sum_facts(x):
    v, n, body = x.args
    out = []
    if positive_syntactic(body):
        out.append(tm.implies(tm.lt(0, n), tm.lt(0, x)))
        out.append(tm.le(0, x))
    elif nonneg_syntactic(body):
        out.append(tm.le(0, x))
    return out


def distinct_strings_axiom(ts):
    return None


_LIVE = collections.OrderedDict()  # solvers that are kept


def nothing_counted(f):
    """f says that a count is zero (or not): the existence statement that follows"""
    if f.op not in ("le0", "eq0"):
        return []
    p, cs, stack = f.args[0], set(), [f.args[0]]
    while stack:
        x = stack.pop()
        if x.op == "count":
            cs.add(x)
        elif x.op not in ("sum", "exists", "app"):
            stack += [y for a in x.args for y in (a if isinstance(a, tuple) else (a,)) for y in (y if isinstance(y, tuple) else (y,)) if isinstance(y, tm.T)]
    out = []
    for c in cs:
        v, n, body = c.args
        if f is tm.le(c, 0) or f is tm.eq(c, 0):
            out.append(tm.not_(tm.exists_(v, n, body)))
        elif f is tm.lt(0, c):
            out.append(tm.exists_(v, n, body))
    return out


class Ctx:
    _n = 0

    def __init__(self, theory, facts=(), parent=None):
        Ctx._n += 1
        self.uid = Ctx._n
        self.theory = theory
        self.parent = parent
        self.facts = (parent.facts if parent else ()) + tuple(
            f for f in facts if f is not tm.TRUE
        )
        self.factset = set(self.facts)
        self._memo = {}
        self._solver = {}
        self._children = {}
        self.nfmemo = {}

    def extend(self, *facts):
        new = tuple(f for f in facts if f is not tm.TRUE and f not in self.factset)
        if not new:
            return self
        new += tuple(x for f in new for x in nothing_counted(f) if x not in self.factset)
        k = tuple(f.id for f in new)
        c = self._children.get(k)
        if c is None:
            c = Ctx(self.theory, new, self)
            self._children[k] = c
        return c

    def _get_solver(self, kind):
        s = self._solver.get(kind)
        _LIVE[self.uid, kind] = self
        _LIVE.move_to_end((self.uid, kind))
        if len(_LIVE) > 400:
            (_, kd), c = _LIVE.popitem(last=False)
            c._solver.pop(kd, None)
        if s is None:
            s = z3.Solver()
            s.set("timeout", 1500 if kind == "int" else 4000)
            s.set("random_seed", 0)
            facts = [f for f in self.facts if kind != "int" or _int_only(f)]
            for f in facts:
                s.add(to_z3(f))
            for f in self.theory.instances(facts):
                if kind != "int" or _int_only(f):
                    s.add(to_z3(f))
            if kind != "int" and len(_STR) > 1:
                pass
            self._solver[kind] = s
        return s

    def _check(self, kind, b):
        s = self._get_solver(kind)
        s.push()
        try:
            s.add(to_z3(b))
            for f in self.theory.instances([b]):
                if kind != "int" or _int_only(f):
                    s.add(to_z3(f))
            if kind != "int":
                lits = list(_STR.values())
                if len(lits) > 1:
                    s.add(z3.Distinct(*lits))
            t0 = time.time()
            r = s.check()
            STATS["z3_queries"] += 1
            STATS["z3_time"] += time.time() - t0
            return r
        finally:
            s.pop()

    def decide(self, b):
        """True / False / None"""
        b = tm.lift(b)
        if b is tm.TRUE:
            return True
        if b is tm.FALSE:
            return False
        r = self._memo.get(b.id, 0)
        if r != 0:
            return r
        STATS["decide"] += 1
        r = self._decide(b)
        self._memo[b.id] = r
        return r

    def _decide(self, b):
        nb = tm.not_(b)
        if b in self.factset:
            return True
        if nb in self.factset:
            return False
        if b.op == "and":
            rs = [self.decide(x) for x in b.args]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
        kind = "int" if _int_only(b) else "full"
        if self._check(kind, nb) == z3.unsat:
            return True
        if self._check(kind, b) == z3.unsat:
            return False
        if kind == "int" and any(not _int_only(f) for f in self.facts):
            if self._check("full", nb) == z3.unsat:
                return True
            if self._check("full", b) == z3.unsat:
                return False
        return None

    def prove(self, b):
        b = tm.lift(b)
        if b is tm.TRUE or b in self.factset:
            return True
        if b.op == "and":
            return all(self.prove(x) for x in b.args)
        return self.decide(b) is True

    def prove_logged(self, b):
        r = self.prove(b)
        if r and len(PROVED_QUERIES) < 400 and b is not tm.TRUE:
            PROVED_QUERIES.append((self, b))
        return r

    def consistent(self):
        """vacuity guard: the assumptions must not be contradictory"""
        return self._check("full", tm.TRUE) != z3.unsat


def cvc5_check(ctx, b, timeout_ms=20000):
    """Second opinion on a proved query: is facts & not b unsat for cvc5?"""
    import cvc5

    s = z3.Solver()
    for f in ctx.facts:
        s.add(to_z3(f))
    nb = tm.not_(b)
    s.add(to_z3(nb))
    for f in ctx.theory.instances(list(ctx.facts) + [nb]):
        s.add(to_z3(f))
    txt = s.to_smt2()
    t0 = time.time()
    tmgr = cvc5.TermManager()
    slv = cvc5.Solver(tmgr)
    slv.setOption("tlimit-per", str(timeout_ms))
    slv.setLogic("ALL")
    parser = cvc5.InputParser(slv)
    parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
    sm = parser.getSymbolManager()
    res = None
    while True:
        cmd = parser.nextCommand()
        if cmd.isNull():
            break
        out = cmd.invoke(slv, sm)
        if str(out).strip() in ("sat", "unsat", "unknown"):
            res = str(out).strip()
    STATS["cvc5_queries"] += 1
    STATS["cvc5_time"] += time.time() - t0
    return res
