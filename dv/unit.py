"""Verification units: contracts of functions and their proof obligations."""
import ast
import os
import time
import traceback

from pathlib import Path

from . import arrays as ar
from . import terms as tm
from .arrays import Arr, CodeError, Comp, Dom, Plain, Unsupported, flat, unify
from .interp import REPO, Engine, PyRaise, Seg
from .prove import prove, refute
from .smt import STATS, Ctx, Theory
from .terms import T, app, num, var


class Obl:
    def __init__(self, name, function):
        self.name, self.function = name, function
        self.status, self.backend, self.detail, self.replay = None, set(), "", None
        self.time = 0.0
        self.parts = 0


class Unit:
    """one function under contract"""

    def __init__(self, pid, function, budget=120):
        self.pid, self.function = pid, function
        self.theory = Theory()
        self.facts = []
        self.obls = {}
        self.stubs = {}
        self.hooks = {}
        self.executed = set()
        self.t_end = time.time() + budget
        self.vacuous = False
        self.notes = []
        self.bounded_names = set()

    # ------------------------------------------------------------ inputs
    def int(self, name, lo=0):
        v = var(name, "I")
        self.facts.append(tm.le(lo, v))
        return v

    def assume(self, *fs):
        self.facts.extend(tm.lift(f) for f in fs)

    def array(self, name, *dims, nan=False, sort="R", lib="jnp", rng=None, facts=None):
        axes = [d if isinstance(d, ar.Axis) else Plain(d) for d in dims]
        if rng:
            self.theory.ranges[name] = rng
        from .interp import flat_idx

        fn = lambda i: app(name, *flat_idx(i), sort=sort)
        nn = (lambda i: app(name + ".nan", *flat_idx(i), sort="B")) if nan else None
        if facts is not None:
            self.theory.schemas[name] = lambda *a: facts(app(name, *a, sort=sort), *a)
        return Arr(axes, fn, nn, sort, lib)

    def real(self, name, rng=None):
        if rng:
            self.theory.ranges[name] = rng
        return ar.scalar(app(name, sort="R"))

    # ------------------------------------------------------------ running
    def engine(self):
        e = Engine(self.theory, self.facts, self.stubs)
        e.hooks = dict(self.hooks)
        return e

    def run(self, qual, args=(), kwargs=None, engine=None):
        """all paths of a call of the real function"""
        e = engine or self.engine()
        self.e = e
        if not e.base_ctx.consistent():
            self.vacuous = True
        kwargs = kwargs or {}

        def thunk():
            a = args() if callable(args) else args
            k = {}
            if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], dict) and callable(args):
                a, k = a
            f = e.function(qual) if isinstance(qual, str) else qual
            return e.call(f, list(a), dict(kwargs, **k))

        for kind, v in e.run(thunk):
            self.executed |= e.executed
            yield kind, v
        self.executed |= e.executed

    def run_thunk(self, thunk, engine=None):
        e = engine or self.engine()
        self.e = e
        if not e.base_ctx.consistent():
            self.vacuous = True
        for kind, v in e.run(thunk):
            self.executed |= e.executed
            yield kind, v
        self.executed |= e.executed

    def row_index(self, axis, idx, axes):
        """index of a flattened axis in terms of the given leading axes"""
        c = Comp([a if isinstance(a, ar.Axis) else Plain(a) for a in axes[:-1]])
        ax, f, g = unify(axis, c)
        if ax is axis:
            return flat(g(idx))
        return flat(c.from_int(axis.to_int(idx)))

    def arr_eq_flat(self, name, got, spec, axes):
        """2d array whose rows are the flattened leading axes"""
        axs = [a if isinstance(a, ar.Axis) else Plain(a) for a in axes]
        want = Arr([Comp(axs[:-1]), axs[-1]], lambda i: spec(*flat(i[0]), i[1]))
        self.arr_eq(name, got, want)

    def second_opinion(self, limit=60):
        """repeat solver-discharged obligations with cvc5"""
        from .smt import PROVED_QUERIES, cvc5_check

        out = dict(repeated=0, unsat=0, unknown=0, sat=0)
        for ctx, b in PROVED_QUERIES[:limit]:
            try:
                r = cvc5_check(ctx, b, 5000)
            except Exception:  # noqa: BLE001
                r = "unknown"
            out["repeated"] += 1
            out[r if r in ("sat", "unsat") else "unknown"] += 1
        return out

    def bounded(self, name):
        """obligation proved for a stated bound only: never counted as proved"""
        self.bounded_names.add(name)

    # ------------------------------------------------------------ obligations
    def obl(self, name):
        o = self.obls.get(name)
        if o is None:
            o = self.obls[name] = Obl(name, self.function)
        return o

    def check(self, name, goal, facts=(), detail=""):
        """goal holds in the current path under facts"""
        o = self.obl(name)
        if o.status == "FAILED":
            return
        t0 = time.time()
        ctx = self.e.ctx.extend(*facts)
        if not ctx.consistent():
            o.parts += 1
            if o.status is None:
                o.status = "PROVED"
            o.backend.add("z3")
            o.time += time.time() - t0
            return
        goal = tm.lift(goal)
        if self.e.leaks(goal):
            raise Unsupported(f"loop variable in {tm.show(goal)[:200]}")
        r, be, d = prove(ctx, goal)
        o.parts += 1
        if r is True:
            if o.status is None:
                o.status = "PROVED"
            o.backend.update(x for x in be.split("+") if x)
        else:
            c = refute(ctx, goal)
            if c is not None:
                o.status = "FAILED"
                o.detail = f"{detail} {c[0]}; goal {tm.show(goal)[:600]}; model {model_text(c[1], goal)}"
            else:
                o.status = "UNDECIDED"
                o.detail = f"{detail} {d}"[:2500]
        o.time += time.time() - t0

    def fail(self, name, detail, model=None):
        """violated on the current path; the path is shown to be feasible by an interpretation"""
        o = self.obl(name)
        o.parts += 1
        if o.status == "FAILED":
            return
        m = model or self.feasible()
        if m is None:
            o.status, o.detail = "UNDECIDED", f"{detail} (no interpretation of this path found)"[:2500]
        else:
            o.status, o.detail = "FAILED", f"{detail}; {model_text(m, tm.TRUE)}"

    def feasible(self, tries=300, limit=15):
        """an interpretation in which the facts of the current path hold"""
        from .prove import Model, _holds, assign

        e = getattr(self, "e", None)
        facts = e.ctx.facts if e is not None else ()
        t_end = time.time() + limit
        for s in range(tries):
            if time.time() > t_end:
                return None
            m = Model(self.theory, s)
            try:
                if (not facts or assign(e.ctx, m, tm.TRUE)) and all(_holds(m, f) for f in facts) and m.respects_schemas():
                    return m
            except (tm.EvalError, Unsupported, CodeError, TypeError, ValueError, KeyError, IndexError, OverflowError, ZeroDivisionError, RecursionError):
                continue
        return None

    def ok(self, name, backend="symbolic execution"):
        o = self.obl(name)
        o.parts += 1
        if o.status is None:
            o.status = "PROVED"
        o.backend.add(backend)

    def undecided(self, name, detail):
        o = self.obl(name)
        o.parts += 1
        if o.status != "FAILED":
            o.status, o.detail = "UNDECIDED", detail[:2500]

    def same_value(self, name, got, want):
        """deep equality of two values of the interpreted program"""
        if isinstance(want, Arr) or isinstance(got, Arr):
            if not isinstance(got, Arr) and not isinstance(got, (T, int, float, bool)):
                self.fail(name, f"expected an array, got {type(got).__name__}")
                return
            self.arr_eq(name, ar.as_arr(got), ar.as_arr(want))
            return
        if isinstance(want, dict):
            if not isinstance(got, dict) or list(map(str, got)) != list(map(str, want)):
                if not isinstance(got, dict) or set(map(str, got)) != set(map(str, want)):
                    self.fail(name, f"expected entries {list(want)}, got {list(got) if isinstance(got, dict) else got}")
                    return
            for k in want:
                self.same_value(name, got[k], want[k])
            return
        if isinstance(want, (tuple, list)):
            if not isinstance(got, (tuple, list)) or len(got) != len(want):
                self.fail(name, f"expected {len(want)} entries, got {got!r}"[:300])
                return
            for g, w in zip(got, want):
                self.same_value(name, g, w)
            return
        if want is got:
            self.ok(name)
            return
        if getattr(got, "token", False) and getattr(want, "token", False):
            self.fail(name, f"got {got!r}, expected {want!r}")  # two different objects of the contract
            return
        r = self.e.equal(got, want)
        self.check(name, tm.lift(r), detail=f"got {got!r}, expected {want!r}")

    def arr_eq(self, name, got, want, facts=(), value=True):
        """shape, NaN pattern and values agree for all indices"""
        e = self.e
        if got.ndim != want.ndim:
            self.fail(name + ": shape", f"got {got.ndim} dimensions, expected {want.ndim}")
            return
        axes, cg, cw = [], [], []
        for a, b in zip(got.axes, want.axes):
            self.check(name + ": shape", tm.eq(a.size(), b.size()), facts, detail=f"axis {a!r} vs {b!r}")
            if self.obl(name + ": shape").status != "PROVED":
                return
            with e.assuming(list(facts)):
                ax, f, g = unify(a, b)
            axes.append(ax)
            cg.append(f)
            cw.append(g)
        probe = Arr(axes, lambda i: num(0))
        for idx, fs in probe.generic():
            with e.assuming(list(facts) + list(fs)):
                gi = tuple(f(i) for f, i in zip(cg, idx))
                wi = tuple(f(i) for f, i in zip(cw, idx))
                gv, gn = got.el(gi)
                wv, wn = want.el(wi)
            if gn is not wn:
                self.check(name + ": NaN pattern", tm.eq(gn, wn), list(facts) + list(fs))
            if value:
                self.check(name, tm.eq(gv, wv), list(facts) + list(fs) + [tm.not_(wn)])
            else:
                self.ok(name)

    def where(self):
        n = getattr(getattr(self, "e", None), "last_node", None)
        return f"line {n}" if n else ""

    # ------------------------------------------------------------ wrapper
    def guard(self, f, name="contract"):
        """run the contract; Unsupported -> undecided, CodeError -> failed"""
        t0 = time.time()
        try:
            f(self)
        except Unsupported as x:
            tb = [f"{f.filename.split('/')[-1]}:{f.lineno}" for f in traceback.extract_tb(x.__traceback__) if not f.name.startswith(("eval", "exec", "call", "e_", "x_"))][-6:]
            self.undecided(name, f"outside the modelled subset: {x} [{self.where()}; {' '.join(tb)}]")
        except CodeError as x:
            self.fail("no runtime error", str(x))
        except PyRaise as x:
            self.undecided(name, f"unexpected exception path {x}")
        except RecursionError:
            self.undecided(name, "recursion limit")
        except Exception as x:  # noqa: BLE001 - engine error: undecided, never a violation
            tb = traceback.format_exc().strip().splitlines()
            self.undecided(name, "engine error: " + " | ".join(tb[-(40 if os.environ.get("DVTB") else 6):]))
        if not self.obls:
            self.undecided(name, "no obligation generated")
        failed = [o for o in self.obls.values() if o.status == "FAILED"]
        gone = [q for q in self.stubs if isinstance(q, str) and unused(q)] if failed else []
        for o in failed if gone else ():
            # the contract is stated over a call that the code no longer makes: it decides nothing about this code
            o.status, o.detail = "UNDECIDED", f"{', '.join(gone)} no longer used; {o.detail}"[:2500]
        self.time = time.time() - t0


def unused(qual):
    """the function is not defined any more, or nothing in the package refers to it"""
    parts = qual.split(".")
    if parts[0] != "skillmodels":
        return False
    name, defined, used = parts[-1], False, False
    for f in sorted((Path(REPO) / "skillmodels").rglob("*.py")):
        if "tests" in f.parts:
            continue
        tree = ast.parse(f.read_bytes())
        inside = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name:
                defined = True
                inside |= {id(x) for x in ast.walk(n)}
        for n in ast.walk(tree):
            if id(n) not in inside and ((isinstance(n, ast.Name) and n.id == name) or (isinstance(n, ast.Attribute) and n.attr == name)):
                used = True
    return not (defined and used)


def model_text(m, goal):
    out = []
    for v, x in sorted(m.env.items(), key=lambda z: z[0].args[0]):
        out.append(f"{v.args[0]}={x}")
    return ", ".join(out)[:400]


# ------------------------------------------------------------ lists of labels
def pieces(lst):
    """(conditions, element) families of a list with symbolic pieces"""
    out = []
    for x in lst:
        if isinstance(x, Seg):
            for g, fs in x.axis.generic("p"):
                out.append((g, list(fs), x.fn(g)))
        else:
            out.append(((), [], x))
    return out


def _same_list(self, name, got, want, ordered=True):
    """same elements in the same order (the pieces correspond one to one)

    ordered=False: the same elements in any order; pieces are matched by their generic element
    """
    from .interp import list_axis

    e = self.e
    try:
        got = list(e.entries(got))
    except CodeError as x:
        self.fail(name, str(x))
        return
    ga, gf = list_axis(got)
    wa, wf = list_axis(want)
    gp, wp = norm_pieces(ga, gf), norm_pieces(wa, wf)
    gp = [p for p in gp if e.decide(tm.eq(p[0].size(), 0)) is not True]
    wp = [p for p in wp if e.decide(tm.eq(p[0].size(), 0)) is not True]
    if len(gp) != len(wp):
        self.list_diff(name, got, want, f"{len(gp)} pieces instead of {len(wp)}", ordered)
        return
    if not ordered:
        def head(p):
            x = p[1](p[0].generic("p")[0][0])
            return x[0] if isinstance(x, tuple) and isinstance(x[0], str) else None

        hg, hw = [head(p) for p in gp], [head(p) for p in wp]
        if len(set(hw)) == len(hw) and sorted(map(str, hg)) == sorted(map(str, hw)):
            gp = [gp[hg.index(h)] for h in hw]
    if not gp:
        self.ok(name)
    for (a, f), (b, g) in zip(gp, wp):
        if not ar.same_axis(a, b):
            r = e.decide(tm.eq(a.size(), b.size()))
            if r is not True:
                self.list_diff(name, got, want, f"piece of length {a.size()!r} instead of {b.size()!r}", ordered)
                return
        try:
            ax, ca, cb = unify(a, b)
        except (Unsupported, CodeError) as x:
            self.undecided(name, f"pieces over {a!r} and {b!r}: {x}")
            return
        for i, fs in ax.generic("p"):
            with e.assuming(fs):
                x, y = f(ca(i)), g(cb(i))
                if any(e.leaks(t) for t in terms_in((x, y))):
                    self.undecided(name, f"loop variable in {x!r}")
                    return
                goal = e.equal(x, y)
            if not ordered and prove(self.e.ctx.extend(*fs), tm.lift(goal))[0] is not True:
                self.list_diff(name, got, want, f"element {x!r} instead of {y!r}", False)
                continue
            self.check(name, tm.lift(goal), fs, detail=f"element {x!r} instead of {y!r}")


def norm_pieces(ax, fn):
    if isinstance(ax, ar.Cat):
        out = []
        for k, a in enumerate(ax.axes):
            out += norm_pieces(a, lambda i, k=k: fn(("cat", k, i)))
        return out
    return [(ax, fn)]


def _list_diff(self, name, got, want, detail, ordered=True, view=None):
    """the lists are not aligned piece by piece: refute by evaluation, else undecided"""
    from .prove import Model, _holds, assign

    t_end = time.time() + 20
    for s in range(400):
        if time.time() > t_end:
            break
        m = Model(self.theory, s)
        try:
            if not assign(self.e.ctx, m, tm.TRUE) or not all(_holds(m, f) for f in self.e.ctx.facts):
                continue
            a, b = concrete_list(m, got), concrete_list(m, want)
            if view is not None:
                a, b = view(a), view(b)
            if not ordered:
                a, b = _canon(a), _canon(b)
        except (tm.EvalError, Unsupported, CodeError, TypeError, ValueError, KeyError, OverflowError):
            continue
        if a != b and m.respects_schemas():
            self.fail(name, f"{detail}: {str(a)[:300]} instead of {str(b)[:300]}", m)
            return
    self.undecided(name, detail)


def _canon(x):
    """concrete entries in a canonical order; ("set", [...]) is unordered as well"""
    if isinstance(x, list):
        return sorted((_canon_in(y) for y in x), key=repr)
    return _canon_in(x)


def _canon_in(x):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "set":
            return ("set", sorted((_canon_in(y) for y in x[1]), key=repr))
        return tuple(_canon_in(y) for y in x)
    if isinstance(x, list):
        return [_canon_in(y) for y in x]
    if isinstance(x, float) and x == int(x):
        return int(x)
    return x


def leaves(e, lst):
    """the families of entries of a symbolic list: (vars with lengths, guard, element)"""
    out = []
    for x in e.entries(lst):
        if isinstance(x, Seg):
            for vs, i, g in ar.iter_axis(x.axis):
                from .interp import subst_idx

                one = {v: tm.num(0) for v, n in vs if tm.is_num(n) and n.args[0] == 1}
                if one:
                    vs, i, g = [(v, tm.subst(n, one)) for v, n in vs if v not in one], subst_idx(i, one), tm.subst(g, one)
                fs = [h for v, n in vs for h in (tm.le(0, v), tm.lt(v, n))] + [g]
                with e.assuming(fs):
                    if e.ctx.prove(tm.FALSE):
                        continue
                    y = x.fn(i)
                    if any(e.leaks(t) for t in terms_in((g, y))):
                        raise Unsupported(f"loop variable in {y!r}")
                    out.append((vs, g, y))
        else:
            out.append(([], tm.TRUE, x))
    return out


def terms_in(v):
    if isinstance(v, T):
        yield v
    elif isinstance(v, (tuple, list)):
        for x in v:
            yield from terms_in(x)
    elif isinstance(v, dict):
        for k, x in v.items():
            yield from terms_in(k)
            yield from terms_in(x)
    elif isinstance(v, Seg):
        for i, _ in v.axis.generic("z"):
            yield from terms_in(v.fn(i))


def match_families(e, A, B, why=None):
    """the multisets described by two lists of families are provably equal (matching families one to one)"""
    left, rest = list(A), []
    for b in B:
        for a in left:
            if _same_family(e, a, b):
                left = [x for x in left if x is not a]
                break
        else:
            rest.append(b)
    # families that describe the same entries under complementary conditions
    while rest:
        b = rest[0]
        ga = [(a, g) for a in left for g in [_aligned(e, a, b)] if g is not None]
        gb = [(x, g) for x in rest for g in [_aligned(e, x, b)] if g is not None]
        if not ga or not any(x is b for x, _ in gb):
            break
        fs = [h for v, n in b[0] for h in (tm.le(0, v), tm.lt(v, n))]
        ind = lambda gs: _sum([tm.ite(g, tm.num(1), tm.num(0)) for _, g in gs])
        if prove(e.ctx.extend(*fs), tm.eq(ind(ga), ind(gb)))[0] is not True:
            break
        left = [x for x in left if not any(x is a for a, _ in ga)]
        rest = [x for x in rest if not any(x is y for y, _ in gb)]
    if why is not None:
        why += [("missing", b) for b in rest] + [("additional", a) for a in left]
    return not left and not rest


def _sum(ts):
    r = tm.num(0)
    for t in ts:
        r = tm.add(r, t)
    return r


def _aligned(e, a, b):
    """guard of the family a in the variables of b if both describe the same entries there, else None"""
    if a is b:
        return a[1]
    return _same_family(e, a, b, align=True)


def _same_family(e, a, b, align=False):
    from itertools import permutations

    from .interp import subst_value

    avs, ag, ax = a
    bvs, bg, bx = b
    if len(avs) != len(bvs):
        return None if align else False
    for perm in permutations(range(len(bvs))):
        m = {avs[p][0]: bvs[k][0] for k, p in enumerate(perm)}
        if any({v for v in bvs[k][1].fv} & {bvs[j][0] for j in range(k, len(bvs))} for k in range(len(bvs))):
            continue
        fs, ok = [], True
        for k, p in enumerate(perm):
            n = tm.subst(avs[p][1], m)
            with e.assuming(fs):
                if e.decide(tm.eq(n, bvs[k][1])) is not True:
                    ok = False
                    break
            fs += [tm.le(0, bvs[k][0]), tm.lt(bvs[k][0], bvs[k][1])]
        if not ok:
            continue
        g = tm.subst(ag, m)
        if not align and g is not bg and prove(e.ctx.extend(*fs), tm.and_(tm.implies(g, bg), tm.implies(bg, g)))[0] is not True:
            continue
        with e.assuming(fs + ([g] if align else [bg])):
            try:
                if _same_element(e, subst_value(ax, m, (), None), bx):
                    return g if align else True
            except (Unsupported, CodeError):
                continue
    return None if align else False


def _same_element(e, x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return False
        if len(x) == 2 and isinstance(x[0], str) and x[0] == "set" and isinstance(y[0], str) and y[0] == "set":
            return match_families(e, leaves(e, x[1]), leaves(e, y[1]))
        return all(_same_element(e, p, q) for p, q in zip(x, y))
    t = tm.lift(e.equal(x, y))
    return t is tm.TRUE or prove(e.ctx, t)[0] is True


def _family(self, name, got, want):
    """the same entries up to order; entries may contain unordered parts ("set", list)"""
    e = self.e
    why = []
    try:
        ok = match_families(e, leaves(e, got), leaves(e, want), why)
    except CodeError as x:
        self.fail(name, str(x))
        return
    if ok:
        self.ok(name, "z3")
    else:
        w = why[0] if why else ""
        self.list_diff(name, got, want, f"{w[0]} entries {w[1][2]!r}" if w else "different entries", False)


def concrete_list(m, lst):
    out = []
    for x in lst:
        if isinstance(x, Seg):
            for i in concrete_axis(m, x.axis):
                out.append(concrete(m, x.fn(i)))
        else:
            out.append(concrete(m, x))
    return out


def concrete_axis(m, ax):
    if isinstance(ax, Plain):
        return [num(k) for k in range(int(m.ev(ax.n)))]
    if isinstance(ax, Comp):
        out = [()]
        for a in ax.axes:
            out = [o + (i,) for o in out for i in concrete_axis(m, a)]
        return out
    if isinstance(ax, Dom):
        return [i for i in concrete_axis(m, ar.RawComp(ax.axes)) if m.ev(tm.lift(ax.guard(i)))]
    if isinstance(ax, ar.Cat):
        return [("cat", k, i) for k, a in enumerate(ax.axes) for i in concrete_axis(m, a)]
    if hasattr(ax, "outer"):
        return [(o, i) for o in concrete_axis(m, ax.outer) for i in concrete_axis(m, ax.inner(o))]
    raise Unsupported(f"axis {ax!r}")


def concrete(m, v):
    if isinstance(v, T):
        r = m.ev(v)
        return round(r, 9) if isinstance(r, float) else r
    if isinstance(v, tuple):
        return tuple(concrete(m, x) for x in v)
    if isinstance(v, list):
        return concrete_list(m, v)
    if isinstance(v, dict):
        return {concrete(m, k): concrete(m, x) for k, x in v.items()}
    if isinstance(v, Arr):
        from itertools import product

        axs = [concrete_axis(m, a) for a in v.axes]
        return [concrete(m, v.el(i)[0]) for i in product(*axs)]
    return v


def _unique(self, name, lst, pair_facts=None):
    """no two positions of the list hold the same label"""
    e = self.e
    ps = []
    for x in e.entries(lst):
        ps.append((x.axis, x.fn) if isinstance(x, Seg) else (Plain(1), lambda i, x=x: x))
    self.ok(name)
    for k, (a, f) in enumerate(ps):
        for j in range(k, len(ps)):
            b, g = ps[j]
            if a is b and f is g and isinstance(a, Plain) and tm.is_num(a.n):
                continue
            for i1, f1 in a.generic("p"):
                for i2, f2 in b.generic("q"):
                    same = tm.and_(*[tm.eq(x, y) for x, y in zip(flat(i1), flat(i2))]) if j == k else tm.FALSE
                    with e.assuming(list(f1) + list(f2)):
                        x, y = f(i1), g(i2)
                        eqv = tm.lift(e.equal(x, y))
                    extra = pair_facts(x, y) if pair_facts else []
                    self.check(name, tm.implies(eqv, same), list(f1) + list(f2) + list(extra))


Unit.same_list = _same_list
Unit.list_diff = _list_diff
Unit.family = _family
Unit.unique = _unique
