"""Contracts of constraints.add_bounds and _is_diagonal_entry (C11).

Strings whose characters matter are `Text`: a length and a function from positions to character codes.  Equality
of two texts is a Boolean atom with its definition (equal lengths, equal characters at all positions); the
obligations over texts are decided by z3 with these quantified definitions, and refuted by short texts.
"""
import time

from . import c_likelihood, c_model
from . import terms as tm
from .arrays import Dom, Plain
from .interp import CodeError, Obj, PyRaise, Seg, Slice, Unsupported
from .smt import to_z3, z3
from .terms import app, num

CO = "skillmodels.constraints"
DASH = ord("-")


class Text(Obj):
    """a string: length n, code of the character at position i"""

    atoms = {}

    def __init__(self, n, at, parts=None):
        self.kind = "str"
        self.n, self.at, self.parts = tm.lift(n), at, parts
        self.methods = {
            "split": self.split, "rsplit": self.split, "partition": self.partition, "rpartition": self.partition, "count": self.count,
        }

    @staticmethod
    def lit(s):
        def at(i):
            r = num(0)
            for k, c in reversed(list(enumerate(s))):
                r = tm.ite(tm.eq(i, num(k)), num(ord(c)), r)
            return r

        return Text(num(len(s)), at)

    @staticmethod
    def of(x):
        return x if isinstance(x, Text) else Text.lit(x) if isinstance(x, str) else None

    def plus(self, o):
        a, b = self, o
        return Text(tm.add(a.n, b.n), lambda i: tm.ite(tm.lt(i, a.n), a.at(i), b.at(tm.sub(i, a.n))), (a.parts or (a,)) + (b.parts or (b,)))

    def isinstance_(self, e, ts):
        return str in ts

    def length(self):
        return self.n

    def position(self, e, i):
        i = tm.lift(i)
        if i.op == "num" and i.args[0] < 0:
            i = tm.add(self.n, i)
        return i

    def getitem(self, e, k):
        if isinstance(k, Slice):
            if k.step is not None:
                raise Unsupported("step of a slice")
            lo = num(0) if k.start is None else self.position(e, k.start)
            hi = self.n if k.stop is None else self.position(e, k.stop)
            for c in (tm.le(0, lo), tm.le(lo, hi), tm.le(hi, self.n)):
                if not e.ctx.prove(c):
                    raise Unsupported("bounds of a slice of a string")
            return Text(tm.sub(hi, lo), lambda i: self.at(tm.add(i, lo)))
        i = self.position(e, k)
        e.check_index(i, self.n)
        return Text(num(1), lambda j: self.at(i))

    def eq(self, o):
        o = Text.of(o)
        if o is None:
            return tm.FALSE
        n = f"same{len(Text.atoms)}"
        Text.atoms[n] = (self, o)
        return app(n, sort="B")

    def compare(self, e, sym, o, reflected):
        if sym not in ("==", "!="):
            raise Unsupported("order of strings")
        r = self.eq(o)
        return tm.unlift(r if sym == "==" else tm.not_(r))

    def binop(self, e, op, o, reflected):
        o = Text.of(o)
        if op != "+" or o is None:
            raise Unsupported("operation on strings")
        return o.plus(self) if reflected else self.plus(o)

    def contains(self, e, c):
        p = self.two(c)
        return True

    def two(self, sep):
        """the two names around the only separator (needs names without the separator)"""
        if sep != "-" or not self.parts or len(self.parts) != 3 or not Text.plain:
            raise Unsupported("search in a string")
        return self.parts[0], self.parts[2]

    def split(self, e, sep=None, maxsplit=-1):
        if maxsplit not in (-1, 1):
            raise Unsupported("split")
        return e.new(list(self.two(sep)))

    def partition(self, e, sep):
        a, b = self.two(sep)
        return (a, "-", b)

    def count(self, e, sep):
        self.two(sep)
        return 1

    plain = False


def name_text(f, n):
    return Text(n, lambda i: app(f, i, sort="I"))


def definitions():
    """the atoms as z3 formulas"""
    out = []
    for n, (a, b) in Text.atoms.items():
        i = tm.fresh("p")
        zi = to_z3(i)
        same = z3.And(to_z3(a.n) == to_z3(b.n), z3.ForAll([zi], z3.Implies(z3.And(zi >= 0, zi < to_z3(a.n)), to_z3(a.at(i)) == to_z3(b.at(i)))))
        out.append(to_z3(app(n, sort="B")) == same)
    return out


def concrete(r, c, fr, fc, lr, lc):
    """facts that fix the names; atoms are expanded to the finitely many positions"""
    out = [to_z3(lr) == len(r), to_z3(lc) == len(c)]
    for f, s in ((fr, r), (fc, c)):
        out += [to_z3(app(f, num(i), sort="I")) == ord(ch) for i, ch in enumerate(s)]
    top = len(r) + len(c) + 1
    for n, (a, b) in Text.atoms.items():
        same = z3.And(to_z3(a.n) == to_z3(b.n), *[z3.Implies(i < to_z3(a.n), to_z3(a.at(num(i))) == to_z3(b.at(num(i)))) for i in range(top)])
        out.append(to_z3(app(n, sort="B")) == same)
    return out


def texts_decide(u, name, facts, goal, refuter):
    """unsatisfiability of facts and not goal, or short names that satisfy them"""
    o = u.obl(name)
    o.parts += 1
    if o.status == "FAILED":
        return
    t0 = time.time()
    fs = [to_z3(f) for f in facts] + [z3.Not(to_z3(goal))]
    for names, extra in refuter:
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(*fs, *extra())
        if s.check() == z3.sat:
            o.status, o.detail = "FAILED", f"for the entry {names!r}"
            break
    else:
        s = z3.Solver()
        s.set("timeout", 20000 if o.status is None or o.status == "PROVED" else 1)
        s.add(*fs, *definitions(), *u.texts_pre)
        r = s.check()
        o.backend.add("z3")
        if r == z3.unsat:
            o.status = o.status or "PROVED"
        else:
            o.status, o.detail = "UNDECIDED", f"z3: {r}"
    o.time += time.time() - t0


SHORT = ["a", "b", "ab", "ba", "aa", "abb", "aba", "abab"]
HYPHENS = ["-", "a", "b", "a-", "-a", "a-a", "b-a", "a-b", "--"]


def diagonal(u):
    for plain in (True, False):
        Text.atoms, Text.plain = {}, plain
        lr, lc = u.int("len_row", 1), u.int("len_col", 1)
        row, col = name_text("rowchar", lr), name_text("colchar", lc)
        entry = row.plus(Text.lit("-")).plus(col)
        same = row.eq(col)
        i = tm.fresh("p")
        zi = to_z3(i)
        nodash = lambda t: z3.ForAll([zi], z3.Implies(z3.And(zi >= 0, zi < to_z3(t.n)), to_z3(t.at(i)) != DASH))
        u.texts_pre = [nodash(row), nodash(col)] if plain else []
        what = "names without hyphens" if plain else "names with hyphens"
        for per in (num(0), app("entry_period", sort="I")):
            for kind, v in u.run(f"{CO}._is_diagonal_entry", (("initial_cholcovs", tm.unlift(per), app("mixture", sort="S"), entry),)):
                facts = list(u.e.ctx.facts)
                lists = [(r, c) for r in (SHORT if plain else HYPHENS) for c in (SHORT if plain else HYPHENS) if plain or r == c]
                ref = [(f"{r}-{c}", lambda r=r, c=c: concrete(r, c, "rowchar", "colchar", lr, lc)) for r, c in lists]
                if kind != "return":
                    texts_decide(u, f"no exception ({what})", facts + ([] if plain else [same]), tm.FALSE, ref)
                    continue
                u.ok(f"no exception ({what})")
                if not isinstance(v, (bool, tm.T)):
                    raise Unsupported("result that is not Boolean")
                v = tm.lift(v)
                texts_decide(u, f"diagonal entries are recognised ({what})", facts + [same], v, ref)
                if plain:
                    texts_decide(u, "nothing else is taken for a diagonal entry (names without hyphens)", facts + [tm.not_(same)], tm.not_(v), ref)


class Rows(Obj):
    """a value per row"""

    def __init__(self, fn):
        self.kind = "rows"
        self.fn = fn
        self.methods = {"isin": self.isin, "to_numpy": lambda e: self, "startswith": None}

    def compare(self, e, sym, o, reflected):
        if sym not in ("==", "!=") or isinstance(o, Obj):
            raise Unsupported("comparison of rows")
        return Rows(lambda r: tm.eq(self.fn(r), tm.lift(o)) if sym == "==" else tm.not_(tm.eq(self.fn(r), tm.lift(o))))

    def isin(self, e, values):
        if not isinstance(values, (list, tuple, set)) or not all(isinstance(x, str) for x in values):
            raise Unsupported("isin")
        return Rows(lambda r: tm.or_(*[tm.eq(self.fn(r), tm.lift(x)) for x in values]))

    def binop(self, e, op, o, reflected):
        if op not in ("&", "|") or not isinstance(o, Rows):
            raise Unsupported("operation on rows")
        f = tm.and_ if op == "&" else tm.or_
        return Rows(lambda r: f(self.fn(r), o.fn(r)))

    def unop(self, e, op):
        raise Unsupported("operation on rows")


class Part(Obj):
    """rows of a table: only their labels are used"""

    def __init__(self, index):
        self.kind, self.labels = "DataFrame", index

    def get_attr(self, e, name):
        from .lib import NOATTR

        return self.labels if name == "index" else NOATTR


class PTable(Obj):
    """a params table with unique row labels (category, period, name1, name2); cells are (value) per row"""

    NAMES = ("category", "period", "name1", "name2")

    def __init__(self, n, label, cells, where, owned=True):
        self.kind = "DataFrame"
        self.n, self.label, self.cells, self.where, self.owned = n, label, dict(cells), dict(where), owned
        self.methods = {"copy": self.copy, "query": self.query}

    def freeze(self, e):
        self.owned = False

    def copy(self, e, deep=True):
        if deep is not True:
            raise Unsupported("shallow copy of a table")
        return PTable(self.n, self.label, self.cells, self.where)

    def get_attr(self, e, name):
        from .lib import NOATTR

        if name == "columns":
            return Obj("columns", contains=lambda e, c: self.has(e, c))
        if name == "index":
            return self.index(tm.TRUE)
        if name == "loc":
            return Obj("loc", getitem=self.loc_get, setitem=self.loc_set)
        return NOATTR

    def index(self, guard):
        g = guard if callable(guard) else (lambda r: guard)
        tolist = lambda e: e.new([Seg(Dom((Plain(self.n),), lambda i: g(i[0])), lambda r: self.label(r[0]))])
        level = lambda e, l: Rows(lambda r: self.label(r)[self.NAMES.index(l) if isinstance(l, str) else l])
        return Obj("MultiIndex", methods={"tolist": tolist, "to_list": tolist, "get_level_values": level}, guard=g, rows_of=self)

    def has(self, e, c):
        if not isinstance(c, str):
            raise Unsupported("column label")
        if c in self.where:
            return e.branch(self.where[c])
        return c in self.cells

    contains = has

    def query(self, e, q):
        import re

        m = re.fullmatch(r"\s*(\w+) == (['\"])(\w+)\2\s*", q) if isinstance(q, str) else None
        if m is None or m.group(1) not in self.NAMES:
            raise Unsupported("query")
        k = self.NAMES.index(m.group(1))
        ix = self.index(lambda r: tm.eq(self.label(r)[k], tm.lift(m.group(3))))
        return Part(ix)

    def getitem(self, e, c):
        if not self.has(e, c):
            raise PyRaise(KeyError, (c,))
        return Rows(self.cells[c])

    def setitem(self, e, c, v):
        if not self.owned:
            raise CodeError("the params table of the caller is modified")
        if not isinstance(c, str):
            raise Unsupported("assignment of columns")
        if isinstance(v, Rows):
            self.cells[c] = v.fn
        elif isinstance(v, (Obj, list, dict, tuple)):
            raise Unsupported("assignment of a column")
        else:
            x = tm.lift(v)
            self.cells[c] = lambda r: x
        self.where.pop(c, None)

    def loc_get(self, e, k):
        raise Unsupported("selection with loc")

    def rows(self, e, k):
        if isinstance(k, str):
            return lambda r: tm.eq(self.label(r)[0], tm.lift(k)), True
        if isinstance(k, Rows):
            return k.fn, False
        if isinstance(k, Obj) and getattr(k, "rows_of", None) is self:
            return k.guard, False
        if isinstance(k, list) and all(isinstance(s, str) for s in k) and k:
            return lambda r: tm.or_(*[tm.eq(self.label(r)[0], tm.lift(s)) for s in k]), True
        if isinstance(k, list) and len(k) == 1 and isinstance(k[0], Seg):
            s = k[0]
            ax = s.axis
            r = tm.fresh("r")
            got, want = s.fn(self.row_of(ax, r)[0]), self.label(r)
            if isinstance(got, tuple) and len(got) == 4 and all(tm.lift(a) is tm.lift(b) for a, b in zip(got, want)):
                return lambda r: self.row_of(ax, r)[1], False
        raise Unsupported("selection of rows")

    def row_of(self, ax, r):
        """index of row r in a (filtered) enumeration of the rows, condition that it is enumerated"""
        if isinstance(ax, Plain) and ax.n is self.n:
            return r, tm.TRUE
        if isinstance(ax, Dom) and len(ax.axes) == 1:
            i, c = self.row_of(ax.axes[0], r)
            return (i,), tm.and_(c, ax.guard((i,)))
        raise Unsupported("selection of rows")

    def loc_set(self, e, k, v):
        if not isinstance(k, tuple) or len(k) != 2 or not isinstance(k[1], str):
            raise Unsupported("assignment with loc")
        if not self.owned:
            raise CodeError("the params table of the caller is modified")
        sel, c = k
        if isinstance(sel, Slice):
            raise Unsupported("assignment with loc")
        if not self.has(e, c):
            raise Unsupported("new column by loc")
        g, _ = self.rows(e, sel)
        if isinstance(v, (Obj, list, dict, tuple)):
            raise Unsupported("assigned value")
        x, old = tm.lift(v), self.cells[c]
        self.cells[c] = lambda r: tm.ite(g(r), x, old(r))


def isdiag(e, args, kwargs):
    (tup,) = args + list(kwargs.values())
    if not isinstance(tup, tuple) or len(tup) != 4:
        raise Unsupported("entry of another shape")
    e.require(tm.eq(tup[0], tm.lift("initial_cholcovs")), "only entries of the Cholesky factors are classified")
    return app("isdiag", tm.lift(tup[-1]), sort="B")


def bounds(u):
    R = u.int("n_params", 1)
    label = lambda r: (app("pcat", r, sort="S"), app("pper", r, sort="I"), app("pname1", r, sort="S"), app("pname2", r, sort="S"))
    cell = lambda c: lambda r: app("cell_" + c, r, sort="R")
    u.theory.interp["pcat"] = lambda m, a: ("initial_cholcovs", "meas_sds", "shock_sds", "loadings", "controls", "transition")[(m.seed + sum(map(ord, str(a)))) % 6]
    u.stubs[CO + "._is_diagonal_entry"] = isdiag
    dist = app("bounds_distance", sort="R")
    for how, args, kw in (("default", (), {}), ("positional", (dist,), {}), ("keyword", (), {"bounds_distance": dist})):
        e = u.engine()
        t = PTable(R, label, {c: cell(c) for c in ("value", "lower_bound", "upper_bound")}, {c: app("has_" + c, sort="B") for c in ("lower_bound", "upper_bound")}, owned=False)
        for kind, v in u.run(f"{CO}.add_bounds", (t,) + args, kw, engine=e):
            if kind != "return":
                u.fail("no exception", repr(v))
                continue
            if v is t:
                u.fail("a copy is returned", "the table itself is returned")
                continue
            if not isinstance(v, PTable) or v.label is not label:
                raise Unsupported("result is not derived from the table")
            u.ok("a copy with the same rows is returned")
            d = dist if args or kw else num(0)
            r = u.int("row", 0)
            inside = [tm.lt(r, R)]
            cat, _, _, n2 = label(r)
            restricted = tm.or_(tm.eq(cat, tm.lift("meas_sds")), tm.eq(cat, tm.lift("shock_sds")), tm.and_(tm.eq(cat, tm.lift("initial_cholcovs")), app("isdiag", n2, sort="B")))
            had = e.branch(app("has_lower_bound", sort="B"))
            old = cell("lower_bound")(r) if had else tm.lift(float("-inf"))
            u.check("lower bounds of standard deviations and diagonal entries are the bounds distance", tm.implies(restricted, tm.eq(v.cells["lower_bound"](r), d)), inside)
            u.check("lower bounds of all other parameters are as before (-inf without bounds)", tm.implies(tm.not_(restricted), tm.eq(v.cells["lower_bound"](r), old)), inside)
            for c in ("value", "upper_bound"):
                u.check("other columns are unchanged", tm.eq(v.cells[c](r), cell(c)(r)), inside)
            if set(v.cells) != {"value", "lower_bound", "upper_bound"}:
                u.fail("no further columns", f"{sorted(v.cells)}")
            else:
                u.ok("no further columns")


UNITS = {
    "C11": [
        ("constraints._is_diagonal_entry", diagonal), ("constraints.add_bounds", bounds),
        ("process_model._process_estimation_options", c_model.c13_options),
        ("likelihood_function.get_maximization_inputs", c_likelihood.c06_rev),
    ],
}
