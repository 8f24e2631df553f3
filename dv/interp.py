"""Symbolic execution of the real functions of /repo.

The interpreter works on the abstract syntax tree of the source files as they are on
disk; nothing is transcribed by hand.  Values are native Python objects, first-order
terms, symbolic arrays (arrays.Arr) and Python lists / dicts whose entries may be
segments (`Seg`, `DSeg`) that stand for symbolically many entries.

Loops over symbolically many elements are executed once for an arbitrary element; their
effect is generalised over all elements (see Engine.loop).
"""
import ast
import builtins
import functools
import importlib
import os
import sys
from contextlib import contextmanager

from . import arrays as ar
from . import terms as tm
from .arrays import (
    BIN,
    CUR,
    Arr,
    Axis,
    Cat,
    CodeError,
    Comp,
    Dom,
    Plain,
    Slice,
    Unsupported,
    a_abs,
    a_neg,
    a_pow,
    as_arr,
    flat,
    getitem,
    scalar,
    setitem,
    slice_axis,
    same_axis,
    unify,
)
from .smt import Ctx
from .terms import T, num

REPO = os.environ.get("SKM_REPO", "/repo")


class PyRaise(Exception):
    """an exception raised by the interpreted program"""

    def __init__(self, etype, args=(), guard=None):
        self.etype, self.eargs = etype, args
        Exception.__init__(self, f"{getattr(etype, '__name__', etype)}: {args!r}"[:300])


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Poison:
    """value of a name that is only defined inside a symbolic loop"""


POISON = Poison()


class Seg:
    """symbolically many consecutive list entries fn(idx), idx ranging over axis"""

    def __init__(self, axis, fn):
        self.axis, self._fn = axis, fn

    def fn(self, i):
        v = self._fn(i)
        if isinstance(v, (list, dict)):
            CUR["E"].borrow(v, self, i)
        return v

    def __repr__(self):
        return f"Seg[{self.axis!r}]"


class DSeg:
    """symbolically many dict entries"""

    def __init__(self, axis, key, val):
        self.axis, self.key, self._val = axis, key, val

    def val(self, i):
        v = self._val(i)
        if isinstance(v, (list, dict)):
            CUR["E"].borrow(v, self, i)
        return v


class DepAxis(Axis):
    """pairs (i, j) with i in outer and j in inner(i), row major"""

    def __init__(self, outer, inner):
        self.outer, self.inner = outer, inner

    def generic(self, p="i"):
        out = []
        for i, f in self.outer.generic(p):
            for j, g in self.inner(i).generic(p):
                out.append(((i, j), f + g))
        return out

    def size(self):
        from .arrays import opaque_count

        return opaque_count(self)

    def to_int(self, idx):
        from .arrays import opaque_pos

        return opaque_pos(self, idx)

    def from_int(self, t):
        raise Unsupported("integer index into a dependent enumeration")

    def __repr__(self):
        return f"Dep({self.outer!r})"


class Closure:
    def __init__(self, node, env, module, name, defaults, kwdefaults, qual=None):
        self.node, self.env, self.module, self.name = node, env, module, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.qual = qual
        self.attrs = {"__name__": name}


class Partial:
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs
        self.attrs = {}


class VMap:
    def __init__(self, f, in_axes=0, out_axes=0):
        self.f, self.in_axes, self.out_axes = f, in_axes, out_axes
        self.attrs = {}


class Native:
    """a function given by the contract (abstract callee, library contract)"""

    def __init__(self, f, name="contract"):
        self.f, self.name = f, name
        self.attrs = {"__name__": name}


class Method:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class AtIndexer:
    def __init__(self, a, key=None):
        self.a, self.key = a, key


class Obj:
    """an abstract object of a contract: attributes and methods are python callables"""

    def __init__(self, kind, **attrs):
        self.kind = kind
        self.__dict__.update(attrs)

    def __repr__(self):
        return f"<{self.kind}>"


class Env:
    __slots__ = ("vars", "parent", "module")

    def __init__(self, parent=None, module=None):
        self.vars, self.parent = {}, parent
        self.module = module if module is not None else parent.module

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        return self.module.get(name)


class Module:
    """a source file of the repository"""

    cache = {}

    def __init__(self, name, eng):
        self.name = name
        self.eng = eng
        self.real = importlib.import_module(name)
        self.path = self.real.__file__
        with open(self.path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.defs = {}
        for n in self.tree.body:
            if isinstance(n, (ast.FunctionDef,)):
                self.defs[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = n
        self.values = {}

    def get(self, name):
        if name in self.values:
            return self.values[name]
        node = self.defs.get(name)
        if isinstance(node, ast.FunctionDef):
            env = Env(None, self)
            v = self.eng.make_closure(node, env, f"{self.name}.{name}")
            self.values[name] = v
            return v
        if isinstance(node, ast.Assign):
            v = self.eng.eval(node.value, Env(None, self))
            self.values[name] = v
            return v
        if hasattr(self.real, name):
            return self.eng.wrap_real(getattr(self.real, name))
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise CodeError(f"name '{name}' is not defined")


class Trail:
    def __init__(self, choices=()):
        self.choices = list(choices)
        self.pos = 0
        self.conds = []


class Frame:
    """a symbolic loop that is being executed for an arbitrary element"""

    def __init__(self, vars_, facts):
        self.vars, self.facts = vars_, facts
        self.log = []
        self.reads = set()
        self.own = set()
        self.objs = {}


BINNAMES = {
    ast.Add: "+",
    ast.Sub: "-",
    ast.Mult: "*",
    ast.Div: "/",
    ast.FloorDiv: "//",
    ast.Mod: "%",
    ast.BitAnd: "&",
    ast.BitOr: "|",
    ast.Pow: "**",
    ast.MatMult: "@",
    ast.BitXor: "^",
}


class Engine:
    def __init__(self, theory, facts=(), stubs=None):
        self.theory = theory
        self.loopvars = set()
        self.base_ctx = Ctx(theory, facts)
        self.ctx = self.base_ctx
        self.stubs = stubs or {}
        self.modules = {}
        self.frames = []
        self.gens = []
        self.created = {}
        self.borrowed = {}
        self.frozen = {}
        self.trail = Trail()
        self.warned = []
        self.calls = []
        self.executed = set()
        self.depth = 0
        self.steps = 0
        self.hooks = {}
        CUR["E"] = self

    # -------------------------------------------------------------- solver interface
    def decide(self, b):
        return self.ctx.decide(b)

    def prove_under(self, facts, b):
        return self.ctx.extend(*facts).prove(b)

    def require(self, cond, msg):
        cond = tm.lift(cond)
        if self.ctx.prove(cond):
            return
        from .prove import prove, refute

        if prove(self.ctx, cond)[0] is True:
            return
        r = refute(self.ctx, cond, tries=4)
        if r is not None:
            raise CodeError(f"{msg} [{r[0]}]")
        raise Unsupported(f"cannot establish: {msg}: {tm.show(cond)[:300]}")

    def check_index(self, i, n):
        self.require(tm.and_(tm.le(0, i), tm.lt(i, n)), f"index {tm.show(tm.lift(i))} is within an axis of length {tm.show(tm.lift(n))}")

    def match_axes(self, a, b):
        h = self.hooks.get("match_axes")
        return h(a, b) if h else None

    def reshape_hook(self, a, shape, neg):
        h = self.hooks.get("reshape")
        return h(a, shape, neg) if h else None

    def simplify_dom(self, dom):
        h = self.hooks.get("simplify_dom")
        r = h(dom) if h else None
        return dom if r is None else r

    def gather_hook(self, ax, pos):
        h = self.hooks.get("gather")
        return h(ax, pos) if h else None

    def inv_gather(self, ax, arr, idx):
        h = self.hooks.get("inv_gather")
        r = h(ax, arr, idx) if h else None
        if r is not None:
            return r
        if arr.ndim == 1:
            # the index array enumerates positions injectively with a visible inverse
            (gi, f), = arr.axes[0].generic("g") if not isinstance(arr.axes[0], Cat) else [(None, None)]
            if gi is not None:
                pos = arr.fn((gi,))
                t = ax.to_int(idx) if not isinstance(ax, Plain) else idx
                sol = solve_for(pos, t, gi, arr.axes[0])
                if sol is not None:
                    return sol
                rax = arr.axes[0]
                if isinstance(rax, (Dom, Comp)) and all(isinstance(x, Plain) for x in rax.axes):
                    # row major positions of (a part of) a product of axes
                    c = Comp(rax.axes)
                    if tm.eq(c.to_int(gi), pos) is tm.TRUE and self.decide(tm.and_(tm.le(0, t), tm.lt(t, c.size()))) is True:
                        j = c.from_int(t)
                        return (rax.guard(j) if isinstance(rax, Dom) else tm.TRUE), [j]
        raise Unsupported("assignment through an index array")

    def generic_vars(self):
        return list(self.gens)

    @contextmanager
    def assuming(self, facts):
        old = self.ctx
        try:
            self.ctx = old.extend(*facts)
            yield
        finally:
            self.ctx = old

    def branch(self, cond):
        cond = tm.lift(cond)
        d = self.decide(cond)
        if d is not None:
            return d
        tr = self.trail
        if tr.pos < len(tr.choices):
            c = tr.choices[tr.pos]
        else:
            c = True
            tr.choices.append(c)
        tr.pos += 1
        f = cond if c else tm.not_(cond)
        tr.conds.append(f)
        self.ctx = self.ctx.extend(f)
        return c

    # -------------------------------------------------------------- running a function
    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            m = self.modules[name] = Module(name, self)
        return m

    def function(self, qual):
        mod, name = qual.rsplit(".", 1)
        f = self.module(mod).get(name)
        return f

    def run(self, thunk, max_paths=200):
        """all paths of thunk(); yields (outcome, value) with the context of the path"""
        choices = []
        for _ in range(max_paths):
            self.ctx = self.base_ctx
            self.trail = Trail(choices)
            self.frames, self.gens = [], []
            self.created = {}
            self.borrowed = {}
            self.warned, self.calls = [], []
            self.loopvars = set()
            CUR["E"] = self
            for m in self.modules.values():
                pass
            try:
                out = ("return", thunk())
            except PyRaise as e:
                out = ("raise", e)
            yield out
            choices = self.trail.choices[: self.trail.pos]
            while choices and choices[-1] is False:
                choices.pop()
            if not choices:
                return
            choices[-1] = False
        raise Unsupported("too many paths")

    # -------------------------------------------------------------- values
    def leaks(self, t):
        """a variable of a finished loop occurs: the value of an object was not generalised"""
        if not t.fv & self.loopvars:
            return False
        active = {v for f in self.frames for v in f.vars}
        return bool((t.fv & self.loopvars) - active)

    def new(self, obj):
        vs = set()
        for f in self.frames:
            vs.update(f.vars)
        self.created[id(obj)] = (obj, len(self.frames), vs)
        return obj

    def borrow(self, v, seg, i, path=()):
        """v is (part of) the element i of a symbolic sequence: writes to it must reach the sequence

        path: the keys that lead from the element to v (None: not known)
        """
        e = self.created.get(id(v))
        if e is not None and e[0] is v:
            return
        b = self.borrowed.get(id(v))
        if b is not None and b[0] is v:
            return
        self.borrowed[id(v)] = (v, seg, i, path)
        for k in list(v):
            x = v[k] if isinstance(v, dict) and not isinstance(k, DSeg) else k
            if isinstance(x, (list, dict)):
                self.borrow(x, seg, i, None if path is None or isinstance(v, list) else path + (k,))
            elif isinstance(x, DSeg) and conditional(x) is not None and path is not None:
                x.home = (seg, i, path + (x.key((num(0),)),))
            elif isinstance(x, (Seg, DSeg)):
                x.transient = True

    def origin(self, b):
        """(sequence, index, path) of a borrowed object; path None: not known"""
        _, seg, i, path = b
        while getattr(seg, "home", None) is not None:
            hs, hi, hp = seg.home
            seg, i, path = hs, hi, None if path is None else hp + path
        if getattr(seg, "transient", False):
            path = None
        return seg, i, path

    def lender(self, obj):
        b = self.borrowed.get(id(obj))
        return b if b is not None and b[0] is obj else None

    def owner_depth(self, obj):
        e = self.created.get(id(obj))
        return e[1] if e is not None and e[0] is obj else 0

    def note_read(self, obj, key=None):
        b = self.lender(obj)
        if b is not None:
            if not self.frames:
                return
            seg, i, path = self.origin(b)
            last = self.frames[-1]
            if path is not None and list(flat(i)) == last.vars and last.vars:
                # an element that only this iteration touches
                for o, op, p in last.log:
                    if o is seg and op == "elem" and overlap(p, path, key):
                        raise Unsupported("an element of a symbolic sequence is read after it was modified")
                last.own.add(id(seg))
                for f in self.frames[:-1]:
                    f.reads.add(id(seg))
            else:
                for f in self.frames:
                    f.reads.add(id(seg))
                    f.reads.add(id(b[1]))
            return
        d = self.owner_depth(obj)
        for f in self.frames[d:]:
            f.reads.add(id(obj))

    def freeze(self, obj, seen=None):
        """obj belongs to the caller and must not be modified"""
        seen = set() if seen is None else seen
        if id(obj) in seen:
            return obj
        if isinstance(obj, (list, dict)):
            seen.add(id(obj))
            self.frozen[id(obj)] = obj
            for x in list(obj) + (list(obj.values()) if isinstance(obj, dict) else []):
                self.freeze(x, seen)
        elif isinstance(obj, (Seg, DSeg)):
            self.frozen[id(obj)] = obj
        elif isinstance(obj, Obj) and hasattr(obj, "freeze"):
            obj.freeze(self)
        return obj

    def owned(self, k):
        """value of a conditional entry, which is not used any more"""
        v = k._val((num(0),))
        k._val = lambda i: v
        if isinstance(v, (list, dict)):
            self.borrowed.pop(id(v), None)
            self.new(v)
            if self.frozen.get(id(k)) is k:
                self.freeze(v)
        return v

    def settle(self, d, key=None):
        """conditional entries of a dict (the one with this key only, if given) become present or absent (by case distinction)"""
        other = lambda k: isinstance(key, str) and isinstance(k.key((num(0),)), str) and k.key((num(0),)) != key
        if not any(isinstance(k, DSeg) and conditional(k) is not None and not other(k) for k in d):
            return
        if self.owner_depth(d) < len(self.frames) or self.lender(d) is not None:
            raise Unsupported("dict with conditional entries in a symbolic loop")
        new = {}
        for k, v in d.items():
            g = conditional(k) if isinstance(k, DSeg) else None
            if g is None:
                new[k] = v
            elif other(k):
                new[k] = v
            elif self.branch(g):
                new[hashable(k.key((num(0),)))] = self.owned(k)
        d.clear()
        d.update(new)

    def mutate(self, obj, op, payload):
        l = self.lender(obj)
        root = self.origin(l)[0] if l is not None else None
        if self.frozen and (self.frozen.get(id(obj)) is obj or (l is not None and (self.frozen.get(id(l[1])) is l[1] or self.frozen.get(id(root)) is root))):
            if not (op == "extend" and not payload):
                raise CodeError("an object of the caller is modified")
        if isinstance(obj, dict) and op in ("setitem", "dseg") and l is None:
            k = payload[0] if op == "setitem" else payload.key((num(0),)) if conditional(payload) is not None else None
            self.settle(obj, k)
        self._mutate(obj, op, payload)

    def _mutate(self, obj, op, payload):
        b = self.lender(obj)
        if b is not None:
            seg, i, path = self.origin(b)
            if path is None or not self.frames:
                raise Unsupported("mutation of an element of a symbolic sequence")
            fr = self.frames[-1]
            fr.log.append((seg, "elem", (i, path, op, payload)))
            fr.objs[id(seg)] = seg
            return
        if self.owner_depth(obj) < len(self.frames):
            fr = self.frames[-1]
            fr.log.append((obj, op, payload))
            fr.objs[id(obj)] = obj
            return
        apply_mutation(self, obj, op, payload)

    def nonempty(self, es):
        """condition that a container with symbolic entries has an entry"""
        from .arrays import reduce_exists

        out = []
        for x in es:
            if not isinstance(x, (Seg, DSeg)):
                return tm.TRUE
            out.append(tm.lt(0, x.axis.n) if isinstance(x.axis, Plain) else reduce_exists(x.axis, lambda i: tm.TRUE))
        return tm.or_(*out)

    def truth(self, v):
        if isinstance(v, T):
            if v.sort == "B":
                return self.branch(v)
            if v.sort in "IR":
                return self.branch(tm.not_(tm.eq(v, 0)))
            if v.op == "str":
                return bool(v.args[0])
            return self.branch(tm.not_(tm.eq(v, tm.lift(""))))
        if isinstance(v, Arr):
            if v.ndim:
                n = num(1)
                for a in v.axes:
                    n = tm.mul(n, a.size())
                if not (tm.is_num(n) and n.args[0] == 1):
                    raise Unsupported("truth value of an array")
                from .arrays import first

                return self.truth(v.fn(tuple(first(a) for a in v.axes)))
            return self.truth(v.fn(()))
        if isinstance(v, (list, tuple, dict, set)):
            self.note_read(v)
            if any(isinstance(x, (Seg, DSeg)) for x in v):
                return self.truth(tm.unlift(self.nonempty(v)))
            n = self.length(v)
            return bool(n) if not isinstance(n, T) else self.branch(tm.lt(0, n))
        if isinstance(v, Obj):
            h = getattr(v, "truth", None)
            if h:
                return self.truth(h())
            return True
        if isinstance(v, Poison):
            raise Unsupported("value defined in a loop body is used after the loop")
        if isinstance(v, (Closure, Partial, VMap, Native)):
            return True
        return bool(v)

    def length(self, v):
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise CodeError("len() of unsized object")
            return tm.unlift(v.axes[0].size())
        if isinstance(v, (list, tuple, dict, set)):
            self.note_read(v)
            tot = num(0)
            for x in v:
                tot = tm.add(tot, x.axis.size() if isinstance(x, (Seg, DSeg)) else num(1))
            return tm.unlift(tot)
        if isinstance(v, (str, range)):
            return len(v)
        if isinstance(v, Obj) and hasattr(v, "length"):
            return tm.unlift(v.length())
        if isinstance(v, T) and v.sort == "S":
            return tm.app("len", v, sort="I")
        raise Unsupported(f"len of {type(v).__name__}")

    # -------------------------------------------------------------- functions
    def wrap_real(self, v):
        """a value of a real module"""
        f = getattr(v, "__module__", None)
        if isinstance(v, type(os)):
            return v
        if callable(v) and not isinstance(v, type) and isinstance(f, str) and f.startswith("skillmodels"):
            try:
                hash(v)
                if id(v) in LIB:
                    return v
            except TypeError:
                pass
            name = getattr(v, "__name__", None)
            m = self.module(f)
            if name in m.defs and getattr(m.real, name, None) is v:
                return m.get(name)
        return v

    def make_closure(self, node, env, qual=None):
        a = node.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = [None if d is None else ("d", self.eval(d, env)) for d in a.kw_defaults]
        c = Closure(node, env, env.module, getattr(node, "name", "<lambda>"), defaults, kwd, qual)
        f = c
        for d in reversed(getattr(node, "decorator_list", [])):
            f = self.call(self.eval(d, env), [f], {})
        return f

    def call(self, f, args, kwargs):
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported("execution too long")
        if isinstance(f, Partial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.f, list(f.args) + list(args), kw)
        if isinstance(f, Closure):
            if f.qual in self.stubs:
                return self.stubs[f.qual](self, list(args), dict(kwargs))
            return self.call_closure(f, args, kwargs)
        if isinstance(f, Native):
            return f.f(self, list(args), dict(kwargs))
        if isinstance(f, VMap):
            return self.call_vmap(f, args, kwargs)
        if isinstance(f, Method):
            from .lib import call_method

            return call_method(self, f.obj, f.name, list(args), dict(kwargs))
        if isinstance(f, Obj) and hasattr(f, "call"):
            return f.call(self, list(args), dict(kwargs))
        h = None
        try:
            h = LIB.get(id(f))
        except Exception:
            pass
        if h is not None:
            return h(self, *args, **kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcValue(f, args)
        if isinstance(f, functools.partial):
            kw = dict(f.keywords)
            kw.update(kwargs)
            return self.call(self.wrap_real(f.func), list(f.args) + list(args), kw)
        name = getattr(f, "__module__", "") or ""
        if name.startswith("skillmodels"):
            w = self.wrap_real(f)
            if w is not f:
                return self.call(w, args, kwargs)
        if callable(f) and all_native(args) and all_native(list(kwargs.values())) and native_ok(f):
            try:
                return f(*args, **kwargs)
            except Exception as e:  # noqa: BLE001
                raise PyRaise(type(e), e.args)
        if not callable(f) and not isinstance(f, (Poison,)):
            raise CodeError(f"{type(f).__name__} object is not callable")
        raise Unsupported(f"call of {getattr(f, '__module__', '')}.{getattr(f, '__name__', f)!s}")

    def bind(self, f, args, kwargs):
        a = f.node.args
        env = Env(f.env, f.module)
        names = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        pos = list(args)
        if any(isinstance(p, Seg) for p in pos):
            if a.vararg and not names:
                env.vars[a.vararg.arg] = tuple(pos)
                pos = []
            else:
                raise Unsupported("symbolically many positional arguments")
        if len(pos) > len(names):
            if a.vararg:
                env.vars[a.vararg.arg] = tuple(pos[len(names) :])
                pos = pos[: len(names)]
            else:
                raise CodeError(f"{f.name}() takes {len(names)} positional arguments but {len(pos)} were given")
        elif a.vararg and a.vararg.arg not in env.vars:
            env.vars[a.vararg.arg] = ()
        for n, v in zip(names, pos):
            env.vars[n] = v
        off = len(names) - len(f.defaults)
        for k, n in enumerate(names):
            if n in env.vars and k < len(pos):
                if n in kwargs:
                    raise CodeError(f"{f.name}() got multiple values for argument '{n}'")
                continue
            if n in kwargs and n not in [x.arg for x in a.posonlyargs]:
                env.vars[n] = kwargs.pop(n)
            elif k >= off:
                env.vars[n] = f.defaults[k - off]
            else:
                raise CodeError(f"{f.name}() missing required argument: '{n}'")
        for k, x in enumerate(a.kwonlyargs):
            if x.arg in kwargs:
                env.vars[x.arg] = kwargs.pop(x.arg)
            elif f.kwdefaults[k] is not None:
                env.vars[x.arg] = f.kwdefaults[k][1]
            else:
                raise CodeError(f"{f.name}() missing keyword-only argument: '{x.arg}'")
        if kwargs:
            if a.kwarg:
                env.vars[a.kwarg.arg] = self.new(kwargs)
            else:
                raise CodeError(f"{f.name}() got an unexpected keyword argument {sorted(map(str, kwargs))}")
        elif a.kwarg:
            env.vars[a.kwarg.arg] = self.new({})
        return env

    def call_closure(self, f, args, kwargs):
        env = self.bind(f, args, kwargs)
        if f.qual:
            self.executed.add(f.qual)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion")
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
                raise Unsupported("generator function")
            try:
                self.exec_block(f.node.body, env)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def call_vmap(self, vm, args, kwargs):
        if kwargs and not args:
            pass
        in_axes = vm.in_axes
        if isinstance(in_axes, int) or in_axes is None:
            in_axes = [in_axes] * len(args)
        in_axes = list(in_axes)
        if len(in_axes) != len(args):
            raise CodeError("vmap in_axes must match the number of arguments")
        ax = None
        specs = []
        for a, k in zip(args, in_axes):
            specs.append(self._vmap_axes(a, k))
        axes = [x for s in specs for x in s]
        if kwargs:
            raise Unsupported("vmap with keyword arguments")
        ax = None
        convs = []
        for x in axes:
            if ax is None:
                ax = x
                convs.append([])
            else:
                new, fo, fn_ = unify(ax, x)
                for c in convs:
                    c.append(fo)
                convs.append([fn_])
                ax = new
        if ax is None:
            raise CodeError("vmap must have at least one mapped argument")
        cases = ax.generic("v")
        if len(cases) != 1:
            raise Unsupported("vmap over a concatenated axis")
        g, facts = cases[0]
        gv = [x for x in flat(g)]
        it = iter(convs)

        def slice_(a, k):
            if k is None:
                return a
            if isinstance(a, dict):
                return {kk: slice_(v, k) for kk, v in a.items()}
            if isinstance(a, (tuple, list)):
                return type(a)(slice_(v, k) for v in a)
            arr = as_arr(a)
            c = next(it)
            kk = k % arr.ndim

            def mp(idx):
                i = g
                for f in reversed(c):
                    i = f(i)
                return tuple(idx[:kk]) + (i,) + tuple(idx[kk:])

            return Arr(
                arr.axes[:kk] + arr.axes[kk + 1 :],
                lambda idx: arr.fn(mp(tuple(idx))),
                (lambda idx: arr.nan(mp(tuple(idx)))) if arr.nan else None,
                arr.sort,
                arr.lib,
            )

        old_ctx, old_gens = self.ctx, self.gens
        self.gens = self.gens + gv
        self.ctx = self.ctx.extend(*facts)
        try:
            new_args = [slice_(a, k) for a, k in zip(args, in_axes)]
            n0 = len(self.trail.conds)
            res = self.call(vm.f, new_args, {})
            if len(self.trail.conds) != n0:
                raise Unsupported("branch inside vmap")
        finally:
            self.ctx, self.gens = old_ctx, old_gens
        return self.close_map(res, ax, g, facts, vm.out_axes)

    def _vmap_axes(self, a, k):
        if k is None:
            return []
        if isinstance(a, dict):
            return [x for v in a.values() for x in self._vmap_axes(v, k)]
        if isinstance(a, (tuple, list)):
            return [x for v in a for x in self._vmap_axes(v, k)]
        arr = as_arr(a)
        if arr.ndim == 0:
            raise CodeError("vmap over a scalar")
        return [arr.axes[k % arr.ndim]]

    def close_map(self, res, ax, g, facts, out_axis=0):
        if isinstance(res, dict):
            return {k: self.close_map(v, ax, g, facts, out_axis) for k, v in res.items()}
        if isinstance(res, (list, tuple)):
            return type(res)(self.close_map(v, ax, g, facts, out_axis) for v in res)
        if res is None:
            return None
        r = as_arr(res)
        eng = self
        gf = flat(g)
        for x in r.axes:
            if set(gf) & tm.lift(x.size()).fv:
                raise CodeError("vmap: output shape depends on the mapped index")
        o = out_axis % (r.ndim + 1)

        def inst(fn):
            def f(idx):
                i = idx[o]
                rest = tuple(idx[:o]) + tuple(idx[o + 1 :])
                m = {v: x for v, x in zip(gf, flat(i))}
                with eng.assuming(facts):
                    t = fn(rest)
                return tm.subst(t, m)

            return memo(f)

        axes = list(r.axes)
        axes.insert(o, ax)
        return Arr(axes, inst(r.fn), inst(r.nan) if r.nan else None, r.sort, "jnp")

    # -------------------------------------------------------------- statements
    def exec_block(self, body, env):
        for s in body:
            self.exec(s, env)

    def exec(self, s, env):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at line {s.lineno}")
        self.last_node = f"{getattr(env.module, 'name', '')}:{s.lineno}"
        return m(s, env)

    def x_Expr(self, s, env):
        self.eval(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Return(self, s, env):
        raise _Return(None if s.value is None else self.eval(s.value, env))

    def x_Break(self, s, env):
        raise _Break()

    def x_Continue(self, s, env):
        raise _Continue()

    def x_FunctionDef(self, s, env):
        env.vars[s.name] = self.make_closure(s, env)

    def x_Import(self, s, env):
        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname:
                env.vars[a.asname] = m
            else:
                env.vars[a.name.split(".")[0]] = importlib.import_module(a.name.split(".")[0])

    def x_ImportFrom(self, s, env):
        m = importlib.import_module(s.module)
        for a in s.names:
            env.vars[a.asname or a.name] = self.wrap_real(getattr(m, a.name))

    def x_Global(self, s, env):
        raise Unsupported("global statement")

    x_Nonlocal = x_Global

    def x_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            raise PyRaise(AssertionError, ())

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        op = BINNAMES.get(type(s.op))
        if isinstance(t, ast.Name):
            cur = self.eval(ast.Name(t.id, ast.Load()), env)
            rhs = self.eval(s.value, env)
            if isinstance(cur, list) and op == "+":
                self.extend_list(cur, rhs)
                return
            env.vars[t.id] = self.binop(op, cur, rhs)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            cur = self.subscript(obj, k)
            rhs = self.eval(s.value, env)
            if isinstance(cur, list) and op == "+":
                self.extend_list(cur, rhs)
                return
            self.set_subscript(obj, k, self.binop(op, cur, rhs), t, env)
        else:
            raise Unsupported("augmented assignment to an attribute")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            if any(isinstance(e, ast.Starred) for e in t.elts):
                k = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)][0]
                after = len(t.elts) - k - 1
                vals = list(vals)
                mid = vals[k : len(vals) - after]
                for e, x in zip(t.elts[:k], vals[:k]):
                    self.assign(e, x, env)
                self.assign(t.elts[k].value, self.new(list(mid)), env)
                for e, x in zip(t.elts[k + 1 :], vals[len(vals) - after :]):
                    self.assign(e, x, env)
                return
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            self.set_subscript(obj, k, v, t, env)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, env)
            if isinstance(obj, Obj) and hasattr(obj, "set_attr"):
                obj.set_attr(self, t.attr, v)
            elif hasattr(obj, "attrs") and isinstance(obj.attrs, dict):
                if self.frames and self.owner_depth(obj) < len(self.frames):
                    raise Unsupported("attribute assignment in a symbolic loop")
                obj.attrs[t.attr] = v
            else:
                raise Unsupported("attribute assignment")
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, starred=False):
        if isinstance(v, (tuple, list)):
            if any(isinstance(x, Seg) for x in v):
                ln = self.length(v)
                if isinstance(ln, T) and not starred:
                    self.require(tm.eq(ln, n), "number of values to unpack")
                    return [self.subscript(v, k) for k in range(n)]
            elif not starred and len(v) != n:
                raise CodeError(f"expected {n} values to unpack, got {len(v)}")
            return list(v)
        if isinstance(v, Arr):
            ln = self.length(v)
            self.require(tm.eq(tm.lift(ln), n), "number of values to unpack")
            return [getitem(v, k) for k in range(n)]
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Obj) and hasattr(v, "entries"):
            return self.unpack(v.entries(), n, starred)
        raise Unsupported(f"unpacking of {type(v).__name__}")

    def x_If(self, s, env):
        if self.truth(self.eval(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(self, "current_exc", None)
            raise cur if cur is not None else CodeError("raise without exception")
        v = self.eval(s.exc, env)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = ExcValue(v, ())
        if not isinstance(v, ExcValue):
            raise Unsupported("raise of a non-exception")
        raise PyRaise(v.etype, v.args)

    def x_With(self, s, env):
        for it in s.items:
            v = self.eval(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        self.exec_block(s.body, env)

    def x_Try(self, s, env):
        try:
            self.exec_block(s.body, env)
        except PyRaise as e:
            for h in s.handlers:
                types = () if h.type is None else self.eval(h.type, env)
                if not isinstance(types, tuple):
                    types = (types,)
                if h.type is None or any(isinstance(t, type) and issubclass(e.etype, t) for t in types):
                    if h.name:
                        env.vars[h.name] = ExcValue(e.etype, e.eargs)
                    old = getattr(self, "current_exc", None)
                    self.current_exc = e
                    try:
                        self.exec_block(h.body, env)
                    finally:
                        self.current_exc = old
                    break
            else:
                raise
        else:
            self.exec_block(s.orelse, env)
        finally:
            self.exec_block(s.finalbody, env)

    def x_While(self, s, env):
        for _ in range(1000):
            c = self.eval(s.test, env)
            if isinstance(c, (T, Arr)) and self.decide(tm.lift(c) if isinstance(c, T) else c.fn(())) is None:
                raise Unsupported("while loop with a symbolic condition")
            if not self.truth(c):
                self.exec_block(s.orelse, env)
                return
            try:
                self.exec_block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        raise Unsupported("long while loop")

    def x_For(self, s, env):
        seq = self.entries(self.eval(s.iter, env))
        if not any(isinstance(x, Seg) for x in seq):
            for x in seq:
                self.assign(s.target, x, env)
                try:
                    self.exec_block(s.body, env)
                except _Break:
                    return
                except _Continue:
                    continue
            self.exec_block(s.orelse, env)
            return
        if s.orelse:
            raise Unsupported("for-else over a symbolic sequence")
        names = assigned_names(s.body) | assigned_names([s.target])
        for x in seq:
            if isinstance(x, Seg):

                def body(v, e):
                    self.assign(s.target, v, e)
                    self.exec_block(s.body, e)

                for n in temporaries(s):
                    if n in env.vars:
                        env.vars[n] = POISON
                self.loop(x, body, env, names, s)
            else:
                self.assign(s.target, x, env)
                try:
                    self.exec_block(s.body, env)
                except _Continue:
                    continue
                except _Break:
                    raise Unsupported("break in a symbolic loop")

    # -------------------------------------------------------------- symbolic loops
    def loop(self, seg, body, env, names, node=None):
        """execute body for an arbitrary element of seg and generalise its effects"""
        for pi, (g, facts) in enumerate(seg.axis.generic("k")):
            self._loop_case(seg, g, facts, pi, body, env, names)

    def _loop_case(self, seg, g, facts, pi, body, env, names, with_nan=frozenset()):
        gv = [x for x in flat(g) if isinstance(x, T) and x.op == "var"]
        self.loopvars.update(gv)
        pre = {n: env.vars[n] for n in names if n in env.vars}
        # placeholders for names that exist before the loop
        place = {}
        invs = {}
        if "invariant" in self.hooks:
            for n, v in pre.items():
                inv = self.hooks["invariant"](self, n, v, seg)
                if inv is not None:
                    invs[n] = inv
        outcomes = []
        choices = []
        saved = (self.ctx, self.trail, self.frames, self.gens)
        for _ in range(64):
            frame = Frame(gv, facts)
            self.frames = saved[2] + [frame]
            self.gens = saved[3] + gv
            self.trail = Trail(choices)
            self.ctx = saved[0].extend(*facts)
            place = {}
            for n, v in pre.items():
                inv = invs.get(n)
                ph = (inv.at(g), [], n, "invariant", inv) if inv is not None else make_placeholder(v, n in with_nan)
                if ph is not None:
                    place[n] = ph
                    env.vars[n] = ph[0]
                else:
                    env.vars[n] = v
            status = "ok"
            exc = None
            try:
                v = seg.fn(g)
                body(v, env)
            except _Continue:
                pass
            except _Break:
                status = "break"
            except _Return as r:
                status, exc = "return", r
            except PyRaise as e:
                status, exc = "raise", e
            tr = self.trail
            post = {n: env.vars.get(n) for n in names}
            outcomes.append((status, tm.and_(*tr.conds), frame, post, exc, place, list(tr.conds)))
            self.ctx, self.trail, self.frames, self.gens = saved
            choices = tr.choices[: tr.pos]
            while choices and choices[-1] is False:
                choices.pop()
            if not choices:
                break
            choices[-1] = False
        else:
            raise Unsupported("too many paths in a loop body")
        for n in names:
            env.vars.pop(n, None)
        env.vars.update(pre)
        for st in outcomes:
            if st[0] in ("break", "return"):
                raise Unsupported(f"{st[0]} inside a loop over symbolically many elements")
        # arrays without NaN before the loop that the body may write NaN to: once more with any NaN pattern
        dirty = set()
        for st, cond, fr, post, exc, pl, conds in outcomes:
            for n, ph in pl.items():
                if ph[3] == "array" and ph[0].nan is None and isinstance(post.get(n), Arr) and post[n] is not ph[0] and post[n].nan is not None:
                    dirty.add(n)
        if dirty - set(with_nan):
            return self._loop_case(seg, g, facts, pi, body, env, names, frozenset(with_nan) | dirty)
        # exceptions: the loop raises iff some element does
        case_axis, conv = loop_axis(seg.axis, g, pi)
        for st, cond, fr, post, exc, pl, conds in outcomes:
            for n, inv in invs.items():
                if st == "ok":
                    self.frames, self.gens = saved[2] + [fr], saved[3] + gv
                    try:
                        with self.assuming(list(facts) + list(conds)):
                            inv.check(self, post[n], g)
                    finally:
                        self.frames, self.gens = saved[2], saved[3]
        outcomes = self.carried(outcomes, pre, case_axis, g, facts, conv)
        read = set().union(*[o[2].reads for o in outcomes]) if outcomes else set()
        for o in outcomes:
            for i in o[2].objs:
                if i in read:
                    raise Unsupported("a loop reads an object that it modifies")
        raises = [o for o in outcomes if o[0] == "raise"]
        for o in raises:
            cond = self.exists(case_axis, g, o[1], conv)
            if self.branch(cond):
                raise o[4]
        good = [o for o in outcomes if o[0] == "ok"]
        if raises:
            # no element raises
            pass
        # object mutations
        objs, order = {}, []
        for st, cond, fr, post, exc, pl, conds in good:
            for obj, op, payload in fr.log:
                if (st, fr) in self.prefixes:
                    payload = subst_value(payload, self.prefixes[(st, fr)], (), None)
                if mentions_placeholder(payload):
                    raise Unsupported("a loop-carried value is stored")
                if id(obj) not in objs:
                    objs[id(obj)] = (obj, [])
                    order.append(id(obj))
                if op == "elem" and list(flat(payload[0])) != gv and any(id(obj) in x[2].own for x in good):
                    raise Unsupported("a loop reads an object that it modifies")
                objs[id(obj)][1].append((cond, op, payload, facts + conds))
        touched = {id(o[0]) for o in objs.values() if isinstance(o[0], (Seg, DSeg))}
        if touched:
            for obj, entries in objs.values():
                for _, op, payload, _ in entries:
                    for x in containers(payload):
                        b = self.lender(x)
                        if b is None:
                            continue
                        seg, i, path = self.origin(b)
                        if op == "elem" and seg is obj and payload[2] == "setitem" and payload[3][1] is x and list(flat(i)) == list(flat(payload[0])) and path == payload[1] + (payload[3][0],):
                            continue  # stored where it comes from
                        if id(seg) in touched:
                            raise Unsupported("an element of a modified sequence is stored")
        for i in order:
            obj, entries = objs[i]
            self.generalise(obj, entries, case_axis, g, facts, conv)
        # rebinding of names
        for n in names:
            if n in pre and pre[n] is POISON:
                env.vars[n] = POISON
            elif n in pre:
                vals = []
                for st, cond, fr, post, exc, pl, conds in good:
                    v = post[n]
                    ph = pl.get(n)
                    vals.append((cond, v, ph, facts + conds))
                if all((ph is not None and v is ph[0]) or (ph is None and v is pre[n]) for _, v, ph, _f in vals):
                    env.vars[n] = pre[n]
                    continue
                if n in invs:
                    env.vars[n] = invs[n].after()
                    continue
                env.vars[n] = self.accumulate(pre[n], vals, case_axis, g, facts, conv, n)
            else:
                env.vars[n] = POISON

    def exists(self, axis, g, cond, conv):
        from .arrays import reduce_exists

        gf = flat(g)
        return reduce_exists(axis, lambda i: tm.subst(cond, imap(gf, conv(i))))

    def generalise(self, obj, entries, axis, g, facts, conv):
        ops = {e[1] for e in entries}
        gf = flat(g)

        def inst(v, fs):
            return lambda i: subst_value(v, imap(gf, conv(i)), fs, self)

        if isinstance(axis, Interleaved) and not ops <= {"elem"}:
            raise Unsupported("loop over interleaved kinds of elements")
        if isinstance(obj, list) and ops <= {"append", "extend"}:
            parts = []
            for cond, op, payload, fs in entries:
                if op == "append":
                    parts.append((cond, Plain(1), (lambda v: (lambda j: v))(payload), True, fs))
                else:
                    for x in payload:
                        if isinstance(x, Seg):
                            parts.append((cond, x.axis, x.fn, False, fs))
                        else:
                            parts.append((cond, Plain(1), (lambda v: (lambda j: v))(x), True, fs))
            if len(parts) == 1:
                cond, ax, fn, single, fs = parts[0]
                seg = comp_seg(axis, g, conv, cond, ax, fn, single, fs, self)
                self.mutate(obj, "extend", [seg])
                return
            # several entries per element: order is element by element
            merged = merge_exclusive(parts)
            if merged is not None:
                cond, ax, fn, single, fs = merged
                self.mutate(obj, "extend", [comp_seg(axis, g, conv, cond, ax, fn, single, fs, self)])
                return

            def inner(i):
                m = imap(gf, conv(i))
                axs = []
                for cond, ax, fn, single, fs in parts:
                    a2 = subst_axis(ax, m)
                    c2 = tm.subst(cond, m)
                    axs.append(a2 if c2 is tm.TRUE else Dom([a2], lambda j, c2=c2: c2))
                return RawCat(axs)

            def fn(ij):
                i, (_, k, j) = ij
                cond, ax, f, single, fs = parts[k]
                if cond is not tm.TRUE:
                    j = j[0]
                return subst_call(f, j, g, conv(i), fs, self)

            self.mutate(obj, "extend", [Seg(DepAxis(axis, inner), fn)])
            return
        if isinstance(obj, dict) and ops <= {"setitem"}:
            # each element sets one key (under a condition)
            keys = {}
            for cond, op, (k, v), fs in entries:
                keys.setdefault(skey(k), []).append((cond, k, v, fs))
            for kk, es in keys.items():
                if len(es) == 1:
                    cond, k, v, fs = es[0]
                    ax = axis
                    if cond is not tm.TRUE:
                        seg = comp_seg(axis, g, conv, cond, Plain(1), lambda j, k=k, v=v: (k, v), True, fs, self)
                        if not isinstance(k, T):
                            raise Unsupported("conditional dict assignment in a symbolic loop")
                        self.mutate(obj, "dseg", DSeg(seg.axis, lambda i, seg=seg: seg.fn(i)[0], lambda i, seg=seg: seg.fn(i)[1]))
                    elif isinstance(k, T) or (isinstance(k, tuple) and any(isinstance(x, T) and x.fv for x in k)) or conditional(DSeg(ax, None, None)) is not None:
                        self.mutate(obj, "dseg", DSeg(ax, inst(k, fs), inst(v, fs)))
                    else:
                        raise Unsupported("symbolic loop overwrites one dict entry")
                else:
                    fs = facts
                    if tm.or_(*[e[0] for e in es]) is not tm.TRUE and not self.ctx.extend(*facts).prove(tm.or_(*[e[0] for e in es])):
                        raise Unsupported("conditional dict assignment in a symbolic loop")

                    def alternatives(i, es=es):
                        m = imap(gf, conv(i))
                        left = []
                        for cond, k, v, f2 in es:
                            d = self.decide(tm.subst(cond, m))
                            if d is False:
                                continue
                            left.append((cond, v, f2))
                            if d is True:
                                break
                        if len(left) == 1:
                            return subst_value(left[0][1], m, left[0][2], self)
                        val = left[-1][1]
                        try:
                            for cond, v, _f in reversed(left[:-1]):
                                val = merge_values(cond, v, val)
                        except Unsupported:
                            # case distinction
                            for cond, v, f2 in left[:-1]:
                                if self.branch(tm.subst(cond, m)):
                                    return subst_value(v, m, f2, self)
                            return subst_value(left[-1][1], m, left[-1][2], self)
                        return subst_value(val, m, fs, self)

                    self.mutate(obj, "dseg", DSeg(axis, inst(es[0][1], fs), alternatives))
            return
        if isinstance(obj, (Seg, DSeg)) and ops <= {"elem"}:
            self.generalise_elem(obj, entries, axis, g, facts, conv)
            return
        if isinstance(obj, Obj) and hasattr(obj, "generalise"):
            obj.generalise(self, entries, axis, g, facts, conv)
            return
        raise Unsupported(f"mutation of {type(obj).__name__} in a symbolic loop ({sorted(ops)})")

    def generalise_elem(self, seg, entries, axis, g, facts, conv):
        """a loop that modifies the elements of a symbolic sequence"""
        if self.frames:
            raise Unsupported("nested loops modify the elements of a symbolic sequence")
        gf = flat(g)
        old = seg._fn if isinstance(seg, Seg) else seg._val
        from .arrays import same_axis

        if isinstance(axis, Interleaved):
            if not all(e[0] is tm.TRUE and list(flat(e[2][0])) == list(gf) for e in entries):
                raise Unsupported("loop over interleaved kinds of elements")
            axis = axis.whole

        if all(list(flat(e[2][0])) == list(gf) for e in entries) and same_axis(axis, seg.axis):
            todo = [(cond, path, op, payload, fs) for cond, _, (_, path, op, payload), fs in entries]

            from .prove import _path

            def new(i):
                v = old(i)
                if _path(i) != _path(g):  # an element of another piece of the axis
                    return v
                m = imap(gf, i)
                for cond, path, op, payload, fs in todo:
                    c = tm.subst(cond, m)
                    if c is tm.TRUE or self.branch(c):
                        v = apply_at(self, v, path, op, subst_value(payload, m, fs, self))
                return v

        elif all(e[2][1] == () and e[2][2] == "append" for e in entries) and len(entries) == 1:
            cond, _, (idx, _, _, payload), fs = entries[0]

            def new(i):
                v = list(old(i))

                def guard(k):
                    m = imap(gf, conv(k[0]))
                    return tm.and_(tm.subst(cond, m), *[tm.eq(tm.subst(a, m), b) for a, b in zip(flat(idx), flat(i))])

                v.append(Seg(Dom([axis], guard), lambda k: subst_value(payload, imap(gf, conv(k[0])), fs, self)))
                return v

        else:
            raise Unsupported("a loop modifies elements of a symbolic sequence")
        if isinstance(seg, Seg):
            seg._fn = new
        else:
            seg._val = new

    def carried(self, outcomes, pre, axis, g, facts, conv):
        """replaces the loop-carried scalars by their value before the current element (a prefix sum)"""
        self.prefixes = {}
        good = [o for o in outcomes if o[0] == "ok"]
        names = {n for o in good for n in o[5] if o[5][n][3] == "scalar" and o[3].get(n) is not o[5][n][0]}
        same = {n for o in good for n in o[5] if o[5][n][3] == "scalar"} - names
        inner = g
        gi = flat(g)
        probe = axis.generic("k")
        prefix = {}
        for n in sorted(names):
            if len(good) != 1 or good[0][1] is not tm.TRUE or len(outcomes) != 1:
                continue
            ph = good[0][5][n]
            v = good[0][3].get(n)
            v = v.fn(()) if isinstance(v, Arr) and v.ndim == 0 and v.nan is None else v
            if not isinstance(v, (T, int, float)) or isinstance(v, bool):
                continue
            acc = ph[1][0]
            delta = tm.sub(v, acc)
            if any(x.args[0].startswith("acc") for x in delta.fv) or any(x in delta.fv for x in gi if isinstance(x, T)):
                continue
            if len(probe) != 1:
                continue
            start = pre[n]
            start = start.fn(()) if isinstance(start, Arr) else start
            idx = probe[0][0]
            back = {a: b for a, b in zip(flat(conv(idx)), gi) if isinstance(a, T)}
            try:
                pos = tm.subst(axis.to_int(idx), back)
            except Unsupported:
                continue
            prefix[n] = tm.add(start, tm.mul(delta, pos))
        out = []
        for o in outcomes:
            st, cond, fr, post, exc, pl, conds = o
            m = {}
            for n, ph in pl.items():
                if ph[3] != "scalar":
                    continue
                if n in prefix:
                    m[ph[1][0]] = prefix[n]
                elif n in same and all(x[3].get(n) is x[5][n][0] for x in outcomes if n in x[5]):
                    m[ph[1][0]] = tm.lift(pre[n].fn(()) if isinstance(pre[n], Arr) else pre[n])
                    if len(ph[1]) > 1:
                        m[ph[1][1]] = pre[n].nan(()) if isinstance(pre[n], Arr) and pre[n].nan is not None else tm.FALSE
            used = [x for x in m if x in cond.fv] + [x for x in cond.fv if x.args[0].startswith("acc")]
            if m:
                cond = tm.subst(cond, m)
                conds = [tm.subst(c, m) for c in conds]
            if mentions_placeholder(cond):
                raise Unsupported("a branch of a loop body depends on a loop-carried value")
            if m:
                new = {}
                for n, v in post.items():
                    own = pl.get(n)
                    mm = {a: b for a, b in m.items() if own is None or a not in own[1]}
                    new[n] = v if own is not None and v is own[0] else subst_value(v, mm, (), None) if isinstance(v, (T, Arr)) else v
                post = new
                self.prefixes[(st, fr)] = m
            out.append((st, cond, fr, post, exc, pl, conds))
        return out

    def accumulate(self, pre, vals, axis, g, facts, conv, name):
        """new value of a name that is rebound in terms of its previous value"""
        from .arrays import reduce_sum_term

        gf = flat(g)
        if any(ph is None for _, _, ph, _f in vals):
            raise Unsupported(f"loop-carried value '{name}'")
        if all(isinstance(v, (Obj, list, dict, str)) for _, v, _p, _f in vals):
            return POISON  # rebound to something else in every iteration; unusable after the loop
        if len(vals) > 1 or vals[0][0] is not tm.TRUE:
            base = vals[0][2]
            v = None
            for cond, x, ph, _f in vals:
                x = subst_value(x, dict(zip(ph[1], base[1])), [], self) if ph is not base and len(ph[1]) else x
                if ph is not base and ph[2] != base[2]:
                    x = rename_app(x, ph[2], base[2])
                v = x if v is None else merge_values(cond, x, v)
                # the last merged value is the default; conditions are exhaustive
            ph = base
        else:
            _, v, ph, _f = vals[0]
        kind = ph[3]
        fs = list(facts)
        if kind == "scalar":
            acc = ph[1][0]
            v = as_arr(v) if not isinstance(v, Arr) else v
            if v.ndim != 0:
                raise Unsupported("accumulator changes its shape")
            t = v.fn(())
            delta = tm.subst(t, {acc: num(0)})
            if mentions_placeholder(delta):
                raise Unsupported(f"'{name}' depends on another loop-carried value")
            from .nf import NF

            with self.assuming(fs):
                d = NF(self.ctx).nf(tm.sub(tm.sub(t, acc), delta))
            if d or acc in delta.fv:
                raise Unsupported(f"loop-carried value '{name}' is not a sum")
            nn = tm.FALSE
            if v.nan is not None:
                nn = tm.subst(v.nan(()), {ph[1][1]: tm.FALSE}) if len(ph[1]) > 1 else v.nan(())
            tot = reduce_sum_term(axis, lambda i: tm.subst(delta, imap(gf, conv(i))))
            p = as_arr(pre)
            nan = None
            if nn is not tm.FALSE:
                from .arrays import reduce_exists

                nnn = reduce_exists(axis, lambda i: tm.subst(nn, imap(gf, conv(i))))
                nan = tm.or_(p.nan_at(), nnn)
            elif p.nan is not None:
                nan = p.nan(())
            val = tm.add(p.fn(()), tot)
            if isinstance(pre, Arr) or nan is not None:
                return scalar(val, nan, "R")
            return tm.unlift(val) if val.sort != "R" else scalar(val)
        if kind == "array":
            pname = ph[2]
            v = as_arr(v)
            if len(v.axes) != len(pre.axes):
                raise Unsupported("accumulator changes its shape")
            eng = self

            def fn(idx):
                with eng.assuming(fs):
                    t = v.fn(idx)
                return array_fixpoint(eng, t, pname, idx, pre, axis, gf, conv, fs)

            if ph[0].nan is None and v.nan is None:
                return Arr(pre.axes, memo(fn), None, pre.sort, pre.lib)

            def nan(idx):
                with eng.assuming(fs):
                    t = v.fn(idx)
                    tn = v.nan(idx) if v.nan is not None else tm.FALSE
                return array_fixpoint_nan(eng, t, tn, pname, idx, pre, axis, gf, conv, fs)

            return Arr(pre.axes, memo(fn), memo(nan), pre.sort, pre.lib)
        if kind == "string":
            raise Unsupported("string accumulator")
        raise Unsupported(f"loop-carried value '{name}'")

    # -------------------------------------------------------------- sequences
    def entries(self, v):
        """list of entries (with Seg for symbolic parts) of an iterable"""
        if isinstance(v, (list, tuple)):
            self.note_read(v)
            return list(v)
        if isinstance(v, set):
            return list(v)
        if isinstance(v, dict):
            self.note_read(v)
            return [Seg(k.axis, k.key) if isinstance(k, DSeg) else k for k in v]
        if isinstance(v, range):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise CodeError("iteration over a 0-d array")
            ax = v.axes[0]
            if isinstance(ax, Plain) and tm.is_num(ax.n):
                return [index0(v, num(k)) for k in range(int(ax.n.args[0]))]
            return [Seg(ax, lambda i: index0(v, i))]
        if isinstance(v, Obj) and hasattr(v, "entries"):
            return self.entries(v.entries())
        if isinstance(v, (DictView,)):
            return v.entries(self)
        if hasattr(v, "__iter__") and type(v).__module__ in ("builtins", "itertools"):
            return list(v)
        raise Unsupported(f"iteration over {type(v).__name__}")

    def extend_list(self, lst, rhs):
        self.mutate(lst, "extend", self.entries(rhs))

    # -------------------------------------------------------------- expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        v = env.lookup(e.id)
        if v is POISON:
            raise Unsupported(f"'{e.id}' is used after the loop that defines it")
        return v

    def e_JoinedStr(self, e, env):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.eval(p.value, env)
                if p.format_spec is not None or p.conversion not in (-1, 115):
                    if all_native([v]):
                        parts.append(f"{v!r}" if p.conversion == 114 else format(v, self.eval(p.format_spec, env) if p.format_spec else ""))
                        continue
                    raise Unsupported("format specification")
                parts.append(v)
        return self.join_str(parts)

    def join_str(self, parts):
        out = []
        for v in parts:
            if isinstance(v, Obj) and hasattr(v, "term"):
                v = v.term
            if isinstance(v, T):
                out.append(v)
            elif isinstance(v, Arr) and v.ndim == 0:
                out.append(v.fn(()))
            elif isinstance(v, str):
                out.append(v)
            elif all_native([v]):
                out.append(str(v))
            else:
                # the text of a composite value: opaque but determined by the value
                h = self.hooks.get("text")
                if h is not None:
                    out.append(h(self, v))
                    continue
                out.append(tm.app("text", tm.lift(repr(type(v))), sort="S"))
        if all(isinstance(x, str) for x in out):
            return "".join(out)
        return tm.fstr(out)

    def e_Tuple(self, e, env):
        return tuple(self.elements(e.elts, env))

    def e_List(self, e, env):
        return self.new(list(self.elements(e.elts, env)))

    def e_Set(self, e, env):
        return self.new(set(self.elements(e.elts, env)))

    def elements(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.entries(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = self.new({})
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, env)
                if not isinstance(o, dict):
                    raise Unsupported("** of a non-dict")
                from .lib import merge_dict

                merge_dict(self, d, o)
            else:
                self.mutate(d, "setitem", (hashable(self.eval(k, env)), self.eval(v, env)))
        return d

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def e_Lambda(self, e, env):
        return self.make_closure(e, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.eval(x, env)
            if x is e.values[-1]:
                return v
            if isinstance(v, T) and v.sort == "B" and self.decide(v) is None:
                # keep short-circuit semantics by branching
                pass
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, T) else False
            if not isand and t:
                return v if not isinstance(v, T) else True
        return v

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, T) and v.sort == "B":
                return tm.unlift(tm.not_(v))
            return not self.truth(v)
        if isinstance(v, Obj) and hasattr(v, "unop") and not isinstance(e.op, ast.Not):
            return v.unop(self, {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)])
        if isinstance(e.op, ast.USub):
            if isinstance(v, Arr):
                return a_neg(v)
            if isinstance(v, T):
                return tm.unlift(tm.neg(v))
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            from .lib import logical_not

            return logical_not(self, v)
        raise Unsupported("unary operator")

    def e_BinOp(self, e, env):
        return self.binop(BINNAMES.get(type(e.op)), self.eval(e.left, env), self.eval(e.right, env))

    def binop(self, op, a, b):
        if op is None:
            raise Unsupported("operator")
        for x, y, r in ((a, b, False), (b, a, True)):
            if isinstance(x, Obj) and hasattr(x, "binop"):
                return x.binop(self, op, y, r)
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("value defined in a loop body is used after the loop")
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if isinstance(a, Arr) or isinstance(b, Arr):
                return self.arr_binop(op, a, b)
            if op == "+" and type(a) is type(b):
                self.note_read(a)
                self.note_read(b)
                r = a + b
                return self.new(r) if isinstance(r, list) else r
            if op == "*":
                l, k = (a, b) if isinstance(a, (list, tuple)) else (b, a)
                self.note_read(l)
                if isinstance(k, int):
                    r = l * k
                    return self.new(r) if isinstance(r, list) else r
                if isinstance(k, T) and len(l) == 1 and not isinstance(l[0], Seg):
                    n = k if self.decide(tm.le(0, k)) is True else tm.max_(k, num(0))
                    return self.new([Seg(Plain(n), lambda i: l[0])])
            if op == "%":
                raise Unsupported("string formatting")
            raise Unsupported(f"operator {op} on lists")
        if isinstance(a, (str,)) or isinstance(b, str) or sort_of(a) == "S" or sort_of(b) == "S":
            if op == "+":
                return self.join_str([a, b])
            if op == "*" and isinstance(a, str) and isinstance(b, int):
                return a * b
            if not isinstance(a, Arr) and not isinstance(b, Arr):
                raise Unsupported(f"operator {op} on strings")
        if isinstance(a, (set, dict)) or isinstance(b, (set, dict)):
            if all_native([a, b]):
                return BASIC[op](a, b)
            if isinstance(a, dict) and isinstance(b, dict) and op == "|":
                from .lib import merge_dict

                r = self.new({})
                merge_dict(self, r, a)
                merge_dict(self, r, b)
                return r
            raise Unsupported("set or dict operator")
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.arr_binop(op, a, b)
        if isinstance(a, T) or isinstance(b, T):
            x, y = tm.lift(a), tm.lift(b)
            if op in ("+", "-", "*") and x.sort in "IR" and y.sort in "IR":
                r = {"+": tm.add, "-": tm.sub, "*": tm.mul}[op](x, y)
                return tm.unlift(r)
            if op == "//" or op == "%":
                from .arrays import sdiv, smod

                self.require(tm.not_(tm.eq(y, 0)), "division by zero")
                return tm.unlift(sdiv(x, y) if op == "//" else smod(x, y))
            if op == "**" and isinstance(b, int) and b >= 0:
                return tm.unlift(tm.power(x, b))
            if op in ("&", "|") and x.sort == "B" and y.sort == "B":
                return tm.and_(x, y) if op == "&" else tm.or_(x, y)
            return self.arr_binop(op, scalar(x), scalar(y))
        import numpy as np

        if isinstance(a, np.generic):
            a = a.item()
        if isinstance(b, np.generic):
            b = b.item()
        try:
            return BASIC[op](a, b)
        except ZeroDivisionError as e:
            raise PyRaise(ZeroDivisionError, e.args)
        except TypeError as e:
            if all_native([a, b]):
                raise PyRaise(TypeError, e.args)
            raise Unsupported(f"operator {op} on {type(a).__name__} and {type(b).__name__}")

    def arr_binop(self, op, a, b):
        if op == "**":
            return a_pow(a, b)
        if op == "@":
            from .arrays import matmul

            return matmul(a, b)
        if op not in BIN:
            raise Unsupported(f"array operator {op}")
        return BIN[op](a, b)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            res.append(self.compare(type(op).__name__, left, right))
            left = right
        if len(res) == 1:
            return res[0]
        if all(isinstance(x, bool) for x in res):
            return all(res)
        return tm.unlift(tm.and_(*[tm.lift(x) if not isinstance(x, Arr) else x.fn(()) for x in res]))

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
                if isinstance(a, T) or isinstance(b, T):
                    if (a is None) or (b is None):
                        r = False
                    else:
                        raise Unsupported("identity of a symbolic value")
                else:
                    r = a is b
            else:
                r = a is b
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if op == "In":
                return r
            return (not r) if isinstance(r, bool) else tm.unlift(tm.not_(r))
        sym = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!="}[op]
        for x, y, r in ((a, b, False), (b, a, True)):
            if isinstance(x, Obj) and hasattr(x, "compare"):
                return x.compare(self, sym, y, r)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return BIN[sym](a, b)
        if sym in ("==", "!="):
            r = self.equal(a, b)
            if sym == "==":
                return r
            return (not r) if isinstance(r, bool) else tm.unlift(tm.not_(r))
        if isinstance(a, T) or isinstance(b, T):
            x, y = tm.lift(a), tm.lift(b)
            if x.sort == "S" or y.sort == "S":
                raise Unsupported("order of labels")
            return tm.unlift({"<": tm.lt(x, y), "<=": tm.le(x, y), ">": tm.lt(y, x), ">=": tm.le(y, x)}[sym])
        try:
            return BASIC[sym](a, b)
        except TypeError as e:
            raise PyRaise(TypeError, e.args)

    def equal(self, a, b):
        """python == as bool or boolean term"""
        if isinstance(a, Obj) and hasattr(a, "term"):
            a = a.term
        if isinstance(b, Obj) and hasattr(b, "term"):
            b = b.term
        if isinstance(a, Arr) and a.ndim == 0:
            a = a.fn(())
        if isinstance(b, Arr) and b.ndim == 0:
            b = b.fn(())
        if isinstance(a, T) or isinstance(b, T):
            if isinstance(a, (list, tuple, dict, set)) or isinstance(b, (list, tuple, dict, set)):
                return False
            if a is None or b is None or isinstance(a, (Closure, Native)) or isinstance(b, (Closure, Native)):
                return False
            x, y = tm.lift(a), tm.lift(b)
            sx, sy = x.sort, y.sort
            if (sx == "S") != (sy == "S"):
                return False
            if sx == "B" and sy == "B":
                return tm.unlift(tm.or_(tm.and_(x, y), tm.and_(tm.not_(x), tm.not_(y))))
            return tm.unlift(tm.eq(x, y))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) is not type(b):
                return False
            self.note_read(a)
            self.note_read(b)
            if any(isinstance(x, Seg) for x in list(a) + list(b)):
                if not a or not b:
                    return tm.unlift(tm.not_(self.nonempty(a or b)))
                la, lb = tm.lift(self.length(a)), tm.lift(self.length(b))
                d = self.decide(tm.eq(la, lb))
                if d is False:
                    return False
                (ax, fa), (bx, fb) = list_axis(a), list_axis(b)
                from .arrays import reduce_exists

                if d is True:
                    new, ca, cb = unify(ax, bx)
                    body = lambda i: tm.not_(tm.lift(self.equal(fa(ca(i)), fb(cb(i)))))
                    return tm.unlift(tm.not_(reduce_exists(new, body)))
                if isinstance(ax, Plain) and isinstance(bx, Plain):
                    body = lambda i: tm.not_(tm.lift(self.equal(fa(i), fb(i))))
                    return tm.unlift(tm.and_(tm.eq(la, lb), tm.not_(reduce_exists(ax, body))))
                raise Unsupported("comparison of symbolic lists")
            if len(a) != len(b):
                return False
            rs = [self.equal(x, y) for x, y in zip(a, b)]
            if all(isinstance(r, bool) for r in rs):
                return all(rs)
            return tm.unlift(tm.and_(*[tm.lift(r) for r in rs]))
        if all_native([a, b]):
            return bool(a == b)
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, dict) and (not a or not b):
            self.note_read(a)
            self.note_read(b)
            return tm.unlift(tm.not_(self.nonempty(a or b)))
        if isinstance(a, dict) and self.hooks.get("dict_equal"):
            self.note_read(a)
            self.note_read(b)
            return self.hooks["dict_equal"](self, a, b)
        raise Unsupported(f"comparison of {type(a).__name__}")

    def contains(self, c, x):
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Obj) and hasattr(c, "contains"):
            return c.contains(self, x)
        if isinstance(c, dict) and not any(isinstance(k, DSeg) for k in c) and all_native([x]):
            self.note_read(c)
            if not any(isinstance(k, T) for k in c):
                return x in c
        es = c.items if isinstance(c, SetOf) else self.entries(c)
        out = []
        from .arrays import reduce_exists

        if isinstance(x, Obj) and hasattr(x, "term"):
            x = x.term
        for y in es:
            if isinstance(y, Seg) and has_obj(y):
                out.append(reduce_exists(y.axis, lambda i: tm.lift(self.equal(y.fn(i), x))))
                continue
            if isinstance(y, Seg):
                m = match_seg(self, y, x)
                if m is not None:
                    return True
                out.append(reduce_exists(y.axis, lambda i: tm.lift(self.equal(y.fn(i), x))))
            else:
                r = self.equal(y, x)
                if r is True:
                    return True
                out.append(tm.lift(r))
        r = tm.or_(*out) if out else tm.FALSE
        d = self.decide(r)
        return r if d is None else d

    # comprehension
    def e_ListComp(self, e, env):
        out = self.new([])
        self.comp(e.generators, 0, Env(env), lambda en: self.mutate(out, "append", self.eval(e.elt, en)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        l = self.e_ListComp(e, env)
        if any(isinstance(x, Seg) for x in l):
            return SetOf(l)
        return self.new({hashable(x) for x in l})

    def e_DictComp(self, e, env):
        out = self.new({})
        self.comp(
            e.generators,
            0,
            Env(env),
            lambda en: self.mutate(out, "setitem", (hashable(self.eval(e.key, en)), self.eval(e.value, en))),
        )
        return out

    def comp(self, gens, k, env, emit):
        if k == len(gens):
            emit(env)
            return
        g = gens[k]
        seq = self.entries(self.eval(g.iter, env))

        def body(v, en):
            self.assign(g.target, v, en)
            for c in g.ifs:
                if not self.truth(self.eval(c, en)):
                    return
            self.comp(gens, k + 1, en, emit)

        for x in seq:
            if isinstance(x, Seg):
                self.loop(x, body, Env(env), assigned_names([g.target]))
            else:
                body(x, env)

    # attributes, subscripts, calls
    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def getattr(self, o, name):
        from .lib import get_attr

        return get_attr(self, o, name)

    def e_Call(self, e, env):
        f = self.eval(e.func, env)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.entries(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if isinstance(d, dict):
                    self.note_read(d)
                    if any(not isinstance(x, (str, T, DSeg)) for x in d):
                        raise Unsupported("keyword names")
                    for kk, vv in d.items():
                        if kk in kwargs:
                            raise CodeError(f"got multiple values for keyword argument '{kk}'")
                        kwargs[kk] = vv
                else:
                    raise Unsupported("** of a non-dict")
            else:
                if k.arg in kwargs:
                    raise CodeError(f"got multiple values for keyword argument '{k.arg}'")
                kwargs[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kwargs)

    def e_Slice(self, e, env):
        g = lambda x: None if x is None else self.eval(x, env)
        return Slice(g(e.lower), g(e.upper), g(e.step))

    def eval_index(self, e, env):
        if isinstance(e, ast.Tuple):
            return tuple(self.eval(x, env) for x in e.elts)
        return self.eval(e, env)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.subscript(o, self.eval_index(e.slice, env))

    def e_Starred(self, e, env):
        raise Unsupported("starred expression")

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def subscript(self, o, k):
        if isinstance(o, AtIndexer):
            return AtIndexer(o.a, ("key", self.norm_key(k)))
        if isinstance(o, Arr):
            return self.simplify(getitem(o, self.norm_key(k)))
        if isinstance(o, (list, tuple)):
            self.note_read(o)
            return self.list_item(o, k)
        if isinstance(o, dict):
            own = self.own_write(o, k)
            if own is not None:
                return own[0]
            self.note_read(o, k)
            return self.dict_item(o, k)
        if isinstance(o, str):
            if isinstance(k, Slice):
                return o[slice(k.start, k.stop, k.step)]
            return o[k]
        if isinstance(o, Obj) and hasattr(o, "getitem"):
            return o.getitem(self, k)
        if isinstance(o, Poison):
            raise Unsupported("value defined in a loop body is used after the loop")
        if o is None:
            raise CodeError("'NoneType' object is not subscriptable")
        raise Unsupported(f"subscript of {type(o).__name__}")

    def simplify(self, a):
        return a

    def norm_key(self, k):
        def one(x):
            if isinstance(x, Slice):
                f = lambda y: None if y is None else (y.fn(()) if isinstance(y, Arr) else y)
                return Slice(f(x.start), f(x.stop), f(x.step))
            if isinstance(x, slice):
                return Slice(x.start, x.stop, x.step)
            if isinstance(x, (list,)):
                return as_arr(x)
            if isinstance(x, Arr) and x.ndim == 0:
                return x.fn(())
            if isinstance(x, (int, T)) or x is None or x is Ellipsis or isinstance(x, Arr):
                return x
            if hasattr(x, "__array__"):
                return as_arr(x)
            raise Unsupported(f"index of type {type(x).__name__}")

        if isinstance(k, tuple):
            return tuple(one(x) for x in k)
        return one(k)

    def list_item(self, o, k):
        if isinstance(k, Arr) and k.ndim == 0:
            k = tm.unlift(k.fn(()))
        if not any(isinstance(x, Seg) for x in o):
            if isinstance(k, Slice):
                ks = [tm.unlift(tm.lift(x)) if x is not None else None for x in (k.start, k.stop, k.step)]
                if all(x is None or isinstance(x, int) for x in ks):
                    r = o[slice(*ks)]
                    return self.new(r) if isinstance(r, list) else r
                raise Unsupported("symbolic slice of a list")
            if isinstance(k, bool) or isinstance(k, int):
                try:
                    return o[k]
                except IndexError as e:
                    raise PyRaise(IndexError, e.args)
            if isinstance(k, T) and k.sort == "I":
                n = len(o)
                self.check_index_py(k, n)
                for j in range(n):
                    if j == n - 1 or self.branch(tm.eq(k, j)):
                        return o[j]
            raise CodeError(f"list indices must be integers, not {type(k).__name__}")
        if isinstance(k, Slice):
            ax, fn = list_axis(o)
            na, f = slice_axis(ax, k)
            r = axis_list(na, lambda i: fn(f(i)))
            return self.new(r) if isinstance(o, list) else tuple(r)
        k = tm.lift(k)
        if k.sort != "I":
            raise CodeError("list indices must be integers or slices")
        n = tm.lift(self.length(o))
        d = self.decide(tm.lt(k, 0))
        if d is True:
            k = tm.add(k, n)
        elif d is None:
            raise Unsupported("sign of a list index")
        if self.decide(tm.and_(tm.le(0, k), tm.lt(k, n))) is not True:
            if not self.branch(tm.and_(tm.le(0, k), tm.lt(k, n))):
                raise PyRaise(IndexError, ("list index out of range",))
        off = num(0)
        for x in o:
            sz = x.axis.size() if isinstance(x, Seg) else num(1)
            hi = tm.add(off, sz)
            if len(o) == 1 or self.branch(tm.lt(k, hi)):
                if isinstance(x, Seg):
                    return x.fn(x.axis.from_int(tm.sub(k, off)))
                return x
            off = hi
        raise Unsupported("list index")

    def check_index_py(self, k, n):
        if self.decide(tm.and_(tm.le(0, k), tm.lt(k, n))) is not True:
            raise Unsupported("symbolic list index may be out of range")

    def own_write(self, d, k):
        """value that the current iteration of a symbolic loop has stored under the key k"""
        if self.owner_depth(d) >= len(self.frames):
            return None
        if isinstance(k, Arr) and k.ndim == 0:
            k = tm.unlift(k.fn(()))
        for n in range(len(self.frames) - 1, self.owner_depth(d) - 1, -1):
            for obj, op, p in reversed(self.frames[n].log):
                if obj is not d:
                    continue
                if op != "setitem":
                    return None
                same = self.equal(p[0], hashable(k))
                if isinstance(same, T):
                    same = self.decide(same)
                if same is False:
                    continue
                if same is None:
                    return None
                # an inner loop must not have overwritten it before
                for f in self.frames[n + 1 :]:
                    f.reads.add(id(d))
                return (p[1],)
        return None

    def dict_item(self, d, k, default=None):
        r = self.dict_lookup(d, k)
        if r is None:
            raise PyRaise(KeyError, (k,))
        return r[0]

    def dict_lookup(self, d, k):
        """(value,) or None; branches when the presence of the key is not determined"""
        if isinstance(k, Arr) and k.ndim == 0:
            k = tm.unlift(k.fn(()))
        k = hashable(k)
        if not any(isinstance(x, (DSeg, T)) for x in d) and not isinstance(k, T) and not has_term(k):
            try:
                return (d[k],) if k in d else None
            except TypeError:
                raise CodeError("unhashable dict key")
        for kk in reversed(list(d)):
            if isinstance(kk, DSeg):
                if not self.frames and conditional(kk) is not None and self.created.get(id(d), (None,))[0] is d and self.equal(kk.key((num(0),)), k) in (True, tm.TRUE):
                    # an own dict: the entry becomes an ordinary one
                    if not self.branch(conditional(kk)):
                        continue
                    new = {}
                    for k2, v2 in d.items():
                        if k2 is kk:
                            k2, v2 = k, self.owned(kk)
                        new[k2] = v2
                    d.clear()
                    d.update(new)
                    return (d[k],)
                m = match_seg(self, Seg(kk.axis, kk.key), k)
                if m is not None:
                    return (kk.val(m),)
                from .arrays import reduce_exists

                ex = reduce_exists(kk.axis, lambda i: tm.lift(self.equal(kk.key(i), k)))
                dd = self.decide(ex)
                if dd is False:
                    continue
                g = conditional(kk)
                if g is not None or dd is None:
                    if not self.branch(ex):
                        continue
                    if g is not None:
                        return (kk.val((num(0),)),)
                    m = match_seg(self, Seg(kk.axis, kk.key), k)
                    if m is not None:
                        return (kk.val(m),)
                raise Unsupported(f"lookup of key {k!r} in a symbolic dict")
            else:
                e = self.equal(kk, k)
                if isinstance(e, T):
                    e = self.branch(e)
                if e:
                    return (d[kk],)
        return None

    def set_subscript(self, o, k, v, t, env):
        if isinstance(o, dict):
            if isinstance(k, Arr) and k.ndim == 0:
                k = tm.unlift(k.fn(()))
            self.mutate(o, "setitem", (hashable(k), v))
            return
        if isinstance(o, Obj) and hasattr(o, "setitem"):
            o.setitem(self, k, v)
            return
        if isinstance(o, Arr):
            if o.lib != "np":
                raise CodeError("jax arrays are immutable")
            # rebind the name (no aliasing of arrays is modelled: a copy would be needed)
            if not isinstance(t.value, ast.Name):
                raise Unsupported("item assignment to an array expression")
            if isinstance(v, Obj):
                raise Unsupported("item assignment")
            env.vars[t.value.id] = setitem(o, self.norm_key(k), v)
            return
        if isinstance(o, list):
            if isinstance(k, int) and not any(isinstance(x, Seg) for x in o):
                self.mutate(o, "setitem", (k, v))
                return
            raise Unsupported("list item assignment")
        raise Unsupported(f"item assignment to {type(o).__name__}")


# ======================================================================== helpers
class ExcValue:
    def __init__(self, etype, args):
        self.etype, self.args = etype, tuple(args)


class SetOf:
    def __init__(self, entries):
        self.items = entries


class DictView:
    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def entries(self, eng):
        eng.note_read(self.d)
        out = []
        for k, v in self.d.items():
            if isinstance(k, DSeg):
                f = {
                    "keys": k.key,
                    "values": k.val,
                    "items": (lambda k: (lambda i: (k.key(i), k.val(i))))(k),
                }[self.kind]
                out.append(Seg(k.axis, f))
            else:
                out.append({"keys": k, "values": v, "items": (k, v)}[self.kind])
        return out


import operator  # noqa: E402

BASIC = {
    "+": operator.add,
    "-": operator.sub,
    "*": operator.mul,
    "/": operator.truediv,
    "//": operator.floordiv,
    "%": operator.mod,
    "**": operator.pow,
    "&": operator.and_,
    "|": operator.or_,
    "^": operator.xor,
    "@": operator.matmul,
    "<": operator.lt,
    "<=": operator.le,
    ">": operator.gt,
    ">=": operator.ge,
    "==": operator.eq,
    "!=": operator.ne,
}

LIB = {}


def sort_of(v):
    return v.sort if isinstance(v, T) else None


def memo(f):
    cache = {}
    from .arrays import _ikey

    def g(idx):
        k = _ikey(idx)
        if k not in cache:
            cache[k] = f(idx)
        return cache[k]

    return g


def has_term(v):
    if isinstance(v, T):
        return True
    if isinstance(v, tuple):
        return any(has_term(x) for x in v)
    return False


def has_obj(seg):
    return any(isinstance(seg.fn(i), Obj) for i, _ in seg.axis.generic("o"))


def hashable(k):
    if isinstance(k, Arr) and k.ndim == 0:
        return tm.unlift(k.fn(()))
    if isinstance(k, (list, dict)):
        raise PyRaise(TypeError, ("unhashable type",))
    return k


def skey(k):
    return ("t", k.id) if isinstance(k, T) else k if not isinstance(k, tuple) else tuple(skey(x) for x in k)


def all_native(vs):
    for v in vs:
        if isinstance(v, (T, Arr, Seg, DSeg, Obj, Closure, Partial, VMap, Native, Method, Poison, ExcValue, SetOf, DictView, AtIndexer, Slice)):
            return False
        if isinstance(v, (list, tuple, set)):
            if not all_native(v):
                return False
        elif isinstance(v, dict):
            if not all_native(list(v.keys())) or not all_native(list(v.values())):
                return False
    return True


SAFE_MODULES = ("builtins", "itertools", "math", "operator", "collections", "_collections", "functools", "numpy", "string")


def native_ok(f):
    m = getattr(f, "__module__", None)
    if m is None:
        s = getattr(f, "__self__", None)
        m = type(s).__module__ if s is not None else "builtins"
    if getattr(f, "__name__", "") in ("open", "exec", "eval", "__import__", "input", "setattr", "delattr"):
        return False
    return m.split(".")[0] in SAFE_MODULES


def conditional(k):
    """condition of a dict entry that is present or not"""
    a = k.axis
    if isinstance(a, Dom) and len(a.axes) == 1 and isinstance(a.axes[0], Plain) and tm.is_num(a.axes[0].n) and a.axes[0].n.args[0] == 1:
        return a.guard((num(0),))
    return None


def maybe(key, guard, val):
    """dict entry that is present if guard holds; val() gives its value"""
    v = []

    def get(i):
        if not v:
            v.append(val())
        return v[0]

    return DSeg(Dom([Plain(1)], lambda i: guard), lambda i: key, get)


def overlap(write, path, key):
    """does the write (i, path, op, payload) change what is read at path (at the key only, if given)"""
    _, wp, op, payload = write
    if op == "setitem":
        wp = wp + (payload[0],)
    if any(isinstance(x, T) for x in wp + path) or isinstance(key, T):
        return True
    if key is not None:
        rp = path + (key,)
        return len(wp) <= len(rp) and rp[: len(wp)] == wp
    n = min(len(wp), len(path))
    return wp[:n] == path[:n]


def containers(v):
    if isinstance(v, (list, dict)):
        yield v
        for x in list(v) + (list(v.values()) if isinstance(v, dict) else []):
            yield from containers(x)
    elif isinstance(v, tuple):
        for x in v:
            yield from containers(x)


def apply_at(eng, v, path, op, payload):
    """copy of v with the mutation of the part that the path leads to"""
    v = list(v) if isinstance(v, list) else dict(v)
    if not path:
        if isinstance(v, dict) and op == "setitem" and any(isinstance(k, DSeg) and conditional(k) is not None for k in v):
            out = {}
            for k, x in v.items():
                if isinstance(k, DSeg) and conditional(k) is not None and eng.equal(k.key((num(0),)), payload[0]) in (True, tm.TRUE):
                    continue
                out[k] = x
            v = out
            if any(isinstance(k, DSeg) and conditional(k) is None for k in v):
                raise Unsupported("assignment to a possibly existing symbolic dict entry")
            v[payload[0]] = payload[1]
            return v
        apply_mutation(eng, v, op, payload)
        return v
    if not isinstance(v, dict):
        raise Unsupported("mutation of a part of an element")
    out, hit = {}, 0
    for k, x in v.items():
        if isinstance(k, DSeg):
            if conditional(k) is not None and eng.equal(k.key((num(0),)), path[0]) in (True, tm.TRUE):
                hit += 1
                memo_ = []

                def val(i, k=k, memo_=memo_):
                    if not memo_:
                        memo_.append(apply_at(eng, k._val(i), path[1:], op, payload))
                    return memo_[0]

                out[DSeg(k.axis, k.key, val)] = None
                continue
            if conditional(k) is None:
                raise Unsupported("mutation of a part of an element")
        elif k == path[0]:
            hit += 1
            out[k] = apply_at(eng, x, path[1:], op, payload)
            continue
        out[k] = x
    if hit != 1:
        raise Unsupported("mutation of a part of an element")
    return out


def apply_mutation(eng, obj, op, p):
    if isinstance(obj, list):
        if op == "append":
            obj.append(p)
        elif op == "extend":
            obj.extend(p)
        elif op == "setitem":
            obj[p[0]] = p[1]
        else:
            raise Unsupported(op)
    elif isinstance(obj, dict):
        if op == "setitem":
            k, v = p
            if isinstance(k, T) or has_term(k) or any(isinstance(x, DSeg) or has_term(x) for x in obj):
                # an equal key may already exist
                for kk in list(obj):
                    if isinstance(kk, DSeg):
                        from .arrays import reduce_exists

                        ex = reduce_exists(kk.axis, lambda i: tm.lift(eng.equal(kk.key(i), k)))
                        if eng.decide(ex) is not False:
                            raise Unsupported("assignment to a possibly existing symbolic dict entry")
                    else:
                        e = eng.equal(kk, k)
                        if isinstance(e, T):
                            e = eng.branch(e)
                        if e:
                            obj[kk] = v
                            return
            obj[k] = v
        elif op == "dseg":
            for kk in list(obj):
                # keys must be new
                for i, f in p.axis.generic("q"):
                    if isinstance(kk, DSeg):
                        for j, f2 in kk.axis.generic("q"):
                            e = eng.equal(p.key(i), kk.key(j))
                            if not eng.prove_under(f + f2, tm.not_(tm.lift(e))):
                                raise Unsupported("symbolic dict entries may collide")
                    else:
                        e = eng.equal(p.key(i), kk)
                        if not eng.prove_under(f, tm.not_(tm.lift(e))):
                            raise Unsupported("symbolic dict entries may collide")
            # keys of the segment are distinct
            (i, f1), = p.axis.generic("q") if not isinstance(p.axis, Cat) else [(None, None)]
            if i is not None:
                (j, f2), = p.axis.generic("q")
                e = tm.lift(eng.equal(p.key(i), p.key(j)))
                from .arrays import idx_struct_eq

                if not eng.prove_under(f1 + f2 + [e], idx_struct_eq(i, j)):
                    raise Unsupported("keys of symbolic dict entries may coincide")
            obj[p] = None
        else:
            raise Unsupported(op)
    elif isinstance(obj, Obj) and hasattr(obj, "apply"):
        obj.apply(eng, op, p)
    else:
        raise Unsupported(f"mutation of {type(obj).__name__}")


def assigned_names(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, ast.FunctionDef):
                out.add(x.name)
            elif isinstance(x, (ast.Assign, ast.AugAssign)):
                ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                for t in ts:
                    # item assignment to a local array rebinds the name
                    while isinstance(t, ast.Subscript):
                        t = t.value
                    if isinstance(t, ast.Name):
                        out.add(t.id)
    return out


def temporaries(node):
    """names that every iteration of the loop assigns before it reads them"""
    targets = assigned_names([node.target])
    out = set(targets)
    body = node.body

    def loads(n, stmts):
        for st in stmts:
            if any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == n for x in ast.walk(st)):
                return True
            if isinstance(st, ast.For) and n in assigned_names([st.target]):
                if any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load) for x in ast.walk(st.iter)):
                    return True
                continue
            if isinstance(st, (ast.If, ast.With, ast.For, ast.While)):
                head = [getattr(st, "test", None), getattr(st, "iter", None)] + [i.context_expr for i in getattr(st, "items", [])]
                if any(x is not None and any(isinstance(y, ast.Name) and y.id == n and isinstance(y.ctx, ast.Load) for y in ast.walk(x)) for x in head):
                    return True
                if loads(n, st.body) or loads(n, getattr(st, "orelse", [])):
                    return True
                continue
            if any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load) for x in ast.walk(st)):
                return True
        return False

    for n in assigned_names(body) - targets:
        if not loads(n, body):
            out.add(n)
            continue
        for st in body:
            if isinstance(st, ast.Assign) and any(isinstance(x, ast.Name) and x.id == n for t in st.targets for x in ast.walk(t)):
                if not any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load) for x in ast.walk(st)):
                    out.add(n)
                break
            if any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(st)):
                break
    return out


def make_placeholder(v, nan=False):
    """(placeholder value, vars, name, kind) for a loop-carried value, or None"""
    if isinstance(v, bool) or v is None:
        return None
    if isinstance(v, (int, float)) or (isinstance(v, T) and v.sort in "IR") or (isinstance(v, Arr) and v.ndim == 0 and v.sort != "B"):
        x = tm.fresh("acc", "R" if not (isinstance(v, int) or sort_of(v) == "I") else "I")
        if isinstance(v, Arr):
            b = tm.fresh("accnan", "B")
            return (scalar(x, b, "R"), [x, b], x.args[0], "scalar")
        return (x, [x], x.args[0], "scalar")
    if isinstance(v, Arr):
        n = tm.fresh("acc").args[0]
        eng = CUR["E"]

        def fn(idx):
            return tm.app(n, *flat_idx(idx), sort=v.sort)

        pattern = (lambda idx: tm.app(n + "_nan", *flat_idx(idx), sort="B")) if nan or v.nan is not None else None
        return (Arr(v.axes, fn, pattern, v.sort, v.lib), [], n, "array")
    return None


def flat_idx(idx):
    out = []
    for x in idx:
        if isinstance(x, tuple):
            if x and x[0] == "cat":
                out.append(num(x[1]))
                out.extend(flat_idx((x[2],)))
            else:
                out.extend(flat_idx(x))
        else:
            out.append(tm.lift(x))
    return out


def array_fixpoint(eng, t, pname, idx, pre, axis, gf, conv, facts):
    """value after the loop of an array that the loop updates pointwise"""

    def is_prev(x):
        return x.op == "app" and x.args[0] == pname and all(a is b for a, b in zip(x.args[1:], flat_idx(idx)))

    def uses(x):
        found = []

        def visit(y):
            if y.op == "app" and y.args[0] == pname:
                found.append(y)

        tm.walk(x, visit, set())
        return bool(found)

    if is_prev(t):
        return pre.fn(idx)
    if t.op == "ite":
        c, a, b = t.args
        if uses(c):
            raise Unsupported("loop-carried array condition")
        if is_prev(b) and uses(a):
            # an element that is read under a condition which identifies it with the one at idx
            prev = tm.app(pname, *flat_idx(idx), sort=pre.sort)

            def aligned(x, cs):
                if x.op == "ite" and not uses(x.args[0]):
                    return tm.ite(x.args[0], aligned(x.args[1], cs + [x.args[0]]), aligned(x.args[2], cs + [tm.not_(x.args[0])]))
                found = []
                tm.walk(x, lambda y: found.append(y) if y.op == "app" and y.args[0] == pname and y is not prev else None, set())
                with eng.assuming(list(facts) + cs):
                    for y in found:
                        if all(eng.decide(tm.eq(p_, q_)) is True for p_, q_ in zip(y.args[1:], prev.args[1:])):
                            x = subst_app(x, y, prev)
                return x

            t = tm.ite(c, aligned(a, [c]), b)
            if t.op == "ite":
                c, a, b = t.args
        if is_prev(b) and not uses(a):
            return _pointwise(eng, c, a, pre.fn(idx), idx, axis, gf, conv, facts)
        if is_prev(a) and not uses(b):
            return _pointwise(eng, tm.not_(c), b, pre.fn(idx), idx, axis, gf, conv, facts)
    # additive update
    from .arrays import reduce_sum_term
    from .nf import NF

    prev = tm.app(pname, *flat_idx(idx), sort=pre.sort)
    z = tm.fresh("z", "R")
    tz = subst_app(t, prev, z)
    if not uses(tz):
        delta = tm.subst(tz, {z: num(0)})
        with eng.assuming(facts):
            d = NF(eng.ctx).nf(tm.sub(tm.sub(tz, z), delta))
        if not d and z not in delta.fv:
            return tm.add(pre.fn(idx), reduce_sum_term(axis, lambda i: tm.subst(delta, imap(gf, conv(i)))))
    raise Unsupported("loop-carried array")


def array_fixpoint_nan(eng, t, tn, pname, idx, pre, axis, gf, conv, facts):
    """NaN pattern after the loop of an array that the loop updates pointwise: t the value, tn the pattern after an element"""
    from .arrays import reduce_exists

    prev = tm.app(pname, *flat_idx(idx), sort=pre.sort)
    prevnan = tm.app(pname + "_nan", *flat_idx(idx), sort="B")
    before = pre.nan(idx) if pre.nan is not None else tm.FALSE

    def uses(x):
        found = []
        tm.walk(x, lambda y: found.append(y) if y.op == "app" and y.args[0] in (pname, pname + "_nan") else None, set())
        return bool(found)

    if tn is prevnan:
        return before
    nn = subst_app(tn, prevnan, tm.FALSE)
    if uses(nn):
        raise Unsupported("loop-carried NaN pattern")
    if t.op == "ite" and not uses(t.args[0]):
        c, a, b = t.args
        if b is prev and not uses(a):
            return _pointwise(eng, c, nn, before, idx, axis, gf, conv, facts)
        if a is prev and not uses(b):
            return _pointwise(eng, tm.not_(c), nn, before, idx, axis, gf, conv, facts)
    if subst_app(tn, prevnan, tm.TRUE) is tm.TRUE:
        return tm.or_(before, reduce_exists(axis, lambda i: tm.subst(nn, imap(gf, conv(i)))))
    raise Unsupported("loop-carried NaN pattern")


def subst_app(t, a, b):
    memo_ = {}

    def go(x):
        if x is a:
            return b
        if not isinstance(x, T) or x.op in ("num", "str", "var", "true", "false"):
            return x
        r = memo_.get(x.id)
        if r is None:
            if x.op == "ipoly":
                r = x
            elif x.op in ("sum", "exists", "count"):
                r = x
            else:
                r = tm.rebuild(x.op, [go(y) if isinstance(y, T) else y for y in x.args], x.sort)
            memo_[x.id] = r
        return r

    return go(t)


def rename_app(v, a, b):
    def ren(t):
        memo_ = {}

        def go(x):
            if not isinstance(x, T) or x.op in ("num", "str", "var", "true", "false"):
                return x
            r = memo_.get(x.id)
            if r is None:
                args = [go(y) if isinstance(y, T) else y for y in x.args] if x.op != "ipoly" else None
                if args is None:
                    r = x
                elif x.op == "app" and x.args[0] == a:
                    r = tm.app(b, *args[1:], sort=x.sort)
                elif x.op == "app" and x.args[0] == a + "_nan":
                    r = tm.app(b + "_nan", *args[1:], sort=x.sort)
                else:
                    r = tm.rebuild(x.op, args, x.sort)
                memo_[x.id] = r
            return r

        return go(t)

    if isinstance(v, Arr):
        return Arr(v.axes, lambda i: ren(v.fn(i)), (lambda i: ren(v.nan(i))) if v.nan is not None else None, v.sort, v.lib)
    if isinstance(v, T):
        return ren(v)
    return v


def _pointwise(eng, c, new, old, idx, axis, gf, conv, facts):
    """exists loop element with c: unique because c fixes the loop variables"""
    if not isinstance(axis, Plain) or len(gf) != 1:
        raise Unsupported("pointwise update over a composite loop")
    k = gf[0]
    conj = list(c.args) if c.op == "and" else [c]
    for x in conj:
        if x.op == "eq0":
            sol = solve_eq(x, k)
            if sol is not None:
                rng = tm.and_(tm.le(0, sol), tm.lt(sol, axis.n))
                m = {k: sol}
                cond = tm.and_(rng, tm.subst(c, m))
                d = eng.decide(cond)
                if d is True:
                    return tm.subst(new, m)
                if d is False:
                    return old
                return tm.ite(cond, tm.subst(new, m), old)
    if k not in c.fv and k not in new.fv:
        return tm.ite(tm.and_(c, tm.lt(0, axis.n)), new, old)
    raise Unsupported("pointwise update: the updated position does not determine the loop element")


def solve_eq(x, k):
    """x is an integer equality; solve it for variable k (coefficient +-1)"""
    if x.op != "eq0":
        return None
    p = x.args[0]
    poly = tm._ipoly(p)
    coef = None
    rest = num(0)
    for m, c in poly.items():
        if m == (k,):
            coef = c
        elif any(k in a.fv for a in m):
            return None
        else:
            rest = tm.add(rest, tm._from_ipoly({m: c}))
    if coef == 1:
        return tm.neg(rest)
    if coef == -1:
        return rest
    return None


def solve_for(pos, target, gi, ax):
    """(condition, region index) with pos[gi := idx] == target"""
    if isinstance(gi, T):
        if pos is gi:
            return tm.and_(tm.le(0, target), tm.lt(target, ax.size())), [target]
        sol = solve_eq(tm.eq(pos, target), gi)
        if sol is not None and isinstance(ax, Plain):
            return tm.and_(tm.le(0, sol), tm.lt(sol, ax.n)), [sol]
    return None


def subst_axis(ax, m):
    if not m:
        return ax
    if isinstance(ax, Plain):
        return Plain(tm.subst(ax.n, m))
    if isinstance(ax, RawCat):
        return RawCat([subst_axis(a, m) for a in ax.axes])
    if isinstance(ax, Cat):
        return Cat([subst_axis(a, m) for a in ax.axes])
    if isinstance(ax, Comp):
        return Comp([subst_axis(a, m) for a in ax.axes])
    if isinstance(ax, Dom):
        return Dom([subst_axis(a, m) for a in ax.axes], lambda i: tm.subst(ax.guard(i), m), ax.tag)
    if isinstance(ax, DepAxis):
        return DepAxis(subst_axis(ax.outer, m), lambda i: subst_axis(ax.inner(i), m))
    if hasattr(ax, "subst"):
        return ax.subst(m)
    raise Unsupported("axis")


class RawCat(Cat):
    """concatenation without flattening"""

    def __init__(self, axes):
        self.axes = tuple(axes)


def subst_value(v, m, facts=(), eng=None):
    """v[m] for a value that was computed under facts"""
    if not m and not facts:
        return v
    if isinstance(v, T):
        return tm.unlift(tm.subst(v, m))
    if isinstance(v, Arr):

        def w(f):
            if f is None:
                return None

            def g(idx):
                if eng is not None and facts:
                    with eng.assuming(list(facts)):
                        t = f(idx)
                else:
                    t = f(idx)
                return tm.subst(t, m)

            return memo(g)

        return Arr([subst_axis(a, m) for a in v.axes], w(v.fn), w(v.nan), v.sort, v.lib)
    if isinstance(v, tuple):
        return tuple(subst_value(x, m, facts, eng) for x in v)
    if isinstance(v, (list, dict)) and eng is not None:
        ent = eng.created.get(id(v))
        if ent is not None and ent[0] is v and not (ent[2] & set(m)):
            return v  # created outside of the loop: an alias
    if isinstance(v, list):
        return [subst_value(x, m, facts, eng) for x in v]
    if isinstance(v, set):
        return {subst_value(x, m, facts, eng) for x in v}
    if isinstance(v, dict):
        return {subst_value(k, m, facts, eng): subst_value(x, m, facts, eng) for k, x in v.items()}
    if isinstance(v, Seg):
        return Seg(subst_axis(v.axis, m), lambda i: subst_value(v.fn(i), m, facts, eng))
    if isinstance(v, DSeg):
        return DSeg(
            subst_axis(v.axis, m), lambda i: subst_value(v.key(i), m, facts, eng), lambda i: subst_value(v.val(i), m, facts, eng)
        )
    if isinstance(v, Partial):
        return Partial(subst_value(v.f, m, facts, eng), subst_value(list(v.args), m, facts, eng), subst_value(v.kwargs, m, facts, eng))
    if isinstance(v, Closure):
        return subst_closure(v, m, facts, eng)
    if isinstance(v, VMap):
        return VMap(subst_value(v.f, m, facts, eng), v.in_axes, v.out_axes)
    if isinstance(v, Native):
        if hasattr(v, "subst"):
            return v.subst(m, facts, eng)
        return v
    if isinstance(v, Obj):
        if hasattr(v, "subst"):
            return v.subst(m, facts, eng)
        return v
    if isinstance(v, ExcValue):
        return ExcValue(v.etype, subst_value(v.args, m, facts, eng))
    return v


def subst_closure(c, m, facts, eng):
    if c.qual is not None or not env_has_vars(c.env, set(m), set()):
        return c
    env = subst_env(c.env, m, facts, eng)
    n = Closure(c.node, env, c.module, c.name, subst_value(c.defaults, m, facts, eng), c.kwdefaults, c.qual)
    n.attrs = {k: subst_value(v, m, facts, eng) for k, v in c.attrs.items()}
    return n


def env_has_vars(env, vs, seen):
    return env is not None


def subst_env(env, m, facts, eng, seen=None):
    if env is None:
        return None
    seen = {} if seen is None else seen
    if id(env) in seen:
        return seen[id(env)]
    n = Env(None, env.module)
    seen[id(env)] = n
    n.parent = subst_env(env.parent, m, facts, eng, seen)
    # values that do not depend on the loop variables are shared
    for k, v in env.vars.items():
        n.vars[k] = v if isinstance(v, Closure) and v.env is env else subst_value(v, m, facts, eng)
    return n


def subst_call(f, j, g, target, facts, eng):
    """value f(j) computed for the generic element g, instantiated at target"""
    gf = flat(g)
    m = imap(gf, target)
    # j may mention target variables; rename them apart
    ren, back = {}, {}
    jj = j
    fv = set()
    for x in flat(j) if j is not None else []:
        if isinstance(x, T):
            fv |= x.fv
    clash = [v for v in fv if v in gf]
    if clash:
        ren = {v: tm.fresh("r") for v in clash}
        back = {b: a for a, b in ren.items()}
        jj = subst_idx(j, ren)
    v = f(jj)
    v = subst_value(v, m, facts, eng)
    if back:
        v = subst_value(v, back, (), eng)
    return v


def mentions_placeholder(v, depth=0):
    """a loop-carried value occurs in v (values that are computed lazily are looked at once)"""
    if depth > 6:
        return False
    if isinstance(v, T):
        if any(x.args[0].startswith(("acc!", "accnan!")) for x in v.fv):
            return True
        found = []

        def visit(x):
            if x.op == "app" and x.args[0].startswith("acc!"):
                found.append(x)

        tm.walk(v, visit, set())
        return bool(found)
    if isinstance(v, (tuple, list)):
        return any(mentions_placeholder(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return any(mentions_placeholder(x, depth + 1) or mentions_placeholder(k, depth + 1) for k, x in v.items())
    return False


def imap(gf, target):
    """substitution of the generic index (flattened) by a target index"""
    return {a: b for a, b in zip(gf, flat(target)) if isinstance(a, T)}


def subst_idx(i, m):
    if isinstance(i, tuple):
        return tuple(subst_idx(x, m) for x in i)
    if isinstance(i, T):
        return tm.subst(i, m)
    return i


class Interleaved(Dom):
    """the elements of one kind of an axis with several kinds"""

    def __init__(self, axis, g):
        from .prove import _path

        self.whole = axis
        p = _path(g)
        Dom.__init__(self, [axis], lambda k: tm.TRUE if _path(k[0]) == p else tm.FALSE)


def loop_axis(axis, g, pi):
    """axis of one generic case and the map from its index to the generic index shape"""
    if isinstance(axis, RawCat):
        sub, c = loop_axis_sub(axis.axes[pi_of(axis, pi)[0]], pi_of(axis, pi)[1])
        k = pi_of(axis, pi)[0]
        return sub, lambda i: ("cat", k, c(i))
    if isinstance(axis, Cat):
        k, r = pi_of(axis, pi)
        sub, c = loop_axis_sub(axis.axes[k], r)
        return sub, lambda i: ("cat", k, c(i))
    if len(axis.generic()) > 1:  # interleaved kinds of elements: the elements of this kind
        return Interleaved(axis, g), lambda k: k[0]
    return axis, lambda i: i


def pi_of(axis, pi):
    n = 0
    for k, a in enumerate(axis.axes):
        m = len(a.generic())
        if pi < n + m:
            return k, pi - n
        n += m
    raise IndexError


def loop_axis_sub(a, r):
    if len(a.generic()) == 1:
        return a, (lambda i: i)
    if isinstance(a, Cat):
        k, r2 = pi_of(a, r)
        sub, c = loop_axis_sub(a.axes[k], r2)
        return sub, lambda i: ("cat", k, c(i))
    raise Unsupported("loop over a nested concatenation")


def comp_seg(axis, g, conv, cond, ax, fn, single, facts, eng):
    """Seg of fn(j), j in ax, for every element of axis that satisfies cond"""
    gf = flat(g)
    outer = axis
    dep = bool(set(gf) & depvars(ax))
    if cond is not tm.TRUE:
        guard = lambda i: tm.subst(cond, imap(gf, conv(i[0])))
        if single:
            dom = Dom([axis], guard)
            return Seg(dom, lambda i: subst_call(fn, num(0), g, conv(i[0]), facts, eng))
        dom = Dom([axis], guard)
        inner = lambda i: subst_axis(ax, imap(gf, conv(i[0])))
        return Seg(DepAxis(dom, inner), lambda ij: subst_call(fn, ij[1], g, conv(ij[0][0]), facts, eng))
    if single:
        return Seg(axis, lambda i: subst_call(fn, num(0), g, conv(i), facts, eng))
    if not dep and not isinstance(ax, Dom):
        c = Comp([axis, ax])
        m = len(axis.axes) if isinstance(axis, Comp) else 1

        def f(idx):
            i = tuple(idx[:m]) if isinstance(axis, Comp) else idx[0]
            j = tuple(idx[m:]) if isinstance(ax, Comp) else idx[m]
            return subst_call(fn, j, g, conv(i), facts, eng)

        return Seg(c, f)
    if isinstance(ax, Dom):
        # conditional entries of an inner loop: one filtered product
        n0 = 1
        axes = [axis]

        def guard(ij):
            m = imap(gf, conv(ij[0]))
            return tm.subst(ax_guard(ax, ij[1:], gf), m)

        if not any(bool(set(gf) & depvars(a)) for a in ax.axes):
            d = Dom([axis] + list(ax.axes), lambda ij: dom_guard(ax, ij[1:], g, conv(ij[0])))
            return Seg(d, lambda ij: subst_call(fn, tuple(ij[1:]), g, conv(ij[0]), facts, eng))
    inner = lambda i: subst_axis(ax, imap(gf, conv(i)))
    return Seg(DepAxis(axis, inner), lambda ij: subst_call(fn, ij[1], g, conv(ij[0]), facts, eng))


def dom_guard(ax, j, g, target):
    gf = flat(g)
    m = imap(gf, target)
    fv = set()
    for x in flat(tuple(j)):
        if isinstance(x, T):
            fv |= x.fv
    clash = [v for v in fv if v in gf]
    ren = {v: tm.fresh("r") for v in clash}
    back = {b: a for a, b in ren.items()}
    t = ax.guard(subst_idx(tuple(j), ren))
    t = tm.subst(t, m)
    return tm.subst(t, back) if back else t


def ax_guard(ax, idx, gf):
    return ax.guard(tuple(idx))


def depvars(ax):
    """free variables of an axis"""
    if isinstance(ax, Plain):
        return set(ax.n.fv)
    if isinstance(ax, Dom):
        out = set()
        for a in ax.axes:
            out |= depvars(a)
        for i, f in ar.RawComp(ax.axes).generic("d"):
            out |= set(ax.guard(i).fv) - {x for x in flat(i) if isinstance(x, T)}
        return out
    if isinstance(ax, DepAxis):
        out = depvars(ax.outer)
        for i, f in ax.outer.generic("d"):
            out |= depvars(ax.inner(i)) - {x for x in flat(i) if isinstance(x, T)}
        return out
    if hasattr(ax, "axes"):
        out = set()
        for a in ax.axes:
            out |= depvars(a)
        return out
    return set()


def merge_exclusive(parts):
    """one entry per element whatever the branch: merge into a conditional value"""
    if not all(p[3] for p in parts):
        return None
    conds = [p[0] for p in parts]
    # pairwise contradictory conditions
    for a in range(len(conds)):
        for b in range(a + 1, len(conds)):
            if tm.and_(conds[a], conds[b]) is not tm.FALSE and CUR["E"].decide(tm.and_(conds[a], conds[b])) is not False:
                return None
    vals = [p[2](num(0)) for p in parts]
    v = vals[-1]
    try:
        for c, x in zip(reversed(conds[:-1]), reversed(vals[:-1])):
            v = merge_values(c, x, v)
    except Unsupported:
        return None
    allc = tm.or_(*conds)
    if CUR["E"].decide(allc) is True:
        allc = tm.TRUE
    fs = []
    return (allc, Plain(1), lambda j: v, True, fs)


def merge_values(c, a, b):
    """value that is a if c else b"""
    if a is b:
        return a
    if isinstance(a, Arr) or isinstance(b, Arr):
        from .arrays import a_where

        return a_where(scalar(c), a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_values(c, x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
        return {k: merge_values(c, a[k], b[k]) for k in a}
    if isinstance(a, (T, bool, int, float, str)) and isinstance(b, (T, bool, int, float, str)):
        x, y = tm.lift(a), tm.lift(b)
        if x.sort == y.sort or {x.sort, y.sort} <= {"I", "R"}:
            return tm.unlift(tm.ite(c, x, y))
    raise Unsupported("values of different kinds in the branches of a symbolic loop")


def list_axis(lst):
    axes, fns = [], []
    for x in lst:
        if isinstance(x, Seg):
            axes.append(x.axis)
            fns.append(x.fn)
        elif axes and isinstance(fns[-1], list):
            fns[-1].append(x)
            axes[-1] = Plain(len(fns[-1]))
        else:
            axes.append(Plain(1))
            fns.append([x])
    if not axes:
        return Plain(0), (lambda i: None)

    def get(f, i):
        if isinstance(f, list):
            i = tm.lift(i)
            if tm.is_num(i):
                return f[int(i.args[0])]
            if len(f) == 1:
                return f[0]
            v = f[-1]
            for j in range(len(f) - 2, -1, -1):
                v = merge_values(tm.eq(i, j), f[j], v)
            return v
        return f(i)

    if len(axes) == 1:
        return axes[0], (lambda i: get(fns[0], i))
    return RawCat(axes), (lambda i: get(fns[i[1]], i[2]))


def axis_list(ax, fn):
    if isinstance(ax, Cat):
        out = []
        for k, a in enumerate(ax.axes):
            out.extend(axis_list(a, lambda i, k=k: fn(("cat", k, i))))
        return out
    if isinstance(ax, Plain) and tm.is_num(ax.n):
        return [fn(num(k)) for k in range(int(ax.n.args[0]))]
    return [Seg(ax, fn)]


def index0(a, i):
    r = Arr(a.axes[1:], lambda idx: a.fn((i,) + tuple(idx)), (lambda idx: a.nan((i,) + tuple(idx))) if a.nan else None, a.sort, a.lib)
    if r.ndim == 0 and r.sort in "IBS" and r.nan is None:
        return tm.unlift(r.fn(()))
    return r


def match_seg(eng, seg, x):
    """index of the element of seg that is syntactically x, or None"""
    for g, facts in seg.axis.generic("m"):
        pat = seg.fn(g)
        vs = set(flat(g))
        b = match(pat, x, vs, {})
        if b is None:
            continue
        if any(v not in b for v in vs if isinstance(v, T) and v.op == "var"):
            continue
        if all(eng.decide(tm.subst(f, b)) is True for f in facts):
            return subst_idx(g, b)
    return None


def match(p, t, vs, b):
    if isinstance(p, tuple) and isinstance(t, tuple):
        if len(p) != len(t):
            return None
        for x, y in zip(p, t):
            b = match(x, y, vs, b)
            if b is None:
                return None
        return b
    if not isinstance(p, T):
        if isinstance(t, T):
            return b if tm.lift(p) is t else None
        return b if p == t else None
    t = tm.lift(t) if not isinstance(t, T) and isinstance(t, (int, str, float)) else t
    if not isinstance(t, T):
        return None
    if p in vs:
        if p in b:
            return b if b[p] is t else None
        b = dict(b)
        b[p] = t
        return b
    if p is t:
        return b
    if not (p.fv & vs):
        return None
    if p.sort == "I":
        free = [v for v in p.fv & vs if v not in b]
        if len(free) == 1:
            s = solve_eq(tm.eq(tm.subst(p, b), t), free[0])
            if s is not None:
                b = dict(b)
                b[free[0]] = s
                return b
    if p.op != t.op or p.op in ("ipoly", "sum", "count", "exists") or len(p.args) != len(t.args):
        return None
    for x, y in zip(p.args, t.args):
        if isinstance(x, T) or isinstance(y, T):
            b = match(x, y, vs, b)
            if b is None:
                return None
        elif x != y:
            return None
    return b
