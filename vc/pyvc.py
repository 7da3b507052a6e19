"""Verification-condition front end for the plain Python functions of /repo.

The source of the imported function object (inspect.getsource, unwrapped) is
executed symbolically statement by statement:
 * numbers are terms over the reals (vc/terms.py), arrays are mutable boxes
   (shape, index -> term) of symbolic size, floats that may be NaN are pairs
   (value, is-NaN);
 * a condition that the path facts do not decide forks the path;
 * a loop over a symbolic range, or a while loop, is cut: every variable and
   array it changes is given a closed form in the iteration number (counter,
   row-wise writes, one append per iteration, value of the previous iteration,
   running sum), else stays an opaque recursion; the base and step equations of
   every closed form become obligations;
 * functions of the standard library, numpy, scipy, h5py and jax are replaced by
   contracts; functions of diffstar are entered, or replaced by the contract a
   property module gives for them.
Anything else raises Unsupported (the section falls back to a bounded stand-in).
"""
import ast
import copy
import builtins
import inspect
import math
import os
import textwrap
import types

import numpy as np
import jax
import jax.numpy as jnp

from . import terms as tm
from .terms import T, const, ZERO, ONE, TRUE, FALSE
from .smt import Ctx, is_int
from .jaxvc import Unsupported, Arr, Machine, Dims, Expr

INF, NEGINF = tm.var("INF"), tm.var("NEGINF")


# ------------------------------------------------------------------ values

class XF:
    """a float that may be NaN (nan) or infinite (not fin)"""

    def __init__(self, val, nan=FALSE, fin=None):
        self.val, self.nan = tm.lift(val), tm.lift(nan)
        self.fin = tm.lift(fin) if fin is not None else (FALSE if self.val in (INF, NEGINF) else tm.not_(self.nan))

    def __repr__(self):
        return f"XF({tm.show(self.val, 4)}, nan={tm.show(self.nan, 4)})"


class Poison:
    """value that is not known (reading it is outside the reach of the generator)"""

    def __init__(self, why):
        self.why = why


class Box:
    """mutable object"""
    def clone(self, memo):
        raise NotImplementedError

    def fill(self, vm, conds, xs):
        """take the contents of the variants xs under the given conditions"""
        raise NotImplementedError


class PArr(Box):
    def __init__(self, shape, f, kind="real", cast=None):
        self.shape = tuple(norm_int(s) for s in shape)
        self.f = f
        self.kind = kind
        self.cast = cast        # storage type with its own rounding ("f4")
        self.rows = None        # first index of the writes of the current iteration
        self.view = False       # shares memory with another array: writes are refused

    def clone(self, memo):
        a = PArr(self.shape, self.f, self.kind, self.cast)
        a.view = self.view
        memo[id(self)] = (self, a)
        return a

    def fill(self, vm, conds, xs):
        for x in xs:
            if len(x.shape) != len(self.shape):
                raise Unsupported("array changes rank")
        self.shape = xs[0].shape
        fs = [x.f for x in xs]
        if all(f is fs[0] for f in fs):
            self.f = fs[0]
        else:
            self.f = lambda *i: vmerge(conds, [f(*i) for f in fs])
        self.kind, self.cast = xs[0].kind, xs[0].cast

    @property
    def ndim(self):
        return len(self.shape)

    def get(self, *i):
        i = tuple(tm.lift(x) for x in i)
        if len(i) != len(self.shape):
            raise Unsupported("partial index")
        return self.f(*i)

    def arr(self):
        """real-valued view for Machine.call and specifications"""
        return Arr(self.shape, lambda *i: real(self.get(*i)), "bool" if self.kind == "bool" else self.kind)


class PList(Box):
    """python list: a symbolic prefix (n, get) followed by items"""

    def __init__(self, items=(), prefix=None):
        self.items = list(items)
        self.prefix = prefix

    def clone(self, memo):
        a = PList([vclone(x, memo) for x in self.items], self.prefix)
        memo[id(self)] = (self, a)
        return a

    def fill(self, vm, conds, xs):
        if all(len(x.items) == len(xs[0].items) and same_prefix(x.prefix, xs[0].prefix) for x in xs):
            self.prefix = xs[0].prefix
            self.items = [vmerge(conds, [x.items[k] for x in xs]) for k in range(len(xs[0].items))]
            return
        raise Unsupported("list lengths differ between paths")

    def length(self):
        n = len(self.items)
        return n if self.prefix is None else norm_int(tm.add(self.prefix[0], const(n)))

    def at(self, vm, k):
        if self.prefix is None and isinstance(k, int):
            return self.items[k]
        k = tm.lift(k)
        if self.prefix is None:
            if k.op == "const":
                return self.items[int(k.v)]
            return vmerge([tm.eq(k, const(q)) for q in range(len(self.items))], list(self.items))
        n, get = self.prefix
        if not self.items:
            return get(k)
        r = vm.decide(tm.lt(k, n))
        if r is True:
            return get(k)
        vals = [get(k)] + self.items
        conds = [tm.lt(k, n)] + [tm.eq(k, tm.add(n, const(q))) for q in range(len(self.items))]
        return vmerge(conds, vals)

    def append(self, vm, x):
        if self.prefix is not None and not self.items:
            y = self.prefix[1](self.prefix[0])
            if vm.same(x, y):
                n, get = self.prefix
                self.prefix = (norm_int(tm.add(n, ONE)), get)
                return
        self.items.append(x)


def same_prefix(p, q):
    if p is None or q is None:
        return p is q
    return tm.lift(p[0]) is tm.lift(q[0]) and p[1] is q[1]


class PDict(Box):
    """dict: concrete entries in insertion order, plus entries of symbolic key families (n, key(j), value(j))"""

    def __init__(self, d=None, fam=()):
        self.d = dict(d or {})
        self.fam = list(fam)

    def clone(self, memo):
        a = PDict({k: vclone(v, memo) for k, v in self.d.items()}, self.fam)
        memo[id(self)] = (self, a)
        return a

    def fill(self, vm, conds, xs):
        if all(list(x.d) == list(xs[0].d) and len(x.fam) == len(xs[0].fam) and
               all(p is q for p, q in zip(x.fam, xs[0].fam)) for x in xs):
            self.d = {k: vmerge(conds, [x.d[k] for x in xs]) for k in xs[0].d}
            self.fam = list(xs[0].fam)
            return
        raise Unsupported("dict keys differ between paths")


class Obj:
    """object known by contract only; methods py_getattr, py_getitem, py_call, py_setitem, py_iter"""
    def py_getattr(self, vm, name):
        raise Unsupported(f"attribute {name} of {type(self).__name__}")

    def py_getitem(self, vm, k):
        raise Unsupported(f"index into {type(self).__name__}")

    def py_call(self, vm, node, args, kw):
        raise Unsupported(f"call of {type(self).__name__}")


class Ext(Obj):
    """external callable with a contract: handler(vm, node, *args, **kw)"""

    def __init__(self, name, handler):
        self.name, self.handler = name, handler

    def py_call(self, vm, node, args, kw):
        return self.handler(vm, node, *args, **kw)


class Opq(Obj):
    """opaque immutable value with an identity term"""

    def __init__(self, term):
        self.term = tm.lift(term)


class Str:
    """string built from symbolic parts"""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif not (isinstance(p, str) and p == ""):
                out.append(p)
        self.parts = tuple(out)


class Fmt:
    """one formatted value inside a Str"""

    def __init__(self, spec, value):
        self.spec, self.value = spec, value


class SymSeq(Obj):
    """immutable sequence of symbolic length"""

    def __init__(self, n, get):
        self.n, self.get = norm_int(n), get


class Func:
    """function defined inside interpreted code"""

    def __init__(self, node, env, glob, name):
        self.node, self.env, self.glob, self.name = node, env, glob, name


class Range:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


def norm_int(x):
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, T):
        if x.op == "const" and x.v.denominator == 1:
            return int(x.v)
        return x
    raise Unsupported(f"integer expected, got {type(x).__name__}")


def is_num(x):
    return isinstance(x, (int, float, T, np.integer, np.floating, np.bool_)) or isinstance(x, bool)


def is_bool(x):
    return isinstance(x, (bool, np.bool_)) or (isinstance(x, T) and tm.sort_of(x) == "bool")


def lift(x):
    if isinstance(x, XF):
        raise Unsupported("possibly-NaN value used as a real")
    if isinstance(x, float) and math.isinf(x):
        return INF if x > 0 else NEGINF
    if isinstance(x, (np.floating,)) and np.isinf(x):
        return INF if x > 0 else NEGINF
    if isinstance(x, PArr) and x.ndim == 0:
        return lift(x.get())
    if isinstance(x, (T, int, float, bool, np.integer, np.floating, np.bool_)):
        return tm.lift(x)
    raise Unsupported(f"number expected, got {type(x).__name__}")


def real(x):
    if isinstance(x, XF):
        if x.nan is not FALSE:
            raise Unsupported("possibly-NaN value used as a real")
        return x.val
    return lift(x)


def xf(x):
    if isinstance(x, XF):
        return x
    if isinstance(x, float) and math.isnan(x):
        return XF(tm.var("NANVALUE"), TRUE, FALSE)
    t = lift(x)
    if tm.sort_of(t) == "bool":
        t = tm.ite(t, ONE, ZERO)
    return XF(t)


def boolt(x):
    if isinstance(x, PArr) and x.ndim == 0:
        x = x.get()
    if is_bool(x):
        return tm.lift(bool(x)) if not isinstance(x, T) else x
    raise Unsupported("boolean expected")


def vclone(x, memo):
    if isinstance(x, Box):
        if id(x) in memo:
            return memo[id(x)][1]
        return x.clone(memo)
    if isinstance(x, tuple):
        ys = [vclone(y, memo) for y in x]
        if all(a is b for a, b in zip(ys, x)):
            return x
        return x._make(ys) if hasattr(x, "_make") else tuple(ys)
    if isinstance(x, Func):
        return x
    return x


def vmap(x, f):
    """apply f to every term inside a value (new boxes)"""
    if isinstance(x, T):
        return f(x)
    if isinstance(x, XF):
        return XF(f(x.val), f(x.nan), f(x.fin))
    if isinstance(x, PArr):
        return PArr([f(tm.lift(s)) for s in x.shape], lambda *i, g=x.f: vmap(lift_keep(g(*i)), f), x.kind, x.cast)
    if isinstance(x, tuple):
        ys = [vmap(y, f) for y in x]
        return x._make(ys) if hasattr(x, "_make") else tuple(ys)
    if isinstance(x, PList):
        p = x.prefix
        return PList([vmap(y, f) for y in x.items], None if p is None else (f(tm.lift(p[0])), lambda k, g=p[1]: vmap(g(k), f)))
    if isinstance(x, Opq):
        return Opq(f(x.term))
    if isinstance(x, Str):
        return Str([p if isinstance(p, str) else Fmt(p.spec, vmap(p.value, f)) for p in x.parts])
    if isinstance(x, PDict):
        if x.fam:
            raise Unsupported("substitution into a symbolic dict")
        return PDict({k: vmap(v, f) for k, v in x.d.items()})
    if isinstance(x, SymSeq):
        y = copy.copy(x)
        y.n, y.get = norm_int(f(tm.lift(x.n))), lambda k, g=x.get: vmap(lift_keep(g(k)), f)
        return y
    if isinstance(x, Range):
        g = lambda q: norm_int(f(tm.lift(q)))
        return Range(g(x.lo), g(x.hi), g(x.step))
    if isinstance(x, Obj) and hasattr(x, "vmap"):
        return x.vmap(f)
    if isinstance(x, Obj) and not isinstance(x, Ext):
        raise Unsupported("substitution into " + type(x).__name__)
    return x


def lift_keep(x):
    return x if isinstance(x, (XF, T)) else lift(x) if is_num(x) else x


def vsub(x, m):
    return vmap(x, lambda t: tm.subst(t, m))


def disj(a, b):
    """a or b, with one resolution step: (s & c) | (s & !c) is s"""
    sa = set(a.a) if a.op == "and" else {a}
    sb = set(b.a) if b.op == "and" else {b}
    if sa <= sb:
        return a
    if sb <= sa:
        return b
    da, db = sa - sb, sb - sa
    if len(da) == 1 and len(db) == 1 and tm.not_(next(iter(da))) is next(iter(db)):
        return tm.and_(*[x for x in (a.a if a.op == "and" else [a]) if x in sb])
    return tm.or_(a, b)


def select(conds, ts):
    """nested conditional, neighbouring equal values joined"""
    groups = []
    for c, t in zip(conds, ts):
        if groups and groups[-1][1] is t:
            groups[-1][0] = disj(groups[-1][0], c)
        else:
            groups.append([c, t])
    r = groups[-1][1]
    for c, t in reversed(groups[:-1]):
        r = tm.ite(c, t, r)
    return r


def vmerge(conds, vals):
    """the value that is vals[k] under conds[k] (the last one otherwise)"""
    v0 = vals[0]
    if all(v is v0 for v in vals):
        return v0
    if any(isinstance(v, Poison) for v in vals):
        return Poison("undefined on some path")
    if all(is_num(v) or isinstance(v, XF) for v in vals):
        if any(isinstance(v, XF) or (isinstance(v, float) and math.isnan(v)) for v in vals):
            xs = [xf(v) for v in vals]
            return XF(select(conds, [v.val for v in xs]), select(conds, [v.nan for v in xs]), select(conds, [v.fin for v in xs]))
        ts = [lift(v) for v in vals]
        if len({tm.sort_of(t) == "bool" for t in ts}) > 1:
            return Poison("number or boolean")
        return select(conds, ts)
    if all(isinstance(v, PArr) for v in vals):
        if any(len(v.shape) != len(v0.shape) or any(tm.lift(a) is not tm.lift(b) for a, b in zip(v.shape, v0.shape)) for v in vals):
            return Poison("array shapes differ between paths")
        return PArr(v0.shape, lambda *i: vmerge(conds, [v.f(*i) for v in vals]), v0.kind, v0.cast)
    if all(isinstance(v, tuple) and len(v) == len(v0) and type(v) is type(v0) for v in vals):
        ys = [vmerge(conds, [v[k] for v in vals]) for k in range(len(v0))]
        return v0._make(ys) if hasattr(v0, "_make") else tuple(ys)
    if all(isinstance(v, Opq) for v in vals):
        return Opq(select(conds, [v.term for v in vals]))
    if all(isinstance(v, (str, type(None))) and v == v0 for v in vals):
        return v0
    return Poison(f"different {type(v0).__name__} values on different paths")


# ------------------------------------------------------------------ control flow

class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class PyRaise(Exception):
    """an exception of the interpreted program"""

    def __init__(self, kind, msg=""):
        self.kind, self.msg = kind, msg


class Infeasible(Exception):
    pass


class Outcome:
    def __init__(self, kind, value, facts, foralls, vm, boxes=(), effects=()):
        self.kind, self.value, self.facts, self.foralls, self.vm, self.args = kind, value, facts, foralls, vm, boxes
        self.effects = list(effects)        # files opened, in order

    def ctx(self, *extra):
        return Ctx(list(self.facts) + list(extra))

    def inst(self, j, tag=None):
        """instances at j of the universally quantified path facts"""
        out = []
        for lo, hi, f, name in self.foralls:
            if name.startswith("nested") or (tag is not None and tag not in name):
                continue
            out.append(tm.implies(tm.and_(tm.le(lo, j), tm.lt(j, hi)), f(tm.lift(j))))
        return out

    def inst2(self, k, j):
        """instances at iteration k, index j of the facts quantified inside a loop body"""
        out = []
        k, j = tm.lift(k), tm.lift(j)
        for lo, hi, f, name in self.foralls:
            if name.startswith("nested"):
                lo2, hi2, g = f(k)
                out.append(tm.implies(tm.and_(tm.le(lo, k), tm.lt(k, hi), tm.le(lo2, j), tm.lt(j, hi2)), g(j)))
        return out

    def iterations(self):
        """number of completed iterations of the last symbolic loop"""
        hs = [hi for lo, hi, f, name in self.foralls if name.startswith("loop")]
        if not hs:
            raise Unsupported("no symbolic loop on this path")
        return hs[-1]


MAX_UNROLL = 80
MAX_PATHS = 200


class VM:
    def __init__(self, facts=(), contracts=None, R=None):
        self.facts = [tm.lift(f) for f in facts]
        self.decisions = []
        self.foralls = []
        self.trail, self.pos, self.pending = [], 0, []
        self.frames = []
        self.iters = []
        self.obl = []          # (name, facts, goal)
        self.contracts = dict(contracts or {})
        self.called = set()
        self._ctx = {}
        self.nloop = 0
        self.loopid = {}
        self.cur_heads = set()
        self.effects = []
        self.witnesses = []    # indices at which facts about every iteration are used

    # -------------------------------------------------------------- facts
    def ctx(self):
        k = tuple(f.id for f in self.facts)
        c = self._ctx.get(k)
        if c is None:
            c = self._ctx[k] = Ctx(self.facts)
        return c

    def decide(self, c):
        c = tm.lift(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        return self.ctx().decide(c)

    def simp(self, t):
        return self.ctx().simp_conds(t)

    def fact(self, f):
        """fact that follows from a contract"""
        f = tm.lift(f)
        if f is not TRUE:
            self.facts.append(f)

    def branch(self, c):
        c = self.simp(boolt(c))
        r = self.decide(c)
        if r is not None:
            return r
        if self.pos < len(self.trail):
            v = self.trail[self.pos]
        else:
            v = True
            self.pending.append(list(self.trail) + [False])
            self.trail.append(True)
        self.pos += 1
        f = c if v else tm.not_(c)
        self.facts.append(f)
        self.decisions.append(f)
        if self.ctx().inconsistent():
            raise Infeasible()
        return v

    def choose(self, n):
        """non-deterministic choice out of n"""
        for k in range(n - 1):
            if self.pos < len(self.trail):
                v = self.trail[self.pos]
            else:
                v = True
                self.pending.append(list(self.trail) + [False])
                self.trail.append(True)
            self.pos += 1
            if v:
                return k
        return n - 1

    def require(self, name, goal):
        """safety condition of an operation"""
        goal = tm.lift(goal)
        if self.decide(goal) is True:
            return
        self.obl.append((name, list(self.facts), goal))
        self.facts.append(goal)

    def explore(self, thunk):
        saved = (self.trail, self.pos, self.pending, self.facts, self.foralls, self.decisions, self.frames)
        out, stack = [], [[]]
        try:
            while stack:
                if len(out) > MAX_PATHS:
                    raise Unsupported("too many paths")
                self.trail, self.pos, self.pending = stack.pop(), 0, stack
                self.facts, self.foralls, self.decisions = list(saved[3]), list(saved[4]), []
                try:
                    r = thunk()
                except Infeasible:
                    continue
                out.append((tm.and_(*self.decisions), list(self.facts), list(self.foralls), r))
        finally:
            self.trail, self.pos, self.pending, self.facts, self.foralls, self.decisions, self.frames = saved
        return out

    # -------------------------------------------------------------- entry
    def run(self, fn, mk):
        """all paths of fn(*args, **kw) with (args, kw) = mk(); a list of Outcome"""
        def thunk():
            self.frames = []
            self.effects = []
            a, k = mk()
            try:
                return "return", self.call(None, fn, list(a), dict(k)), (a, k), self.effects
            except PyRaise as e:
                return "raise", e, (a, k), self.effects
        res = []
        for d, facts, fa, (kind, v, args, eff) in self.explore(thunk):
            res.append(Outcome(kind, v, facts, fa, self, args, eff))
        return res

    # -------------------------------------------------------------- names of external results
    def site(self, name, node, *args):
        idx = [tm.lift(k) for k in self.iters]
        s = f"{name}"
        if node is not None:
            s += f"@{getattr(node, '_site', 0)}"
        return s, idx

    def ident(self, x):
        """term that identifies a value (argument of an opaque function)"""
        if isinstance(x, Opq):
            return x.term
        if isinstance(x, XF):
            return tm.ite(x.nan, tm.var("NANVALUE"), x.val) if x.nan is not FALSE else x.val
        if isinstance(x, (T, int, float, bool, np.integer, np.floating, np.bool_)):
            t = lift(x)
            return tm.ite(t, ONE, ZERO) if tm.sort_of(t) == "bool" else t
        if isinstance(x, PArr):
            def nest(pre):
                d = len(pre)
                if d == x.ndim:
                    return self.ident(x.get(*pre))
                return tm.Lam(tm.lift(x.shape[d]), lambda j: nest(pre + (j,)))
            return nest(())
        if isinstance(x, str):
            return strterm(x)
        if isinstance(x, Str):
            return tm.uf("text", *[strterm(p) if isinstance(p, str) else tm.uf("fmt:" + p.spec, self.ident(p.value), sort="int") for p in x.parts], sort="int")
        if isinstance(x, Ext):
            return tm.ivar("fun:" + x.name)
        if x is None:
            return tm.ivar("None")
        if isinstance(x, tuple):
            return tm.uf("tuple", *[self.ident(y) for y in x], sort="int")
        if isinstance(x, PList) and x.prefix is None:
            return tm.uf("tuple", *[self.ident(y) for y in x.items], sort="int")
        raise Unsupported(f"identity of {type(x).__name__}")

    # -------------------------------------------------------------- statements
    @property
    def env(self):
        return self.frames[-1]

    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        return m(s)

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Return(self, s):
        raise Ret(None if s.value is None else self.ev(s.value))

    def s_Break(self, s):
        raise Brk()

    def s_Continue(self, s):
        raise Cnt()

    def s_Assert(self, s):
        if not self.truth(self.ev(s.test)):
            raise PyRaise("AssertionError", "" if s.msg is None else str(self.ev(s.msg)))

    def s_Raise(self, s):
        if s.exc is None:
            raise Unsupported("re-raise")
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        raise PyRaise(ast.unparse(e))

    def s_If(self, s):
        self.block(s.body if self.truth(self.ev(s.test)) else s.orelse)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t.id)
            v = self.ev(s.value)
            if isinstance(old, PArr) and old.ndim > 0:
                new = self.binop(type(s.op).__name__, PArr(old.shape, old.f, old.kind, old.cast), v)
                self.setitem(old, Ellipsis, new)
                return
            if isinstance(old, PList):
                if not isinstance(s.op, ast.Add):
                    raise Unsupported("list operator")
                for x in self.iterate(v):
                    old.append(self, x)
                return
            self.env[t.id] = self.binop(type(s.op).__name__, old, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            self.setitem(o, k, self.binop(type(s.op).__name__, self.getitem(o, k), self.ev(s.value)))
        else:
            raise Unsupported("augmented assignment target")

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                xs = list(self.iterate(v))
                p = next(q for q, e in enumerate(t.elts) if isinstance(e, ast.Starred))
                m = len(t.elts) - p - 1
                for e, x in zip(t.elts[:p], xs[:p]):
                    self.assign(e, x)
                self.assign(t.elts[p].value, PList(xs[p:len(xs) - m]))
                for e, x in zip(t.elts[p + 1:], xs[len(xs) - m:]):
                    self.assign(e, x)
                return
            xs = list(self.iterate(v))
            if len(xs) != len(t.elts):
                raise PyRaise("ValueError", "unpack")
            for e, x in zip(t.elts, xs):
                self.assign(e, x)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value), self.ev_index(t.slice), v)
        else:
            raise Unsupported("assignment target " + type(t).__name__)

    def s_FunctionDef(self, s):
        if s.decorator_list:
            raise Unsupported("decorated local function")
        self.env[s.name] = Func(s, self.frames, self.glob, s.name)

    def s_With(self, s):
        for it in s.items:
            o = self.ev(it.context_expr)
            if not isinstance(o, Obj) or not getattr(o, "is_context", False):
                raise Unsupported("with statement on " + type(o).__name__)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, o)
        self.block(s.body)

    def s_For(self, s):
        it = self.ev(s.iter)
        xs = self.concrete_seq(it)
        if xs is not None:
            for q, x in enumerate(xs):
                self.iters.append(q)
                try:
                    self.assign(s.target, x)
                    self.block(s.body)
                except Brk:
                    break
                except Cnt:
                    pass
                finally:
                    self.iters.pop()
            else:
                self.block(s.orelse)
            return
        n, get = self.sym_seq(it)
        self.sym_loop(s, n, get)

    def ends_soon(self, s):
        """trial run on copies: every test of the first iterations is decided and the loop ends"""
        saved = (self.trail, self.pos, self.pending, self.facts, self.foralls, self.decisions, self.frames, len(self.obl), list(self.iters), set(self.called))
        memo = {}
        self.trail, self.pos, self.pending = [], 0, []
        self.facts, self.foralls, self.decisions = list(self.facts), list(self.foralls), []
        self.frames = [{q: vclone(v, memo) for q, v in fr.items()} for fr in self.frames]
        try:
            for q in range(6):
                c = self.ev(s.test)
                r = self.decide(boolt(c)) if not isinstance(c, XF) else None
                if r is None:
                    return False
                if not r:
                    return True
                self.iters.append(q)
                try:
                    self.block(s.body)
                except (Brk, Ret, PyRaise):
                    return True
                except Cnt:
                    pass
                finally:
                    self.iters.pop()
            return False
        except Infeasible:
            return True
        finally:
            (self.trail, self.pos, self.pending, self.facts, self.foralls, self.decisions, self.frames, n, self.iters, self.called) = saved
            del self.obl[n:]

    def s_While(self, s):
        if not self.ends_soon(s):
            return self.sym_loop(s, None, None)
        for q in range(6):
            c = self.ev(s.test)
            r = self.decide(boolt(c)) if not isinstance(c, XF) else None
            if r is None:
                break
            if not r:
                self.block(s.orelse)
                return
            self.iters.append(q)
            try:
                self.block(s.body)
            except Brk:
                return
            except Cnt:
                pass
            finally:
                self.iters.pop()
        else:
            raise Unsupported("while loop does not end")
        raise Unsupported("while loop partly unrolled")

    def s_Import(self, s):
        raise Unsupported("import statement")

    s_ImportFrom = s_Import

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.env.pop(t.id, None)
            else:
                raise Unsupported("del")

    # -------------------------------------------------------------- symbolic loops
    def sym_loop(self, s, n, get):
        from . import pyloop
        pyloop.run(self, s, n, get)

    # -------------------------------------------------------------- sequences
    def concrete_seq(self, it):
        """list of the elements, None if the length is symbolic"""
        if isinstance(it, (tuple, list)):
            return list(it)
        if isinstance(it, str):
            return list(it)
        if isinstance(it, Range):
            if all(isinstance(norm_int(q), int) for q in (it.lo, it.hi, it.step)):
                r = range(norm_int(it.lo), norm_int(it.hi), norm_int(it.step))
                if len(r) > MAX_UNROLL:
                    return None
                return list(r)
            return None
        if isinstance(it, PList):
            return list(it.items) if it.prefix is None else None
        if isinstance(it, PDict):
            if it.fam:
                return None
            return list(it.d)
        if isinstance(it, PArr):
            if it.ndim and isinstance(it.shape[0], int):
                return [self.getitem(it, k) for k in range(it.shape[0])]
            return None
        if isinstance(it, SymSeq):
            return None if not isinstance(it.n, int) else [it.get(const(k)) for k in range(it.n)]
        if isinstance(it, Obj) and hasattr(it, "py_seq"):
            return None
        if isinstance(it, dict):
            return list(it)
        raise Unsupported("iteration over " + type(it).__name__)

    def sym_seq(self, it):
        """(length, element at index)"""
        if isinstance(it, Range):
            st = norm_int(it.step)
            if st != 1:
                raise Unsupported("range step")
            lo, hi = tm.lift(it.lo), tm.lift(it.hi)
            n = self.simp(tm.max_(tm.sub(hi, lo), ZERO))
            return n, (lambda k: norm_int(tm.add(lo, k)))
        if isinstance(it, PArr):
            return tm.lift(it.shape[0]), (lambda k: self.getitem(it, k))
        if isinstance(it, PList):
            return tm.lift(it.length()), (lambda k: it.at(self, k))
        if isinstance(it, SymSeq):
            return tm.lift(it.n), it.get
        if isinstance(it, Obj) and hasattr(it, "py_seq"):
            return it.py_seq(self)
        xs = self.concrete_seq(it)
        if xs is not None:
            return const(len(xs)), (lambda k: PList(xs).at(self, k))
        raise Unsupported("iteration over " + type(it).__name__)

    def iterate(self, it):
        xs = self.concrete_seq(it)
        if xs is None:
            raise Unsupported("sequence of symbolic length")
        return xs

    def length(self, x):
        if isinstance(x, (tuple, list, str, dict)):
            return len(x)
        if isinstance(x, PList):
            return x.length()
        if isinstance(x, PArr):
            return x.shape[0]
        if isinstance(x, PDict) and not x.fam:
            return len(x.d)
        if isinstance(x, SymSeq):
            return x.n
        if isinstance(x, Range):
            return norm_int(self.simp(tm.max_(tm.sub(tm.lift(x.hi), tm.lift(x.lo)), ZERO)))
        if isinstance(x, Obj) and hasattr(x, "py_len"):
            return norm_int(x.py_len(self))
        raise Unsupported("len of " + type(x).__name__)

    # -------------------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        return e.value

    def name(self, n):
        if n in self.env:
            v = self.env[n]
        elif n in self.clos:
            v = self.clos[n]
        elif n in self.glob:
            v = self.glob[n]
        elif hasattr(builtins, n):
            v = getattr(builtins, n)
        else:
            raise PyRaise("NameError", n)
        if isinstance(v, Poison):
            raise Unsupported(f"variable {n}: {v.why}")
        return v

    @property
    def glob(self):
        return self.frames[-1].get("  glob", {})

    @property
    def clos(self):
        return self.frames[-1].get("  clos", {})

    def e_Name(self, e):
        return self.name(e.id)

    def e_Tuple(self, e):
        return tuple(self.elts(e.elts))

    def e_List(self, e):
        return PList(self.elts(e.elts))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.iterate(self.ev(x.value))
            else:
                out.append(self.ev(x))
        return out

    def e_Dict(self, e):
        d = PDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v)
                if isinstance(o, PDict) and not o.fam:
                    d.d.update(o.d)
                else:
                    raise Unsupported("dict unpacking")
            else:
                self.setitem(d, self.ev(k), self.ev(v))
        return d

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                spec = "" if v.format_spec is None else "".join(q.value for q in v.format_spec.values)
                parts.append(self.fmt(self.ev(v.value), spec))
        return self.mkstr(parts)

    def fmt(self, x, spec):
        if isinstance(x, str):
            return format(x, spec)
        if isinstance(x, Str):
            if spec:
                raise Unsupported("format of a symbolic string")
            return x
        if isinstance(x, (int, bool)) and not isinstance(x, T):
            return format(x, spec)
        if isinstance(x, float):
            return Fmt(spec, lift(x)) if spec else format(x, spec)
        return Fmt(spec, x)

    def mkstr(self, parts):
        flat = []
        for p in parts:
            flat += list(p.parts) if isinstance(p, Str) else [p]
        s = Str(flat)
        if all(isinstance(p, str) for p in s.parts):
            return "".join(s.parts)
        return s

    def e_IfExp(self, e):
        return self.ev(e.body) if self.truth(self.ev(e.test)) else self.ev(e.orelse)

    def e_BoolOp(self, e):
        v = None
        for k, x in enumerate(e.values):
            v = self.ev(x)
            if k == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, T) else False
            if isinstance(e.op, ast.Or) and t:
                return v if not isinstance(v, T) else True
        return v

    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, np.bool_)):
            return bool(v)
        if isinstance(v, (int, float, str, tuple, list, dict)):
            return bool(v)
        if isinstance(v, T):
            if tm.sort_of(v) == "bool":
                return self.branch(v)
            return self.branch(tm.not_(tm.eq(v, ZERO)))
        if isinstance(v, PArr):
            if v.ndim == 0 or all(isinstance(q, int) and q == 1 for q in v.shape):
                return self.truth(v.get(*[ZERO] * v.ndim))
            raise Unsupported("truth value of an array")
        if isinstance(v, (PList, PDict, SymSeq)):
            n = self.length(v)
            return n > 0 if isinstance(n, int) else self.branch(tm.lt(ZERO, n))
        if isinstance(v, (Obj, Func, types.FunctionType, types.ModuleType, type)):
            return True
        raise Unsupported("truth value of " + type(v).__name__)

    def e_Compare(self, e):
        a = self.ev(e.left)
        r = None
        for op, x in zip(e.ops, e.comparators):
            b = self.ev(x)
            c = self.compare(type(op).__name__, a, b)
            r = c if r is None else self.binop("BitAnd", r, c)
            if len(e.ops) > 1 and r is False:
                return False
            a = b
        return r

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.is_(a, b)
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else self.unop("Not", r)
        if isinstance(a, PArr) or isinstance(b, PArr):
            return self.ew(lambda x, y: self.cmp1(op, x, y), a, b, kind="bool")
        return self.cmp1(op, a, b)

    def is_(self, a, b):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, T) or isinstance(b, T):
                if a is None or b is None:
                    return False
                raise Unsupported("identity of a symbolic boolean")
            return a is b
        if isinstance(a, (Obj, Box, types.FunctionType, types.ModuleType, type)):
            return a is b
        raise Unsupported("identity test")

    def contains(self, seq, x):
        if isinstance(x, str) and isinstance(seq, (str, tuple, list, dict)):
            return x in seq
        if isinstance(seq, PDict) and not seq.fam and isinstance(x, (str, int)):
            return x in seq.d
        if isinstance(seq, (tuple, PList)):
            xs = self.iterate(seq)
            r = False
            for y in xs:
                c = self.compare("Eq", x, y)
                r = c if r is False else self.binop("BitOr", r, c)
            return r
        raise Unsupported("membership test")

    def cmp1(self, op, a, b):
        if isinstance(a, (str, Opq)) or isinstance(b, (str, Opq)):
            if isinstance(a, str) and isinstance(b, str):
                r = {"Eq": a == b, "NotEq": a != b}.get(op)
                if r is None:
                    raise Unsupported("string order")
                return r
            if op not in ("Eq", "NotEq") or not all(isinstance(x, (str, Opq)) for x in (a, b)):
                raise Unsupported("comparison of opaque values")
            c = tm.eq(self.ident(a), self.ident(b))
            return c if op == "Eq" else tm.not_(c)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if op in ("Eq", "NotEq") and len(a) == len(b):
                c = tm.and_(*[boolt(self.cmp1("Eq", x, y)) for x, y in zip(a, b)])
                return c if op == "Eq" else tm.not_(c)
            if op in ("Eq", "NotEq"):
                return op == "NotEq"
        if a is None or b is None:
            if op in ("Eq", "NotEq"):
                return (a is b) == (op == "Eq")
        if isinstance(a, int) and isinstance(b, int):
            return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if isinstance(a, XF) or isinstance(b, XF):
            x, y = xf(a), xf(b)
            ok = tm.and_(tm.not_(x.nan), tm.not_(y.nan))
            p, q = x.val, y.val
            c = {"Eq": tm.eq, "Lt": tm.lt, "LtE": tm.le, "Gt": tm.gt, "GtE": tm.ge, "NotEq": tm.eq}[op](p, q)
            if op == "NotEq":
                return unb(tm.not_(tm.and_(ok, c)))
            return unb(tm.and_(ok, c))
        p, q = lift(a), lift(b)
        if (tm.sort_of(p) == "bool") != (tm.sort_of(q) == "bool"):
            p, q = [tm.ite(x, ONE, ZERO) if tm.sort_of(x) == "bool" else x for x in (p, q)]
        c = {"Eq": lambda x, y: tm.eq(x, y), "NotEq": lambda x, y: tm.not_(tm.eq(x, y)), "Lt": tm.lt, "LtE": tm.le, "Gt": tm.gt, "GtE": tm.ge}[op](p, q)
        return unb(c)

    def e_UnaryOp(self, e):
        return self.unop(type(e.op).__name__, self.ev(e.operand))

    def unop(self, op, v):
        if op == "Not":
            if isinstance(v, T) and tm.sort_of(v) == "bool":
                return unb(tm.not_(v))
            if isinstance(v, PArr) and v.ndim == 0:
                return self.unop(op, v.get())
            return not self.truth(v)
        if isinstance(v, PArr):
            return self.ew(lambda x: self.unop(op, x), v, kind=v.kind)
        if op == "Invert":
            if is_bool(v):
                if isinstance(v, bool):
                    raise Unsupported("~ on a python bool")
                return unb(tm.not_(boolt(v)))
            raise Unsupported("~ on a number")
        if op == "USub":
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return -v
            if isinstance(v, XF):
                return XF(tm.mul(const(-1), v.val), v.nan, v.fin)
            t = lift(v)
            if t is INF:
                return NEGINF
            return unn(tm.mul(const(-1), t))
        if op == "UAdd":
            return v
        raise Unsupported("operator " + op)

    def e_BinOp(self, e):
        return self.binop(type(e.op).__name__, self.ev(e.left), self.ev(e.right))

    def binop(self, op, a, b):
        if isinstance(a, PArr) or isinstance(b, PArr):
            k = "bool" if op in ("BitAnd", "BitOr", "BitXor") else "real"
            if all(getattr(x, "kind", "int" if isinstance(x, int) or (isinstance(x, T) and is_int(x)) else "real") == "int" for x in (a, b)) and op != "Div":
                k = "int"
            r = self.ew(lambda x, y: self.bin1(op, x, y), a, b, kind=k)
            # numpy keeps the narrow storage type against Python numbers and arrays of the same type
            cs = {x.cast for x in (a, b) if isinstance(x, PArr)}
            if k == "real" and len(cs) == 1 and None not in cs and all(isinstance(x, (PArr, int, float)) for x in (a, b)):
                c, g = cs.pop(), r.f
                r.f, r.cast = (lambda *i: self.storage(g(*i), c)), c
            return r
        return self.bin1(op, a, b)

    def bin1(self, op, a, b):
        if op == "Add" and isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
            return self.mkstr([a, b])
        if op == "Mod" and isinstance(a, str):
            raise Unsupported("% formatting")
        if op == "Add" and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if op == "Add" and isinstance(a, PList) and isinstance(b, PList):
            if b.prefix is None:
                return PList(a.items + b.items, a.prefix)
            raise Unsupported("list concatenation")
        if op == "Mult" and isinstance(a, PList) and isinstance(b, int) and a.prefix is None:
            return PList(a.items * b)
        if op in ("BitAnd", "BitOr", "BitXor"):
            if isinstance(a, int) and isinstance(b, int):
                return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[op]
            p, q = boolt(a), boolt(b)
            return unb({"BitAnd": tm.and_(p, q), "BitOr": tm.or_(p, q),
                        "BitXor": tm.or_(tm.and_(p, tm.not_(q)), tm.and_(q, tm.not_(p)))}[op])
        if isinstance(a, int) and isinstance(b, int) and op != "Div":
            try:
                return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "FloorDiv": lambda: a // b,
                        "Mod": lambda: a % b, "Pow": lambda: a ** b}[op]()
            except (ZeroDivisionError, KeyError):
                raise Unsupported("integer operator")
        if isinstance(a, XF) or isinstance(b, XF):
            x, y = xf(a), xf(b)
            nan = tm.or_(x.nan, y.nan)
            return XF(lift(self.bin1(op, x.val, y.val)), nan, tm.and_(x.fin, y.fin))
        p, q = [tm.ite(x, ONE, ZERO) if tm.sort_of(x) == "bool" else x for x in (lift(a), lift(b))]
        if op == "Add":
            return unn(tm.add(p, q))
        if op == "Sub":
            return unn(tm.sub(p, q))
        if op == "Mult":
            return unn(tm.mul(p, q))
        if op == "Div":
            return unn(tm.div(p, q))
        if op == "FloorDiv":
            if is_int(p) and q.op == "const" and q.v > 0 and q.v.denominator == 1:
                p = self.simp(p)
                d = tm.div(p, q)
                if is_int(d):
                    return unn(d)
                r = tm.uf("floordiv", p, q, sort="int")
                self.fact(tm.and_(tm.le(tm.mul(q, r), p), tm.lt(p, tm.add(tm.mul(q, r), q))))
                return r
            raise Unsupported("floor division")
        if op == "Mod":
            if is_int(p) and q.op == "const" and q.v > 0 and q.v.denominator == 1:
                r = self.bin1("FloorDiv", p, q)
                return unn(tm.sub(p, tm.mul(q, lift(r))))
            raise Unsupported("modulo")
        if op == "Pow":
            if q.op == "const" and q.v.denominator == 1 and abs(q.v) <= 8:
                return unn(tm.ipow(p, int(q.v)) if q.v >= 0 else tm.div(ONE, tm.ipow(p, int(-q.v))))
            if p.op == "const" and p.v == 10:
                return unn(tm.pow10(q))
            raise Unsupported("power")
        raise Unsupported("operator " + op)

    def ew(self, f, *xs, kind="real"):
        """elementwise with broadcasting"""
        arrs = [x for x in xs if isinstance(x, PArr)]
        nd = max(a.ndim for a in arrs)
        shape = []
        for d in range(nd):
            dims = [a.shape[a.ndim - nd + d] for a in arrs if a.ndim - nd + d >= 0]
            big = [q for q in dims if not (isinstance(q, int) and q == 1)]
            s = big[0] if big else 1
            for q in big[1:]:
                if tm.lift(q) is not tm.lift(s):
                    r = self.decide(tm.eq(tm.lift(q), tm.lift(s)))
                    if r is None:
                        # shapes must agree, else numpy raises
                        self.require("operands have the same shape", tm.eq(tm.lift(q), tm.lift(s)))
                    elif not r:
                        raise PyRaise("ValueError", "shape mismatch")
            shape.append(s)

        def g(*i):
            vals = []
            for x in xs:
                if isinstance(x, PArr):
                    ii = i[nd - x.ndim:]
                    ii = [ZERO if isinstance(s, int) and s == 1 else q for q, s in zip(ii, x.shape)]
                    vals.append(x.get(*ii))
                else:
                    vals.append(x)
            return lift_keep(f(*vals))
        # operands are read now: later writes into them must not show
        snap = [PArr(x.shape, x.f, x.kind) if isinstance(x, PArr) else x for x in xs]
        xs = snap
        return PArr(shape, g, kind)

    def e_Subscript(self, e):
        return self.getitem(self.ev(e.value), self.ev_index(e.slice))

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return slice(*[None if q is None else self.ev(q) for q in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(q) for q in s.elts)
        return self.ev(s)

    def bound(self, k, n, default):
        """slice bound: numpy semantics"""
        if k is None:
            return tm.lift(default)
        if isinstance(k, PArr):
            k = k.get()
        k, n = tm.lift(norm_int(k)), tm.lift(n)
        if k.op == "const" and k.v < 0:
            return self.simp(tm.max_(tm.add(n, k), ZERO))
        if k.op != "const":
            # one piecewise expression when the sign is not known
            if self.decide(tm.le(ZERO, k)) is not True:
                k = tm.ite(tm.lt(k, ZERO), tm.max_(tm.add(n, k), ZERO), k)
        if self.decide(tm.le(k, n)) is True:
            return k
        return self.simp(tm.min_(k, n))

    def index(self, k, n):
        """integer index into a dimension of size n, with the range check as a safety condition"""
        if isinstance(k, PArr) and k.ndim == 0:
            k = k.get()
        k = norm_int(k)
        if isinstance(k, int) and isinstance(n, int):
            if not -n <= k < n:
                raise PyRaise("IndexError")
            return const(k % n if n else 0)
        if isinstance(k, int) and k < 0:
            self.require("index within range", tm.le(ZERO, tm.add(tm.lift(n), const(k))))
            return tm.add(tm.lift(n), const(k))
        kt = tm.lift(k)
        lo = self.decide(tm.le(ZERO, kt))
        if lo is not True:
            if lo is None:
                raise Unsupported("index of unknown sign")
            kt = tm.add(tm.lift(n), kt)
        self.require("index within range", tm.lt(kt, tm.lift(n)))
        return kt

    def getitem(self, o, k):
        if isinstance(o, Obj) and not isinstance(o, SymSeq):
            return o.py_getitem(self, k)
        if isinstance(o, PArr):
            ks = k if isinstance(k, tuple) else (k,)
            if any(q is Ellipsis for q in ks):
                p = list(ks).index(Ellipsis)
                ks = ks[:p] + (slice(None),) * (o.ndim - len(ks) + 1) + ks[p + 1:]
            if any(isinstance(q, PArr) and q.kind == "bool" and q.ndim for q in ks):
                raise Unsupported("boolean selection")
            maps, shape = [], []
            d = 0
            for q in ks:
                if q is None:
                    shape.append(1)
                    maps.append(("new",))
                    continue
                if d >= o.ndim:
                    raise PyRaise("IndexError", "too many indices")
                n = o.shape[d]
                if isinstance(q, slice):
                    if q.step not in (None, 1):
                        if q.step == -1 and q.start is None and q.stop is None:
                            maps.append(("rev", tm.lift(n)))
                            shape.append(n)
                            d += 1
                            continue
                        raise Unsupported("slice step")
                    a, b = self.bound(q.start, n, 0), self.bound(q.stop, n, n)
                    ln = tm.sub(b, a)
                    if self.decide(tm.le(ZERO, ln)) is not True:
                        ln = self.simp(tm.max_(ln, ZERO))
                    maps.append(("off", a))
                    shape.append(ln)
                elif isinstance(q, PArr) and q.ndim == 1 and q.kind == "int":
                    q2 = q
                    maps.append(("take", q2))
                    shape.append(q2.shape[0])
                else:
                    maps.append(("at", self.index(q, n)))
                d += 1
            while d < o.ndim:
                maps.append(("off", ZERO))
                shape.append(o.shape[d])
                d += 1
            f0 = o.f

            def g(*i):
                i = list(i)
                src = []
                for m in maps:
                    if m[0] == "new":
                        i.pop(0)
                    elif m[0] == "at":
                        src.append(m[1])
                    elif m[0] == "off":
                        src.append(tm.add(i.pop(0), m[1]))
                    elif m[0] == "rev":
                        src.append(tm.sub(tm.sub(m[1], ONE), i.pop(0)))
                    else:
                        src.append(tm.lift(m[1].get(i.pop(0))))
                return f0(*src)
            if not shape:
                return unn(lift_keep(g()))
            r = PArr(shape, g, o.kind, o.cast)
            if not any(m[0] == "take" for m in maps):
                r.view = o.view = True
            return r
        if isinstance(o, (PList, tuple, list)):
            if isinstance(k, slice):
                if isinstance(o, PList) and o.prefix is not None:
                    raise Unsupported("slice of a symbolic list")
                xs = o.items if isinstance(o, PList) else list(o)
                try:
                    r = xs[slice(*[None if q is None else int(norm_int(q)) for q in (k.start, k.stop, k.step)])]
                except TypeError:
                    raise Unsupported("symbolic slice of a list")
                return PList(r) if isinstance(o, PList) else tuple(r)
            n = self.length(o)
            i = self.index(k, n)
            if isinstance(o, PList):
                return o.at(self, norm_int(i))
            i = norm_int(i)
            if isinstance(i, int):
                return o[i]
            return vmerge([tm.eq(i, const(q)) for q in range(len(o))], list(o))
        if isinstance(o, PDict):
            if isinstance(k, (str, int)) and k in o.d and not o.fam:
                return o.d[k]
            if isinstance(k, (str, int)) and not o.fam:
                raise PyRaise("KeyError", str(k))
            raise Unsupported("lookup in a symbolic dict")
        if isinstance(o, SymSeq):
            if isinstance(k, slice):
                if k.step not in (None, 1):
                    raise Unsupported("slice step")
                a, b = self.bound(k.start, o.n, 0), self.bound(k.stop, o.n, o.n)
                return SymSeq(self.simp(tm.max_(tm.sub(b, a), ZERO)), lambda q: o.get(tm.add(tm.lift(q), a)))
            return o.get(self.index(k, o.n))
        if isinstance(o, str) and isinstance(k, (int, slice)):
            return o[k]
        if isinstance(o, dict):
            if k in o:
                return o[k]
            raise PyRaise("KeyError", str(k))
        if isinstance(o, np.ndarray):
            return self.getitem(self.to_arr(o), k)
        raise Unsupported("index into " + type(o).__name__)

    def setitem(self, o, k, v):
        if isinstance(o, Obj):
            return o.py_setitem(self, k, v)
        if isinstance(o, PDict):
            if isinstance(k, (str, int)):
                if o.fam and k not in o.d:
                    raise Unsupported("write into a symbolic dict")
                o.d[k] = v
                return
            o.fam.append(("one", self.ident(k), v))
            return
        if isinstance(o, PList):
            if o.prefix is None and isinstance(k, int):
                o.items[k] = v
                return
            raise Unsupported("list item assignment")
        if isinstance(o, PArr):
            return self.setarr(o, k, v)
        raise Unsupported("item assignment on " + type(o).__name__)

    def setarr(self, o, k, v):
        if o.view:
            raise Unsupported("write into an array that shares memory with another one")
        ks = k if isinstance(k, tuple) else (k,)
        if len(ks) == 1 and ks[0] is Ellipsis:
            ks = ()
        if any(q is Ellipsis for q in ks):
            p = list(ks).index(Ellipsis)
            ks = ks[:p] + (slice(None),) * (o.ndim - len(ks) + 1) + ks[p + 1:]
        if isinstance(v, PList) or isinstance(v, tuple):
            v = self.to_arr(v)
        old = o.f
        cast = (lambda x: self.storage(x, o.cast)) if o.cast else (lambda x: x)
        if len(ks) == 1 and isinstance(ks[0], PArr) and ks[0].kind == "bool":
            m = ks[0]
            if m.ndim != o.ndim:
                raise Unsupported("mask of another rank")
            if isinstance(v, PArr) and v.ndim:
                raise Unsupported("masked write of an array")
            if isinstance(v, PArr):
                v = v.get()
            mf = m.f
            o.f = lambda *i: vmerge([boolt(mf(*i)), TRUE], [cast(lift_keep(v)), old(*i)])
            o.rows = self.add_row(o.rows, None)
            return
        conds = []   # per dimension: idx -> (condition, index into v or None)
        vshape = []
        for d, q in enumerate(ks):
            n = o.shape[d]
            if isinstance(q, slice):
                if q.step not in (None, 1):
                    raise Unsupported("slice step")
                a, b = self.bound(q.start, n, 0), self.bound(q.stop, n, n)
                conds.append(("off", a, b))
                vshape.append(tm.sub(b, a))
            elif isinstance(q, PArr) and q.ndim:
                raise Unsupported("write through an index array")
            else:
                conds.append(("at", self.index(q, n)))
        for d in range(len(ks), o.ndim):
            conds.append(("off", ZERO, tm.lift(o.shape[d])))
            vshape.append(tm.lift(o.shape[d]))
        if isinstance(v, PArr):
            if v.ndim > len(vshape):
                raise PyRaise("ValueError", "could not broadcast")
            for s, w in zip(v.shape, vshape[len(vshape) - v.ndim:]):
                if not (isinstance(s, int) and s == 1) and self.decide(tm.eq(tm.lift(s), w)) is not True:
                    self.require("shape of the assigned array", tm.eq(tm.lift(s), w))
            vf, vnd, vs = v.f, v.ndim, v.shape

            def val(j):
                j = j[len(j) - vnd:]
                return vf(*[ZERO if isinstance(s, int) and s == 1 else q for q, s in zip(j, vs)])
        else:
            def val(j):
                return lift_keep(v)

        def g(*i):
            c, j = [], []
            for q, t in zip(i, conds):
                if t[0] == "at":
                    c.append(tm.eq(q, t[1]))
                else:
                    if t[1] is not ZERO:
                        c.append(tm.le(t[1], q))
                    if t[2] is not tm.lift(o.shape[conds.index(t)]):
                        c.append(tm.lt(q, t[2]))
                    j.append(tm.sub(q, t[1]))
            cc = tm.and_(*c)
            if cc is TRUE:
                return cast(val(j))
            if cc is FALSE:
                return old(*i)
            return vmerge([cc, TRUE], [cast(lift_keep(val(j))), lift_keep(old(*i))])
        o.f = g
        o.rows = self.add_row(o.rows, conds[0][1] if conds and conds[0][0] == "at" else None)

    def add_row(self, rows, r):
        return (rows or []) + [r]

    def storage(self, x, cast):
        if isinstance(x, XF):
            return XF(tm.uf(cast, x.val), x.nan, x.fin)
        t = lift(x)
        return t if t.op == "const" else tm.uf(cast, t)

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def getattr(self, o, name):
        from .pycontracts import attribute
        return attribute(self, o, name)

    def e_Lambda(self, e):
        return Func(e, self.frames, self.glob, "<lambda>")

    def e_Starred(self, e):
        raise Unsupported("starred expression")

    def e_ListComp(self, e):
        return self.comp(e, e.elt)

    def e_GeneratorExp(self, e):
        return self.comp(e, e.elt)

    def e_DictComp(self, e):
        d = PDict()
        for k, v in self.iterate(self.comp(e, ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()))):
            self.setitem(d, k, v)
        return d

    def comp(self, e, elt):
        if len(e.generators) != 1 or e.generators[0].ifs:
            gens = e.generators
            out = []

            def go(q):
                if q == len(gens):
                    out.append(self.ev(elt))
                    return
                for x in self.iterate(self.ev(gens[q].iter)):
                    self.assign(gens[q].target, x)
                    if all(self.truth(self.ev(c)) for c in gens[q].ifs):
                        go(q + 1)
            return self.scoped(lambda: (go(0), PList(out))[1])
        g = e.generators[0]
        it = self.ev(g.iter)
        xs = self.concrete_seq(it)

        def conc():
            out = []
            for q, x in enumerate(xs):
                self.iters.append(q)
                try:
                    self.assign(g.target, x)
                    out.append(self.ev(elt))
                finally:
                    self.iters.pop()
            return PList(out)
        if xs is not None:
            return self.scoped(conc)
        n, get = self.sym_seq(it)
        k = tm.fresh("_c")

        def one():
            self.frames = self.frames[:-1] + [dict(self.frames[-1])]
            self.iters.append(k)
            self.facts += [tm.le(ZERO, k), tm.lt(k, tm.lift(n))]
            try:
                self.assign(g.target, get(k))
                return self.ev(elt)
            finally:
                self.iters.pop()
        res = self.explore(one)
        v = vmerge([r[0] for r in res], [r[3] for r in res])
        if isinstance(v, Poison):
            raise Unsupported("comprehension: " + v.why)
        return PList([], (norm_int(n), lambda j: vsub(v, {k: tm.lift(j)})))

    def scoped(self, f):
        saved = dict(self.frames[-1])
        try:
            return f()
        finally:
            now = self.frames[-1]
            for q in list(now):
                if q not in saved:
                    del now[q]
            now.update(saved)

    # -------------------------------------------------------------- calls
    def e_Call(self, e):
        f = self.ev(e.func)
        args = self.elts(e.args)
        kw = {}
        for q in e.keywords:
            if q.arg is None:
                o = self.ev(q.value)
                if isinstance(o, PDict) and not o.fam:
                    kw.update(o.d)
                else:
                    raise Unsupported("** of a symbolic mapping")
            else:
                kw[q.arg] = self.ev(q.value)
        return self.call(e, f, args, kw)

    def call(self, node, f, args, kw):
        from .pycontracts import lookup
        h = self.contracts.get(ident_fn(f))
        if h is not None:
            self.called.add(ident_fn(f))
            return h(self, node, *args, **kw)
        if isinstance(f, Obj):
            return f.py_call(self, node, args, kw)
        if isinstance(f, Func):
            return self.call_ast(f.node, args, kw, f.glob, self.closure_env(f), f.name, defaults=None)
        h = lookup(f)
        if h is not None:
            return h(self, node, *args, **kw)
        g = inspect.unwrap(f) if callable(f) else f
        if isinstance(g, types.FunctionType) and (g.__module__ or "").startswith("diffstar"):
            if is_jitted(f):
                from .pycontracts import call_jax
                return call_jax(self, f, args, kw)
            return self.call_py(g, args, kw)
        if isinstance(f, type) and issubclass(f, tuple) and hasattr(f, "_fields"):
            return f(*args, **kw)
        if is_jitted(f):
            from .pycontracts import call_jax
            return call_jax(self, f, args, kw)
        raise Unsupported("call of " + getattr(f, "__qualname__", repr(f))[:80])

    def closure_env(self, f):
        return f.env[-1] if f.env else {}

    def call_py(self, g, args, kw):
        node = fn_ast(g)
        clos = {}
        if g.__closure__:
            clos = {n: c.cell_contents for n, c in zip(g.__code__.co_freevars, g.__closure__)}
        sig_d = (g.__defaults__ or (), g.__kwdefaults__ or {})
        return self.call_ast(node, args, kw, g.__globals__, clos, g.__qualname__, sig_d)

    def call_ast(self, node, args, kw, glob, clos, name, defaults):
        if len(self.frames) > 20:
            raise Unsupported("recursion")
        a = node.args
        env = {"  glob": glob, "  clos": clos}
        pos = [x.arg for x in a.posonlyargs + a.args]
        if defaults is None:
            dv = [self.ev(d) for d in a.defaults]
            kd = {x.arg: self.ev(d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        else:
            dv, kd = list(defaults[0]), dict(defaults[1])
        for n, v in zip(pos[len(pos) - len(dv):], dv):
            env[n] = v
        for n, v in zip(pos, args):
            env[n] = v
        if len(args) > len(pos):
            if a.vararg is None:
                raise PyRaise("TypeError", "too many arguments")
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(pos):])
        env.update(kd)
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        extra = {}
        for n, v in kw.items():
            if n in names:
                if n in pos[:len(args)]:
                    raise PyRaise("TypeError", "multiple values for " + n)
                env[n] = v
            else:
                extra[n] = v
        if a.kwarg is not None:
            env[a.kwarg.arg] = PDict(extra)
        elif extra:
            raise PyRaise("TypeError", "unexpected argument " + ", ".join(extra))
        for n in names:
            if n not in env:
                raise PyRaise("TypeError", "missing argument " + n)
        self.frames = self.frames + [env]
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body)
            self.block(node.body)
            return None
        except Ret as r:
            return r.v
        finally:
            self.frames = self.frames[:-1]

    # -------------------------------------------------------------- comparisons of values
    def same(self, x, y):
        """syntactically equal under the path facts"""
        if x is y:
            return True
        if is_num(x) and is_num(y):
            p, q = lift(x), lift(y)
            if p is q or self.simp(p) is self.simp(q):
                return True
            if tm.sort_of(p) == "bool" and tm.sort_of(q) == "bool":
                return self.decide(tm.and_(tm.or_(p, tm.not_(q)), tm.or_(q, tm.not_(p)))) is True
            return False
        if isinstance(x, XF) or isinstance(y, XF):
            if not all(isinstance(v, XF) or is_num(v) for v in (x, y)):
                return False
            p, q = xf(x), xf(y)
            if not self.same(p.nan, q.nan):
                return False
            return self.decide(p.nan) is True or self.same(p.val, q.val)
        if isinstance(x, PArr) and isinstance(y, PArr):
            if len(x.shape) != len(y.shape) or any(tm.lift(a) is not tm.lift(b) for a, b in zip(x.shape, y.shape)):
                return False
            i = [tm.ivar(f"_s{q}") for q in range(x.ndim)]
            return self.same(x.get(*i), y.get(*i))
        if isinstance(x, Opq) and isinstance(y, Opq):
            return self.simp(x.term) is self.simp(y.term)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.same(a, b) for a, b in zip(x, y))
        return x == y if isinstance(x, str) and isinstance(y, str) else False

    def to_arr(self, x, kind=None):
        """np.array(x)"""
        if isinstance(x, PArr):
            return PArr(x.shape, x.f, x.kind, x.cast)
        if is_num(x) or isinstance(x, XF):
            return PArr((), lambda: lift_keep(x), "bool" if is_bool(x) else "real")
        if isinstance(x, (np.ndarray, jax.Array)):
            xn = np.asarray(x)
            if xn.dtype.kind not in "fiub":
                raise Unsupported("array of " + str(xn.dtype))

            def g(*i):
                if all(q.op == "const" for q in i):
                    return lift_keep(xn[tuple(int(q.v) for q in i)].item())
                raise Unsupported("symbolic index into a constant array")
            return PArr(xn.shape, g, {"f": "real", "i": "int", "u": "int", "b": "bool"}[xn.dtype.kind])
        if isinstance(x, (PList, tuple, list)):
            if isinstance(x, PList) and x.prefix is not None:
                n = x.length()
                x0 = x
                x = PList(list(x.items), x.prefix)
                e = x.at(self, tm.ivar("_e"))
                sub = self.to_arr(e)
                return PArr((n, *sub.shape), lambda k, *i: self.to_arr(x.at(self, k)).get(*i), sub.kind)
            xs = self.iterate(x)
            if not xs:
                return PArr((0,), lambda i: ZERO)
            subs = [self.to_arr(y) for y in xs]
            s0 = subs[0].shape
            for q in subs[1:]:
                if len(q.shape) != len(s0) or any(tm.lift(a) is not tm.lift(b) and self.decide(tm.eq(tm.lift(a), tm.lift(b))) is not True
                                                  for a, b in zip(q.shape, s0)):
                    raise Unsupported("ragged array")

            def g(k, *i):
                vals = [q.get(*i) for q in subs]
                if k.op == "const":
                    return vals[int(k.v)]
                return vmerge([tm.eq(k, const(q)) for q in range(len(vals))], vals)
            return PArr((len(subs), *s0), g, subs[0].kind)
        if isinstance(x, SymSeq):
            return self.to_arr(PList([], (x.n, x.get)))
        if isinstance(x, Obj) and hasattr(x, "py_arr"):
            return x.py_arr(self)
        raise Unsupported("array from " + type(x).__name__)


def strterm(s):
    return tm.ivar("str:" + s)


def unb(c):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    return c


def unn(t):
    """python int for an integer constant"""
    if isinstance(t, T) and t.op == "const" and t.v.denominator == 1 and False:
        return int(t.v)
    return t


def is_jitted(f):
    return hasattr(f, "lower") and hasattr(f, "trace")


def ident_fn(f):
    try:
        return ("m", id(f.__self__), f.__func__) if isinstance(f, types.MethodType) else id(f)
    except Exception:
        return id(f)


_AST = {}


def fn_ast(g):
    node = _AST.get(g)
    if node is None:
        try:
            src = textwrap.dedent(inspect.getsource(g))
        except OSError:
            raise Unsupported("no source for " + g.__qualname__)
        try:
            mod = ast.parse(src)
        except SyntaxError:
            raise Unsupported("source of " + g.__qualname__)
        node = mod.body[0]
        if isinstance(node, ast.FunctionDef):
            pass
        else:
            lam = [q for q in ast.walk(mod) if isinstance(q, ast.Lambda)]
            if len(lam) != 1:
                raise Unsupported("lambda source")
            node = lam[0]
        cnt = {}
        for q in ast.walk(node):
            if isinstance(q, ast.Call):
                key = ast.unparse(q.func)
                cnt[key] = cnt.get(key, 0) + 1
                q._site = f"{g.__name__}.{key}.{cnt[key]}"
        _AST[g] = node
    return node
