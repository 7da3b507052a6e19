"""Contracts of the library functions that the Python code of /repo calls (numpy, jax.numpy, builtins, os.path, h5py)."""
import builtins
import collections
import math
import os
import types

import h5py
import numpy as np
import jax
import jax.numpy as jnp

from . import terms as tm
from .terms import T, const, ZERO, ONE, TRUE, FALSE
from .smt import is_int
from .jaxvc import Unsupported, Arr, Machine, Dims, Expr
from .pyvc import (XF, Poison, Box, PArr, PList, PDict, Obj, Ext, Opq, Str, Fmt, SymSeq, Range, Func, INF, NEGINF, PyRaise,
                   is_num, is_bool, lift, lift_keep, real, xf, boolt, norm_int, vmerge, vsub, vmap, strterm, unb)

TABLE = {}


def contract(*fs):
    def deco(h):
        for f in fs:
            try:
                TABLE[f] = h
            except TypeError:
                TABLE[id(f)] = h
        return h
    return deco


def lookup(f):
    try:
        h = TABLE.get(f)
        if h is not None:
            return h
    except TypeError:
        pass
    h = TABLE.get(id(f))
    if h is not None:
        return h
    # concrete builtin methods bound to concrete values
    if isinstance(f, (types.BuiltinMethodType, types.MethodType)) and isinstance(getattr(f, "__self__", None), (str, tuple, type)):
        return lambda vm, node, *a, **k: concrete(vm, f, a, k)
    return None


def concrete(vm, f, a, k):
    me = f.__self__
    if isinstance(me, type) and issubclass(me, tuple) and f.__name__ == "_make":
        return me._make(vm.iterate(a[0]))
    if hasattr(me, "_fields") and f.__name__ == "_replace":
        return me._replace(**k)
    if hasattr(me, "_fields") and f.__name__ == "_asdict":
        return PDict(me._asdict())
    if isinstance(me, str):
        if f.__name__ == "join":
            xs = a[0]
            if isinstance(xs, PList) and xs.prefix is not None:
                return Str([Fmt("join:" + me, xs)])
            parts = []
            for q, x in enumerate(vm.iterate(xs)):
                if q:
                    parts.append(me)
                if not isinstance(x, (str, Str)):
                    raise PyRaise("TypeError", "join of a non-string")
                parts.append(x)
            return vm.mkstr(parts)
        if f.__name__ == "format":
            return fmt_method(vm, me, a, k)
        if f.__name__ in ("split", "strip", "startswith", "endswith", "replace", "lower", "upper", "lstrip", "rstrip") and all(isinstance(x, (str, int)) for x in a):
            r = f(*a, **k)
            return PList(r) if isinstance(r, list) else r
    raise Unsupported("method " + f.__name__)


def fmt_method(vm, s, a, k):
    import string
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if conv or (spec and "{" in spec):
            raise Unsupported("format conversion")
        if field == "":
            x = a[auto]
            auto += 1
        elif field.isdigit():
            x = a[int(field)]
        elif field in k:
            x = k[field]
        else:
            raise Unsupported("format field " + field)
        parts.append(vm.fmt(x, spec))
    return vm.mkstr(parts)


# ------------------------------------------------------------------ attributes

def attribute(vm, o, name):
    if isinstance(o, Obj):
        return o.py_getattr(vm, name)
    if isinstance(o, types.ModuleType):
        if not hasattr(o, name):
            raise PyRaise("AttributeError", name)
        return getattr(o, name)
    if isinstance(o, PArr):
        return arr_attr(vm, o, name)
    if isinstance(o, PList):
        if name == "append":
            return Ext("append", lambda vm, node, x: o.append(vm, x))
        if name == "extend":
            return Ext("extend", lambda vm, node, xs: [o.append(vm, x) for x in vm.iterate(xs)] and None)
        if name == "index" and o.prefix is None and all(isinstance(x, str) for x in o.items):
            return Ext("index", lambda vm, node, x: o.items.index(x))
        raise Unsupported("list method " + name)
    if isinstance(o, PDict):
        if name == "keys" and not o.fam:
            return Ext("keys", lambda vm, node: PList(list(o.d)))
        if name == "values" and not o.fam:
            return Ext("values", lambda vm, node: PList(list(o.d.values())))
        if name == "items" and not o.fam:
            return Ext("items", lambda vm, node: PList([(k, v) for k, v in o.d.items()]))
        if name == "get" and not o.fam:
            return Ext("get", lambda vm, node, k, d=None: o.d.get(k, d))
        if name == "update":
            def upd(vm, node, *a, **kw):
                for x in a:
                    if not isinstance(x, PDict) or x.fam:
                        raise Unsupported("dict update")
                    o.d.update(x.d)
                o.d.update(kw)
            return Ext("update", upd)
        raise Unsupported("dict method " + name)
    if isinstance(o, tuple) and hasattr(o, "_fields"):
        if name in o._fields or name in ("_fields", "_make", "_replace", "_asdict"):
            return getattr(o, name)
        raise PyRaise("AttributeError", name)
    if isinstance(o, type):
        if hasattr(o, "_fields") and name in ("_make", "_fields"):
            return getattr(o, name)
        if o in (np.ndarray,):
            return getattr(o, name)
    if isinstance(o, str):
        return getattr(o, name)
    if isinstance(o, Str) and name == "format":
        raise Unsupported("format of a symbolic string")
    if isinstance(o, (np.ndarray, jax.Array)):
        return arr_attr(vm, vm.to_arr(o), name)
    if isinstance(o, (T, XF, int, float, np.generic)) and name == "astype":
        return Ext("astype", lambda vm, node, dt: o)
    if isinstance(o, np.ufunc):
        if name == "accumulate" and o in (np.maximum, np.minimum, np.add):
            return Ext(o.__name__ + ".accumulate", lambda vm, node, a, axis=0: running(vm, o, a, axis))
        raise Unsupported(f"attribute {name} of {o.__name__}")
    if isinstance(o, T) and name == "size":
        return 1
    raise Unsupported(f"attribute {name} of {type(o).__name__}")


def size(vm, o):
    r = ONE
    for s in o.shape:
        r = tm.mul(r, tm.lift(s))
    return norm_int(r)


def arr_attr(vm, o, name):
    if name == "shape":
        return tuple(o.shape)
    if name == "size":
        return size(vm, o)
    if name == "ndim":
        return o.ndim
    if name == "dtype":
        return Opq(strterm("dtype:" + str(o.kind)))
    if name == "T":
        return PArr(tuple(reversed(o.shape)), lambda *i, f=o.f: f(*reversed(i)), o.kind, o.cast)
    if name == "at":
        return At(o)
    if name in METHODS:
        h = METHODS[name]
        return Ext(name, lambda vm, node, *a, **k: h(vm, node, o, *a, **k))
    raise Unsupported("array attribute " + name)


class At(Obj):
    """jax functional update x.at[i].set(v)"""

    def __init__(self, o, k=None):
        self.o, self.k = o, k

    def vmap(self, f):
        return At(vmap(self.o, f), None if self.k is None else vmap(self.k, f))

    def py_getitem(self, vm, k):
        return At(self.o, (k,))

    def py_getattr(self, vm, name):
        if name not in ("set", "add", "multiply") or self.k is None:
            raise Unsupported("at." + name)

        def h(vm, node, v):
            r = PArr(self.o.shape, self.o.f, self.o.kind)
            if name != "set":
                v = vm.binop({"add": "Add", "multiply": "Mult"}[name], vm.getitem(self.o, self.k[0]), v)
            vm.setitem(r, self.k[0], v)
            r.rows = None
            return r
        return Ext("at." + name, h)


# ------------------------------------------------------------------ builtins

@contract(len)
def _len(vm, node, x):
    return vm.length(x)


@contract(range)
def _range(vm, node, a, b=None, c=1):
    lo, hi = (0, a) if b is None else (a, b)
    f = lambda q: norm_int(q.get() if isinstance(q, PArr) else q)
    return Range(f(lo), f(hi), f(c))


@contract(enumerate)
def _enumerate(vm, node, xs, start=0):
    c = vm.concrete_seq(xs)
    if c is not None:
        return PList([(q + start, x) for q, x in enumerate(c)])
    n, get = vm.sym_seq(xs)
    return SymSeq(n, lambda k: (norm_int(tm.add(tm.lift(start), tm.lift(k))), get(k)))


@contract(zip)
def _zip(vm, node, *xs):
    cs = [vm.concrete_seq(x) for x in xs]
    if all(c is not None for c in cs):
        return PList([tuple(t) for t in zip(*cs)])
    ns = [vm.sym_seq(x) for x in xs]
    n = tm.lift(ns[0][0])
    for m, _ in ns[1:]:
        m = tm.lift(m)
        if m is not n and vm.decide(tm.eq(m, n)) is not True:
            n = vm.simp(tm.min_(n, m))
    return SymSeq(n, lambda k: tuple(g(k) for _, g in ns))


@contract(list)
def _list(vm, node, x=()):
    c = vm.concrete_seq(x)
    if c is not None:
        return PList(c)
    n, get = vm.sym_seq(x)
    return PList([], (norm_int(n), get))


@contract(tuple)
def _tuple(vm, node, x=()):
    c = vm.concrete_seq(x)
    if c is None:
        n, get = vm.sym_seq(x)
        return SymSeq(n, get)
    return tuple(c)


@contract(dict)
def _dict(vm, node, *a, **k):
    d = PDict()
    for x in a:
        if isinstance(x, PDict) and not x.fam:
            d.d.update(x.d)
        else:
            for kk, v in vm.iterate(x):
                vm.setitem(d, kk, v)
    d.d.update(k)
    return d


@contract(float)
def _float(vm, node, x):
    if isinstance(x, PArr) and (x.ndim == 0 or all(isinstance(s, int) and s == 1 for s in x.shape)):
        x = x.get(*[ZERO] * x.ndim)
    if isinstance(x, int) and not isinstance(x, bool):
        return tm.lift(x)
    if isinstance(x, str):
        return float(x)
    if is_num(x) or isinstance(x, XF):
        return x
    raise Unsupported("float of " + type(x).__name__)


@contract(int)
def _int(vm, node, x):
    if isinstance(x, PArr) and x.ndim == 0:
        x = x.get()
    if isinstance(x, str):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, T) and is_int(x):
        return norm_int(x)
    if isinstance(x, T):
        return trunc(x)
    raise Unsupported("int of " + type(x).__name__)


def trunc(t):
    """conversion to integer"""
    t = lift(t)
    if tm.sort_of(t) == "bool":
        return tm.ite(t, const(1), const(0))
    if is_int(t):
        return t
    if t.op == "const":
        return const(int(t.v))
    return tm.uf("int", t, sort="int")


@contract(bool)
def _bool(vm, node, x):
    if is_bool(x):
        return x
    return vm.truth(x)


@contract(str)
def _str(vm, node, x=""):
    if isinstance(x, str) or isinstance(x, Str):
        return x
    if isinstance(x, int):
        return str(x)
    return Str([Fmt("str", x)])


@contract(abs, np.abs, jnp.abs)
def _abs(vm, node, x):
    return un(vm, lambda v: tm.abs_(real(v)), x)


def un(vm, f, x, kind="real"):
    x = arrlike(vm, x)
    if isinstance(x, PArr):
        return vm.ew(lambda v: f(v), x, kind=kind)
    return f(x)


def arrlike(vm, x):
    if isinstance(x, (PList, list, np.ndarray, jax.Array)) or (isinstance(x, tuple)):
        return vm.to_arr(x)
    return x


def mm(op):
    def h(vm, node, *xs, **kw):
        if kw:
            raise Unsupported("keyword of min/max")
        if len(xs) == 1:
            xs = vm.iterate(xs[0])
        r = xs[0]
        for y in xs[1:]:
            if isinstance(r, XF) or isinstance(y, XF) or isinstance(r, PArr) and r.ndim or isinstance(y, PArr) and y.ndim:
                raise Unsupported("python min/max")
            if isinstance(r, int) and isinstance(y, int):
                r = min(r, y) if op == "min" else max(r, y)
            else:
                a, b = lift(r), lift(y)
                r = tm.min_(a, b) if op == "min" else tm.max_(a, b)
        return r
    return h


contract(min)(mm("min"))
contract(max)(mm("max"))


@contract(sum)
def _pysum(vm, node, xs, start=0):
    c = vm.concrete_seq(xs)
    if c is not None:
        r = start
        for x in c:
            r = vm.binop("Add", r, x)
        return r
    n, get = vm.sym_seq(xs)
    return tm.add(lift(start), tm.Sum(ZERO, n, lambda j: real(get(j))))


@contract(isinstance)
def _isinstance(vm, node, x, t):
    raise Unsupported("isinstance")


@contract(hasattr)
def _hasattr(vm, node, x, n):
    if isinstance(x, tuple):
        return hasattr(x, n)
    raise Unsupported("hasattr")


@contract(getattr)
def _getattr(vm, node, x, n, *d):
    if isinstance(n, str):
        if d and isinstance(x, tuple) and not hasattr(x, n):
            return d[0]
        return attribute(vm, x, n)
    raise Unsupported("getattr")


@contract(collections.namedtuple)
def _namedtuple(vm, node, name, fields, **k):
    nokw(k)
    fields = fields if isinstance(fields, str) else vm.iterate(fields)
    if not isinstance(name, str) or not all(isinstance(x, str) for x in fields):
        raise Unsupported("symbolic field names")
    return collections.namedtuple(name, fields)


@contract(print)
def _print(vm, node, *a, **k):
    return None


@contract(os.path.join, os.path.basename, os.path.dirname)
def _path(vm, node, *a):
    raise Unsupported("path of symbolic parts")


def _pathf(f):
    def h(vm, node, *a):
        if all(isinstance(x, str) for x in a):
            return f(*a)
        if f is os.path.join:
            return Opq(tm.uf("path", *[vm.ident(x) for x in a], sort="int"))
        return Opq(tm.uf(f.__name__, *[vm.ident(x) for x in a], sort="int"))
    return h


for _f in (os.path.join, os.path.basename, os.path.dirname):
    contract(_f)(_pathf(_f))


# ------------------------------------------------------------------ numpy

def shape_of(vm, s):
    if isinstance(s, (tuple, PList, list)):
        return tuple(norm_int(x) for x in vm.iterate(s))
    return (norm_int(s),)


def dt_kind(dtype):
    if dtype is None:
        return "real", None
    if dtype is float or dtype is np.float64 or dtype is jnp.float64:
        return "real", None
    if dtype is int or dtype in (np.int64, jnp.int64):
        return "int", None
    if dtype is bool or dtype is np.bool_:
        return "bool", None
    if isinstance(dtype, str) or dtype in (np.float32, jnp.float32, np.int32):
        d = np.dtype(dtype)
        if d == np.float64:
            return "real", None
        if d == np.float32:
            return "real", "f4"
        if d.kind in "iu":
            return "int", None
        if d.kind == "b":
            return "bool", None
    raise Unsupported("dtype " + str(dtype))


def full(vm, shape, val, dtype=None):
    k, c = dt_kind(dtype)
    v = lift_keep(val)
    if k == "bool" and not is_bool(v):
        v = tm.lift(v.v != 0) if v.op == "const" else tm.not_(tm.eq(v, ZERO))
    return PArr(shape, lambda *i: v, k, c)


@contract(np.zeros, jnp.zeros)
def _zeros(vm, node, shape, dtype=None):
    return full(vm, shape_of(vm, shape), 0, dtype)


@contract(np.ones, jnp.ones)
def _ones(vm, node, shape, dtype=None):
    return full(vm, shape_of(vm, shape), 1, dtype)


@contract(np.full, jnp.full)
def _full(vm, node, shape, v, dtype=None):
    return full(vm, shape_of(vm, shape), v, dtype)


@contract(np.empty)
def _empty(vm, node, shape, dtype=None):
    k, c = dt_kind(dtype)
    nm = tm.fresh("_empty").v[0]
    return PArr(shape_of(vm, shape), lambda *i: tm.uf(nm, *i, sort="bool" if k == "bool" else k), k, c)


def like(val):
    def h(vm, node, a, dtype=None):
        a = vm.to_arr(a)
        if dtype is None and a.kind == "int":
            return PArr(a.shape, lambda *i: tm.lift(val), "int")
        return full(vm, a.shape, val, dtype)
    return h


contract(np.zeros_like, jnp.zeros_like)(like(0))
contract(np.ones_like, jnp.ones_like)(like(1))


@contract(np.full_like, jnp.full_like)
def _full_like(vm, node, a, v, dtype=None):
    return full(vm, vm.to_arr(a).shape, v, dtype)


@contract(np.array, np.asarray, jnp.array, jnp.asarray, np.copy, jnp.copy, np.atleast_1d, jnp.atleast_1d)
def _array(vm, node, x, dtype=None, **kw):
    r = vm.to_arr(x)
    return r if dtype is None else astype(vm, node, r, dtype)


@contract(np.arange, jnp.arange)
def _arange(vm, node, a, b=None):
    lo, hi = (0, a) if b is None else (a, b)
    lo, hi = norm_int(lo), norm_int(hi)
    n = vm.simp(tm.max_(tm.sub(tm.lift(hi), tm.lift(lo)), ZERO))
    return PArr((n,), lambda i: tm.add(tm.lift(lo), i), "int")


def ew1(f):
    return lambda vm, node, x, **kw: nokw(kw) or un(vm, f, x)


def nokw(kw):
    if kw:
        raise Unsupported("keyword " + ", ".join(kw))
    return None


def partial(name, f, dom):
    """elementwise function with a domain; NaN outside is not modelled, so the domain is a safety condition"""
    def g(v):
        if isinstance(v, XF):
            return XF(f(v.val), v.nan, v.fin)
        return f(lift(v))
    return lambda vm, node, x, **kw: nokw(kw) or un(vm, g, x)


contract(np.log10, jnp.log10)(partial("log10", tm.log10, None))
contract(np.log, jnp.log)(partial("log", tm.log, None))
contract(np.exp, jnp.exp)(partial("exp", tm.exp, None))
contract(np.sqrt, jnp.sqrt)(partial("sqrt", tm.sqrt, None))


def clip(vm, x, lo, hi):
    x = arrlike(vm, x)

    def one(v, a, b):
        t = real(v)
        if a is not None and lift(a) is not NEGINF:
            t = tm.max_(t, real(a))
        if b is not None and lift(b) is not INF:
            t = tm.min_(t, real(b))
        return t
    if any(isinstance(q, PArr) for q in (x, lo, hi)):
        args = [x] + [q for q in (lo, hi) if isinstance(q, PArr)]

        def f(v, *r):
            r = list(r)
            a = r.pop(0) if isinstance(lo, PArr) else lo
            b = r.pop(0) if isinstance(hi, PArr) else hi
            return one(v, a, b)
        return vm.ew(f, *args)
    return one(x, lo, hi)


@contract(np.clip, jnp.clip)
def _clip(vm, node, x, a_min=None, a_max=None, **kw):
    lo = kw.pop("min", a_min)
    hi = kw.pop("max", a_max)
    nokw(kw)
    return clip(vm, x, lo, hi)


@contract(np.maximum, jnp.maximum)
def _maximum(vm, node, a, b):
    return ew2(vm, lambda x, y: tm.max_(real(x), real(y)), a, b)


@contract(np.minimum, jnp.minimum)
def _minimum(vm, node, a, b):
    return ew2(vm, lambda x, y: tm.min_(real(x), real(y)), a, b)


def ew2(vm, f, a, b, kind="real"):
    a, b = arrlike(vm, a), arrlike(vm, b)
    if isinstance(a, PArr) or isinstance(b, PArr):
        return vm.ew(f, a, b, kind=kind)
    return f(a, b)


for _nm, _op in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("logical_and", "BitAnd"), ("logical_or", "BitOr")):
    for _m in (np, jnp):
        contract(getattr(_m, _nm))(lambda vm, node, a, b, op=_op: vm.binop(op, arrlike(vm, a), arrlike(vm, b)))
for _nm, _op in (("less", "Lt"), ("less_equal", "LtE"), ("greater", "Gt"), ("greater_equal", "GtE"), ("equal", "Eq"), ("not_equal", "NotEq")):
    for _m in (np, jnp):
        contract(getattr(_m, _nm))(lambda vm, node, a, b, op=_op: vm.compare(op, arrlike(vm, a), arrlike(vm, b)))


@contract(np.logical_not, jnp.logical_not, np.invert)
def _lnot(vm, node, a):
    return un(vm, lambda v: tm.not_(boolt(v)), a, "bool")


@contract(np.where, jnp.where)
def _where(vm, node, c, *ab):
    if len(ab) != 2:
        raise Unsupported("where with one argument")
    a, b = (arrlike(vm, x) for x in ab)
    c = arrlike(vm, c)
    if any(isinstance(x, PArr) for x in (a, b, c)):
        k = a.kind if isinstance(a, PArr) else b.kind if isinstance(b, PArr) else "real"
        return vm.ew(lambda q, x, y: vmerge([boolt(q), TRUE], [lift_keep(x), lift_keep(y)]), c, a, b, kind=k)
    return vmerge([boolt(c), TRUE], [a, b])


@contract(np.isnan, jnp.isnan)
def _isnan(vm, node, x):
    return un(vm, lambda v: unb(xf(v).nan) if not isinstance(v, bool) else False, x, "bool")


@contract(np.isfinite, jnp.isfinite)
def _isfinite(vm, node, x):
    return un(vm, lambda v: unb(xf(v).fin), x, "bool")


def exists(vm, n, pred):
    """some j < n has pred(j); with the witness and the instances as facts"""
    n = tm.lift(n)
    if n.op == "const" and n.v <= 16:
        return tm.or_(*[pred(const(q)) for q in range(int(n.v))])
    lam = tm.Lam(n, lambda j: tm.ite(pred(j), ONE, ZERO))
    body = tm.body_at(lam, tm.ivar("_e"))
    if body is ZERO:
        return FALSE
    if body is ONE:
        return tm.lt(ZERO, n)
    x, w = tm.uf("exists", lam, sort="bool"), tm.uf("witness", lam, sort="int")
    vm.fact(tm.implies(x, tm.and_(tm.le(ZERO, w), tm.lt(w, n), pred(w))))
    last = tm.sub(n, ONE)
    vm.fact(tm.implies(tm.and_(tm.lt(ZERO, n), pred(last)), x))
    vm.foralls.append((ZERO, n, lambda j: tm.implies(pred(j), x), "count"))
    return x


def exists_nd(vm, a, want):
    def nest(pre):
        if len(pre) == a.ndim:
            c = boolt(a.get(*pre))
            return c if want else tm.not_(c)
        if len(pre) == a.ndim - 1:
            return exists(vm, a.shape[len(pre)], lambda j: nest(pre + (j,)))
        n = tm.lift(a.shape[len(pre)])
        if n.op != "const" or n.v > 16:
            raise Unsupported("any/all over several dimensions")
        return tm.or_(*[nest(pre + (const(q),)) for q in range(int(n.v))])
    return nest(())


def asbool(vm, a):
    a = arrlike(vm, a)
    if not isinstance(a, PArr):
        return PArr((), lambda: boolt(a), "bool")
    if a.kind != "bool":
        return vm.ew(lambda v: tm.not_(tm.eq(real(v), ZERO)), a, kind="bool") if not probe_bool(a) else a
    return a


def probe_bool(a):
    return is_bool(a.get(*[tm.ivar(f"_w{q}") for q in range(a.ndim)]))


@contract(np.any, jnp.any)
def _any(vm, node, a, axis=None):
    if axis is not None:
        raise Unsupported("any along an axis")
    a = asbool(vm, a)
    return unb(exists_nd(vm, a, True))


@contract(np.all, jnp.all)
def _all(vm, node, a, axis=None):
    if axis is not None:
        raise Unsupported("all along an axis")
    a = asbool(vm, a)
    return unb(tm.not_(exists_nd(vm, a, False)))


@contract(any)
def _pyany(vm, node, xs):
    return _any(vm, node, vm.to_arr(xs) if isinstance(xs, (PList, tuple)) else xs)


@contract(all)
def _pyall(vm, node, xs):
    return _all(vm, node, vm.to_arr(xs) if isinstance(xs, (PList, tuple)) else xs)


@contract(np.sum, jnp.sum)
def _sum(vm, node, a, axis=None):
    a = arrlike(vm, a)
    if not isinstance(a, PArr):
        return a
    num = lambda v: tm.ite(v, ONE, ZERO) if is_bool(v) else real(v)
    if axis is None:
        def nest(pre):
            d = len(pre)
            if d == a.ndim:
                return num(a.get(*pre))
            return tm.Sum(ZERO, tm.lift(a.shape[d]), lambda j: nest(pre + (j,)))
        return nest(())
    ax = axis % a.ndim
    sh = a.shape[:ax] + a.shape[ax + 1:]
    f = a.f
    g = lambda *i: tm.Sum(ZERO, tm.lift(a.shape[ax]), lambda j: num(f(*i[:ax], j, *i[ax:])))
    return PArr(sh, g) if sh else g()


@contract(np.mean, jnp.mean)
def _mean(vm, node, a, axis=None):
    a = arrlike(vm, a)
    s = _sum(vm, node, a, axis)
    n = tm.lift(a.shape[axis % a.ndim]) if axis is not None else tm.lift(size(vm, a))
    return vm.binop("Div", s, n)


def flat1(vm, a):
    a = arrlike(vm, a)
    if not isinstance(a, PArr):
        return vm.to_arr(a)
    if a.ndim == 1:
        return a
    raise Unsupported("reduction of a matrix")


def extreme_facts(vm, a, n, idx, m, best, nan=None):
    """idx is the first index of the extreme value m among the entries that are not NaN"""
    val = lambda j: xf(a.get(j)).val
    isn = lambda j: xf(a.get(j)).nan
    vm.fact(tm.and_(tm.le(ZERO, idx), tm.lt(idx, n), tm.eq(val(idx), m), tm.not_(isn(idx))))
    ge = (lambda p, q: tm.le(p, q)) if best == "min" else (lambda p, q: tm.ge(p, q))
    gt = (lambda p, q: tm.lt(p, q)) if best == "min" else (lambda p, q: tm.gt(p, q))
    vm.foralls.append((ZERO, n, lambda j: tm.or_(isn(j), ge(m, val(j))), "extreme"))
    vm.foralls.append((ZERO, idx, lambda j: tm.or_(isn(j), gt(m, val(j))), "first"))


def extreme(which, arg, skipnan):
    def h(vm, node, a, axis=None):
        if axis is not None:
            raise Unsupported("reduction along an axis")
        a = flat1(vm, a)
        n = tm.lift(a.shape[0])
        if isinstance(a.shape[0], int) and a.shape[0] <= 8 and not arg:
            vals = [a.get(const(q)) for q in range(a.shape[0])]
            if vals and not any(isinstance(v, XF) for v in vals):
                r = lift(vals[0])
                for v in vals[1:]:
                    r = (tm.min_ if which == "min" else tm.max_)(r, lift(v))
                return r
        probe = a.get(tm.ivar("_w0"))
        lv = tm.Lam(n, lambda j: xf(a.get(j)).val)
        if isinstance(probe, XF):
            ln = tm.Lam(n, lambda j: tm.ite(xf(a.get(j)).nan, ONE, ZERO))
            some = exists(vm, n, lambda j: tm.not_(xf(a.get(j)).nan))
            if not skipnan:
                raise Unsupported("min/max of possibly-NaN values")
            idx = tm.uf(f"arg{which}", lv, ln, sort="int")
            m = tm.uf(f"val{which}", lv, ln)
            vm.require("reduction over a non-empty array", tm.lt(ZERO, n))
            if arg:
                if not vm.branch(some):
                    raise PyRaise("ValueError", "All-NaN slice encountered")
                extreme_facts(vm, a, n, idx, m, which)
                return idx
            if not vm.branch(some):
                return XF(tm.var("NANVALUE"), TRUE, FALSE)
            extreme_facts(vm, a, n, idx, m, which)
            return XF(m, FALSE, xf(a.get(idx)).fin)
        vm.require("reduction over a non-empty array", tm.lt(ZERO, n))
        zero = tm.Lam(n, lambda j: ZERO)
        idx = tm.uf(f"arg{which}", lv, sort="int")
        m = tm.uf(f"val{which}", lv)
        extreme_facts(vm, a, n, idx, m, which)
        return idx if arg else m
    return h


contract(np.nanmin, jnp.nanmin)(extreme("min", False, True))
contract(np.nanmax, jnp.nanmax)(extreme("max", False, True))
contract(np.nanargmin, jnp.nanargmin)(extreme("min", True, True))
contract(np.nanargmax, jnp.nanargmax)(extreme("max", True, True))
contract(np.min, jnp.min, np.amin)(extreme("min", False, False))
contract(np.max, jnp.max, np.amax)(extreme("max", False, False))
contract(np.argmin, jnp.argmin)(extreme("min", True, False))
contract(np.argmax, jnp.argmax)(extreme("max", True, False))


@contract(np.shape, jnp.shape)
def _shape(vm, node, a):
    return tuple(vm.to_arr(a).shape)


@contract(np.size, jnp.size)
def _size(vm, node, a):
    return size(vm, vm.to_arr(a))


@contract(np.concatenate, jnp.concatenate)
def _concatenate(vm, node, xs, axis=0):
    xs = [vm.to_arr(x) for x in vm.iterate(xs)]
    ax = axis % xs[0].ndim
    ns = [tm.lift(x.shape[ax]) for x in xs]
    tot = tm.add(*ns)

    def g(*i):
        q = i[ax]
        off = ZERO
        conds, vals = [], []
        for x, n in zip(xs, ns):
            end = tm.add(off, n)
            conds.append(tm.lt(q, end))
            vals.append((x, tm.sub(q, off)))
            off = end
        for c, (x, j) in zip(conds, vals):
            if c is TRUE:
                return x.get(*i[:ax], j, *i[ax + 1:])
            if c is not FALSE:
                break
        return vmerge(conds, [x.get(*i[:ax], j, *i[ax + 1:]) for c, (x, j) in zip(conds, vals)])
    sh = list(xs[0].shape)
    sh[ax] = tot
    return PArr(sh, g, xs[0].kind)


@contract(np.append)
def _append(vm, node, a, b):
    return _concatenate(vm, node, PList([vm.to_arr(a), vm.to_arr(PList([b])) if is_num(b) else vm.to_arr(b)]))


@contract(np.stack, jnp.stack, np.vstack, jnp.vstack)
def _stack(vm, node, xs, axis=0):
    if axis != 0:
        raise Unsupported("stack axis")
    return vm.to_arr(PList(vm.iterate(xs)))


@contract(np.transpose, jnp.transpose)
def _transpose(vm, node, a):
    return arr_attr(vm, vm.to_arr(a), "T")


def parse(x, k):
    """number a text stands for"""
    return tm.uf("parse:" + k, x.term, sort=k)


def astype(vm, node, a, dtype):
    k, c = dt_kind(dtype)
    f = a.f
    if a.kind == "str":
        if k == "bool" or c:
            raise Unsupported("conversion of text")
        return PArr(a.shape, lambda *i: parse(f(*i), k), k)
    if k == "int" and a.kind != "int":
        return PArr(a.shape, lambda *i: trunc(real(f(*i))), "int")
    if k == "bool" and a.kind != "bool":
        return asbool(vm, a)
    if a.kind == "bool" and k != "bool":
        return PArr(a.shape, lambda *i: tm.ite(boolt(f(*i)), ONE, ZERO), k)
    if c:
        return PArr(a.shape, lambda *i: vm.storage(f(*i), c), k, c)
    return PArr(a.shape, f, k)


def flatten(vm, node, a):
    if a.ndim == 1:
        return PArr(a.shape, a.f, a.kind, a.cast)
    big = [d for d, s in enumerate(a.shape) if not (isinstance(s, int) and s == 1)]
    if len(big) > 1:
        raise Unsupported("flatten of a matrix")
    d = big[0] if big else 0
    return PArr((a.shape[d] if a.ndim else 1,), lambda i: a.get(*[i if q == d else ZERO for q in range(a.ndim)]), a.kind)


METHODS = dict(astype=astype, flatten=flatten, ravel=flatten, copy=lambda vm, node, a: PArr(a.shape, a.f, a.kind, a.cast),
               any=lambda vm, node, a, **k: _any(vm, node, a, **k), all=lambda vm, node, a, **k: _all(vm, node, a, **k),
               sum=lambda vm, node, a, **k: _sum(vm, node, a, **k), mean=lambda vm, node, a, **k: _mean(vm, node, a, **k),
               max=lambda vm, node, a, **k: extreme("max", False, False)(vm, node, a, **k),
               min=lambda vm, node, a, **k: extreme("min", False, False)(vm, node, a, **k),
               argmax=lambda vm, node, a, **k: extreme("max", True, False)(vm, node, a, **k),
               argmin=lambda vm, node, a, **k: extreme("min", True, False)(vm, node, a, **k),
               tolist=lambda vm, node, a: PList([vm.getitem(a, q) for q in range(a.shape[0])]),
               clip=lambda vm, node, a, lo=None, hi=None: clip(vm, a, lo, hi),
               block_until_ready=lambda vm, node, a: a)


@contract(np.diff, jnp.diff)
def _diff(vm, node, a):
    a = flat1(vm, a)
    return PArr((tm.sub(tm.lift(a.shape[0]), ONE),), lambda i: tm.sub(real(a.get(tm.add(i, ONE))), real(a.get(i))))


@contract(np.cumsum, jnp.cumsum)
def _cumsum(vm, node, a):
    a = flat1(vm, a)
    return PArr(a.shape, lambda i: tm.Sum(ZERO, tm.add(i, ONE), lambda j: real(a.get(j))))


# ------------------------------------------------------------------ jitted functions of diffstar

def call_jax(vm, f, args, kw):
    """functions compiled by jax: denotation of their jaxpr (vc/jaxvc.py)"""
    from .jaxvc import In
    dims = {}

    def conv(x):
        if isinstance(x, PArr):
            js = []
            for s in x.shape:
                if isinstance(s, int):
                    js.append(s)
                elif s.op == "var":
                    js.append(s.v[0])
                    dims[s.v[0]] = 1
                else:
                    raise Unsupported("derived dimension passed to a jitted function")
            return Expr(x.arr(), tuple(js))
        if isinstance(x, tuple):
            ys = [conv(y) for y in x]
            return x._make(ys) if hasattr(x, "_make") else tuple(ys)
        if isinstance(x, (T, float, int)) and not isinstance(x, bool):
            t = lift(x)
            return Expr(Arr((), lambda: t), ())
        if isinstance(x, PList) and x.prefix is None:
            return tuple(conv(y) for y in x.items)
        raise Unsupported("argument of a jitted function: " + type(x).__name__)
    static = {k: v for k, v in kw.items() if isinstance(v, (bool, str, type(None)))}
    dyn = {k: conv(v) for k, v in kw.items() if k not in static}
    a = tuple(conv(x) for x in args)
    M = Machine(vm.ctx())
    out = M.call(f, Dims(**dims), a, dyn, static)
    for nm, p, q, facts in M.loop_obl:
        vm.obl.append((nm, list(vm.facts) + list(facts), tm.eq(p, q)))

    def back(o):
        if isinstance(o, Arr):
            if not o.shape:
                return o.get()
            return PArr(o.shape, lambda *i: o.get(*i), o.kind)
        if isinstance(o, tuple):
            ys = [back(y) for y in o]
            return o._make(ys) if hasattr(o, "_make") else tuple(ys)
        raise Unsupported("result of a jitted function")
    return back(out)


# ------------------------------------------------------------------ h5py (read side: spec objects live in the property modules)

class Rec(Obj):
    """result record with fixed attributes"""

    def __init__(self, **kw):
        self.kw = kw

    def py_getattr(self, vm, name):
        if name in self.kw:
            return self.kw[name]
        raise Unsupported("attribute " + name)

    def vmap(self, f):
        return Rec(**{k: vmap(v, f) for k, v in self.kw.items()})


class H5Write(Box, Obj):
    """h5py.File opened for writing: a mapping from names to arrays"""
    is_context = True

    def __init__(self):
        self.w = PDict()

    def pdict(self):
        return self.w

    def content(self):
        return (tuple((k, id(v)) for k, v in self.w.d.items()), tuple(id(x) for x in self.w.fam))

    def clone(self, memo):
        r = H5Write()
        memo[id(self)] = (self, r)
        r.w = PDict(self.w.d, self.w.fam)
        return r

    def fill(self, vm, conds, xs):
        self.w.fill(vm, conds, [x.w for x in xs])

    def set_cur(self, lid):
        self.w.fam = list(self.w.fam) + [("cur", lid)]

    def py_setitem(self, vm, k, v):
        vm.setitem(self.w, k, v)

    def py_getattr(self, vm, name):
        if name == "create_dataset":
            def h(vm, node, k, data=None, **kw):
                nokw(kw)
                vm.setitem(self.w, k, data)
            return Ext("create_dataset", h)
        if name == "close":
            return Ext("close", lambda vm, node: None)
        raise Unsupported("h5py file attribute " + name)


class H5Read(Obj):
    """h5py file or group opened for reading, dataset when leaf(path) is an array or a sequence of rows.
    leaf, keys and attrs are functions of the path, a tuple of names"""
    is_context = True

    def __init__(self, leaf, keys=None, attrs=None, path=(), where=None):
        self.leaf, self.keys, self.attrs, self.path, self.where = leaf, keys, attrs, tuple(path), where
        self.d = leaf(self.path) if path else None

    def child(self, *k):
        return H5Read(self.leaf, self.keys, self.attrs, self.path + k, self.where)

    def vmap(self, f):
        w = self.where
        if not all(isinstance(x, (str, T)) for x in self.path) or not (w is None or isinstance(w, (str, T))):
            raise Unsupported("path of a dataset")
        g = lambda x: f(x) if isinstance(x, T) else x
        return H5Read(self.leaf, self.keys, self.attrs, [g(x) for x in self.path], g(w))

    def data(self):
        if self.d is None:
            raise Unsupported("group read as a dataset")
        return self.d

    def whole(self):
        d = self.data()
        return PArr(d.shape, d.f, d.kind) if isinstance(d, PArr) else d

    def py_getitem(self, vm, k):
        if self.d is None:
            if isinstance(k, str):
                return self.child(*[x for x in k.split("/") if x])
            if isinstance(k, Opq):
                return self.child(k.term)
            raise Unsupported("name of a dataset")
        if k is Ellipsis or k == ():
            return self.whole()
        if isinstance(k, str):
            raise Unsupported("dataset field")
        d = self.d
        for q in (k if isinstance(k, tuple) else (k,)):
            lo = q.start if isinstance(q, slice) else q
            if isinstance(q, PArr):
                raise Unsupported("fancy index into a dataset")
        r = vm.getitem(PArr(d.shape, d.f, d.kind) if isinstance(d, PArr) else d, k)
        if isinstance(r, PArr):
            r.view = False
        return r

    def py_seq(self, vm):
        if self.d is None:
            return vm.sym_seq(self.names())
        return vm.sym_seq(self.whole())

    def py_len(self, vm):
        d = self.data()
        return d.shape[0] if isinstance(d, PArr) else d.n

    def py_arr(self, vm):
        return vm.to_arr(self.whole())

    def names(self):
        r = self.keys(self.path) if self.keys else None
        if r is None or self.d is not None:
            raise Unsupported("names in a file")
        return r

    def py_getattr(self, vm, name):
        if self.d is None:
            if name == "keys":
                return Ext("keys", lambda vm, node: self.names())
            if name == "close":
                return Ext("close", lambda vm, node: None)
            if name == "get":
                return Ext("get", lambda vm, node, k: self.py_getitem(vm, k))
        else:
            if name == "shape":
                return tuple(self.d.shape) if isinstance(self.d, PArr) else (self.d.n,)
            if name == "size":
                return size(vm, self.d) if isinstance(self.d, PArr) else self.d.n
        if name == "attrs":
            return H5Attrs(self)
        raise Unsupported("h5py attribute " + name)


class H5Attrs(Obj):
    def __init__(self, node):
        self.node = node

    def vmap(self, f):
        return H5Attrs(self.node.vmap(f))

    def py_getitem(self, vm, k):
        if self.node.attrs is None or not isinstance(k, str):
            raise Unsupported("file attribute")
        return self.node.attrs(self.node.path, k)


def h5file(read=None, write=True):
    """contract of h5py.File: read(vm, name) gives the file's contents"""
    def h(vm, node, fn, mode="r", **kw):
        nokw(kw)
        if mode == "r" and read is not None:
            f = read(vm, fn)
        elif mode == "w" and write:
            f = H5Write()
        else:
            raise Unsupported("file mode")
        vm.effects.append((mode, fn, f))
        return f
    return h


def running(vm, op, a, axis):
    """running maximum, minimum or sum along one axis: an opaque function of the row and the position"""
    a = vm.to_arr(a)
    axis = norm_int(axis)
    if not isinstance(axis, int) or not -a.ndim <= axis < a.ndim:
        raise Unsupported("accumulate axis")
    axis %= a.ndim
    if op is np.add:
        return PArr(a.shape, lambda *i: tm.Sum(ZERO, tm.add(i[axis], ONE), lambda j: real(a.get(*i[:axis], j, *i[axis + 1:]))), a.kind)
    return PArr(a.shape, lambda *i: run_atom(vm, op.__name__, a.shape[axis], lambda j: a.get(*i[:axis], j, *i[axis + 1:]), i[axis]), a.kind)


def run_atom(vm, name, n, get, k):
    return tm.uf("running:" + name, tm.Lam(tm.lift(n), lambda j: vm.ident(get(j))), k)


class Table(Obj):
    """structured array: named fields"""

    def __init__(self, field):
        self.field = field

    def vmap(self, f):
        return Table(lambda k, g=self.field: vmap(g(k), f))

    def py_getitem(self, vm, k):
        if not isinstance(k, str):
            raise Unsupported("index into a structured array")
        return self.field(k)
