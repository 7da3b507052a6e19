"""Verification-condition front end for the JAX code of /repo.

The real function object imported from /repo is traced by JAX itself
(jax.make_jaxpr, 64-bit, symbolic array dimensions); the resulting jaxpr -- the
program that JAX compiles and runs -- is given a denotational semantics over
real arithmetic: every array is a pair (shape, index -> term).
Loops (scan) are summarised by inductive invariants whose base and step cases
are discharged as obligations.
"""
import ast
import os
import sys
from fractions import Fraction

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("JAX_ENABLE_X64", "1")
import numpy as np
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
from jax import export
import jax.extend as jex
from jax.extend.core import Primitive
from jax.interpreters import ad, batching

from . import terms as tm
from .terms import T, const, ZERO, ONE, TRUE, FALSE
from .smt import Ctx, is_int, RANGES


class Unsupported(Exception):
    """construct outside the reach of the VC generator"""


# ------------------------------------------------------------------ arrays

class Arr:
    __slots__ = ("shape", "f", "memo", "kind")

    def __init__(self, shape, f, kind="real"):
        self.shape = tuple(tm.lift(s) for s in shape)
        self.f = f
        self.memo = {}
        self.kind = kind  # real | int | bool | key

    def get(self, *idx):
        idx = tuple(tm.lift(i) for i in idx)
        assert len(idx) == len(self.shape), (idx, self.shape)
        r = self.memo.get(idx)
        if r is None:
            r = tm.lift(self.f(*idx))
            self.memo[idx] = r
        return r

    __call__ = get

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return f"Arr{self.shape}:{self.kind}"


def scalar(t, kind="real"):
    t = tm.lift(t)
    return Arr((), lambda: t, kind)


def kind_of(dtype):
    if str(dtype).startswith("key<"):
        return "key"
    k = np.dtype(dtype).kind
    return {"f": "real", "i": "int", "u": "int", "b": "bool"}[k]


def np_arr(x):
    x = np.asarray(x)
    k = kind_of(x.dtype)

    def f(*idx):
        if all(i.op == "const" for i in idx):
            return tm.lift(x[tuple(int(i.v) for i in idx)])
        # symbolic index: if-chain over the first symbolic position
        p = next(q for q, i in enumerate(idx) if i.op != "const")
        n = x.shape[p]
        if n > 256:
            raise Unsupported("symbolic index into large constant")
        vals = [f(*idx[:p], const(q), *idx[p + 1:]) for q in range(n)]
        if all(v is vals[0] for v in vals):
            return vals[0]
        r = vals[-1]
        for q in range(n - 2, -1, -1):
            r = tm.ite(tm.eq(idx[p], const(q)), vals[q], r)
        return r
    return Arr(x.shape, f, k)


# ------------------------------------------------------------------ symbolic dims

class Dims:
    """symbolic dimensions with lower bounds, e.g. Dims(n=3, g=1)"""

    def __init__(self, **lb):
        self.lb = lb
        if lb:
            syms = export.symbolic_shape(
                ",".join(lb), constraints=[f"{k}>={v}" for k, v in lb.items()])
            self.j = dict(zip(lb, syms))
        else:
            self.j = {}
        self.t = {k: tm.ivar(k) for k in lb}
        self.facts = [tm.le(const(v), self.t[k]) for k, v in lb.items()]

    def jd(self, d):
        if isinstance(d, int):
            return d
        if isinstance(d, str):
            return eval(d, {}, dict(self.j))
        return d

    def td(self, d):
        if isinstance(d, int):
            return const(d)
        if isinstance(d, str):
            return eval(d, {}, dict(self.t))
        return dim_term(d)


def dim_term(d):
    if isinstance(d, (int, np.integer)):
        return const(int(d))
    return _parse_dim(ast.parse(str(d), mode="eval").body)


def _parse_dim(e):
    if isinstance(e, ast.Constant):
        return const(e.value)
    if isinstance(e, ast.Name):
        return tm.ivar(e.id)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return tm.mul(const(-1), _parse_dim(e.operand))
    if isinstance(e, ast.BinOp):
        a, b = _parse_dim(e.left), _parse_dim(e.right)
        if isinstance(e.op, ast.Add):
            return tm.add(a, b)
        if isinstance(e.op, ast.Sub):
            return tm.sub(a, b)
        if isinstance(e.op, ast.Mult):
            return tm.mul(a, b)
        if isinstance(e.op, ast.Pow):
            return tm.ipow(a, int(b.v))
    if isinstance(e, ast.Call):
        args = [_parse_dim(x) for x in e.args]
        n = e.func.id
        if n == "max":
            r = args[0]
            for x in args[1:]:
                r = tm.max_(r, x)
            return r
        if n == "min":
            r = args[0]
            for x in args[1:]:
                r = tm.min_(r, x)
            return r
        if n in ("floordiv", "mod"):
            return tm.fn(n, *args)
    raise Unsupported("dimension expression " + ast.dump(e))


# ------------------------------------------------------------------ opaque random draws

def _mk_prim(name, out_extra):
    """opaque primitive: leading nb batch dims, then core dims"""
    p = Primitive(name)
    p.multiple_results = False

    def abs_eval(*avals, nb, core):
        a = avals[0]
        shape = tuple(avals[0].shape[:nb]) + tuple(core)
        return jax.core.ShapedArray(shape, np.dtype("float64"))
    p.def_abstract_eval(abs_eval)

    def batch(args, dims, *, nb, core):
        size = next(a.shape[d] for a, d in zip(args, dims) if d is not None)
        out = []
        for a, d in zip(args, dims):
            if d is None:
                out.append(jnp.broadcast_to(a, (size,) + tuple(a.shape)))
            else:
                out.append(jnp.moveaxis(a, d, 0))
        return p.bind(*out, nb=nb + 1, core=core), 0
    batching.primitive_batchers[p] = batch
    return p


rv_uniform_p = _mk_prim("vc_uniform", 0)
rv_normal_p = _mk_prim("vc_normal", 0)
rv_mvn_p = _mk_prim("vc_mvn", 0)
# derivative of a multivariate normal draw (arguments: key, mean, covariance and the tangents of the last two)
rv_mvn_tan_p = _mk_prim("vc_mvn_tan", 0)


def _mvn_jvp(primals, tangents, *, nb, core):
    out = rv_mvn_p.bind(*primals, nb=nb, core=core)
    dm, dc = (jnp.zeros(p.shape) if isinstance(t, ad.Zero) else t for p, t in zip(primals[1:], tangents[1:]))
    return out, rv_mvn_tan_p.bind(*primals, dm, dc, nb=nb, core=core)


ad.primitive_jvps[rv_mvn_p] = _mvn_jvp
interp_p = None
ss_p = Primitive("vc_searchsorted")
_ss_out = np.dtype("int64")
ss_p.def_abstract_eval(lambda a, v, *, side, nb: jax.core.ShapedArray(v.shape, np.dtype("int64")))


def _ss_batch(args, dims, *, side, nb):
    size = next(a.shape[d] for a, d in zip(args, dims) if d is not None)
    out = []
    for a, d in zip(args, dims):
        out.append(jnp.broadcast_to(a, (size,) + tuple(a.shape)) if d is None
                   else jnp.moveaxis(a, d, 0))
    return ss_p.bind(*out, side=side, nb=nb + 1), 0


batching.primitive_batchers[ss_p] = _ss_batch


def _rawkey(key):
    key = jnp.asarray(key)
    if jnp.issubdtype(key.dtype, jax.dtypes.prng_key):
        key = jax.random.key_data(key)
    return key


def _as_shape(shape):
    if shape is None:
        return ()
    if isinstance(shape, (tuple, list)):
        return tuple(shape)
    return (shape,)


def _p_uniform(key, shape=(), dtype=float, minval=0.0, maxval=1.0, **kw):
    shape = _as_shape(shape)
    u = rv_uniform_p.bind(_rawkey(key), nb=0, core=shape)
    return minval + (maxval - minval) * u


def _p_normal(key, shape=(), dtype=float, **kw):
    return rv_normal_p.bind(_rawkey(key), nb=0, core=_as_shape(shape))


def _p_mvn(key, mean, cov, shape=None, dtype=None, method="cholesky", **kw):
    mean = jnp.asarray(mean)
    cov = jnp.asarray(cov)
    if shape not in (None, ()):
        raise Unsupported("multivariate_normal with an explicit shape")
    if mean.ndim != 1:
        raise Unsupported("batched multivariate_normal")
    return rv_mvn_p.bind(_rawkey(key), mean, cov, nb=0, core=tuple(mean.shape))


def _p_searchsorted(a, v, side="left", sorter=None, **kw):
    a, v = jnp.asarray(a), jnp.asarray(v)
    return ss_p.bind(a, v, side=side, nb=0)


def _p_interp(x, xp, fp, left=None, right=None, period=None, **kw):
    """contract of jnp.interp on strictly increasing abscissae"""
    if left is not None or right is not None or period is not None:
        raise Unsupported("interp with left/right/period")
    x, xp, fp = (jnp.asarray(z, dtype=float) for z in (x, xp, fp))
    n = xp.shape[0]
    i = jnp.clip(_p_searchsorted(xp, x, side="right"), 1, n - 1)
    dx = xp[i] - xp[i - 1]
    df = fp[i] - fp[i - 1]
    f = jnp.where(dx == 0, fp[i - 1], fp[i - 1] + (x - xp[i - 1]) / jnp.where(dx == 0, 1.0, dx) * df)
    f = jnp.where(x < xp[0], fp[0], f)
    return jnp.where(x > xp[-1], fp[-1], f)


op_ew_p = Primitive("vc_opaque")
op_ew_p.def_abstract_eval(lambda *avals, name: jax.core.ShapedArray(avals[0].shape, np.dtype("float64")))


def _op_batch(args, dims, *, name):
    size = next(a.shape[d] for a, d in zip(args, dims) if d is not None)
    out = [jnp.broadcast_to(a, (size,) + tuple(a.shape)) if d is None else jnp.moveaxis(a, d, 0)
           for a, d in zip(args, dims)]
    return op_ew_p.bind(*out, name=name), 0


batching.primitive_batchers[op_ew_p] = _op_batch


def _op_jvp(primals, tangents, *, name):
    """an uninterpreted function F has uninterpreted partial derivatives d0:F, d1:F, ..."""
    out = op_ew_p.bind(*primals, name=name)
    tan = None
    for k, t in enumerate(tangents):
        if isinstance(t, ad.Zero):
            continue
        u = t * op_ew_p.bind(*primals, name=f"d{k}:{name}")
        tan = u if tan is None else tan + u
    return out, ad.Zero.from_primal_value(out) if tan is None else tan


ad.primitive_jvps[op_ew_p] = _op_jvp


def opaque_ew(name, *args):
    """uninterpreted elementwise real function of its (broadcast) arguments"""
    xs = jnp.broadcast_arrays(*[jnp.asarray(a, dtype=float) for a in args])
    return op_ew_p.bind(*xs, name=name)


def _mah_args(mah_params, t, logt0):
    return (*mah_params[:4], mah_params.t_peak, t, logt0)


def _p_log_mah(mah_params, t, logt0):
    return opaque_ew("LOGMAH", *_mah_args(mah_params, t, logt0))


def _p_dmhdt(mah_params, t, logt0):
    return opaque_ew("DMHDT", *_mah_args(mah_params, t, logt0))


def symbolic_len(x):
    sh = getattr(x, "shape", None)
    return sh[0] if sh else len(x)


def _prod_jvp(primals, tangents, *, axes):
    """product rule, for axes of literal length (JAX's own rule asks for concrete sizes of every axis)"""
    x, d = primals[0], tangents[0]
    out = jax.lax.reduce_prod_p.bind(x, axes=axes)
    for a in sorted(axes, reverse=True):
        if not isinstance(x.shape[a], int):
            raise Unsupported("derivative of a product of symbolic length")
        cut = lambda z, j: jax.lax.index_in_dim(z, j, a, keepdims=False)
        n, tot, tan = x.shape[a], None, None
        for j in range(n):
            dj, xj = cut(d, j), cut(x, j)
            tan = dj if tot is None else tan * xj + tot * dj
            tot = xj if tot is None else tot * xj
        x, d = tot, tan
    return out, d


class patched:
    """opaque contracts on dependencies, installed only while tracing"""

    def __init__(self, inline_mah=False, overrides=()):
        self.inline_mah = inline_mah
        self.overrides = list(overrides)

    def __enter__(self):
        import diffmah.diffmah_kernels as dk
        import jax._src.numpy.lax_numpy as ln
        import jax._src.random as jr
        self.saved = []
        self.eager = {}
        self.prod_rule = ad.primitive_jvps[jax.lax.reduce_prod_p]
        ad.primitive_jvps[jax.lax.reduce_prod_p] = _prod_jvp

        def guard(f, g, name):
            # outside of a trace the genuine implementation runs
            def h(*a, **k):
                leaves = jax.tree_util.tree_leaves((a, k))
                if any(isinstance(x, jax.core.Tracer) for x in leaves):
                    return g(*a, **k)
                return f(*a, **k)
            h.__name__ = name
            return h
        todo = [(mod, nm, getattr(mod, nm), g) for mod, nm, g in [
            (jax.random, "uniform", _p_uniform), (jr, "uniform", _p_uniform),
            (jax.random, "normal", _p_normal), (jr, "normal", _p_normal),
            (jax.random, "multivariate_normal", _p_mvn), (jr, "multivariate_normal", _p_mvn),
            (jnp, "searchsorted", _p_searchsorted), (ln, "searchsorted", _p_searchsorted),
            (jnp, "interp", _p_interp), (ln, "interp", _p_interp),
        ] + ([] if self.inline_mah else [
            (dk, "_log_mah_kern", _p_log_mah), (dk, "_dmhdt_kern", _p_dmhdt), (dk, "_dmhdt_kern_scalar", _p_dmhdt),
        ]) if hasattr(mod, nm)]
        for mname, nm, g in self.overrides:
            mod = sys.modules[mname]
            todo.append((mod, nm, getattr(mod, nm), g))
        new = {}
        for mod, nm, f, g in todo:
            self.saved.append((mod, nm, f))
            new[id(f)] = guard(f, g, nm)
            setattr(mod, nm, new[id(f)])
        # modules of the code under test may have bound the functions by name
        origs = set(new)
        for mname, m in list(sys.modules.items()):
            if mname.startswith("diffstar") or mname.startswith("diffsky") or mname.startswith("diffmah"):
                for k, v in list(vars(m).items()):
                    if id(v) in origs:
                        self.saved.append((m, k, v))
                        setattr(m, k, new[id(v)])
        # Python's len() insists on a machine integer: same meaning, symbolic result
        self.lens = []
        for mname, m in list(sys.modules.items()):
            if mname.startswith("diffstar") and "len" not in vars(m):
                m.len = symbolic_len
                self.lens.append(m)
        return self

    def __exit__(self, *a):
        ad.primitive_jvps[jax.lax.reduce_prod_p] = self.prod_rule
        for m in self.lens:
            del m.len
        for mod, nm, f in reversed(self.saved):
            setattr(mod, nm, f)


# ------------------------------------------------------------------ inputs

class In:
    """symbolic input leaf"""

    def __init__(self, name, dims=(), kind="real", dtype=None, rng=None):
        self.name, self.dims, self.kind, self.rng = name, tuple(dims), kind, rng
        self.dtype = dtype or {"real": np.float64, "int": np.int64, "bool": np.bool_}[kind]

    def arr(self, D):
        shape = [D.td(d) for d in self.dims]
        RANGES.pop(self.name, None)
        if self.rng is not None:      # precondition: every element lies in [lo, hi)
            RANGES[self.name] = tuple(tm.lift(r) for r in self.rng)
        sort = {"real": "real", "int": "int", "bool": "bool"}[self.kind]
        if not shape:
            v = tm.var(self.name, sort)
            return Arr((), lambda: v, self.kind)
        return Arr(shape, lambda *i: tm.uf(self.name, *i, sort=sort), self.kind)

    def spec(self, D):
        return jax.ShapeDtypeStruct(tuple(D.jd(d) for d in self.dims), self.dtype)


class KeyIn(In):
    """a raw PRNG key"""

    def __init__(self, name, dims=()):
        In.__init__(self, name, tuple(dims) + (2,), "int", np.uint32)

    def arr(self, D):
        shape = [D.td(d) for d in self.dims]
        nm = self.name

        def f(*i):
            return keyword(tm.uf(nm, *i[:-1], sort="key"), i[-1])
        return Arr(shape, f, "int")

    def key(self, *i):
        return tm.uf(self.name, *i, sort="key")


def keyword(k, j):
    return tm.uf("keyword", k, j, sort="int")


class Expr:
    """input leaf given by explicit Arr (e.g. concrete-array or derived term)"""

    def __init__(self, arr, jshape, dtype=np.float64):
        self._arr, self._js, self._dt = arr, jshape, dtype

    def arr(self, D):
        return self._arr

    def spec(self, D):
        return jax.ShapeDtypeStruct(tuple(D.jd(d) for d in self._js), self._dt)


LEAF = (In, Expr)


def trace(fn, D, args, kwargs=None, static=None, inline_mah=False, overrides=()):
    """-> (closed_jaxpr, flat input Arrs, out_tree)"""
    kwargs = kwargs or {}
    static = static or {}
    leaves, tree = jax.tree_util.tree_flatten((args, kwargs), is_leaf=lambda x: isinstance(x, LEAF))
    sym_ix = [i for i, x in enumerate(leaves) if isinstance(x, LEAF)]

    def g(*xs):
        ls = list(leaves)
        for i, x in zip(sym_ix, xs):
            ls[i] = x
        a, k = jax.tree_util.tree_unflatten(tree, ls)
        return fn(*a, **k, **static)

    specs = [leaves[i].spec(D) for i in sym_ix]
    jax.clear_caches()
    with patched(inline_mah, overrides):
        try:
            jp, shp = jax.make_jaxpr(g, return_shape=True)(*specs)
        finally:
            jax.clear_caches()
    arrs = [leaves[i].arr(D) for i in sym_ix]
    return jp, arrs, jax.tree_util.tree_structure(shp), shp


def split_sum(ctx, S, depth=4):
    """sum over a concatenated axis: split at the (integer) index where a condition
    of the generic term changes, when that index provably lies inside the range"""
    if S.op != "sum" or depth == 0:
        return S
    lo, hi = S.a[0], S.a[1]
    j = tm.fresh("_sp")
    body = tm.body_at(S, j)
    seen = set()
    for c in sorted(tm.atoms_of(body, lambda x: x.op == "lt" and j in tm.free_vars(x)), key=lambda x: x.id):
        d = tm.sub(c.a[1], c.a[0])
        r = tm.subst(d, {j: ZERO})
        if j in tm.free_vars(r) or any(q.v[0].startswith("\u00a7") for q in tm.free_vars(r)):
            continue
        al = tm.sub(tm.subst(d, {j: ONE}), r)
        if al.op != "const" or abs(al.v) != 1 or tm.sub(d, tm.add(tm.mul(al, j), r)) is not ZERO or not is_int(r):
            continue
        cut = r if al.v == -1 else tm.sub(ONE, r)
        if cut in seen:
            continue
        seen.add(cut)
        if ctx.decide(tm.le(lo, cut)) is True and ctx.decide(tm.le(cut, hi)) is True:
            first = al.v == -1
            f1 = tm.replace(body, {c: TRUE if first else FALSE})
            f2 = tm.replace(body, {c: FALSE if first else TRUE})
            a = split_sum(ctx, tm.Sum(lo, cut, lambda k: tm.subst(f1, {j: k})), depth - 1)
            b = split_sum(ctx, tm.Sum(ZERO, tm.sub(hi, cut), lambda k: tm.subst(f2, {j: tm.add(k, cut)})), depth - 1)
            return tm.add(a, b)
    return S


class Machine:
    def __init__(self, ctx=None, oblig=None, loop_oblig=None):
        self.ctx = ctx or Ctx()
        self.calls = []        # function names met (jit eqns)
        self.loops = []        # (name, description) of summarised loops
        self.loop_obl = []     # (description, lhs, rhs, facts) to be proved equal
        self.range_obl = []    # index-range conditions
        self.prims = set()

    # --------------------------------------------------------------
    def call(self, fn, D, args, kwargs=None, static=None, inline_mah=False, overrides=()):
        self.ctx = self.ctx.with_facts(D.facts)
        jp, arrs, tree, _ = trace(fn, D, args, kwargs, static, inline_mah, overrides)
        outs = self.run(jp.jaxpr, [np_arr_or_key(c) for c in jp.consts], arrs)
        return jax.tree_util.tree_unflatten(tree, outs)

    def run(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if hasattr(v, "val"):
                x = v.val
                if isinstance(x, (int, float, bool)):
                    return scalar(x, kind_of(v.aval.dtype))
                return np_arr(x)
            return env[v]

        for v, a in zip(jaxpr.constvars, consts):
            env[v] = a
        assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        for eqn in jaxpr.eqns:
            name = eqn.primitive.name
            self.prims.add(name)
            ins = [read(v) for v in eqn.invars]
            h = getattr(self, "p_" + name.replace("-", "_"), None)
            if h is None:
                raise Unsupported("primitive " + name)
            outs = h(eqn, ins)
            if not isinstance(outs, (list, tuple)):
                outs = [outs]
            for v, o in zip(eqn.outvars, outs):
                env[v] = o
        return [read(v) for v in jaxpr.outvars]

    def decide(self, c):
        return self.ctx.decide(c)

    def simp(self, t):
        return self.ctx.simp_conds(t)

    # ---------------------------------------------------------- helpers
    def oshape(self, eqn, k=0):
        return [dim_term(d) for d in eqn.outvars[k].aval.shape]

    def okind(self, eqn, k=0):
        return kind_of(eqn.outvars[k].aval.dtype)

    def ew(self, eqn, ins, f, kind=None):
        kind = kind or self.okind(eqn)
        sh = self.oshape(eqn)

        def g(*i):
            return f(*[x.get(*i) if x.ndim else x.get() for x in ins])
        return Arr(sh, g, kind)

    # ---------------------------------------------------------- calls
    def inline(self, eqn, cj, ins):
        return self.run(cj.jaxpr, [np_arr_or_key(c) for c in cj.consts], ins)

    def p_jit(self, eqn, ins):
        self.calls.append(eqn.params.get("name", "?"))
        return self.inline(eqn, eqn.params["jaxpr"], ins)

    p_pjit = p_jit
    p_closed_call = p_jit

    def p_custom_jvp_call(self, eqn, ins):
        cj = eqn.params["call_jaxpr"]
        return self.inline(eqn, cj, ins)

    def p_custom_vjp_call(self, eqn, ins):
        cj = eqn.params.get("call_jaxpr") or eqn.params.get("fun_jaxpr")
        return self.inline(eqn, cj, ins)

    p_custom_vjp_call_jaxpr = p_custom_vjp_call

    def p_remat(self, eqn, ins):
        return self.run(eqn.params["jaxpr"], [], ins)

    p_checkpoint = p_remat

    def p_stop_gradient(self, eqn, ins):
        return ins[0]

    p_copy = p_stop_gradient
    p_copy_p = p_stop_gradient

    def p_optimization_barrier(self, eqn, ins):
        return list(ins)

    def p_cond(self, eqn, ins):
        brs = eqn.params["branches"]
        c, ops = ins[0], ins[1:]
        outs = [self.inline(eqn, b, ops) for b in brs]
        if eqn.invars[0].aval.dtype == np.dtype(bool):
            ct = c.get()
            conds = [tm.not_(ct)]
        else:
            cv = c.get()
            if cv.op == "uf" and cv.v[0] == "platform_index":
                return outs[-1]
            conds = [tm.le(cv, const(0))] + [tm.eq(cv, const(k)) for k in range(1, len(brs) - 1)]
        res = []
        for k in range(len(eqn.outvars)):
            def f(*i, k=k):
                r = outs[-1][k].get(*i)
                for cnd, o in zip(reversed(conds), reversed(outs[:-1])):
                    r = tm.ite(cnd, o[k].get(*i), r)
                return r
            res.append(Arr(self.oshape(eqn, k), f, self.okind(eqn, k)))
        return res

    def p_platform_index(self, eqn, ins):
        return scalar(tm.uf("platform_index", sort="int"), "int")

    # ---------------------------------------------------------- elementwise
    def p_add(self, eqn, ins):
        return self.ew(eqn, ins, tm.add)

    p_add_any = p_add

    def p_sub(self, eqn, ins):
        return self.ew(eqn, ins, tm.sub)

    def p_mul(self, eqn, ins):
        return self.ew(eqn, ins, tm.mul)

    def p_div(self, eqn, ins):
        if self.okind(eqn) == "int":
            return self.ew(eqn, ins, lambda a, b: self.floordiv(a, b))
        return self.ew(eqn, ins, tm.div)

    def floordiv(self, a, b):
        if a.op == "const" and b.op == "const" and b.v != 0:
            q = a.v / b.v
            return const(int(q))   # lax.div truncates
        if b is ONE:
            return a
        return tm.fn("tdiv", a, b)

    def p_rem(self, eqn, ins):
        def f(a, b):
            if a.op == "const" and b.op == "const":
                import math
                return const(Fraction(math.fmod(a.v, b.v)))
            if b is ONE:
                return ZERO
            return tm.fn("rem", a, b)
        return self.ew(eqn, ins, f)

    def p_neg(self, eqn, ins):
        return self.ew(eqn, ins, lambda a: tm.mul(const(-1), a))

    def p_square(self, eqn, ins):
        return self.ew(eqn, ins, lambda a: tm.ipow(a, 2))

    def p_integer_pow(self, eqn, ins):
        n = eqn.params["y"]
        return self.ew(eqn, ins, lambda a: tm.ipow(a, n))

    def p_pow(self, eqn, ins):
        def f(a, b):
            if b.op == "const" and b.v.denominator == 1 and abs(b.v) < 64:
                return tm.ipow(a, int(b.v))
            if a.op == "const" and a.v == 10:
                return tm.pow10(b)
            if a.op == "const" and a.v > 0:
                return tm.exp(tm.mul(b, tm.log(a)))
            if b.op == "const" and b.v == Fraction(1, 2):
                return tm.sqrt(a)
            return tm.fn("rpow", a, b)
        return self.ew(eqn, ins, f)

    def p_exp(self, eqn, ins):
        return self.ew(eqn, ins, tm.exp)

    def p_exp2(self, eqn, ins):
        return self.ew(eqn, ins, lambda a: tm.exp(tm.mul(a, tm.log(const(2)))))

    def p_expm1(self, eqn, ins):
        return self.ew(eqn, ins, lambda a: tm.sub(tm.exp(a), ONE))

    def p_log(self, eqn, ins):
        return self.ew(eqn, ins, tm.log)

    def p_log1p(self, eqn, ins):
        return self.ew(eqn, ins, lambda a: tm.log(tm.add(ONE, a)))

    def p_logistic(self, eqn, ins):
        return self.ew(eqn, ins, tm.sigma)

    def p_tanh(self, eqn, ins):
        # tanh x = 2 sigma(2x) - 1
        return self.ew(eqn, ins, lambda a: tm.sub(tm.mul(2, tm.sigma(tm.mul(2, a))), ONE))

    def p_sqrt(self, eqn, ins):
        return self.ew(eqn, ins, tm.sqrt)

    def p_rsqrt(self, eqn, ins):
        return self.ew(eqn, ins, lambda a: tm.div(ONE, tm.sqrt(a)))

    def p_erf_inv(self, eqn, ins):
        return self.ew(eqn, ins, lambda a: tm.fn("erf_inv", a))

    def p_floor(self, eqn, ins):
        return self.ew(eqn, ins, lambda a: a if is_int(a) else tm.fn("floor", a))

    def p_abs(self, eqn, ins):
        return self.ew(eqn, ins, tm.abs_)

    def p_sign(self, eqn, ins):
        return self.ew(eqn, ins, lambda a: tm.ite(tm.lt(a, ZERO), const(-1),
                                                  tm.ite(tm.lt(ZERO, a), ONE, ZERO)))

    def p_max(self, eqn, ins):
        if self.okind(eqn) == "bool":
            return self.ew(eqn, ins, tm.or_)
        return self.ew(eqn, ins, tm.max_)

    def p_min(self, eqn, ins):
        return self.ew(eqn, ins, tm.min_)

    def p_clamp(self, eqn, ins):
        lo, x, hi = ins
        return self.ew(eqn, [lo, x, hi], lambda l, v, h: tm.min_(tm.max_(v, l), h))

    def p_lt(self, eqn, ins):
        return self.ew(eqn, ins, tm.lt, "bool")

    def p_gt(self, eqn, ins):
        return self.ew(eqn, ins, tm.gt, "bool")

    def p_le(self, eqn, ins):
        return self.ew(eqn, ins, tm.le, "bool")

    def p_ge(self, eqn, ins):
        return self.ew(eqn, ins, tm.ge, "bool")

    def p_eq(self, eqn, ins):
        return self.ew(eqn, ins, tm.eq, "bool")

    def p_ne(self, eqn, ins):
        return self.ew(eqn, ins, lambda a, b: tm.not_(tm.eq(a, b)), "bool")

    def _bool(self, x):
        return x if tm.sort_of(x) == "bool" else tm.not_(tm.eq(x, ZERO))

    def p_and(self, eqn, ins):
        if self.okind(eqn) != "bool":
            raise Unsupported("bitwise and")
        return self.ew(eqn, ins, tm.and_)

    def p_or(self, eqn, ins):
        if self.okind(eqn) != "bool":
            raise Unsupported("bitwise or")
        return self.ew(eqn, ins, tm.or_)

    def p_not(self, eqn, ins):
        if self.okind(eqn) != "bool":
            raise Unsupported("bitwise not")
        return self.ew(eqn, ins, tm.not_)

    def p_xor(self, eqn, ins):
        if self.okind(eqn) != "bool":
            raise Unsupported("bitwise xor")
        return self.ew(eqn, ins, lambda a, b: tm.not_(tm.eq(a, b)))

    def p_is_finite(self, eqn, ins):
        # under the definedness obligations every intermediate real is finite
        return self.ew(eqn, ins, lambda a: TRUE if a.op != "var" or a.v[0] not in
                       ("INF", "NAN", "NEGINF") else FALSE, "bool")

    def p_select_n(self, eqn, ins):
        w, cs = ins[0], ins[1:]
        sh = self.oshape(eqn)

        def f(*i):
            c = w.get(*i) if w.ndim else w.get()
            vs = [x.get(*i) if x.ndim else x.get() for x in cs]
            if tm.sort_of(c) == "bool":
                return tm.ite(c, vs[1], vs[0])
            r = vs[-1]
            for k in range(len(vs) - 2, -1, -1):
                r = tm.ite(tm.eq(c, const(k)), vs[k], r)
            return r
        return Arr(sh, f, self.okind(eqn))

    def p_convert_element_type(self, eqn, ins):
        src = kind_of(eqn.invars[0].aval.dtype)
        dst = self.okind(eqn)
        sd, dd = np.dtype(eqn.invars[0].aval.dtype), np.dtype(eqn.params["new_dtype"])

        def f(a):
            if src == "bool" and dst in ("int", "real"):
                return tm.ite(a, ONE, ZERO)
            if dst == "bool" and src != "bool":
                return tm.not_(tm.eq(a, ZERO))
            if src == "real" and dst == "int":
                if a.op == "const":
                    return const(int(a.v))
                return a if is_int(a) else tm.fn("trunc", a)
            if src == "real" and dst == "real" and dd.itemsize < sd.itemsize:
                # narrowing: not an identity over the reals
                return tm.fn("f%d" % (8 * dd.itemsize), a)
            return a
        return self.ew(eqn, ins, f)

    def p_reduce_precision(self, eqn, ins):
        return ins[0]

    # ---------------------------------------------------------- structure
    def p_iota(self, eqn, ins):
        d = eqn.params["dimension"]
        return Arr(self.oshape(eqn), lambda *i: i[d], self.okind(eqn))

    def p_empty2(self, eqn, ins):
        # uninitialised memory: an unknown value, a new one at every read
        k = self.okind(eqn)
        if k not in ("real", "int"):
            raise Unsupported("uninitialised array")
        return Arr(self.oshape(eqn), lambda *i: tm.fresh("_uninit", k), k)

    p_empty = p_empty2

    def p_dim_as_value(self, eqn, ins):
        return scalar(dim_term(eqn.params["dim"]), "int")

    def p_broadcast_in_dim(self, eqn, ins):
        x = ins[0]
        bd = eqn.params["broadcast_dimensions"]
        sh = self.oshape(eqn)

        def f(*i):
            idx = []
            for k, d in enumerate(bd):
                idx.append(ZERO if (x.shape[k] is ONE and sh[d] is not ONE) else i[d])
            return x.get(*idx)
        return Arr(sh, f, x.kind)

    def p_squeeze(self, eqn, ins):
        x = ins[0]
        dims = set(d % max(x.ndim, 1) for d in eqn.params["dimensions"])

        def f(*i):
            it = iter(i)
            return x.get(*[ZERO if k in dims else next(it) for k in range(x.ndim)])
        return Arr(self.oshape(eqn), f, x.kind)

    def p_expand_dims(self, eqn, ins):
        dims = set(eqn.params["dimensions"])
        x = ins[0]
        return Arr(self.oshape(eqn), lambda *i: x.get(*[v for k, v in enumerate(i) if k not in dims]), x.kind)

    def p_transpose(self, eqn, ins):
        x = ins[0]
        p = eqn.params["permutation"]

        def f(*i):
            idx = [None] * x.ndim
            for k, d in enumerate(p):
                idx[d] = i[k]
            return x.get(*idx)
        return Arr(self.oshape(eqn), f, x.kind)

    def p_reshape(self, eqn, ins):
        if eqn.params.get("dimensions"):
            raise Unsupported("reshape with dimensions")
        return self.reshape(ins[0], self.oshape(eqn))

    def reshape(self, x, sh):
        xs = [k for k, d in enumerate(x.shape) if d is not ONE]
        ss = [k for k, d in enumerate(sh) if d is not ONE]
        if len(xs) == len(ss) and all(
                x.shape[a] is sh[b] or self.decide(tm.eq(x.shape[a], sh[b])) is True
                for a, b in zip(xs, ss)):
            def f(*i):
                idx = [ZERO] * x.ndim
                for a, b in zip(xs, ss):
                    idx[a] = i[b]
                return x.get(*idx)
            return Arr(sh, f, x.kind)

        # leading and trailing dimensions that stay put
        same = lambda a, b: a is b or self.decide(tm.eq(a, b)) is True
        nl = 0
        while nl < min(x.ndim, len(sh)) and same(x.shape[nl], sh[nl]):
            nl += 1
        nt = 0
        while nt < min(x.ndim, len(sh)) - nl and same(x.shape[-1 - nt], sh[-1 - nt]):
            nt += 1
        if nl + nt and nl + nt < min(x.ndim, len(sh)):
            xm, sm = x.shape[nl:x.ndim - nt], sh[nl:len(sh) - nt]

            def f(*i):
                head, mid, tail = i[:nl], i[nl:len(sh) - nt], i[len(sh) - nt:]
                inner = self.reshape(Arr(xm, lambda *k: x.get(*head, *k, *tail), x.kind), list(sm))
                return inner.get(*mid)
            return Arr(sh, f, x.kind)

        # general row-major re-indexing
        def f(*i):
            flat = ZERO
            for d, v in zip(sh, i):
                flat = tm.add(tm.mul(flat, d), v)
            idx = []
            rem = flat
            strides = []
            st = ONE
            for d in reversed(x.shape):
                strides.append(st)
                st = tm.mul(st, d)
            strides = strides[::-1]
            for k, (d, s) in enumerate(zip(x.shape, strides)):
                if d is ONE:
                    idx.append(ZERO)
                    continue
                q = self.fdiv(rem, s, dict(zip(i, sh)))
                idx.append(q)
                rem = tm.sub(rem, tm.mul(q, s))
            return x.get(*idx)
        return Arr(sh, f, x.kind)

    def fdiv(self, a, b, rng):
        """floor(a/b) for 0<=a, b>0 with index ranges"""
        if b is ONE:
            return a
        if a.op == "const" and b.op == "const":
            return const(int(a.v // b.v))
        facts = []
        for v, d in rng.items():
            if v.op != "const":
                facts += [tm.le(ZERO, v), tm.lt(v, d)]
        c = self.ctx.with_facts(facts)
        # split a = q*b + r syntactically
        n, _ = c.norm().nf(a)
        nb, _ = c.norm().nf(b)
        from .norm import ATOM, mmul, mpow
        if len(nb) == 1:
            (bm, bc), = nb.items()
            q, r = {}, {}
            for m, co in n.items():
                dm = dict(m)
                if all(dm.get(x, 0) >= e for x, e in bm) and (co / bc).denominator == 1:
                    q[mmul(m, mpow(bm, -1))] = co / bc
                else:
                    r[m] = co
            P1 = {(): Fraction(1)}
            rt = c.norm().to_term(r, P1)
            if c.decide(tm.and_(tm.le(ZERO, rt), tm.lt(rt, b))) is True:
                return c.norm().to_term(q, P1)
            # constant b: also move multiples out
            if b.op == "const":
                q2, r2 = {}, {}
                for m, co in n.items():
                    k = co // b.v
                    if k:
                        q2[m] = Fraction(k)
                    if co - k * b.v:
                        r2[m] = co - k * b.v
                rt = c.norm().to_term(r2, P1)
                if c.decide(tm.and_(tm.le(ZERO, rt), tm.lt(rt, b))) is True:
                    return c.norm().to_term(q2, P1)
        return tm.fn("floordiv", a, b)

    def p_slice(self, eqn, ins):
        x = ins[0]
        st = [dim_term(d) for d in eqn.params["start_indices"]]
        sr = eqn.params["strides"] or (1,) * x.ndim
        return Arr(self.oshape(eqn), lambda *i: x.get(*[
            tm.add(s, tm.mul(const(int(r)), v)) for s, r, v in zip(st, sr, i)]), x.kind)

    def clamp_ix(self, s, n, w):
        """start index clamped to [0, n-w]"""
        hi = tm.sub(n, w)
        ok = tm.and_(tm.le(ZERO, s), tm.le(s, hi))
        if self.decide(ok) is True:
            return s
        s = self.simp(s)
        if self.decide(tm.and_(tm.le(ZERO, s), tm.le(s, hi))) is True:
            return s
        return self.simp(tm.max_(tm.min_(s, hi), ZERO))

    def p_dynamic_slice(self, eqn, ins):
        x, starts = ins[0], [s.get() for s in ins[1:1 + ins[0].ndim]]
        sh = self.oshape(eqn)
        st = [self.clamp_ix(s, n, w) for s, n, w in zip(starts, x.shape, sh)]
        return Arr(sh, lambda *i: x.get(*[tm.add(s, v) for s, v in zip(st, i)]), x.kind)

    def p_dynamic_update_slice(self, eqn, ins):
        x, u = ins[0], ins[1]
        starts = [s.get() for s in ins[2:2 + x.ndim]]
        st = [self.clamp_ix(s, n, w) for s, n, w in zip(starts, x.shape, u.shape)]

        def f(*i):
            inside = tm.and_(*[tm.and_(tm.le(s, v), tm.lt(v, tm.add(s, w)))
                               for s, v, w in zip(st, i, u.shape)])
            d = self.decide(inside)
            if d is False:
                return x.get(*i)
            uv = u.get(*[tm.sub(v, s) for s, v in zip(st, i)])
            return uv if d is True else tm.ite(inside, uv, x.get(*i))
        return Arr(self.oshape(eqn), f, x.kind)

    def p_concatenate(self, eqn, ins):
        d = eqn.params["dimension"]
        offs = [ZERO]
        for x in ins:
            offs.append(tm.add(offs[-1], x.shape[d]))

        def f(*i):
            r = None
            for k in range(len(ins) - 1, -1, -1):
                x = ins[k]
                if x.shape[d] is ZERO:
                    continue
                cond = tm.lt(i[d], offs[k + 1])
                dc = True if r is None else self.decide(cond)
                if dc is False:
                    continue
                j = list(i)
                j[d] = ZERO if x.shape[d] is ONE else tm.sub(i[d], offs[k])
                v = x.get(*j)
                r = v if dc is True else tm.ite(cond, v, r)
            return r
        return Arr(self.oshape(eqn), f, ins[0].kind)

    def p_stack(self, eqn, ins):
        d = eqn.params["axis"]

        def f(*i):
            j = i[:d] + i[d + 1:]
            r = ins[-1].get(*j)
            for k in range(len(ins) - 2, -1, -1):
                c = tm.eq(i[d], const(k))
                dc = self.decide(c)
                r = ins[k].get(*j) if dc is True else (r if dc is False else tm.ite(c, ins[k].get(*j), r))
            return r
        return Arr(self.oshape(eqn), f, ins[0].kind)

    def p_pad(self, eqn, ins):
        x, pv = ins
        cfg = eqn.params["padding_config"]
        if any(int(c[2]) != 0 for c in cfg):
            raise Unsupported("interior padding")
        lo = [dim_term(c[0]) for c in cfg]

        def f(*i):
            j = [tm.sub(v, l) for v, l in zip(i, lo)]
            inside = tm.and_(*[tm.and_(tm.le(ZERO, v), tm.lt(v, n)) for v, n in zip(j, x.shape)])
            dc = self.decide(inside)
            if dc is False:
                return pv.get()
            v = x.get(*j)
            return v if dc is True else tm.ite(inside, v, pv.get())
        return Arr(self.oshape(eqn), f, x.kind)

    def p_rev(self, eqn, ins):
        x = ins[0]
        dims = set(eqn.params["dimensions"])
        return Arr(self.oshape(eqn), lambda *i: x.get(*[
            tm.sub(tm.sub(x.shape[k], ONE), v) if k in dims else v for k, v in enumerate(i)]), x.kind)

    def p_unstack(self, eqn, ins):
        x = ins[0]
        ax = eqn.params["axis"]
        return [Arr(self.oshape(eqn, k), lambda *i, k=k: x.get(*i[:ax], const(k), *i[ax:]), x.kind)
                for k in range(len(eqn.outvars))]

    def p_split(self, eqn, ins):
        x = ins[0]
        ax = eqn.params["axis"]
        off = ZERO
        out = []
        for k, s in enumerate(eqn.params["sizes"]):
            out.append(Arr(self.oshape(eqn, k), lambda *i, o=off: x.get(
                *i[:ax], tm.add(i[ax], o), *i[ax + 1:]), x.kind))
            off = tm.add(off, dim_term(s))
        return out

    def p_gather(self, eqn, ins):
        x, ix = ins
        dn = eqn.params["dimension_numbers"]
        ss = [dim_term(s) for s in eqn.params["slice_sizes"]]
        mode = str(eqn.params["mode"])
        sh = self.oshape(eqn)
        od = list(dn.offset_dims)
        bdims = [k for k in range(len(sh)) if k not in od]
        obd = list(getattr(dn, "operand_batching_dims", ()))
        sbd = list(getattr(dn, "start_indices_batching_dims", ()))
        offd = [k for k in range(x.ndim) if k not in dn.collapsed_slice_dims and k not in obd]

        def f(*i):
            b = [i[k] for k in bdims]
            starts = [ZERO] * x.ndim
            for q, d in enumerate(dn.start_index_map):
                starts[d] = self.simp(ix.get(*b, const(q)))
            for o, s in zip(obd, sbd):
                starts[o] = b[s]
            off = [ZERO] * x.ndim
            for k, d in zip(od, offd):
                off[d] = i[k]
            idx = []
            bad = FALSE
            for d in range(x.ndim):
                s = starts[d]
                if d in obd:
                    idx.append(s)
                    continue
                if s.op == "const" and s.v == 0:
                    idx.append(off[d])
                    continue
                inb = tm.and_(tm.le(ZERO, s), tm.le(s, tm.sub(x.shape[d], ss[d])))
                if self.decide(inb) is not True:
                    if "PROMISE" in mode:
                        pass
                    elif "CLIP" in mode:
                        s = self.simp(tm.max_(tm.min_(s, tm.sub(x.shape[d], ss[d])), ZERO))
                    else:  # fill or drop
                        bad = tm.or_(bad, tm.not_(inb))
                    self.range_obl.append(inb)
                idx.append(tm.add(s, off[d]))
            v = x.get(*idx)
            if bad is not FALSE:
                v = tm.ite(bad, tm.var("NAN") if x.kind == "real" else tm.var("FILL", "int"), v)
            return v
        return Arr(sh, f, x.kind)

    def _scatter(self, eqn, ins, combine):
        x, ix, u = ins
        dn = eqn.params["dimension_numbers"]
        obd = list(getattr(dn, "operand_batching_dims", ()))
        sbd = list(getattr(dn, "scatter_indices_batching_dims", ()))
        uwd = list(dn.update_window_dims)
        iwd = list(dn.inserted_window_dims)
        ubd = [k for k in range(u.ndim) if k not in uwd]     # update scatter dims
        wind = [k for k in range(x.ndim) if k not in iwd and k not in obd]  # operand window dims
        nscat = ix.ndim - 1
        free = [k for k in range(nscat) if k not in sbd]
        if free and any(ix.shape[k] is not ONE for k in free):
            # several scattered positions: fold them in order (constant count)
            if not all(ix.shape[k].op == "const" and ix.shape[k].v <= 64 for k in free):
                raise Unsupported("scatter at symbolically many positions")
        import itertools
        pos = list(itertools.product(*[range(int(ix.shape[k].v)) for k in free])) if free else [()]

        def f(*i):
            r = x.get(*i)
            for p in pos:
                b = [None] * nscat
                for k, q in zip(free, p):
                    b[k] = const(q)
                for o, s in zip(obd, sbd):
                    b[s] = i[o]
                conds = []
                uidx = [None] * u.ndim
                for k, q in zip(ubd, b):
                    uidx[k] = q
                sd = {d: self.simp(ix.get(*b, const(q))) for q, d in enumerate(dn.scatter_dims_to_operand_dims)} \
                    if hasattr(dn, "scatter_dims_to_operand_dims") else \
                    {d: self.simp(ix.get(*b, const(q))) for q, d in enumerate(dn.scatter_dims_to_operand_dims)}
                oob = TRUE
                for d in range(x.ndim):
                    if d in obd:
                        continue
                    s = sd.get(d, ZERO)
                    if d in iwd:
                        conds.append(tm.eq(i[d], s))
                        w = ONE
                    else:
                        k = uwd[wind.index(d)]
                        w = u.shape[k]
                        conds.append(tm.and_(tm.le(s, i[d]), tm.lt(i[d], tm.add(s, w))))
                        uidx[k] = tm.sub(i[d], s)
                    if d in sd:
                        inb = tm.and_(tm.le(ZERO, s), tm.le(s, tm.sub(x.shape[d], w)))
                        if self.decide(inb) is not True:
                            self.range_obl.append(inb)
                            oob = tm.and_(oob, inb)
                c = tm.and_(oob, *conds)
                dc = self.decide(c)
                if dc is False:
                    continue
                v = u.get(*uidx)
                v = combine(r, v)
                r = v if dc is True else tm.ite(c, v, r)
            return r
        return Arr(self.oshape(eqn), f, x.kind)

    def p_scatter(self, eqn, ins):
        return self._scatter(eqn, ins, lambda old, new: new)

    def p_scatter_add(self, eqn, ins):
        return self._scatter(eqn, ins, tm.add)

    # ---------------------------------------------------------- reductions
    def _reduce(self, eqn, ins, B):
        x = ins[0]
        axes = sorted(eqn.params["axes"])

        def f(*i):
            def go(k, idx):
                if k == len(axes):
                    it = iter(i)
                    full = [idx[d] if d in idx else next(it) for d in range(x.ndim)]
                    return x.get(*full)
                ax = axes[k]
                return B(ZERO, x.shape[ax], lambda j: go(k + 1, {**idx, ax: j}))
            return go(0, {})
        return Arr(self.oshape(eqn), f, x.kind)

    def p_reduce_sum(self, eqn, ins):
        return self._reduce(eqn, ins, lambda lo, hi, f: split_sum(self.ctx, tm.Sum(lo, hi, f)))

    def p_reduce_prod(self, eqn, ins):
        return self._reduce(eqn, ins, tm.Prod)

    def _fold(self, eqn, ins, op, name):
        def B(lo, hi, f):
            if hi.op == "const" and hi.v <= 64:
                r = f(ZERO)
                for k in range(1, int(hi.v)):
                    r = op(r, f(const(k)))
                return r
            return tm.uf(name, tm.Lam(hi, f), sort="real" if ins[0].kind != "bool" else "bool")
        return self._reduce(eqn, ins, B)

    def p_reduce_max(self, eqn, ins):
        return self._fold(eqn, ins, tm.max_, "maxof")

    def p_reduce_min(self, eqn, ins):
        return self._fold(eqn, ins, tm.min_, "minof")

    def p_reduce_and(self, eqn, ins):
        return self._fold(eqn, ins, tm.and_, "allof")

    def p_reduce_or(self, eqn, ins):
        return self._fold(eqn, ins, tm.or_, "anyof")

    def p_argmax(self, eqn, ins):
        x = ins[0]
        ax = eqn.params["axes"][0]
        return Arr(self.oshape(eqn), lambda *i: tm.uf("argmaxof", tm.Lam(
            x.shape[ax], lambda j: x.get(*i[:ax], j, *i[ax:])), sort="int"), "int")

    def p_argmin(self, eqn, ins):
        x = ins[0]
        ax = eqn.params["axes"][0]
        return Arr(self.oshape(eqn), lambda *i: tm.uf("argminof", tm.Lam(
            x.shape[ax], lambda j: x.get(*i[:ax], j, *i[ax:])), sort="int"), "int")

    def p_cumsum(self, eqn, ins):
        x = ins[0]
        ax = eqn.params["axis"]
        rev = eqn.params.get("reverse", False)

        def f(*i):
            at = lambda j: x.get(*i[:ax], j, *i[ax + 1:])
            return tm.Sum(i[ax], x.shape[ax], at) if rev else tm.Sum(ZERO, tm.add(i[ax], ONE), at)
        return Arr(self.oshape(eqn), f, x.kind)

    def p_cumprod(self, eqn, ins):
        x = ins[0]
        ax = eqn.params["axis"]
        if eqn.params.get("reverse", False):
            raise Unsupported("reverse cumprod")
        return Arr(self.oshape(eqn), lambda *i: tm.Prod(
            ZERO, tm.add(i[ax], ONE), lambda j: x.get(*i[:ax], j, *i[ax + 1:])), x.kind)

    def p_dot_general(self, eqn, ins):
        a, b = ins
        (ca, cb), (ba, bb) = eqn.params["dimension_numbers"]
        fa = [k for k in range(a.ndim) if k not in ca and k not in ba]
        fb = [k for k in range(b.ndim) if k not in cb and k not in bb]

        def f(*i):
            nb = len(ba)
            bi, ai, bi2 = i[:nb], i[nb:nb + len(fa)], i[nb + len(fa):]

            def go(k, js):
                if k == len(ca):
                    ia, ib = [None] * a.ndim, [None] * b.ndim
                    for d, v in zip(ba, bi):
                        ia[d] = v
                    for d, v in zip(bb, bi):
                        ib[d] = v
                    for d, v in zip(fa, ai):
                        ia[d] = v
                    for d, v in zip(fb, bi2):
                        ib[d] = v
                    for d, v in zip(ca, js):
                        ia[d] = v
                    for d, v in zip(cb, js):
                        ib[d] = v
                    return tm.mul(a.get(*ia), b.get(*ib))
                return tm.Sum(ZERO, a.shape[ca[k]], lambda j: go(k + 1, js + [j]))
            return go(0, [])
        return Arr(self.oshape(eqn), f, "real")

    # ---------------------------------------------------------- loops
    def p_scan(self, eqn, ins):
        P = eqn.params
        if "num_consts" in P:
            nc, nk = P["num_consts"], P["num_carry"]
        else:
            nc, nk, _nx = (len(list(z)) for z in P["ft_in"].unpack())
        body = P["jaxpr"]
        length = dim_term(P["length"])
        rev = P["reverse"]
        consts, init, xs = ins[:nc], ins[nc:nc + nk], ins[nc + nk:]
        bc = [np_arr_or_key(c) for c in body.consts]
        self.loops.append(("scan", tm.show(length)))

        if length.op == "const" and length.v <= 4:
            return self.unroll(eqn, body, bc, consts, init, xs, int(length.v), rev)
        # the invariant is established for arbitrary scanned sequences, then
        # instantiated at the actual ones
        gen, gx = {}, []
        for x in xs:
            nm = tm.fresh("_x").v[0]
            sort = {"real": "real", "int": "int", "bool": "bool", "key": "key"}[x.kind]
            gen[nm] = x.get
            gx.append(Arr(x.shape, lambda *i, nm=nm, sort=sort: tm.uf(nm, *i, sort=sort), x.kind))
        n0 = len(self.loop_obl)
        try:
            res = self.scan_summary(eqn, body, bc, consts, init, gx, length, rev, nk)
        except Unsupported:
            del self.loop_obl[n0:]
            return self.scan_summary(eqn, body, bc, consts, init, xs, length, rev, nk)
        return [Arr(r.shape, lambda *i, r=r: tm.map_uf(r.get(*i), gen), r.kind) for r in res]

    def scan_summary(self, eqn, body, bc, consts, init, xs, length, rev, nk):
        def pos(i):
            return tm.sub(tm.sub(length, ONE), i) if rev else i

        # symbolic carries for one generic step
        carr = []
        for q, c in enumerate(init):
            nm = tm.fresh(f"_c{q}_", "real").v[0]
            sort = {"real": "real", "int": "int", "bool": "bool", "key": "key"}[c.kind]
            if c.ndim == 0:
                v = tm.var(nm, sort)
                carr.append(Arr((), lambda v=v: v, c.kind))
            else:
                carr.append(Arr(c.shape, lambda *i, nm=nm, sort=sort: tm.uf(nm, *i, sort=sort), c.kind))
            carr[-1].f.__defaults__
        it = tm.fresh("_it")
        xi = [Arr(x.shape[1:], lambda *i, x=x: x.get(pos(it), *i), x.kind) for x in xs]
        saved = self.ctx
        self.ctx = saved.with_facts([tm.le(ZERO, it), tm.lt(it, length)])
        outs = self.run(body.jaxpr, bc, list(consts) + carr + xi)
        step, ys = outs[:nk], outs[nk:]
        names = []
        for c in carr:
            probe = c.get(*[tm.ivar(f"_pi{k}") for k in range(c.ndim)])
            names.append(probe.v[0] if probe.op in ("var", "uf") else None)

        def deps(t):
            r = set()
            for x in tm.atoms_of(t, lambda x: x.op in ("var", "uf")):
                if x.v[0] in names:
                    r.add(names.index(x.v[0]))
            return r

        idx = [[tm.ivar(f"_pi{k}") for k in range(c.ndim)] for c in carr]
        st = [self.simp(s.get(*ix)) for s, ix in zip(step, idx)]
        dp = [deps(t) for t in st]
        closed = {}  # q -> function(i, *idx) -> term : carry before iteration i

        def subst_closed(t, i):
            """replace resolved carries by their closed form at iteration i, it -> i"""
            t = tm.subst(t, {it: i})
            m = {}
            for x in tm.atoms_of(t, lambda x: x.op in ("var", "uf") and x.v[0] in names):
                q = names.index(x.v[0])
                if q in closed:
                    m[x] = closed[q](i, *x.a)
            return tm.replace(t, m) if m else t

        progress = True
        while progress and len(closed) < nk:
            progress = False
            for q in range(nk):
                if q in closed:
                    continue
                own = carr[q].get(*idx[q])
                t = st[q]
                ivs = idx[q]
                inst = lambda t, ix, ivs=ivs: tm.subst(t, dict(zip(ivs, ix))) if ivs else t
                d = dp[q]
                if t is own:                                   # constant carry
                    closed[q] = lambda i, *ix, q=q: init[q].get(*ix)
                elif q not in d and d <= set(closed):          # function of the previous element
                    def cl(i, *ix, q=q, t=t, inst=inst):
                        prev = tm.sub(i, ONE)
                        v = inst(subst_closed(t, prev), ix)
                        z = tm.eq(i, ZERO)
                        dz = self.ctx.decide(z)
                        if dz is True:
                            return init[q].get(*ix)
                        return v if dz is False else tm.ite(z, init[q].get(*ix), v)
                    closed[q] = cl
                elif d <= set(closed) | {q}:
                    inc = self.ctx.norm().canon(tm.sub(t, own)) if carr[q].kind != "bool" else None
                    if inc is not None and q not in deps(inc):     # accumulator
                        def cl(i, *ix, q=q, inc=inc, inst=inst):
                            return tm.add(init[q].get(*ix),
                                          tm.Sum(ZERO, i, lambda j: inst(subst_closed(inc, j), ix)))
                        closed[q] = cl
                    else:
                        continue
                else:
                    continue
                progress = True
        self.ctx = saved
        if len(closed) < nk:
            if length.op == "const" and length.v <= 64:
                return self.unroll(eqn, body, bc, consts, init, xs, int(length.v), rev)
            raise Unsupported("scan without a recognised inductive invariant")
        # invariant obligations: base and step
        i0 = tm.fresh("_k")
        facts = [tm.le(ZERO, i0), tm.lt(i0, length)]
        for q in range(nk):
            nm = f"loop invariant (carry {q})"
            self.loop_obl.append((nm + ": base", closed[q](ZERO, *idx[q]), init[q].get(*idx[q]), []))
            stp = subst_closed(st[q], i0)
            self.loop_obl.append((nm + ": step", closed[q](tm.add(i0, ONE), *idx[q]), stp, facts))
        res = []
        for q in range(nk):
            res.append(Arr(init[q].shape, lambda *ix, q=q: closed[q](length, *ix), init[q].kind))
        for y in ys:
            ivs = [tm.ivar(f"_pi{k}") for k in range(y.ndim)]
            t = y.get(*ivs)

            def f(*i, t=t, ivs=ivs):
                v = subst_closed(t, pos(i[0]))
                return tm.subst(v, dict(zip(ivs, i[1:]))) if ivs else v
            res.append(Arr((length,) + y.shape, f, y.kind))
        return res

    def unroll(self, eqn, body, bc, consts, init, xs, n, rev):
        nk = len(init)
        carry = list(init)
        yy = []
        order = range(n - 1, -1, -1) if rev else range(n)
        for k in order:
            xi = [Arr(x.shape[1:], lambda *i, x=x, k=k: x.get(const(k), *i), x.kind) for x in xs]
            o = self.run(body.jaxpr, bc, list(consts) + carry + xi)
            carry = o[:nk]
            yy.append((k, o[nk:]))
        yy.sort(key=lambda z: z[0])
        res = list(carry)
        ny = len(yy[0][1]) if yy else 0
        for q in range(ny):
            els = [y[q] for _, y in yy]

            def f(*i, els=els):
                if i[0].op == "const":
                    return els[int(i[0].v)].get(*i[1:])
                r = els[-1].get(*i[1:])
                for k in range(len(els) - 2, -1, -1):
                    r = tm.ite(tm.eq(i[0], const(k)), els[k].get(*i[1:]), r)
                return r
            res.append(Arr((const(n),) + els[0].shape, f, els[0].kind))
        return res

    def p_while(self, eqn, ins):
        raise Unsupported("while loop")

    # ---------------------------------------------------------- random keys
    def p_random_wrap(self, eqn, ins):
        x = ins[0]

        def f(*i):
            a, b = x.get(*i, ZERO), x.get(*i, ONE)
            if a.op == "uf" and a.v[0] == "keyword" and b.op == "uf" and b.v[0] == "keyword" \
                    and a.a[0] is b.a[0] and a.a[1] is ZERO and b.a[1] is ONE:
                return a.a[0]
            return tm.uf("wrapkey", a, b, sort="key")
        return Arr(x.shape[:-1], f, "key")

    def p_random_unwrap(self, eqn, ins):
        x = ins[0]
        return Arr(x.shape + (const(2),), lambda *i: keyword(x.get(*i[:-1]), i[-1]), "int")

    def p_random_split(self, eqn, ins):
        x = ins[0]
        sh = [dim_term(d) for d in eqn.params["shape"]]
        n = ONE
        for s in sh:
            n = tm.mul(n, s)

        def f(*i):
            base, k = i[:x.ndim], i[x.ndim:]
            flat = ZERO
            for s, v in zip(sh, k):
                flat = tm.add(tm.mul(flat, s), v)
            return tm.uf("splitkey", x.get(*base), n, flat, sort="key")
        return Arr(x.shape + tuple(sh), f, "key")

    def p_random_fold_in(self, eqn, ins):
        x, d = ins
        return Arr(self.oshape(eqn), lambda *i: tm.uf(
            "foldkey", x.get(*i) if x.ndim else x.get(), d.get(*i) if d.ndim else d.get(), sort="key"), "key")

    def p_random_seed(self, eqn, ins):
        x = ins[0]
        return Arr(self.oshape(eqn), lambda *i: tm.uf("seedkey", x.get(*i), sort="key"), "key")

    def p_random_bits(self, eqn, ins):
        raise Unsupported("raw random bits")

    def _wrapped(self, x):
        return self.p_random_wrap(None, [x])

    def p_vc_uniform(self, eqn, ins):
        k = self._wrapped(ins[0])
        nb = eqn.params["nb"]
        return Arr(self.oshape(eqn), lambda *i: tm.uf("U01", k.get(*i[:nb]), *[dim_term(d) for d in eqn.params["core"]], *i[nb:]), "real")

    def p_vc_opaque(self, eqn, ins):
        nm = eqn.params["name"]
        return Arr(self.oshape(eqn), lambda *i: tm.uf(nm, *[x.get(*i) for x in ins]), "real")

    def p_vc_normal(self, eqn, ins):
        k = self._wrapped(ins[0])
        nb = eqn.params["nb"]
        return Arr(self.oshape(eqn), lambda *i: tm.uf("STDNORMAL", k.get(*i[:nb]), *[dim_term(d) for d in eqn.params["core"]], *i[nb:]), "real")

    def p_vc_mvn(self, eqn, ins):
        """assumed contract of jax.random.multivariate_normal: for a diagonal
        covariance C the i-th component is mean_i + sqrt(C_ii) * Z_i(key)"""
        k, mu, cov = self._wrapped(ins[0]), ins[1], ins[2]
        nb = eqn.params["nb"]
        n = mu.shape[-1]

        def f(*i):
            b, c = i[:nb], i[nb]
            if n.op == "const":
                m = int(n.v)
                diag = all(self.ctx.norm().is_zero(cov.get(*b, const(p), const(q)))
                           for p in range(m) for q in range(m) if p != q)
                if diag:
                    return tm.add(mu.get(*b, c), tm.mul(tm.sqrt(cov.get(*b, c, c)),
                                                        tm.uf("STDNORMAL", k.get(*b), n, c)))
                return tm.uf("MVN", k.get(*b), c, *[mu.get(*b, const(p)) for p in range(m)],
                             *[cov.get(*b, const(p), const(q)) for p in range(m) for q in range(m)])
            raise Unsupported("multivariate normal of symbolic dimension")
        return Arr(self.oshape(eqn), f, "real")

    def p_vc_mvn_tan(self, eqn, ins):
        """derivative of the contract above, for a covariance that stays diagonal"""
        k, mu, cov, dmu, dcov = self._wrapped(ins[0]), *ins[1:]
        nb = eqn.params["nb"]
        n = mu.shape[-1]
        if n.op != "const":
            raise Unsupported("multivariate normal of symbolic dimension")
        m = int(n.v)

        def f(*i):
            b, c = i[:nb], i[nb]
            if not all(self.ctx.norm().is_zero(x.get(*b, const(p), const(q)))
                       for x in (cov, dcov) for p in range(m) for q in range(m) if p != q):
                raise Unsupported("derivative of a correlated multivariate normal")
            z = tm.uf("STDNORMAL", k.get(*b), n, c)
            return tm.add(dmu.get(*b, c), tm.div(tm.mul(z, dcov.get(*b, c, c)), tm.mul(const(2), tm.sqrt(cov.get(*b, c, c)))))
        return Arr(self.oshape(eqn), f, "real")

    def p_vc_searchsorted(self, eqn, ins):
        a, v = ins
        nb = eqn.params["nb"]
        side = eqn.params["side"]

        def f(*i):
            b = i[:nb]
            n = a.shape[nb]
            lam = tm.Lam(n, lambda j: a.get(*b, j))
            return tm.uf("searchsorted_" + side, v.get(*i), lam, sort="int")
        return Arr(self.oshape(eqn), f, "int")


def np_arr_or_key(c):
    try:
        if hasattr(c, "dtype") and jnp.issubdtype(c.dtype, jax.dtypes.prng_key):
            raise Unsupported("constant PRNG key")
    except TypeError:
        pass
    return np_arr(np.asarray(c))
