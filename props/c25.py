"""C25 merging and selecting parameter sets"""
from collections import namedtuple
from itertools import combinations

from .common import *
import diffstar as ds

PU = "diffstar.diffstarpop.param_utils"


def pu():
    import importlib
    try:
        return importlib.import_module(PU)
    except ImportError:
        raise Missing(PU)


def subsets(names):
    """every name subset of up to 8 names; else empty, all, singletons, complements, adjacent pairs, halves"""
    names = list(names)
    if len(names) <= 8:
        return [c for k in range(len(names) + 1) for c in combinations(names, k)]
    out = [(), tuple(names), tuple(names[::2]), tuple(names[1::2]), tuple(names[:len(names) // 2]), tuple(names[::-1][: len(names) // 3])]
    out += [(n,) for n in names] + [tuple(m for m in names if m != n) for n in names]
    out += [(b, a) for a, b in zip(names, names[1:])]
    return out


def obligations(R):
    R.assume("parameter sets are namedtuples; names of a partial set are names of the full set")
    m = pu()
    with R.section("completing a partial set of galaxy parameters", PU + ".get_all_params_from_varied"):
        f = attr(m, "get_all_params_from_varied")
        D, F = Dims(), ds.DEFAULT_DIFFSTAR_PARAMS._fields
        full = ds.DEFAULT_DIFFSTAR_PARAMS._make([In("d_" + k) for k in F])
        for sub in subsets(F):
            for order in ({sub, sub[::-1]} if len(sub) in (2, 5) else {sub}):
                V = namedtuple("Varied", order)
                M = Machine()
                o = M.call(f, D, (V(*[In("g_" + k) for k in order]), full))
                R.prove(f"all names, in order [{len(sub)} given]", M.ctx, L(tuple(o._fields) == tuple(F)))
                want = [v(("g_" if k in sub else "d_") + k) for k in F]
                R.prove(f"given {', '.join(order) or 'none'}", M.ctx, tm.and_(*[tm.eq(field(o, k).get(), w) for k, w in zip(F, want)]))
        R.must_fail("false goal", M.ctx, tm.eq(field(o, F[0]).get(), v("d_" + F[0])))
    with R.section("completing a partial set of population parameters", PU + ".get_all_diffstarpop_u_params"):
        f = attr(m, "get_all_diffstarpop_u_params")
        from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_U_PARAMS as U
        F = U._fields
        for sub in subsets(F):
            V = namedtuple("Varied", sub)
            M = Machine()
            o = M.call(f, Dims(), (V(*[In("g_" + k) for k in sub]),))
            R.prove(f"all names, in order [{len(sub)} given]", M.ctx, L(tuple(o._fields) == tuple(F)))
            bad = [k for k in F if k in sub and field(o, k).get() is not v("g_" + k)]
            R.prove(f"given values keep their name [{len(sub)} given: {', '.join(sub[:2])}]", M.ctx, L(not bad))
            g = [k for k in F if k not in sub]
            R.prove(f"other names take their default [{len(sub)} given: {', '.join(sub[:2])}]", M.ctx,
                    L(all(value_is(field(o, k).get(), float(getattr(U, k))) for k in g)))
        R.note(f"{len(subsets(F))} name subsets of the {len(F)} population parameters were enumerated (all values symbolic)")
    with R.section("selecting between two sets", PU + ".mc_select_diffstar_params"):
        f = attr(m, "mc_select_diffstar_params")
        g, i = tm.ivar("g"), tm.ivar("i")
        for cls in (ds.DiffstarParams,):
            M = Machine(Ctx([tm.le(0, i), tm.lt(i, g)]))
            o = M.call(f, Dims(g=1), (nt_in(cls, ("g",), "one_"), nt_in(cls, ("g",), "zero_"), In("flag", ("g",), "bool")))
            fl = tm.uf("flag", i, sort="bool")
            R.must_fail("false goal", M.ctx, tm.eq(field(o, PN[0]).get(i), tm.uf("one_" + PN[0], i)))
            for p in PN:
                x = field(o, p).get(i)
                R.eq(f"{p} of a flagged galaxy", M.ctx.with_facts([fl]), x, tm.uf("one_" + p, i))
                R.eq(f"{p} of an unflagged galaxy", M.ctx.with_facts([tm.not_(fl)]), x, tm.uf("zero_" + p, i))
                R.prove(f"{p}: one value per galaxy", M.ctx, tm.eq(field(o, p).shape[0], g))
        # integer flags: 1 selects the first set
        M = Machine(Ctx([tm.le(0, i), tm.lt(i, g)]))
        o = M.call(f, Dims(g=1), (nt_in(ds.DiffstarParams, ("g",), "one_"), nt_in(ds.DiffstarParams, ("g",), "zero_"), In("flag", ("g",), "int")))
        fi = tm.uf("flag", i, sort="int")
        for p in PN:
            x = field(o, p).get(i)
            R.eq(f"{p} with flag 1", M.ctx.with_facts([tm.eq(fi, 1)]), x, tm.uf("one_" + p, i))
            R.eq(f"{p} with flag 0", M.ctx.with_facts([tm.eq(fi, 0)]), x, tm.uf("zero_" + p, i))


def value_is(t, x):
    return t.op == "const" and abs(float(t.v) - x) <= 1e-9 * max(1.0, abs(x))


def cases(R):
    def gen(rng):
        n = int(rng.choice([1, 2, 7]))
        from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_U_PARAMS as U
        names = [str(x) for x in rng.permutation(PN)[: int(rng.integers(0, 9))]]
        pnames = [str(x) for x in rng.permutation(U._fields)[: int(rng.integers(0, len(U._fields) + 1))]]
        return dict(one=rng.normal(size=(8, n)).tolist(), zero=rng.normal(size=(8, n)).tolist(),
                    flag=[bool(x) for x in rng.random(n) < .5], names=names, pnames=pnames,
                    vals=rng.normal(size=200).tolist())

    def run(inp):
        m = pu()
        f = getattr(m, "mc_select_diffstar_params", None)
        one, zero, fl = (np.array(inp[k]) for k in ("one", "zero", "flag"))
        if f is not None:
            for flag in (fl, fl.astype(int), jnp.array(fl)):
                o = f(ds.DiffstarParams(*one), ds.DiffstarParams(*zero), flag)
                for k, p in enumerate(PN):
                    close(p, getattr(o, p), [a if q else b for a, b, q in zip(one[k], zero[k], fl)], rtol=1e-12)
        f = getattr(m, "get_all_params_from_varied", None)
        if f is not None:
            V = namedtuple("Varied", inp["names"])
            d = ds.DEFAULT_DIFFSTAR_PARAMS
            o = f(V(*inp["vals"][: len(inp["names"])]), d)
            must(tuple(o._fields) == tuple(d._fields), "names changed")
            g = dict(zip(inp["names"], inp["vals"]))
            for p in PN:
                close(p, getattr(o, p), g.get(p, float(getattr(d, p))), rtol=1e-12)
        f = getattr(m, "get_all_diffstarpop_u_params", None)
        if f is not None:
            from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_U_PARAMS as U
            V = namedtuple("Varied", inp["pnames"])
            o = f(V(*inp["vals"][: len(inp["pnames"])]))
            must(tuple(o._fields) == tuple(U._fields), "names changed")
            g = dict(zip(inp["pnames"], inp["vals"]))
            for p in U._fields:
                close(p, getattr(o, p), g.get(p, float(getattr(U, p))), rtol=1e-12)
    R.case("merge_and_select", gen, run, n=25, n_deep=120)
