"""C10 time-step arrays tile the time table"""
from .common import *
from vc.pyvc import VM, PArr
from vc.pyrun import execute
from .c21 import el
from diffstar import utils as ut


def obligations(R):
    i, n = tm.ivar("i"), tm.ivar("n")
    t = lambda j: tm.uf("t", j)
    with R.section("time steps", "diffstar.utils._jax_get_dt_array"):
        f = attr(ut, "_jax_get_dt_array")
        M = Machine(Ctx([tm.le(0, i), tm.lt(i, n)]))
        dt = M.call(f, Dims(n=3), (In("t", ("n",)),))
        c = M.ctx
        R.must_fail("false goal", c, tm.eq(dt.get(i), t(i)))
        R.eq("first step", c, dt.get(L(0)), t(L(1)) - t(L(0)))
        R.eq("interior step", c.with_facts([tm.le(1, i), tm.lt(i, n - 1)]), dt.get(i), (t(i + 1) - t(i - 1)) / 2)
        R.eq("last step", c, dt.get(n - 1), (t(n - 1) - t(n - 2)) / 2 + (t(n - 1) - t(n - 3)) / 4)
        R.prove("interior steps positive", c.with_facts([tm.le(1, i), tm.lt(i, n - 1), tm.lt(t(i - 1), t(i)), tm.lt(t(i), t(i + 1))]), tm.lt(0, dt.get(i)))
        R.prove("first step positive", c.with_facts([tm.lt(t(L(0)), t(L(1)))]), tm.lt(0, dt.get(L(0))))
        R.prove("last step positive", c.with_facts([tm.lt(t(n - 3), t(n - 2)), tm.lt(t(n - 2), t(n - 1))]), tm.lt(0, dt.get(n - 1)))
        R.prove("one step per time", c, tm.eq(dt.shape[0], n))
        # tiling: edge_0 = t0 - (t1-t0)/2, edge_{i+1} = edge_i + dt_i is the midpoint for every i < n-1 (induction)
        edge = lambda j: (t(j - 1) + t(j)) / 2
        R.eq("tiling: base", c, t(L(0)) - (t(L(1)) - t(L(0))) / 2 + dt.get(L(0)), edge(L(1)))
        ci = c.with_facts([tm.le(1, i), tm.lt(i, n - 1)])
        R.eq("tiling: step", ci, edge(i) + dt.get(i), edge(i + 1))
        R.eq("scales with the unit of time", c, M.call(lambda x: f(2 * x), Dims(n=3), (In("t", ("n",)),)).get(i), 2 * dt.get(i))
    with R.section("time steps, numpy implementation", "diffstar.utils._get_dt_array"):
        f = attr(ut, "_get_dt_array")
        g = attr(ut, "_jax_get_dt_array")
        vm = VM(facts=[tm.le(2, n)])
        for q, o in enumerate(execute(R, vm, f, lambda: ((PArr((n,), t),), {}))):
            tag = f"path {q}: "
            d = o.value
            c = o.ctx()
            R.prove(tag + "one step per time", c, tm.eq(tm.lift(d.shape[0]), n) if isinstance(d, PArr) and d.ndim == 1 else tm.FALSE)
            R.eq(tag + "first step", c, el(d, L(0)), t(L(1)) - t(L(0)))
            R.eq(tag + "interior step", c.with_facts([tm.le(1, i), tm.lt(i, n - 1)]), el(d, i), (t(i + 1) - t(i - 1)) / 2)
            c3 = c.with_facts([tm.le(3, n)])
            R.eq(tag + "last step", c3, el(d, n - 1), (t(n - 1) - t(n - 2)) / 2 + (t(n - 1) - t(n - 3)) / 4)
            R.eq(tag + "last of two steps", o.ctx(tm.eq(n, 2)), tm.subst(el(d, n - 1), {n: L(2)}), t(L(1)) - t(L(0)))
            R.must_fail(tag + "false goal", c3, tm.eq(el(d, i), t(i)))
            M = Machine(Ctx([tm.le(0, i), tm.lt(i, n)]))
            dj = M.call(g, Dims(n=3), (In("t", ("n",)),))
            for nm, fs, k in (("first", [], L(0)), ("interior", [tm.le(1, i), tm.lt(i, n - 1)], i), ("last", [], n - 1)):
                R.eq(tag + f"the two implementations agree: {nm}", c3.with_facts(fs), el(d, k), dj.get(k))


def cases(R):
    def gen(rng):
        return dict(t=rand_times(rng, int(rng.choice([3, 4, 5, 30])), lo=0.01))

    def run(inp):
        t = np.array(inp["t"])
        mid = 0.5 * (t[1:] + t[:-1])
        d = np.diff(mid)
        want = np.concatenate([[t[1] - t[0]], d, [(t[-1] - t[-2]) / 2 + d[-1] / 2]])
        if hasattr(ut, "_jax_get_dt_array"):
            got = np.asarray(ut._jax_get_dt_array(jnp.array(t)))
            close("time steps", got, want, rtol=1e-9)
            must(got > 0, "non-positive time step")
        if hasattr(ut, "_get_dt_array"):
            close("time steps (numpy)", ut._get_dt_array(t), want, rtol=1e-9)
            close("time steps (numpy, two times)", ut._get_dt_array(t[:2]), [t[1] - t[0]] * 2, rtol=1e-9)
    R.case("time_steps", gen, run, n=40, n_deep=300)
