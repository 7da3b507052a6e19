"""C11 smoothed formation rate: the lagged mass difference per year"""
from .common import *
from diffstar import utils as ut

SS = ("jnp.searchsorted (dependency): on an increasing table, side='right' returns k+1 when t[k] <= x < t[k+1], 0 below the "
      "first entry and n from the last one on; side='left' likewise with t[k] < x <= t[k+1]")


def ss_facts(x, tab, n, k):
    """instances of the contract of searchsorted at x, with tab(k) < x < tab(k+1)"""
    lam = tm.Lam(n, tab)
    return [tm.eq(tm.uf("searchsorted_" + s, x, lam, sort="int"), k) for s in ("right", "left")]


def obligations(R):
    R.assume(SS, "jnp.interp (dependency): piecewise linear between the entries chosen by searchsorted, constant beyond the ends")
    i, n, k = tm.ivar("i"), tm.ivar("n"), tm.ivar("k")
    t, m = (lambda j: tm.uf("t", j)), (lambda j: tm.uf("m", j))
    d = v("delta")
    with R.section("smoothed rate", "diffstar.utils.compute_fstar"):
        f = attr(ut, "compute_fstar")
        base = [tm.le(0, i), tm.lt(i, n), tm.lt(0, d)]
        M = Machine(Ctx(base))
        fs = M.call(f, Dims(n=3), (In("t", ("n",)), In("m", ("n",)), In("delta"))).get(i)
        c = M.ctx
        x = t(i) - d
        R.must_fail("false goal", c, tm.eq(fs, L(0)))
        R.prove("never negative", c, tm.le(0, fs))
        rate = lambda low: tm.max_(L(0), (m(i) - low) / d / 10**9)
        last = [tm.le(t(i), t(n - 1)), tm.le(t(L(0)), t(i))]
        inside = [tm.le(0, k), tm.lt(k, n - 1), tm.lt(t(k), x), tm.lt(x, t(k + 1)), tm.le(t(L(0)), t(k)), tm.le(t(k + 1), t(n - 1))]
        low = m(k) + (x - t(k)) / (t(k + 1) - t(k)) * (m(k + 1) - m(k))
        R.eq("look-back inside the table", c.with_facts(inside + last + ss_facts(x, t, n, k + 1)), fs, rate(low))
        R.eq("look-back before the table: mass at the first time", c.with_facts([tm.lt(x, t(L(0)))] + last + ss_facts(x, t, n, L(0))), fs, rate(m(L(0))))
        # at a table time exactly
        at = [tm.le(0, k), tm.lt(k, n - 1), tm.eq(x, t(k)), tm.lt(t(k), t(k + 1)), tm.le(t(L(0)), t(k)), tm.le(t(k + 1), t(n - 1))]
        lam = tm.Lam(n, t)
        sse = [tm.eq(tm.uf("searchsorted_right", x, lam, sort="int"), k + 1), tm.eq(tm.uf("searchsorted_left", x, lam, sort="int"), k)]
        R.eq("look-back exactly at a table time", c.with_facts(at + last + sse), tm.subst(fs, {}), rate(m(k)))
        lo = v("_low")
        R.prove("a mass that grew by D gives D/interval: no clipping", Ctx([tm.lt(0, d), tm.le(lo, v("_m"))]),
                tm.eq(tm.max_(L(0), (v("_m") - lo) / d / 10**9), (v("_m") - lo) / d / 10**9))
        R.defined("defined inside the table", c.with_facts(inside + last + ss_facts(x, t, n, k + 1)), rate(low))
    fv = getattr(ut, "compute_fstar_vmap", None)
    if fv is not None:
        g = tm.ivar("g_")
        with R.section("smoothed rate of a population", "diffstar.utils.compute_fstar_vmap"):
            M2 = Machine(Ctx(base + [tm.le(0, g), tm.lt(g, tm.ivar("g"))]))
            P = M2.call(fv, Dims(n=3, g=1), (In("t", ("n",)), In("m", ("g", "n")), In("delta")))
            from vc.jaxvc import Expr
            M3 = Machine(Ctx(base))
            S = M3.call(f, Dims(n=3), (In("t", ("n",)), Expr(Arr((n,), lambda j: tm.uf("m", g, j)), ("n",)), In("delta")))
            R.eq("row", M2.ctx, P.get(g, i), S.get(i))


def cases(R):
    def gen(rng):
        n = int(rng.choice([3, 5, 25]))
        t = rand_times(rng, n, lo=0.1)
        s = 10 ** rng.uniform(-3, 2, n)
        m = np.cumsum(s) * 1e9
        if rng.random() < .4:
            m = 10 ** rng.uniform(6, 11, n)     # not monotone: exercises the clip
        delta = float(rng.choice([0.1, 1.0, rng.uniform(0.01, 5), t[min(2, n - 1)] - t[0]]))
        return dict(t=t, m=[float(x) for x in m], delta=delta)

    def run(inp):
        t, m, d = np.array(inp["t"]), np.array(inp["m"]), inp["delta"]
        want = np.maximum(0, (m - np.interp(t - d, t, m)) / d / 1e9)
        got = np.asarray(ut.compute_fstar(jnp.array(t), jnp.array(m), d))
        close("smoothed rate", got, want, rtol=1e-8, atol=1e-9 * m.max() / d / 1e9)
        must(got >= 0, "negative rate")
        if hasattr(ut, "compute_fstar_vmap"):
            g2 = np.asarray(ut.compute_fstar_vmap(jnp.array(t), jnp.array([m, 3 * m, m]), d))
            close("smoothed rate of a population", g2[1], 3 * want, rtol=1e-8, atol=1e-9 * m.max() / d / 1e9)
    R.case("smoothed_rate", gen, run, n=40, n_deep=300)
