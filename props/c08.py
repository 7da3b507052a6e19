"""C08 stellar mass formed: trapezoidal time integral of the SFR, never decreasing"""
from .common import *
import diffstar as ds
from diffstar import utils as ut
from vc.jaxvc import Expr


def contract(R, M, c, out, i, t, s):
    """contract of the cumulative integral over the accessor functions t(j), s(j)"""
    R.must_fail("false goal", c, tm.eq(out.get(i), t(i)))
    R.eq("first entry: integral from t=0.001 with SFR 1e-14", c, out.get(L(0)),
         (t(L(0)) - L("1/1000")) * (s(L(0)) + L("1e-14")) / 2 * 10**9)
    c1 = c.with_facts([tm.le(1, i)])
    R.eq("each later entry adds one trapezoid", c1, out.get(i) - out.get(i - 1),
         (t(i) - t(i - 1)) * (s(i) + s(i - 1)) / 2 * 10**9)


def obligations(R):
    i = tm.ivar("i")
    rng = [tm.le(0, i), tm.lt(i, tm.ivar("n"))]
    t, s = (lambda j: tm.uf("t", j)), (lambda j: tm.uf("s", j))
    D = Dims(n=1)
    with R.section("cumulative stellar mass", "diffstar.utils.cumulative_mstar_formed", "diffstar.utils.cumtrapz",
                   "diffstar.utils._cumtrapz_scan_func"):
        M = Machine(Ctx(rng))
        out = M.call(ut.cumulative_mstar_formed, D, (In("t", ("n",)), In("s", ("n",))))
        contract(R, M, M.ctx, out, i, t, s)
        inc = (t(i) - t(i - 1)) * (s(i) + s(i - 1)) / 2 * 10**9
        R.prove("one trapezoid is non-negative for a non-negative SFR and increasing times",
                M.ctx.with_facts([tm.le(1, i), tm.lt(t(i - 1), t(i)), tm.le(0, s(i)), tm.le(0, s(i - 1))]), tm.le(0, inc))
        R.prove("the first entry is positive", M.ctx.with_facts([tm.le(0, s(L(0))), tm.lt(L("1/1000"), t(L(0)))]), tm.lt(0, out.get(L(0))))
        R.loops(M, M.ctx)
        R.prove("one entry per time", M.ctx, tm.eq(out.shape[0], tm.ivar("n")))
    with R.section("linearity", "diffstar.utils.cumulative_mstar_formed"):
        M = Machine(Ctx(rng))
        a = M.call(ut.cumulative_mstar_formed, D, (In("t", ("n",)), In("s", ("n",)))).get(i)
        b = M.call(ut.cumulative_mstar_formed, D, (In("t", ("n",)), Expr(Arr((tm.ivar("n"),), lambda j: s(j) + tm.uf("r", j)), ("n",)))).get(i)
        d0 = M.call(ut.cumulative_mstar_formed, D, (In("t", ("n",)), In("r", ("n",)))).get(i)
        z = M.call(ut.cumulative_mstar_formed, D, (In("t", ("n",)), Expr(Arr((tm.ivar("n"),), lambda j: L(0)), ("n",)))).get(i)
        R.eq("additive in the SFR", M.ctx, b + z, a + d0)
    ct = getattr(ut, "cumtrapz", None)
    if ct is not None:
        with R.section("cumulative trapezoid", "diffstar.utils.cumtrapz"):
            M = Machine(Ctx(rng))
            out = M.call(ct, D, (In("t", ("n",)), In("s", ("n",))))
            R.eq("starts at zero", M.ctx, out.get(L(0)), L(0))
            R.eq("adds one trapezoid", M.ctx.with_facts([tm.le(1, i)]), out.get(i) - out.get(i - 1),
                 (t(i) - t(i - 1)) * (s(i) + s(i - 1)) / 2)
            R.loops(M, M.ctx)
    with R.section("mass history returned with the SFH", "diffstar.sfh_model.calc_sfh_singlegal"):
        R.assume(MAH_ASSUMED)
        M = Machine(Ctx(rng))
        h = sym_sfh(M, n=1, return_smh=True)
        sf, sm = field(h, "sfh"), field(h, "smh")
        a, b = abstract_table(sm.get, sf.get)     # holds for any SFR table, in particular for the one returned
        contract(R, M, M.ctx, Arr(sm.shape, a), i, t, b)
        R.loops(M, M.ctx)
    with R.section("mass history of a population", "diffstar.sfh_model.calc_sfh_galpop"):
        g = tm.ivar("k")
        M = Machine(Ctx(rng + [tm.le(0, g), tm.lt(g, tm.ivar("g"))]))
        h = M.call(ds.calc_sfh_galpop, Dims(n=1, g=1), (nt_in(ds.DiffstarParams, ("g",)), nt_in(mah_cls(), ("g",)), In("t", ("n",))),
                   dict(lgt0=In("lgt0"), fb=In("fb")), dict(return_smh=True))
        sf, sm = field(h, "sfh"), field(h, "smh")
        a, b = abstract_table(lambda j: sm.get(g, j), lambda j: sf.get(g, j))
        contract(R, M, M.ctx, Arr((tm.ivar("n"),), a), i, t, b)
        R.loops(M, M.ctx)


def cases(R):
    def gen(rng):
        n = int(rng.choice([1, 2, 6, 40]))
        t = rand_times(rng, n, lo=0.01)
        k = rng.integers(0, 4)
        if k == 0:
            s = np.zeros(n)
        elif k == 1:
            s = np.where(rng.random(n) < .5, 0.0, 10 ** rng.uniform(-14, 3, n))
        else:
            s = 10 ** rng.uniform(-4, 3, n)
        return dict(t=t, s=[float(x) for x in s], p=rand_params(rng), mah=rand_mah(rng))

    def run(inp):
        t, s = np.array(inp["t"]), np.array(inp["s"])
        want = o_smh(t, s)
        got = np.asarray(ut.cumulative_mstar_formed(jnp.array(t), jnp.array(s)))
        close("cumulative stellar mass", got, want, rtol=1e-9, atol=1e-12 * max(1e-3, np.abs(want).max()))
        must(np.all(np.diff(got) >= 0) and got[0] > 0, "stellar mass decreases")
        g2 = np.asarray(ut.cumulative_mstar_formed_galpop(jnp.array(t), jnp.array([s, 2 * s])))
        close("population cumulative mass", g2[1], o_smh(t, 2 * s), rtol=1e-9, atol=1e-12 * max(1e-3, np.abs(want).max()))
        if len(t) <= 6:
            h = sfh_call(inp["p"], inp["mah"], t, smh=True)
            w = o_smh(t, h.sfh)
            close("mass history of a galaxy", h.smh, w, rtol=1e-9, atol=1e-12 * w.max())
            must(np.all(np.diff(np.asarray(h.smh)) >= 0), "stellar mass decreases")
            sp = ds.DiffstarParams(*[jnp.array([inp["p"][k]] * 2) for k in PN])
            mp = mah_nt({k: jnp.array([inp["mah"][k]] * 2) for k in inp["mah"]})
            hp = ds.calc_sfh_galpop(sp, mp, jnp.array(t), lgt0=math.log10(13.8), fb=0.156, return_smh=True)
            close("mass history of a population", hp.smh[1], w, rtol=1e-8, atol=1e-11 * w.max())
        if hasattr(ut, "cumtrapz"):
            from numpy import concatenate, cumsum, diff
            w = concatenate([[0.0], cumsum(0.5 * diff(t) * (s[1:] + s[:-1]))])
            close("cumtrapz", ut.cumtrapz(jnp.array(t), jnp.array(s)), w, rtol=1e-9, atol=1e-12 * max(1e-3, np.abs(w).max()))
    R.case("stellar_mass", gen, run, n=30, n_deep=300)
