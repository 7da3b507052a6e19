"""C09 gas and stars together account for the accreted baryons"""
from .common import *
import diffstar as ds


def contract(R, M, c, h, t, mah, i, tag, get):
    """get(field, j) accessor; t(j) times; mah halo-parameter terms"""
    n = tm.ivar("n")
    acc = lambda j: v("fb") * t_dmhdt(t(j), v("lgt0"), mah)
    tot = lambda j: get("mgash", j) + get("smh", j)
    R.must_fail(tag + "false goal", c, tm.eq(tot(i), L(0)))
    R.eq(tag + "first entry: integral from t=0.001", c, tot(L(0)), (t(L(0)) - L("1/1000")) * (acc(L(0)) + L("1e-14")) / 2 * 10**9)
    c1 = c.with_facts([tm.le(1, i)])
    R.eq(tag + "each step adds the trapezoid of the accretion rate", c1, tot(i) - tot(i - 1),
         (t(i) - t(i - 1)) * (acc(i) + acc(i - 1)) / 2 * 10**9)
    g = lambda j: get("mgash", j)
    ci = c.with_facts([tm.le(1, i), tm.lt(i, n - 1)])
    ok = tm.lt(t(i - 1), t(i + 1))
    R.eq(tag + "gas rate at interior times", ci.with_facts([ok]), get("dmgash", i), (g(i + 1) - g(i - 1)) / (t(i + 1) - t(i - 1)) / 10**9)
    z = L(0)
    R.eq(tag + "gas rate at the first time", c.with_facts([tm.lt(t(z), t(L(1)))]), get("dmgash", z), (g(L(1)) - g(z)) / (t(L(1)) - t(z)) / 10**9)
    last = lambda f: (f(n - 1) - f(n - 2)) / 2 + (f(n - 1) - f(n - 3)) / 4
    R.eq(tag + "gas rate at the last time", c.with_facts([tm.lt(t(n - 3), t(n - 2)), tm.lt(t(n - 2), t(n - 1))]), get("dmgash", n - 1),
         last(g) / last(t) / 10**9)


def obligations(R):
    R.assume(MAH_ASSUMED)
    i, k = tm.ivar("i"), tm.ivar("k")
    n = tm.ivar("n")
    rng = [tm.le(0, i), tm.lt(i, n)]
    t = lambda j: tm.uf("t", j)
    kw = dict(lgt0=In("lgt0"), fb=In("fb"))
    with R.section("one galaxy", "diffstar.mgas_model.calc_mgas_singlegal", "diffstar.utils._jax_get_dt_array"):
        M = Machine(Ctx(rng))
        h = M.call(ds.calc_mgas_singlegal, Dims(n=3), (nt_in(ds.DiffstarParams), nt_in(mah_cls()), In("t", ("n",))), kw)
        contract(R, M, M.ctx, h, t, mvars(), i, "", lambda f, j: field(h, f).get(j))
        pos = M.ctx.with_facts([tm.lt(0, t(i))])
        R.eq("SFH", pos, field(h, "sfh").get(i), t_sfh(t(i), v("lgt0"), v("fb"), pvars(), mvars()))
        M2 = Machine(Ctx(rng))
        s = M2.call(ds.calc_sfh_singlegal, Dims(n=3), (nt_in(ds.DiffstarParams), nt_in(mah_cls()), In("t", ("n",))), kw, dict(return_smh=True))
        R.eq("same SFH as the star formation call", M.ctx, field(h, "sfh").get(i), field(s, "sfh").get(i))
        R.eq("same stellar mass as the star formation call", M.ctx, field(h, "smh").get(i), field(s, "smh").get(i))
        R.loops(M, M.ctx)
    with R.section("population", "diffstar.mgas_model.calc_mgas_galpop"):
        M = Machine(Ctx(rng + [tm.le(0, k), tm.lt(k, tm.ivar("g"))]))
        h = M.call(ds.calc_mgas_galpop, Dims(n=3, g=1), (nt_in(ds.DiffstarParams, ("g",)), nt_in(mah_cls(), ("g",)), In("t", ("n",))), kw)
        contract(R, M, M.ctx, h, t, [tm.uf(f, k) for f in mah_fields()], i, "galaxy k: ", lambda f, j: field(h, f).get(k, j))
        R.loops(M, M.ctx)
    with R.section("gas between events", "diffstar.mgas_model.calc_mgas_singlegal"):
        # a gas reservoir that only loses what stars take: lower bound of the gas
        a, b = v("_acc"), v("_sfr")
        R.prove("accreting at least the SFR never lowers the gas", Ctx([tm.le(b, a), tm.lt(0, v("_dt"))]),
                tm.le(0, (a - b) * v("_dt") * 10**9))


def cases(R):
    def gen(rng):
        n = int(rng.choice([3, 4, 12]))
        return dict(p=rand_params(rng), mah=rand_mah(rng), t=rand_times(rng, n), fb=float(rng.uniform(0.05, 0.3)),
                    lgt0=float(math.log10(rng.uniform(12, 15))), dflt=bool(rng.random() < .3))

    def run(inp):
        from diffmah.diffmah_kernels import mah_singlehalo
        t = np.array(inp["t"])
        kw = {} if inp["dflt"] else dict(lgt0=inp["lgt0"], fb=inp["fb"])
        fbv, lgt0 = (0.156, math.log10(13.8)) if inp["dflt"] else (inp["fb"], inp["lgt0"])
        m = mah_nt(inp["mah"])
        acc = fbv * np.asarray(mah_singlehalo(m, jnp.array(t), lgt0)[0])
        want = o_smh(t, acc)
        sp = ds.DiffstarParams(**inp["p"])
        one = ds.calc_mgas_singlegal(sp, m, jnp.array(t), **kw)
        bp = ds.DiffstarParams(*[jnp.array([inp["p"][q]] * 2) for q in PN])
        bm = mah_nt({q: jnp.array([inp["mah"][q]] * 2) for q in inp["mah"]})
        two = ds.calc_mgas_galpop(bp, bm, jnp.array(t), **kw)
        for tag, h in (("galaxy", one), ("population", type(one)(*[x[1] for x in two]))):
            gas, smh, sfh, rate = (np.asarray(getattr(h, f)) for f in ("mgash", "smh", "sfh", "dmgash"))
            sc = np.abs(want).max() + np.abs(smh).max()
            close(tag + " gas+stars", gas + smh, want, rtol=1e-8, atol=1e-9 * sc)
            close(tag + " stars", smh, o_smh(t, sfh), rtol=1e-8)
            close(tag + " SFH", sfh, o_sfh(t, lgt0, fbv, inp["p"], inp["mah"]), rtol=1e-6)
            def step(x):
                mid = 0.5 * (x[1:] + x[:-1])
                d = np.diff(mid)
                return np.concatenate([[x[1] - x[0]], d, [(x[-1] - x[-2]) / 2 + d[-1] / 2]])
            w = step(gas) / step(t) / 1e9
            close(tag + " gas rate", rate, w, rtol=1e-6, atol=1e-9 * np.abs(w).max())
    R.case("gas_budget", gen, run, n=25, n_deep=250)
