"""C05 main-sequence efficiency: a rolling power law of halo mass"""
from .common import *
import diffstar as ds

KM = "diffstar.kernels.main_sequence_kernels"


def obligations(R):
    R.assume(MAH_ASSUMED)
    D = Dims()
    x = v("lgm")
    eff = mod_attr(KM, "_sfr_eff_plaw")
    facts = in_range(MS)
    with R.section("efficiency law", KM + "._sfr_eff_plaw"):
        if eff is None:
            raise Missing("_sfr_eff_plaw")
        M = Machine(Ctx(facts))
        e = M.call(eff, D, (In("lgm"),) + tuple(In(p) for p in MS)).get()
        shape(R, M.ctx, e, x)
    ker = mod_attr(KM, "sfh_ms_kernel")
    with R.section("main-sequence SFR", KM + ".sfh_ms_kernel"):
        if ker is None:
            raise Missing("sfh_ms_kernel")
        M = Machine(Ctx(facts))
        s = M.call(ker, D, (In("t"), nt_in(mah_cls()), ds.MSParams(*[In(p) for p in MS]), In("lgt0"), In("fb"))).get()
        R.eq("SFR = fb * Mhalo * efficiency(Mhalo)", M.ctx, s, t_ms(v("t"), v("lgt0"), v("fb"), pvars(), mvars()))
        k = v("_k")
        R.eq("SFR is proportional to the baryon fraction", M.ctx, tm.subst(s, {v("fb"): k * v("fb")}), k * s)
    vm = mod_attr(KM, "sfh_ms_kernel_vmap")
    if vm is not None:
        with R.section("main-sequence SFR at many times", KM + ".sfh_ms_kernel_vmap"):
            D2 = Dims(n=1)
            i = tm.ivar("i")
            M = Machine(Ctx(facts + [tm.le(0, i), tm.lt(i, tm.ivar("n"))]))
            s = M.call(vm, D2, (In("t", ("n",)), nt_in(mah_cls()), ds.MSParams(*[In(p) for p in MS]), In("lgt0"), In("fb")))
            R.eq("each time", M.ctx, s.get(i), t_ms(tm.uf("t", i), v("lgt0"), v("fb"), pvars(), mvars()))
    with R.section("galaxy without quenching follows the main sequence", "diffstar.sfh_model.calc_sfh_singlegal"):
        i = tm.ivar("i")
        zero = [tm.eq(v("lg_drop"), L(0)), tm.eq(v("lg_rejuv"), L(0))]
        M = Machine(Ctx(facts + [tm.le(0, i), tm.lt(i, tm.ivar("n")), tm.lt(L(0), tm.uf("t", i))]))
        s = sym_sfh(M).get(i)
        s = tm.subst(s, {v("lg_drop"): L(0), v("lg_rejuv"): L(0)})
        ms = t_ms(tm.uf("t", i), v("lgt0"), v("fb"), pvars(), mvars())
        R.eq("SFR", M.ctx, s, tm.max_(L("1e-14"), ms))


def shape(R, c, e, x):
    mc, lgy, lo, hi = (v(p) for p in MS)
    R.must_fail("false goal", c, tm.lt(lgy, e))
    R.eq("law", c, e, t_eff_lg(x, mc, lgy, lo, hi))
    R.eq("value at the critical mass", c, tm.subst(e, {x: mc}), lgy)
    d = x - mc
    R.prove("steeper than the high-mass slope below/above the critical mass", c.with_facts([tm.lt(mc, x)]),
            tm.lt(hi * d, e - lgy))
    R.prove("shallower than the low-mass slope", c.with_facts([tm.lt(mc, x)]), tm.lt(e - lgy, lo * d))
    R.prove("below mcrit: above the low-mass power law", c.with_facts([tm.lt(x, mc)]), tm.lt(lo * d, e - lgy))
    R.prove("below mcrit: under the high-mass power law", c.with_facts([tm.lt(x, mc)]), tm.lt(e - lgy, hi * d))
    a, b = v("_a"), v("_b")
    sl = lambda z: tm.div(tm.subst(e, {x: z}) - lgy, z - mc)
    R.prove("effective slope falls with mass", c.with_facts([tm.lt(a, b), tm.lt(mc, a)]), tm.lt(sl(b), sl(a)))
    R.prove("effective slope falls with mass below mcrit", c.with_facts([tm.lt(a, b), tm.lt(b, mc)]), tm.lt(sl(b), sl(a)))


def cases(R):
    def gen(rng):
        p = rand_params(rng)
        p["lgmcrit"] = float(rng.uniform(10.5, 13.4))
        return dict(p=p, mah=rand_mah(rng), t=rand_times(rng, 6), fb=float(rng.uniform(0.05, 0.3)),
                    lgt0=float(math.log10(rng.uniform(12, 15))), dm=[float(z) for z in rng.normal(0, 1.0, 5)])

    def run(inp):
        p = inp["p"]
        eff = mod_attr(KM, "_sfr_eff_plaw")
        if eff is not None:
            lgm = np.array([0.0] + inp["dm"]) + p["lgmcrit"]
            got = np.asarray(eff(jnp.array(lgm), *[p[k] for k in MS]))
            close("log efficiency", 10 ** got, o_eff(lgm, p["lgmcrit"], p["lgy_at_mcrit"], p["indx_lo"], p["indx_hi"]), rtol=1e-9)
            close("efficiency at the critical mass", got[0], p["lgy_at_mcrit"], rtol=1e-10)
        t = np.array(inp["t"])
        want = o_ms(t, inp["lgt0"], inp["fb"], p, inp["mah"])
        ker = mod_attr(KM, "sfh_ms_kernel")
        ms = ds.MSParams(*[p[k] for k in MS])
        if ker is not None:
            got = [float(ker(x, mah_nt(inp["mah"]), ms, inp["lgt0"], inp["fb"])) for x in t]
            close("main-sequence SFR", got, want, rtol=1e-9)
        vm = mod_attr(KM, "sfh_ms_kernel_vmap")
        if vm is not None:
            close("main-sequence SFR (all times)", vm(jnp.array(t), mah_nt(inp["mah"]), ms, inp["lgt0"], inp["fb"]), want, rtol=1e-9)
        got = sfh_call(dict(p, lg_drop=0.0, lg_rejuv=0.0), inp["mah"], t, inp["lgt0"], inp["fb"])
        close("SFR of an unquenched galaxy", got, np.maximum(1e-14, want), rtol=1e-9)
        g2 = sfh_call(dict(p, lg_drop=0.0, lg_rejuv=0.0), inp["mah"], t, inp["lgt0"], 2 * inp["fb"])
        must(np.all((np.asarray(got) <= 1.0001e-14) | (np.abs(np.asarray(g2) / np.asarray(got) - 2) < 1e-9)), "not proportional to the baryon fraction")
    R.case("main_sequence", gen, run, n=30, n_deep=300)
