"""C06 the star formation history: main sequence times quenching, floored at 1e-14, time by time"""
from .common import *
import diffstar as ds

KB = "diffstar.kernels.history_kernel_builders"


def obligations(R):
    R.assume(MAH_ASSUMED)
    i = tm.ivar("i")
    base = [tm.le(0, i), tm.lt(i, tm.ivar("n")), tm.lt(L(0), tm.uf("t", i))]
    want = t_sfh(tm.uf("t", i), v("lgt0"), v("fb"), pvars(), mvars())
    facts = in_range(PN) + base
    with R.section("SFH of one galaxy", "diffstar.sfh_model.calc_sfh_singlegal", KB + "._sfh_singlegal_kern", KB + "._sfh_singlegal_scalar"):
        M = Machine(Ctx(facts))
        s = sym_sfh(M, n=1).get(i)
        R.must_fail("false goal", M.ctx, tm.lt(s, L(1)))
        R.eq("SFR at each time", M.ctx, s, want)
        R.prove("never below the floor", M.ctx, tm.le(L("1e-14"), s))
        R.defined("SFR defined", M.ctx, s)
        other = {str(x.v[0]) for x in tm.atoms_of(s, lambda q: q.op == "uf") if x.v[0] == "t" and x.a[0] is not i}
        R.prove("depends only on its own time", M.ctx, L(not other))
        R.prove("length equals the number of times", M.ctx, tm.eq(tm.ivar("n"), sym_sfh(Machine(), n=1).shape[0]))
        M2 = Machine(Ctx(facts))
        h = sym_sfh(M2, n=1, return_smh=True)
        R.eq("same SFR when the mass history is returned too", M2.ctx, field(h, "sfh").get(i), s)
    sc = mod_attr(KB, "_sfh_singlegal_scalar")
    if sc is not None:
        with R.section("scalar kernel", KB + "._sfh_singlegal_scalar"):
            D = Dims()
            M = Machine(Ctx(in_range(PN) + [tm.lt(L(0), v("t"))]))
            s = M.call(sc, D, (In("t"), nt_in(mah_cls()), ds.MSParams(*[In(p) for p in MS]), ds.QParams(*[In(p) for p in Q]), In("lgt0"), In("fb"))).get()
            R.eq("SFR", M.ctx, s, t_sfh(v("t"), v("lgt0"), v("fb"), pvars(), mvars()))
    with R.section("SFH of a population", "diffstar.sfh_model.calc_sfh_galpop", KB + "._sfh_galpop_kern"):
        g, D = tm.ivar("k"), Dims(n=1, g=1)
        pf = []
        for p in PN:
            lo, hi = bnd(p)
            pf += [tm.lt(lo, tm.uf(p, g)), tm.lt(tm.uf(p, g), hi)]
        M = Machine(Ctx(base + pf + [tm.le(0, g), tm.lt(g, tm.ivar("g"))]))
        out = M.call(ds.calc_sfh_galpop, D, (nt_in(ds.DiffstarParams, ("g",)), nt_in(mah_cls(), ("g",)), In("t", ("n",))),
                     dict(lgt0=In("lgt0"), fb=In("fb")))
        w = t_sfh(tm.uf("t", i), v("lgt0"), v("fb"), {p: tm.uf(p, g) for p in PN}, [tm.uf(f, g) for f in mah_fields()])
        R.eq("SFR of galaxy g at time i", M.ctx, out.get(g, i), w)
        R.prove("never below the floor", M.ctx, tm.le(L("1e-14"), out.get(g, i)))


def cases(R):
    def gen(rng):
        n = int(rng.choice([1, 5]))
        p = rand_params(rng)
        mah = rand_mah(rng)
        if rng.random() < 0.35:   # galaxies that touch the floor
            p.update(lgy_at_mcrit=-11.9, indx_lo=4.9, lgmcrit=13.4, lg_drop=-2.9)
            mah.update(logm0=10.6)
        return dict(p=p, mah=mah, t=rand_times(rng, n, lo=float(rng.choice([0.01, 0.5]))),
                    fb=float(rng.uniform(0.05, 0.3)), lgt0=float(math.log10(rng.uniform(12, 15))))

    def run(inp):
        t = np.array(inp["t"])
        want = o_sfh(t, inp["lgt0"], inp["fb"], inp["p"], inp["mah"])
        got = np.asarray(sfh_call(inp["p"], inp["mah"], t, inp["lgt0"], inp["fb"]))
        close("SFH", got, want, rtol=1e-8, atol=1e-22, extra=str(inp))
        must(np.all(got >= 1e-14), f"SFR below the floor: {got.min()!r}")
        h = sfh_call(inp["p"], inp["mah"], t, inp["lgt0"], inp["fb"], smh=True)
        close("SFH returned with the mass history", h.sfh, want, rtol=1e-8, atol=1e-22)
        close("stellar mass history", h.smh, o_smh(t, want), rtol=1e-7, atol=1e-6 * o_smh(t, want).max())
        one = [float(sfh_call(inp["p"], inp["mah"], [x], inp["lgt0"], inp["fb"])[0]) for x in t[:2]]
        close("SFR does not depend on the other times", one, got[:2], rtol=1e-12)
        sp = ds.DiffstarParams(*[jnp.array([inp["p"][k], getattr(ds.DEFAULT_DIFFSTAR_PARAMS, k)]) for k in PN])
        mp = mah_nt({k: jnp.array([inp["mah"][k], inp["mah"][k]]) for k in inp["mah"]})
        pop = np.asarray(ds.calc_sfh_galpop(sp, mp, jnp.array(t), lgt0=inp["lgt0"], fb=inp["fb"]))
        close("population SFH", pop[0], want, rtol=1e-8, atol=1e-22)
    R.case("sfh_composition", gen, run, n=40, n_deep=300)
