"""C04 quenching function: a drop to the minimum at the quenching time, then a rise to the rejuvenated level"""
from .common import *
import diffstar as ds

KERN = "diffstar.kernels.quenching_kernels"


def obligations(R):
    D = Dims()
    lgt, qt, ql, dr, rj = v("lgt"), v("lg_qt"), v("qlglgdt"), v("lg_drop"), v("lg_rejuv")
    facts = in_range(Q)
    half = tm.pow10(ql) / 2
    kern = mod_attr(KERN, "_quenching_kern")
    with R.section("quenching kernel against its specification", KERN + "._quenching_kern",
                   KERN + "._jax_partial_u_tw_kern", KERN + "._jax_tw"):
        if kern is None:
            raise Missing("_quenching_kern")
        M = Machine(Ctx(facts))
        out = M.call(lambda a, b, c_, d, e: jnp.log10(kern(a, b, 10**c_, d, e)), D,
                     (In("lgt"), In("lg_qt"), In("qlglgdt"), In("lg_drop"), In("lg_rejuv")))
        q = out.get()
        c = M.ctx
        R.must_fail("false goal", c, tm.le(L(0), q))
        R.eq("log10 factor", c, q, t_quench_lg(lgt, qt, ql, dr, rj))
        R.defined("log10 factor", c, t_quench_lg(lgt, qt, ql, dr, rj))
        R.eq("equals 1 until half a duration before the event", c.with_facts([tm.le(lgt, qt - half)]), q, L(0))
        R.eq("deepest value exactly at the event", c, tm.subst(q, {lgt: qt}), dr)
        R.eq("rejuvenated level from half a duration after the event", c.with_facts([tm.le(qt + half, lgt)]), q, rj)
        R.prove("never above 1", c, tm.le(q, L(0)))
        R.prove("never below the drop", c, tm.le(dr, q))
        a, b = v("_a"), v("_b")
        qa, qb = tm.subst(q, {lgt: a}), tm.subst(q, {lgt: b})
        # monotone on either side: in the scaled time y=(lgt-lg_qt)/h, h>0
        h, ya, yb = v("_h"), v("_ya"), v("_yb")
        R.prove("non-increasing before the event", c.with_facts([tm.lt(a, b), tm.le(b, qt)]), tm.le(qb, qa), budget=90)
        R.prove("non-decreasing after the event", c.with_facts([tm.lt(a, b), tm.le(qt, a)]), tm.le(qa, qb), budget=90)
        # continuity at the joins
        eps = v("_eps")
        R.eq("left branch at the event", c, tm.subst(dr * t_tw((lgt - qt) / (tm.pow10(ql) / 12) + 3), {lgt: qt}), dr)
    ku = mod_attr(KERN, "_quenching_kern_u_params")
    if ku is not None:
        with R.section("quenching from unbounded parameters", KERN + "._quenching_kern_u_params"):
            M = Machine()

            def both(x, *u):
                b = ds.get_bounded_diffstar_params(ds.DiffstarUParams(0.0, 0.0, 0.0, 0.0, *u))
                return ku(x, *u), kern(x, b.lg_qt, 10**b.qlglgdt, b.lg_drop, b.lg_rejuv)
            a, b = M.call(both, D, tuple(In(x) for x in ("lgt", "u1", "u2", "u3", "u4")))
            R.eq("same factor as through the bounded parameters", M.ctx, a.get(), b.get())
    with R.section("star formation rate of a galaxy carries the quenching factor",
                   "diffstar.sfh_model.calc_sfh_singlegal", "diffstar.kernels.history_kernel_builders._sfh_singlegal_scalar"):
        i = tm.ivar("i")
        M = Machine(Ctx(facts + [tm.le(0, i), tm.lt(i, tm.ivar("n")), tm.lt(L(0), tm.uf("t", i))]))
        out = sym_sfh(M)
        s = out.get(i)
        t = tm.uf("t", i)
        ms = t_ms(t, v("lgt0"), v("fb"), pvars(), mvars())
        qf = tm.pow10(t_quench_lg(tm.log10(t), qt, ql, dr, rj))
        R.eq("SFR", M.ctx, s, tm.max_(L("1e-14"), qf * ms))


def cases(R):
    def gen(rng):
        p = rand_params(rng)
        if rng.random() < 0.3:
            p["lg_rejuv"] = p["lg_drop"] + 1e-4
        if rng.random() < 0.25:      # a broad event that starts within the first few hundred million years
            p.update(lg_qt=float(rng.uniform(0.105, 0.2)), qlglgdt=float(rng.uniform(-0.15, -0.02)), lg_drop=-2.0, lg_rejuv=-1.0)
        half = 10 ** p["qlglgdt"] / 2
        k = rng.choice([-1.5, -1.001, -1, -0.999, -0.5, -1e-6, 0, 1e-6, 0.25, 0.5, 0.999, 1, 1.001, 2], size=6)
        lgt = sorted(float(p["lg_qt"] + half * x) for x in k)
        return dict(p=p, lgt=lgt, mah=rand_mah(rng))

    def run(inp):
        p, lgt = inp["p"], np.array(inp["lgt"])
        args = [p[x] for x in Q]
        want = o_quench(lgt, *args)
        kern = mod_attr(KERN, "_quenching_kern")

        def judge(nm, f):
            close(nm, f, want, rtol=1e-7, atol=1e-12, extra=str(inp["p"]))
            half = 10 ** p["qlglgdt"] / 2
            f = np.asarray(f)
            must(np.all(f <= 1 + 1e-9) and np.all(f >= 10 ** p["lg_drop"] * (1 - 1e-9)), f"{nm}: outside [drop, 1]")
            must(np.all(np.abs(f[lgt < p["lg_qt"] - half] - 1) < 1e-9), f"{nm}: not 1 before the event")
            must(np.all(np.abs(f[lgt > p["lg_qt"] + half] / 10 ** p["lg_rejuv"] - 1) < 1e-9), f"{nm}: not rejuvenated after the event")
            b = lgt <= p["lg_qt"]
            must(np.all(np.diff(f[b]) <= 1e-9), f"{nm}: rises before the event")
            must(np.all(np.diff(f[~b]) >= -1e-9), f"{nm}: falls after the event")
        if kern is not None:
            judge("quenching factor", kern(jnp.array(lgt), args[0], 10.0 ** args[1], args[2], args[3]))
            close("factor at the event", kern(args[0], args[0], 10.0 ** args[1], args[2], args[3]), 10 ** p["lg_drop"], rtol=1e-8)
        # observable: ratio to the same galaxy without quenching
        p0 = dict(p, lg_drop=0.0, lg_rejuv=0.0)
        pq = dict(p, lgy_at_mcrit=-8.5, lgmcrit=12.0, indx_lo=1.0, indx_hi=-1.0)
        p0 = dict(pq, lg_drop=0.0, lg_rejuv=0.0)
        t = 10 ** lgt
        a, b = np.asarray(sfh_call(pq, inp["mah"], t)), np.asarray(sfh_call(p0, inp["mah"], t))
        if np.all(a > 1e-10):
            judge("SFR relative to the unquenched galaxy", a / b)
        ku = mod_attr(KERN, "_quenching_kern_u_params")
        if ku is not None:
            u = ds.get_unbounded_diffstar_params(ds.DiffstarParams(**p))
            if all(np.isfinite([float(x) for x in u])):
                close("quenching from unbounded parameters", ku(jnp.array(lgt), *u[4:]), want, rtol=1e-5, atol=1e-9)
    R.case("quenching_shape", gen, run, n=40, n_deep=400)
