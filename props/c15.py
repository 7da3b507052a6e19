"""C15 Monte Carlo histories are those of the drawn galaxies"""
from .popspec import *
from .c12 import MCM
import diffstar as ds

UNI = "unbounded draws replaced by arbitrary values (contract of the draw: C14), so the result holds for every draw"


def draw_contract(D, dims):
    """stand-in for the draw kernel: arbitrary unbounded vectors, fraction and flag as functions of the galaxy's inputs and key"""
    from vc.jaxvc import opaque_ew

    def kern(pop, logmp0, tpeak, upid, lgmu, lgmhost, gyr, key):
        xs = (logmp0, tpeak, upid, lgmu, lgmhost, gyr)
        leaves = list(jax.tree_util.tree_leaves(pop))
        kd = rawkey(key)
        w = (kd[..., 0], kd[..., 1])
        U = ds.DiffstarUParams
        ums = U(*[opaque_ew(f"DRAWMS{j}", *xs, *w, *leaves) for j in range(8)])
        uq = U(*[opaque_ew(f"DRAWQ{j}", *xs, *w, *leaves) for j in range(8)])
        return ums, uq, opaque_ew("FRACQ", *xs, *w, *leaves), opaque_ew("FLAGQ", *xs, *w, *leaves) > 0
    return kern


def rawkey(k):
    if jnp.issubdtype(k.dtype, jax.dtypes.prng_key):
        return jax.random.key_data(k)
    return k


def obligations(R):
    R.assume(MAH_ASSUMED, "calls to the draw kernel are checked against its contract (any values depending only on its arguments), not its body: " + UNI)
    i, g = tm.ivar("i"), tm.ivar("k")
    rng = [tm.le(0, i), tm.lt(i, tm.ivar("n")), tm.lt(0, tm.uf("t", i))]
    ov = [(MC, "mc_diffstar_u_params_singlegal_kernel", draw_contract(None, None))]
    kw = dict(lgt0=In("lgt0"), fb=In("fb"))
    gin = lambda dims=(): [x for x in gal_in(dims)]
    bound = ds.get_bounded_diffstar_params
    with R.section("one galaxy: parameters", MC + ".mc_diffstar_params_singlegal"):
        f = attr(MCM, "mc_diffstar_params_singlegal")
        M = Machine()
        attr(MCM, "mc_diffstar_u_params_singlegal_kernel")
        o = M.call(f, Dims(), (pop_in(), *gin(), KeyIn("key")), overrides=ov)
        c = M.ctx
        Mb = Machine()
        b = Mb.call(bound, Dims(), (nt_in(ds.DiffstarUParams),))
        uf_of = lambda nm: next(iter(tm.atoms_of(o.frac_q.get(), lambda a: a.op == "uf" and a.v[0] == "FRACQ")))
        args = uf_of("").a
        P, q = o.diffstar_params_ms, o.diffstar_params_q
        for j, p in enumerate(PN):
            for tag, got, nm in (("main-sequence", P, "DRAWMS"), ("quenched", q, "DRAWQ")):
                w = tm.subst(field(b, p).get(), {v(u): tm.uf(f"{nm}{k}", *args) for k, u in enumerate(ds.DiffstarUParams._fields)})
                R.eq(f"{tag} {p} is the bounded draw", c, field(got, p).get(), w)
        R.prove("flag passed through", c, tm.eq(o.mc_is_q.get(), tm.lt(0, tm.uf("FLAGQ", *args))))
        R.must_fail("false goal", c, tm.eq(field(P, "lg_qt").get(), field(q, "lg_qt").get()))
    with R.section("one galaxy: histories", MC + ".mc_diffstar_sfh_singlegal"):
        f = attr(MCM, "mc_diffstar_sfh_singlegal")
        M2 = Machine(Ctx(rng))
        gi = [x for x in gin() if x.name != "tpeak"]
        s = M2.call(f, Dims(n=1), (pop_in(), nt_in(mah_cls()), *gi, KeyIn("key"), In("t", ("n",))), kw, overrides=ov)
        Ms = Machine(Ctx(rng))
        one = sym_sfh(Ms, n=1).get(i)
        for tag, pp, got in (("main-sequence", s.diffstar_params_ms, s.sfh_ms), ("quenched", s.diffstar_params_q, s.sfh_q)):
            w = tm.subst(one, {v(p): field(pp, p).get() for p in PN})
            R.eq(f"{tag} history is the history of the returned {tag} parameters", M2.ctx, got.get(i), w, budget=60)
        for p in PN:
            for tag, a_, b_ in (("main-sequence", s.diffstar_params_ms, P), ("quenched", s.diffstar_params_q, q)):
                R.eq(f"{tag} {p} as without the histories, peak time from the halo", M2.ctx, field(a_, p).get(), tm.subst(field(b_, p).get(), {v("tpeak"): v("t_peak")}))
        R.eq("quenched fraction", M2.ctx, s.frac_q.get(), tm.subst(o.frac_q.get(), {v("tpeak"): v("t_peak")}))
        R.prove("flag", M2.ctx, tm.eq(s.mc_is_q.get(), tm.subst(o.mc_is_q.get(), {v("tpeak"): v("t_peak")})))
    key = tm.uf("key", sort="key")
    sub = {v(x, "int" if x == "upid" else "real"): tm.uf(x, g, sort="int" if x == "upid" else "real") for x in GAL}
    rowk = lambda t: tm.replace(tm.subst(t, sub), {key: tm.uf("splitkey", key, tm.ivar("g"), g, sort="key")})
    G = [tm.le(0, g), tm.lt(g, tm.ivar("g"))]
    with R.section("population: parameters", MC + ".mc_diffstar_params_galpop"):
        f = attr(MCM, "mc_diffstar_params_galpop")
        M3 = Machine(Ctx(G))
        o3 = M3.call(f, Dims(g=1), (pop_in(), *gin(("g",)), KeyIn("key")), overrides=ov)
        for p in PN:
            R.eq(f"main-sequence {p} of galaxy k", M3.ctx, field(o3[0], p).get(g), rowk(field(P, p).get()))
            R.eq(f"quenched {p} of galaxy k", M3.ctx, field(o3[1], p).get(g), rowk(field(q, p).get()))
        R.eq("quenched fraction of galaxy k", M3.ctx, o3[2].get(g), rowk(o.frac_q.get()))
        R.prove("flag of galaxy k", M3.ctx, tm.eq(o3[3].get(g), rowk(o.mc_is_q.get())))
    with R.section("population: histories", MC + ".mc_diffstar_sfh_galpop"):
        f = attr(MCM, "mc_diffstar_sfh_galpop")
        M4 = Machine(Ctx(rng + G))
        gi = [x for x in gin(("g",)) if x.name != "tpeak"]
        s4 = M4.call(f, Dims(n=1, g=1), (pop_in(), nt_in(mah_cls(), ("g",)), *gi, KeyIn("key"), In("t", ("n",))), kw, overrides=ov)
        mrow = {v(x): tm.uf(x, g) for x in mah_fields()}
        for tag, pp, got in (("main-sequence", s4.diffstar_params_ms, s4.sfh_ms), ("quenched", s4.diffstar_params_q, s4.sfh_q)):
            w = tm.subst(tm.subst(one, mrow), {v(p): field(pp, p).get(g) for p in PN})
            R.eq(f"{tag} history of galaxy k", M4.ctx, got.get(g, i), w, budget=60)
            for p in PN:
                base = field(P if tag == "main-sequence" else q, p).get()
                R.eq(f"{tag} {p} of galaxy k as without the histories", M4.ctx, field(pp, p).get(g),
                     tm.replace(rowk(base), {tm.uf("tpeak", g): tm.uf("t_peak", g)}))
    with R.section("main-sequence draws never quench", MC + ".mc_diffstar_sfh_singlegal", "diffstar.kernels.quenching_kernels.DEFAULT_Q_U_PARAMS_UNQUENCHED"):
        U = ds.DiffstarUParams
        Mq = Machine()
        bq = Mq.call(bound, Dims(), (U(*[In(u) for u in U._fields[:4]], 5.0, 5.0, 5.0, 5.0),))
        cq = Mq.ctx
        qt, ql = field(bq, "lg_qt").get(), field(bq, "qlglgdt").get()
        R.prove("quenching time of a never-quenched galaxy beyond 10**1.8 Gyr", cq, tm.lt(L("9/5"), qt))
        R.prove("quenching duration below one dex", cq, tm.lt(ql, 0))
        x, y = v("_lgt"), v("_qt")
        R.prove("quenching starts after 10**1.3 Gyr", Ctx([tm.lt(L("9/5"), y), tm.lt(v("_dt"), 1)]), tm.lt(L("13/10"), y - v("_dt") / 2))


def cases(R):
    import diffstar.diffstarpop as dp

    def gen(rng):
        n = int(rng.choice([1, 3, 4]))
        return dict(g=[rand_gal(rng) for _ in range(n)], mah=[rand_mah(rng) for _ in range(n)], P=rand_pop_mix(rng), seed=int(rng.integers(0, 2**31)),
                    t=rand_times(rng, int(rng.choice([1, 3, 5])), lo=0.2), fb=float(rng.uniform(.05, .3)), lgt0=float(math.log10(rng.uniform(12, 15))))

    def run(inp):
        P, gs, t = pop_nt(inp["P"]), inp["g"], jnp.array(inp["t"])
        kw = dict(lgt0=inp["lgt0"], fb=inp["fb"])
        key = jax.random.PRNGKey(inp["seed"])
        n = len(gs)
        keys = jax.random.split(key, n)
        col = lambda x: jnp.array([g[x] for g in gs])
        mp = mah_nt({k: jnp.array([m[k] for m in inp["mah"]]) for k in inp["mah"][0]})
        rest = [x for x in GAL if x not in ("tpeak",)]
        many = dp.mc_diffstar_sfh_galpop(P, mp, *(col(x) for x in rest), key, t, **kw)
        manyp = dp.mc_diffstar_params_galpop(P, col("logmp0"), mp.t_peak, *(col(x) for x in rest[1:]), key)
        must(np.shape(many.sfh_ms) == (n, len(t)), f"history table of shape {np.shape(many.sfh_ms)}")
        for j, g in enumerate(gs):
            m = mah_nt(inp["mah"][j])
            s = dp.mc_diffstar_sfh_singlegal(P, m, *(g[x] for x in rest), keys[j], t, **kw)
            p1 = dp.mc_diffstar_params_singlegal(P, g["logmp0"], inp["mah"][j]["t_peak"], *(g[x] for x in rest[1:]), keys[j])
            u = attr(MCM, "mc_diffstar_u_params_singlegal")(P, g["logmp0"], inp["mah"][j]["t_peak"], *(g[x] for x in rest[1:]), keys[j])
            for tag, a, b, uu, sf, k in (("main-sequence", s.diffstar_params_ms, p1.diffstar_params_ms, u[0], s.sfh_ms, 0),
                                         ("quenched", s.diffstar_params_q, p1.diffstar_params_q, u[1], s.sfh_q, 1)):
                w = o_bound([float(z) for z in uu])
                for p in PN:
                    x = f"{tag} {p}"
                    close(x, getattr(a, p), w[p], rtol=1e-8, atol=1e-10)
                    close(x + " (parameters only)", getattr(b, p), w[p], rtol=1e-8, atol=1e-10)
                    close(x + " (population)", getattr(many[k], p)[j], w[p], rtol=1e-8, atol=1e-10)
                    close(x + " (population, parameters only)", getattr(manyp[k], p)[j], w[p], rtol=1e-8, atol=1e-10)
                h = o_sfh(np.array(inp["t"]), inp["lgt0"], inp["fb"], {p: float(getattr(a, p)) for p in PN}, inp["mah"][j])
                close(tag + " history", sf, h, rtol=1e-6, atol=1e-14)
                close(tag + " history (population)", many[2 + k][j], sf, rtol=1e-8, atol=1e-16)
            ms = {p: float(getattr(s.diffstar_params_ms, p)) for p in PN}
            free = np.maximum(1e-14, o_ms(np.array(inp["t"]), inp["lgt0"], inp["fb"], ms, inp["mah"][j]))
            close("main-sequence history shows no quenching", s.sfh_ms, free, rtol=1e-6)
            close("fraction", many.frac_q[j], s.frac_q)
            close("fraction (parameters only)", manyp[2][j], s.frac_q)
            must(bool(many.mc_is_q[j]) == bool(s.mc_is_q) == bool(p1.mc_is_q) == bool(u[3]) == bool(manyp[3][j]), "flags differ between calls")
    R.case("monte_carlo_histories", gen, run, n=12, n_deep=100)
