"""C28 loss gradients handed to the optimisers are the derivatives of the losses, in parameter order"""
from .popspec import *
from .c18 import LK, lk, uin, ins, Spec, OV, NT, wt, nest, idx, GIN
from . import c18, c22
from .c26 import fd
from vc.deriv import diff
from vc.jaxvc import opaque_ew
import diffstar as ds

CONTRACT = ("gradients are obtained by JAX from contracts of the callees: the predicted distributions, histories, histogram weights and halo functions are "
            "arbitrary differentiable functions of their arguments (derivatives of the callees themselves: C26, C27)")


def unames():
    from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_U_PARAMS as U
    return U._fields


def fl(nm="u"):
    """a flat parameter vector whose entries carry the parameter names, in order"""
    return In(nm, (len(unames()),))


def obligations(R):
    R.assume(CONTRACT, "the derivative of the individual fit loss is stated away from exact ties of clipped values (clip limit, SFR and fstar floor), where it is not unique")
    m = lk()
    z, b = tm.ivar("z_"), tm.ivar("b_")
    nz, nb = tm.ivar("z"), tm.ivar("b")
    U = unames()
    uk = [tm.uf("u", L(j)) for j in range(len(U))]
    LOSSES = (("loss_mstar_kern_tobs", "mstar_kern_tobs", "get_pred_mstar_data_wrapper", 2),
              ("loss_mstar_ssfr_kern_tobs", "mstar_ssfr_kern_tobs", "get_pred_mstar_ssfr_data_wrapper", 3),
              ("loss_mstar_ssfr_sat_kern_tobs", "mstar_ssfr_sat_kern_tobs", "get_pred_mstar_ssfr_sat_data_wrapper", 3))
    for nm, kern, gp, nd in LOSSES:
        dims = ("z", "b", "s")[:nd]
        data = (In("other"), In("target", dims))

        def pk(u, data):
            return opaque_ew("PRED", *[jnp.broadcast_to(x, data[-1].shape) for x in idx(data[-1].shape)], *u, data[0])
        D = lambda: Dims(z=1, b=1, s=1) if nd == 3 else Dims(z=1, b=1)
        N = [tm.ivar(x) for x in dims]
        n = L(1)
        for x in N:
            n = n * x
        P = lambda *i: tm.uf("PRED", *i, *uk, v("other"))
        with R.section("gradient of a loss: " + nm, f"{LK}.{nm}_grad_wrapper", f"{LK}.{nm}_grad_kern"):
            f = attr(m, nm + "_grad_wrapper")
            attr(m, kern)
            M = Machine()
            lo, g = M.call(f, D(), (fl(), data), overrides=[(LK, kern, pk)])
            r = lambda *i: P(*i) - tm.uf("target", *i)
            R.eq("value is the loss", M.ctx, lo.get() * n, 1000 * nest(N, lambda *i: tm.ipow(r(*i), 2)))
            R.prove("one derivative per parameter", M.ctx, tm.eq(g.shape[0], L(len(U))))
            R.must_fail("false goal", M.ctx, tm.eq(g.get(L(3)), L(0)))
            for k, q in enumerate(U):
                R.eq(f"derivative by {q} at its place in the flat vector", M.ctx, g.get(L(k)) * n, 2000 * nest(N, lambda *i: r(*i) * diff(P(*i), uk[k])))
        with R.section("prediction for a flat vector: " + gp, f"{LK}.{gp}"):
            f = attr(m, gp)
            attr(m, kern)
            M = Machine()
            o = M.call(f, D(), (fl(), data), overrides=[(LK, kern, pk)])
            i = [tm.ivar(x + "_") for x in dims]
            R.eq("prediction of the parameters in order", M.ctx, o.get(*i), P(*i))
    opq = lambda nm: (lambda u, d: opaque_ew(nm, *u, d))
    ov = [(LK, "loss_mstar_kern_tobs", opq("LM")), (LK, "loss_mstar_ssfr_kern_tobs", opq("LC")), (LK, "loss_mstar_ssfr_sat_kern_tobs", opq("LS"))]
    parts = [tm.uf(nm, *uk, v(d)) for nm, d in (("LM", "dm"), ("LC", "dc"), ("LS", "ds"))]
    for nm, k in (("loss_combined_wrapper", 2), ("loss_combined_3loss_wrapper", 3)):
        with R.section("gradient of a combined loss: " + nm, f"{LK}.{nm}"):
            for _, x, _ in ov:
                attr(m, x)
            M = Machine()
            lo, g = M.call(attr(m, nm), Dims(), (fl(), *[In(d) for d in ("dm", "dc", "ds")[:k]]), overrides=ov)
            tot = tm.add(*parts[:k])
            R.eq("value", M.ctx, lo.get(), tot)
            R.prove("one derivative per parameter", M.ctx, tm.eq(g.shape[0], L(len(U))))
            for j, q in enumerate(U):
                R.eq(f"derivative by {q} at its place in the flat vector", M.ctx, g.get(L(j)), diff(tot, uk[j]))
    with R.section("derivative of the predicted stellar mass distribution", LK + ".mstar_kern_tobs", LK + ".compute_diff_histograms_mstar_atmobs_z"):
        f = attr(m, "mstar_kern_tobs")
        for _, x_, _ in OV:
            attr(m, x_)
        g = tm.ivar("g")
        rng = [tm.le(0, z), tm.lt(z, nz), tm.lt(L("0.1"), tm.uf("tobs", z)), tm.le(0, b), tm.lt(b, nb - 1)]
        M = Machine(Ctx(rng))
        data = ins("z", "g") + (In("mbins", ("b",)), In("target", ("z", "b-1")))

        def one(s, data):
            # every unbounded parameter moves with s: the bounded vector, hence the draws, are any functions of s
            u = uin_like(s)
            return f(u, data)
        bound = lambda u: c18.c_bound(u[:1])

        def obs(tobs, sms, sq):
            h = lambda s: opaque_ew("MSTAR", tobs[:, None], s[..., 0], s[..., -1])
            return h(sms), h(sq)
        mine = {"get_bounded_diffstarpop_params": bound, "calculate_obs_data": obs}
        ovs = [(a, x, mine.get(x, y)) for a, x, y in OV]
        mst = lambda kind, j: tm.uf("MSTAR", tm.uf("tobs", z), S.sfh(kind, j, 0), S.sfh(kind, j, NT - 1))
        val, tan = M.call(lambda s, dd: jax.jvp(lambda q: one(q, dd), (s,), (jnp.ones_like(s),)), Dims(z=1, g=1, b=2), (In("s"), data), overrides=ovs)
        S = Spec(z)
        S.pop = tm.uf("BPOP", v("s"))
        S.common = (*S.common[:2], S.pop, *S.common[3:])
        mb = lambda j: tm.uf("mbins", j)
        sg = tm.Sum(0, nb - 1, lambda j: mb(j + 1) - mb(j)) / (nb - 1)
        pt = lambda kind, j, b_: S.weight(kind, j) * wt(tm.log10(mst(kind, j)), sg, mb(b_), mb(b_ + 1))
        mix = lambda body: tm.Sum(0, g, lambda j: body("MS", j)) + tm.Sum(0, g, lambda j: body("Q", j))
        W = lambda b_: mix(lambda kind, j: pt(kind, j, b_))
        dW = lambda b_: mix(lambda kind, j: diff(pt(kind, j, b_), v("s")))
        tot, dtot = tm.Sum(0, nb - 1, W), tm.Sum(0, nb - 1, dW)
        c = M.ctx.with_facts([tm.not_(tm.eq(tot, 0))])
        R.eq("value", c, val.get(z, b), W(b) / tot, budget=60)
        R.eq("quotient rule of the bin share", c, tan.get(z, b) * tot, dW(b) - W(b) / tot * dtot, budget=120)
    n = tm.ivar("n")
    with R.section("gradient of the individual fit loss", c22.FH + ".loss_grad_default_clipssfrh", c22.FH + ".loss_default_clipssfrh"):
        g_ = attr(c22.fh(), "loss_grad_default_clipssfrh")
        Uf = ds.DEFAULT_DIFFSTAR_U_PARAMS._fields
        p = {k: field(Machine().call(ds.get_bounded_diffstar_params, Dims(), (nt_in(ds.DEFAULT_DIFFSTAR_U_PARAMS),)), k).get() for k in PN}
        a = (*[p[k] for k in PN], *mvars(), v("lgt0"), v("fb"))
        T = lambda j: tm.uf("t", j)
        S_ = lambda j: tm.uf("SMH", j, T(j), *a)
        H = lambda j: tm.uf("SFH", j, T(j), *a)
        FS = lambda j: tm.uf("FSTAR", j, T(j), S_(j), v("delay"))
        u = lambda nm, j: tm.uf(nm, j)
        low = lambda j: S_(j) * v("floor") / 10
        d1 = lambda j: (tm.log10(S_(j)) - u("lsm", j)) / u("w", j)
        fs = lambda j: tm.ite(tm.lt(FS(j), low(j)), low(j), FS(j))
        d2 = lambda j: (tm.log10(fs(j)) - u("lfs", j)) / u("wf", j)
        r = lambda j: 10**8 * (tm.ite(tm.lt(H(j), low(j)), low(j), H(j)) - u("sfr", j)) / u("sm", j)
        d3 = lambda j: tm.ite(tm.lt(r(j), L(-1)), L(-1), tm.ite(tm.lt(L(1), r(j)), L(1), r(j))) / u("w", j)
        back = {v(k): tm.uf("u", L(q)) for q, k in enumerate(Uf)}
        M = Machine(Ctx([tm.lt(0, v("floor"))]))
        o = M.call(g_, Dims(n=3), (In("u", (8,)), c22.data_in()), overrides=c22.OV)
        R.prove("eight derivatives", M.ctx, tm.eq(o.shape[0], L(8)))
        end = tm.ipow(tm.log10(fs(n - 1)) - u("lfs", n - 1), 2)
        ridge = 100 - 100 * tm.sigma(50 * (p["lg_qt"] - v("lgtmax")))
        for q, k in enumerate(Uf):
            want = (30 * tm.Sum(0, n, lambda j: diff(tm.ipow(d1(j), 2), v(k))) / n + tm.Sum(0, n, lambda j: diff(tm.ipow(d2(j), 2), v(k))) / n
                    + tm.Sum(0, n, lambda j: diff(tm.ipow(d3(j), 2), v(k))) / n + diff(end, v(k)) / 2 + diff(ridge, v(k)))
            R.eq(f"derivative by {k}", Ctx(M.ctx.facts, generic=True), o.get(L(q)), tm.subst(want, back), budget=90)


def uin_like(s):
    from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_U_PARAMS as U
    return U._make([s] * len(U._fields))


def cases(R):
    from types import SimpleNamespace as NS
    got = {}
    NSR = NS(tier=R.tier, case=lambda nm, gen, run, **k: got.__setitem__(nm, gen))
    c18.cases(NSR)
    c22.cases(NSR)

    def gen(rng):
        d = got["population_losses"](rng)
        k = len(d["u"])
        return dict(**d, dirs=rng.normal(size=(1, k)).tolist(), one=[int(x) for x in rng.integers(0, k, 1)])

    def run(inp):
        from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_U_PARAMS as U
        m = lk()
        data = pop_data(inp)
        flat = np.array(inp["u"])
        n = len(flat)
        sets = {"loss_mstar_kern_tobs": data[:1], "loss_mstar_ssfr_kern_tobs": data[1:2], "loss_mstar_ssfr_sat_kern_tobs": data[2:]}
        names = list(sets) if R.tier == "thorough" else [list(sets)[int(inp["seed"]) % 3]]
        for nm in names:
            a = sets[nm]
            val, g = attr(m, nm + "_grad_wrapper")(jnp.array(flat), *a)
            base = float(attr(m, nm)(U._make([jnp.float64(x) for x in flat]), *a))
            if not np.isfinite(base):
                continue
            close(nm + ": value", float(val), base, rtol=1e-9, atol=1e-12)
            g = np.asarray(g)
            must(g.shape == (n,), nm + ": one derivative per parameter")
            loss = lambda w: float(attr(m, nm)(U._make([jnp.float64(x) for x in w]), *a))
            w = np.zeros(n)
            w[inp["one"]] = 1
            for d in [w] + [np.array(x) for x in inp["dirs"]]:
                num, wide = (fd(lambda x: loss(flat + x * d), 0.0, h) for h in (1e-4, 3e-4))
                if abs(num - wide) > 1e-3 * (abs(num) + 1e-4):
                    continue    # a clip or a switch nearby
                close(f"{nm}: directional derivative ({np.nonzero(d)[0][:3]})", g @ d, num, rtol=2e-2, atol=1e-3 * np.abs(g).max() + 1e-6)
        if R.tier == "thorough" or R.failed:
            for nm, k in (("loss_combined_wrapper", 2), ("loss_combined_3loss_wrapper", 3)):
                val, g = attr(m, nm)(jnp.array(flat), *data[:k])
                parts = [attr(m, x + "_grad_wrapper")(jnp.array(flat), *sets[x]) for x in list(sets)[:k]]
                close(nm, float(val), sum(float(x[0]) for x in parts), rtol=1e-8, atol=1e-10)
                close(nm + ": gradient", g, sum(np.asarray(x[1]) for x in parts), rtol=1e-6, atol=1e-8)
    R.case("population_gradients", gen, run, n=3, n_deep=12)

    def gen_f(rng):
        return got["fit_loss"](rng)

    def run_f(inp):
        m = c22.fh()
        loss, g = attr(m, "loss_default_clipssfrh"), np.asarray(attr(m, "loss_grad_default_clipssfrh_np")(jnp.array(inp["u"]), fit_data(inp)))
        must(g.shape == (8,), "one derivative per parameter")
        u, data = np.array(inp["u"]), fit_data(inp)
        for k in range(8):
            e = np.arange(8) == k
            num, wide = (fd(lambda x: float(loss(jnp.array(u + x * e), data)), 0.0, h) for h in (2e-5, 6e-5))
            if abs(num - wide) > 1e-4 * (abs(num) + 1e-3):
                continue
            close(f"derivative {k}", g[k], num, rtol=1e-3, atol=1e-4 * np.abs(g).max() + 1e-6)
    R.case("fit_gradient", gen_f, run_f, n=8, n_deep=60)


def pop_data(inp):
    """the three loss data tuples of a generated population"""
    g, mahd = inp["gal"], inp["mah"]
    f = mah_fields()
    mah = mah_nt({k: jnp.array([[x[k] for x in row] for row in mahd]) for k in f})
    head = (mah, *[jnp.array(g[k]) for k in GIN], jax.random.split(jax.random.PRNGKey(inp["seed"]), len(mahd)), jnp.array(inp["tobs"]), inp["lgt0"], inp["fb"])
    mb, sb = np.array(inp["mbins"]), np.array(inp["sbins"])
    lo = np.array([[a, b] for a in mb[:-1] for b in sb[:-1]])
    hi = np.array([[a, b] for a in mb[1:] for b in sb[1:]])
    two = lambda t: (*head, *[jnp.array(x) for x in (lo, hi, mb, sb, inp["npdf"], inp["ix"], inp["ids"], t)])
    return (*head, jnp.array(mb), jnp.array(inp["tm_"])), two(inp["ts"]), two(inp["tsat"])


def fit_data(inp):
    n = len(inp["t"])
    t = np.array(inp["t"])
    s = o_sfh(t, inp["lgt0"], inp["fb"], o_bound(inp["tgt"]), inp["mah"])
    sm = o_smh(t, s)
    low = sm * inp["floor"] / 10
    fs = np.maximum(0, (sm - np.interp(t - inp["delay"], t, sm)) / inp["delay"] / 1e9)
    e, z = inp["eps"], np.array(inp["noise"])
    ls = np.log10(sm) + e * z[0]
    a = [jnp.array(x) for x in (10**ls, ls, np.maximum(s, low) * 10 ** (e * z[1]), np.log10(np.maximum(fs, low)) + e * z[2])]
    return (jnp.array(t), mah_nt(inp["mah"]), *a, inp["delay"], inp["floor"], jnp.array(inp["w"]), jnp.array(inp["wf"]), inp["lgtmax"], inp["lgt0"], inp["fb"])
