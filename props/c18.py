"""C18 population losses: mean squared differences between weighted distributions"""
from .popspec import *
from vc.jaxvc import opaque_ew, Expr
from vc import smt

smt.POSUF |= {"SFHMS", "SFHQ", "MSTAR"}

LK = "diffstar.diffstarpop.loss_kernels.mstar_ssfr_loss_mgash_anyz"
NT = 20
CONTRACT = ("calls to mc_diffstar_sfh_galpop and get_bounded_diffstarpop_params are checked against their contracts (C15, C03): any values that depend "
            "only on the arguments of the call, per galaxy and time, with positive rates (C06: at least 1e-14) and so positive masses; tw_ndhist_weighted of the installed diffsky is inlined")
GIN = ("logmp0", "upid", "lgmu", "lgmhost", "gyr")


def lk():
    import importlib
    try:
        return importlib.import_module(LK)
    except ImportError:
        raise Missing(LK)


def c_bound(u):
    from diffstar.diffstarpop import DiffstarPopParams
    # one opaque number stands for the whole bounded vector (a function of the unbounded one)
    z = opaque_ew("BPOP", *jax.tree_util.tree_leaves(u))
    return DiffstarPopParams(*[z] * len(DiffstarPopParams._fields))


def c_galpop(pop, mah, logmp0, upid, lgmu, lgmhost, gyr, ran_key, tarr, lgt0=None, fb=None):
    kd = ran_key if not jnp.issubdtype(ran_key.dtype, jax.dtypes.prng_key) else jax.random.key_data(ran_key)
    leaves = jax.tree_util.tree_leaves(pop)
    g = jnp.arange(logmp0.shape[0])
    common = (kd[0], kd[1], leaves[0], lgt0, fb)
    gal = (*mah, logmp0, upid, lgmu, lgmhost, gyr, g)
    gt = [jnp.asarray(x, dtype=float)[:, None] for x in gal]
    out = {nm: opaque_ew(nm, *gt, tarr[None, :], *common) for nm in ("SFHMS", "SFHQ")}
    fq = opaque_ew("FRACQ", *gal, *common)
    par = ()
    return par, par, out["SFHMS"], out["SFHQ"], fq, opaque_ew("FLAGQ", *gal, *common) > 0


def c_obs(tobs, sfh_ms, sfh_q):
    """stellar mass at the target time: any function of the target time and the tabulated rates of one galaxy"""
    f = lambda s: opaque_ew("MSTAR", tobs[:, None], *[s[..., k] for k in range(NT)])
    return f(sfh_ms), f(sfh_q)


def c_hist(x, sig, y, lo, hi):
    """weighted histogram: sum over points of y times the product over dimensions of any bin-weight function"""
    w = jnp.prod(opaque_ew("TWBIN", x[None], sig[None], lo[:, None], hi[:, None]), axis=2)
    return jnp.sum(w * y[None], axis=1)


OV = [(LK, "mc_diffstar_sfh_galpop", c_galpop), (LK, "get_bounded_diffstarpop_params", c_bound), (LK, "calculate_obs_data", c_obs), (LK, "tw_ndhist_weighted", c_hist)]


def uin():
    from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_U_PARAMS as U
    return U._make([In(f) for f in U._fields])


def ins(z, g, key="key"):
    return (nt_in(mah_cls(), (z, g)), In("logmp0", (z, g)), In("upid", (z, g), "int"), In("lgmu", (z, g)), In("lgmhost", (z, g)), In("gyr", (z, g)),
            KeyIn(key, (z,)), In("tobs", (z,)), In("lgt0"), In("fb"))


class Spec:
    """terms of the specification at epoch z"""

    def __init__(self, z):
        self.z = z
        self.lg = tm.log10(tm.uf("tobs", z))
        from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_U_PARAMS as U
        self.pop = tm.uf("BPOP", *[v(f) for f in U._fields])
        k = tm.uf("key", z, sort="key")
        from vc.jaxvc import keyword
        self.common = (keyword(k, L(0)), keyword(k, L(1)), self.pop, v("lgt0"), v("fb"))

    def T(self, k):
        return tm.pow10(L(-1) + (self.lg + 1) * k / (NT - 1))

    def gal(self, g):
        from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS
        z = self.z
        return [tm.uf(f, z, g) for f in mah_fields()] + [tm.uf(x, z, g, sort="int" if x == "upid" else "real") for x in GIN] + [g]

    def sfh(self, kind, g, k):
        return tm.uf("SFH" + kind, *self.gal(g), self.T(k), *self.common)

    def mstar(self, kind, g):
        return tm.uf("MSTAR", tm.uf("tobs", self.z), *[self.sfh(kind, g, k) for k in range(NT)])

    def fq(self, g):
        return tm.uf("FRACQ", *self.gal(g), *self.common)

    def weight(self, kind, g):
        return self.fq(g) if kind == "Q" else 1 - self.fq(g)

    def lssfr(self, kind, g):
        return tm.max_(tm.log10(self.sfh(kind, g, NT - 1)) - tm.log10(self.mstar(kind, g)), L(-12))


def wt(x, s, lo, hi):
    return tm.uf("TWBIN", x, s, lo, hi)


def obligations(R):
    R.assume(CONTRACT, "target times later than 0.1 Gyr; index arrays of the loss data are in range")
    m = lk()
    z, b = tm.ivar("z_"), tm.ivar("b_")
    nz, g, nb = tm.ivar("z"), tm.ivar("g"), tm.ivar("b")
    with R.section("mean squared difference", LK + "._mse"):
        f = attr(m, "_mse")
        M = Machine()
        o = M.call(f, Dims(z=1, b=1), (In("p", ("z", "b")), In("q", ("z", "b")))).get()
        w = tm.Sum(0, nz, lambda i: tm.Sum(0, nb, lambda j: tm.ipow(tm.uf("p", i, j) - tm.uf("q", i, j), 2)))
        R.eq("mean of the squared differences", M.ctx, o * (nz * nb), w)
        R.eq("zero for a perfect prediction", M.ctx, M.call(lambda p: f(p, p), Dims(z=1, b=1), (In("p", ("z", "b")),)).get(), L(0))
        R.prove("each squared difference is non-negative", Ctx(), tm.le(0, tm.ipow(v("_p") - v("_q"), 2)))
    from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_U_PARAMS as U
    pred = lambda nm, shape: (lambda u, data: opaque_ew(nm, *([x[..., None] * 0 for x in ()] or []), data[-1] * 0 + idx_like(data[-1]), *u[:1]))
    for nm, kern, nd in (("loss_mstar_kern_tobs", "mstar_kern_tobs", 2), ("loss_mstar_ssfr_kern_tobs", "mstar_ssfr_kern_tobs", 3),
                         ("loss_mstar_ssfr_sat_kern_tobs", "mstar_ssfr_sat_kern_tobs", 3)):
        with R.section("loss against its predicted distribution: " + nm, f"{LK}.{nm}"):
            f = attr(m, nm)
            attr(m, kern)
            dims = ("z", "b", "s")[:nd]
            D = Dims(z=1, b=1, s=1) if nd == 3 else Dims(z=1, b=1)
            M = Machine()
            data = (In("other"), In("target", dims))

            def pk(u, data):
                return opaque_ew("PRED", *[jnp.broadcast_to(x, data[-1].shape) for x in idx(data[-1].shape)], *u[:3], data[0])
            o = M.call(f, D, (uin(), data), overrides=[(LK, kern, pk)]).get()
            N = [tm.ivar(x) for x in dims]

            def body(*i):
                p = tm.uf("PRED", *i, *[v(x) for x in U._fields[:3]], v("other"))
                return tm.ipow(p - tm.uf("target", *i), 2)
            tot = nest(N, body)
            n = L(1)
            for x in N:
                n = n * x
            R.eq("1000 times the mean squared difference", M.ctx, o * n, 1000 * tot)
            R.must_fail("false goal", M.ctx, tm.eq(o, L(0)))
    with R.section("combined losses", LK + ".loss_combined_kern", LK + ".loss_combined_3loss_kern"):
        opq = lambda nm: (lambda u, d: opaque_ew(nm, *u[:5], d))
        ov = [(LK, "loss_mstar_kern_tobs", opq("LM")), (LK, "loss_mstar_ssfr_kern_tobs", opq("LC")), (LK, "loss_mstar_ssfr_sat_kern_tobs", opq("LS"))]
        for _, x, _ in ov:
            attr(m, x)
        u5 = [v(x) for x in U._fields[:5]]
        M = Machine()
        o = M.call(attr(m, "loss_combined_kern"), Dims(), (uin(), In("dm"), In("dc")), overrides=ov).get()
        LMt, LC, LS = tm.uf("LM", *u5, v("dm")), tm.uf("LC", *u5, v("dc")), tm.uf("LS", *u5, v("ds"))
        R.eq("two parts", M.ctx, o, LMt + LC)
        o = M.call(attr(m, "loss_combined_3loss_kern"), Dims(), (uin(), In("dm"), In("dc"), In("ds")), overrides=ov).get()
        R.eq("three parts", M.ctx, o, LMt + LC + LS)
    rng = [tm.le(0, z), tm.lt(z, nz), tm.lt(L("0.1"), tm.uf("tobs", z))]
    S = Spec(z)
    k = tm.ivar("k_")
    gal = [tm.le(0, k), tm.lt(k, g)]
    with R.section("stellar mass at the target time", LK + ".calculate_obs_data", LK + "._calculate_obs_data_kern"):
        f = attr(m, "calculate_obs_data")
        M = Machine(Ctx(rng + gal))
        o = M.call(f, Dims(z=1, g=1), (In("tobs", ("z",)), In("sms", ("z", "g", NT)), In("sq", ("z", "g", NT))))
        for nm, out in (("sms", o[0]), ("sq", o[1])):
            T, s = [L("0.001")] + [S.T(q) for q in range(NT)], [L("1e-14")] + [tm.uf(nm, z, k, L(q)) for q in range(NT)]
            tot = L(0)
            for q in range(NT):
                tot = tot + (T[q + 1] - T[q]) * (s[q + 1] + s[q]) / 2
            R.eq(f"trapezoidal integral of the {'main-sequence' if nm == 'sms' else 'quenched'} rates up to the target time", M.ctx, out.get(z, k), tot * 10**9, budget=90)
        R.loops(M)
        # the mass of positive rates is positive: every time step is
        R.prove("target time later than 0.1 Gyr", M.ctx, tm.lt(L(-1), S.lg))
        xl, e1, e2 = v("_xl"), v("_e1"), v("_e2")
        R.prove("powers of ten increase", Ctx([tm.lt(e1, e2)]), tm.lt(tm.pow10(e1), tm.pow10(e2)))
        ex = lambda q: L(-1) + (xl + 1) * q / (NT - 1)
        for q in range(NT):
            c = Ctx([tm.lt(L(-1), xl)])
            if q:
                R.prove(f"time step {q} is positive", c, tm.lt(ex(q - 1), ex(q)))
            else:
                R.prove("first time step is positive", c, tm.lt(L("0.001"), tm.pow10(ex(0))))
    x, sg_, lo, hi = v("x"), v("sig"), v("lo"), v("hi")
    with R.section("weighted histogram of the dependency", "diffsky tw_ndhist_weighted (dependency, inlined)"):
        f = attr(m, "tw_ndhist_weighted")
        M = Machine(Ctx([tm.le(0, b), tm.lt(b, nb)]))
        o = M.call(f, Dims(p=1, d=1, b=1), (In("x", ("p", "d")), In("sig", ("p", "d")), In("y", ("p",)), In("lo", ("b", "d")), In("hi", ("b", "d"))))
        tw2 = lambda x_, s_, l_, u_: t_tw((x_ - l_) / s_) - t_tw((x_ - u_) / s_)
        R.eq("sum over points of value times product of triweight bin weights", M.ctx, o.get(b),
             tm.Sum(0, tm.ivar("p"), lambda j: tm.uf("y", j) * tm.Prod(0, tm.ivar("d"), lambda q: tw2(tm.uf("x", j, q), tm.uf("sig", j, q), tm.uf("lo", b, q), tm.uf("hi", b, q)))))
    kinds = ("MS", "Q")
    mix = lambda term: tm.Sum(0, g, lambda j: term("MS", j)) + tm.Sum(0, g, lambda j: term("Q", j))
    with R.section("predicted stellar mass distribution", LK + ".mstar_kern_tobs", LK + ".compute_diff_histograms_mstar_atmobs_z",
                   LK + "._mc_diffstar_sfh_galpop_vmap_kern"):
        f = attr(m, "mstar_kern_tobs")
        for _, x_, _ in OV:
            attr(m, x_)
        M = Machine(Ctx(rng + [tm.le(0, b), tm.lt(b, nb - 1)]))
        data = ins("z", "g") + (In("mbins", ("b",)), In("target", ("z", "b-1")))
        o = M.call(f, Dims(z=1, g=1, b=2), (uin(), data), overrides=OV)
        mb = lambda j: tm.uf("mbins", j)
        sg = tm.Sum(0, nb - 1, lambda j: mb(j + 1) - mb(j)) / (nb - 1)
        W = lambda b_: mix(lambda kind, j: S.weight(kind, j) * wt(tm.log10(S.mstar(kind, j)), sg, mb(b_), mb(b_ + 1)))
        tot = tm.Sum(0, nb - 1, W)
        got = o.get(z, b)
        R.must_fail("false goal", M.ctx, tm.eq(got, L(0)))
        R.eq("share of a bin: weights (1 - quenched fraction) and quenched fraction", M.ctx.with_facts([tm.not_(tm.eq(tot, 0))]), got, W(b) / tot, budget=120)
        q = tm.Sum(0, nb - 1, lambda j: tm.uf("W", j))
        R.eq("shares add up to one", Ctx([tm.not_(tm.eq(q, 0))]), tm.Sum(0, nb - 1, lambda j: tm.uf("W", j) / q), L(1))
    with R.section("two-dimensional weighted distribution", LK + ".compute_diff_histograms_mstar_ssfr_atz"):
        f = attr(m, "compute_diff_histograms_mstar_ssfr_atz")
        attr(m, "tw_ndhist_weighted")
        M = Machine(Ctx([tm.le(0, b), tm.lt(b, nb)]))
        o = M.call(f, Dims(n=1, b=1, p=2, r=2), (In("smh", ("n",)), In("ssfr", ("n",)), In("wgt", ("n",)), In("blo", ("b", 2)), In("bhi", ("b", 2)),
                   In("mbins", ("p",)), In("sbins", ("r",))), overrides=[OV[-1]])
        sgm = lambda nm_, n_: tm.Sum(0, n_ - 1, lambda j: tm.uf(nm_, j + 1) - tm.uf(nm_, j)) / (n_ - 1)
        s1, s2 = sgm("mbins", tm.ivar("p")), sgm("sbins", tm.ivar("r"))
        W = lambda b_: tm.Sum(0, tm.ivar("n"), lambda j: tm.uf("wgt", j) * wt(tm.uf("smh", j), s1, tm.uf("blo", b_, L(0)), tm.uf("bhi", b_, L(0)))
                              * wt(tm.uf("ssfr", j), s2, tm.uf("blo", b_, L(1)), tm.uf("bhi", b_, L(1))))
        tot = tm.Sum(0, nb, W)
        R.eq("share of a bin: widths are the mean bin widths", M.ctx.with_facts([tm.not_(tm.eq(tot, 0))]), o.get(b), W(b) / tot)

    with R.section("two-dimensional distributions, epoch by epoch", LK + ".compute_diff_histograms_mstar_ssfr_atmobs_z_vmap"):
        f1, fv = attr(m, "compute_diff_histograms_mstar_ssfr_atz"), attr(m, "compute_diff_histograms_mstar_ssfr_atmobs_z_vmap")
        shp = dict(smh=("n",), ssfr=("n",), wgt=("n",))
        rest = (In("blo", ("b", 2)), In("bhi", ("b", 2)), In("mbins", ("p",)), In("sbins", ("r",)))
        M1 = Machine(Ctx(rng + [tm.le(0, b), tm.lt(b, nb)]))
        ov1 = [OV[-1]]
        rows = [Expr(Arr((tm.ivar("n"),), (lambda nm: (lambda j: tm.uf(nm, z, j)))(nm)), ("n",)) for nm in shp]
        one = M1.call(f1, Dims(n=1, b=1, p=2, r=2), (*rows, *rest), overrides=ov1).get(b)
        M2 = Machine(Ctx(rng + [tm.le(0, b), tm.lt(b, nb)]))
        al = M2.call(fv, Dims(z=1, n=1, b=1, p=2, r=2), (*[In(nm, ("z", "n")) for nm in shp], *rest), overrides=ov1).get(z, b)
        R.eq("row of an epoch", M2.ctx, al, one)

    def c_hist2(smh, ssfr, weight, blo, bhi, mbins, sbins):
        """any per-bin sum over the points of one epoch"""
        e = lambda x: x[:, None, :]
        bb = lambda x: x[None, :, None]
        return jnp.sum(opaque_ew("PT", e(smh), e(ssfr), e(weight), bb(blo[:, 0]), bb(blo[:, 1]), bb(bhi[:, 0]), bb(bhi[:, 1]), mbins[0], sbins[0]), axis=2)
    ov2 = OV[:3] + [(LK, "compute_diff_histograms_mstar_ssfr_atmobs_z_vmap", c_hist2)]
    for nm in ("mstar_ssfr_kern_tobs", "mstar_ssfr_sat_kern_tobs"):
        with R.section("predicted sSFR distribution: " + nm, f"{LK}.{nm}"):
            f = attr(m, nm)
            for _, x_, _ in ov2:
                attr(m, x_)
            q, a, h = tm.ivar("q_"), tm.ivar("a_"), tm.ivar("h_")
            p_, r_ = tm.ivar("p"), tm.ivar("r")
            D = Dims(z=1, g=1, p=1, r=1, m=1, s=1, w=1)
            M = Machine(Ctx([tm.le(0, z), tm.lt(z, tm.ivar("w")), tm.le(0, q), tm.lt(q, tm.ivar("s")), tm.le(0, a), tm.lt(a, r_)]))
            data = ins("z", "g") + (In("blo", ("p*r", 2)), In("bhi", ("p*r", 2)), In("mbins", ("p+1",)), In("sbins", ("r+1",)),
                                    In("npdf", ("w", "m")), In("ix", ("w", "m"), "int", rng=(0, nz)), In("ids", ("s",), "int", rng=(0, p_)), In("target", ("w", "s", "r")))
            o = M.call(f, D, (uin(), data), overrides=ov2)
            got = o.get(z, q, a)

            def H(zz, bin_):
                Z = Spec(zz)
                bl = [tm.uf(x_, bin_, L(d_)) for x_ in ("blo", "bhi") for d_ in (0, 1)]
                return mix(lambda kind, j: tm.uf("PT", tm.log10(Z.mstar(kind, j)), Z.lssfr(kind, j), Z.weight(kind, j), *bl, tm.uf("mbins", L(0)), tm.uf("sbins", L(0))))
            IX = lambda h_: tm.uf("ix", z, h_, sort="int")
            ID = tm.uf("ids", q, sort="int")
            # mean over the halo bins of this epoch, then normalised over sSFR at fixed stellar mass
            A = lambda a_: tm.Sum(0, tm.ivar("m"), lambda h_: tm.uf("npdf", z, h_) * H(IX(h_), ID * r_ + a_))
            totA = tm.Sum(0, r_, A)
            R.must_fail("false goal", M.ctx, tm.eq(got, L(0)))
            R.eq("share of an sSFR bin at fixed stellar mass", M.ctx.with_facts([tm.not_(tm.eq(totA, 0))]), got, A(a) / totA, budget=60)


def idx(shape):
    r = []
    for k in range(len(shape)):
        x = jnp.arange(shape[k])
        r.append(x.reshape([-1 if j == k else 1 for j in range(len(shape))]))
    return r


def nest(N, body, i=()):
    if len(i) == len(N):
        return body(*i)
    return tm.Sum(0, N[len(i)], lambda j: nest(N, body, i + (j,)))


def o_smhz(t, sfh):
    return np.array([o_smh(t, s)[-1] for s in sfh])


def o_hist(x, sg, w, lo, hi):
    """x (n, d), sg (d,), w (n,), lo/hi (b, d)"""
    k = np.prod(o_tw((x[None] - lo[:, None]) / sg) - o_tw((x[None] - hi[:, None]) / sg), axis=2)
    return (k * w).sum(1)


def cases(R):
    def gen(rng):
        deep = R.tier == "thorough"
        z, g = (3, 4) if rng.random() < .6 or not deep else (2, 1)
        U = __import__("diffstar.diffstarpop", fromlist=["x"]).DEFAULT_DIFFSTARPOP_U_PARAMS
        u = [float(x) + float(rng.normal(0, .15)) for x in U]
        mah = [[rand_mah(rng) for _ in range(g)] for _ in range(z)]
        gal = dict(logmp0=rng.uniform(11, 15, (z, g)).tolist(), upid=rng.choice([-1, 7], (z, g)).tolist(), lgmu=rng.uniform(-3, 0, (z, g)).tolist(),
                   lgmhost=rng.uniform(12, 15, (z, g)).tolist(), gyr=rng.uniform(-2, 6, (z, g)).tolist())
        nm, ns = 3, 4
        mb = np.linspace(4, 13, nm + 1) + rng.uniform(-.3, .3, nm + 1)
        sb = np.linspace(-13, -7.5, ns + 1) + rng.uniform(-.2, .2, ns + 1)
        return dict(u=u, mah=mah, gal=gal, seed=int(rng.integers(0, 2**31)), tobs=rng.uniform(2, 13.5, z).tolist(), lgt0=math.log10(13.8) + float(rng.uniform(-.02, .02)), fb=float(rng.uniform(.1, .2)),
                    mbins=mb.tolist(), sbins=sb.tolist(), npdf=rng.uniform(0, 1, (2, 2)).tolist(), ix=rng.integers(0, z, (2, 2)).tolist(), ids=[2, 0] if rng.random() < .5 else [1, 2],
                    tm_=rng.uniform(0, 1, (z, nm)).tolist(), ts=rng.uniform(0, 1, (2, 2, ns)).tolist(), tsat=rng.uniform(0, 1, (2, 2, ns)).tolist())

    def run(inp):
        m = lk()
        from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_U_PARAMS as U, get_bounded_diffstarpop_params, mc_diffstar_sfh_galpop
        u = U._make([jnp.float64(x) for x in inp["u"]])
        g, mahd = inp["gal"], inp["mah"]
        nz, ng = len(mahd), len(mahd[0])
        f = ("logm0", "logtc", "early_index", "late_index", "t_peak")
        mah = mah_nt({k: jnp.array([[x[k] for x in row] for row in mahd]) for k in f})
        gal = [jnp.array(g[k]) for k in GIN]
        keys = jax.random.split(jax.random.PRNGKey(inp["seed"]), nz)
        tobs = jnp.array(inp["tobs"])
        head = (mah, *gal, keys, tobs, inp["lgt0"], inp["fb"])
        mb, sb = np.array(inp["mbins"]), np.array(inp["sbins"])
        nm, ns = len(mb) - 1, len(sb) - 1
        lo = np.array([[a, b] for a in mb[:-1] for b in sb[:-1]])
        hi = np.array([[a, b] for a in mb[1:] for b in sb[1:]])
        dm = (*head, jnp.array(mb), jnp.array(inp["tm_"]))
        ds_ = lambda t: (*head, jnp.array(lo), jnp.array(hi), jnp.array(mb), jnp.array(sb), jnp.array(inp["npdf"]), jnp.array(inp["ix"]), jnp.array(inp["ids"]), jnp.array(t))
        dc, dsat = ds_(inp["ts"]), ds_(inp["tsat"])
        # oracle
        bp = get_bounded_diffstarpop_params(u)
        pm, p2 = [], []
        for z in range(nz):
            t = np.logspace(-1, np.log10(inp["tobs"][z]), NT)
            o = mc_diffstar_sfh_galpop(bp, type(mah)._make([x[z] for x in mah]), *[x[z] for x in gal], keys[z], jnp.array(t), lgt0=inp["lgt0"], fb=inp["fb"])
            sm, sq, fq = (np.asarray(x) for x in (o.sfh_ms, o.sfh_q, o.frac_q))
            ls = np.log10(np.concatenate([o_smhz(t, sm), o_smhz(t, sq)]))
            lr = np.clip(np.log10(np.concatenate([sm[:, -1], sq[:, -1]])) - ls, -12, None)
            w = np.concatenate([1 - fq, fq])
            h = o_hist(ls[:, None], np.diff(mb).mean(), w, mb[:-1, None], mb[1:, None])
            pm.append(h / h.sum())
            h = o_hist(np.array([ls, lr]).T, np.array([np.diff(mb).mean(), np.diff(sb).mean()]), w, lo, hi)
            p2.append(h / h.sum())
        pm, p2 = np.array(pm), np.array(p2).reshape(nz, nm, ns)
        if not (np.isfinite(pm).all() and np.isfinite(p2).all()):
            return
        tol = dict(rtol=1e-5, atol=1e-7)
        ix, npdf = np.array(inp["ix"]), np.array(inp["npdf"])
        q = np.einsum("zmab,zm->zab", p2[ix], npdf)[:, inp["ids"]]
        if (q.sum(2) < 1e-6).any():
            return
        q = q / q.sum(2, keepdims=True)
        L_ = lambda p, t: 1000 * np.mean((p - np.array(t)) ** 2)
        lm, lc, ls = L_(pm, inp["tm_"]), L_(q, inp["ts"]), L_(q, inp["tsat"])
        A = lambda nm_: getattr(m, nm_, None)
        for nm_, a_, want in (("mstar_kern_tobs", dm, pm), ("mstar_ssfr_kern_tobs", dc, q), ("mstar_ssfr_sat_kern_tobs", dsat, q)):
            if A(nm_):
                close("predicted distribution " + nm_, A(nm_)(u, a_), want, **tol)
        for nm_, a_, want in (("loss_mstar_kern_tobs", (dm,), lm), ("loss_mstar_ssfr_kern_tobs", (dc,), lc), ("loss_mstar_ssfr_sat_kern_tobs", (dsat,), ls),
                              ("loss_combined_kern", (dm, dc), lm + lc), ("loss_combined_3loss_kern", (dm, dc, dsat), lm + lc + ls)):
            if A(nm_):
                got = float(A(nm_)(u, *a_))
                must(got >= 0, nm_ + ": negative loss")
                close(nm_, got, want, **tol)
        flat = jnp.array(inp["u"])
        for nm_, a_, want in (("loss_mstar_kern_tobs_grad_wrapper", (dm,), lm), ("loss_mstar_ssfr_kern_tobs_grad_wrapper", (dc,), lc),
                              ("loss_mstar_ssfr_sat_kern_tobs_grad_wrapper", (dsat,), ls), ("loss_combined_wrapper", (dm, dc), lm + lc),
                              ("loss_combined_3loss_wrapper", (dm, dc, dsat), lm + lc + ls)):
            if A(nm_) and (R.tier == "thorough" or nm_ == "loss_combined_3loss_wrapper"):
                got, gr = A(nm_)(flat, *a_)
                close(nm_, float(got), want, **tol)
                must(np.asarray(gr).shape == flat.shape, nm_ + ": one derivative per parameter")
        for nm_, a_, want in (("get_pred_mstar_data_wrapper", dm, pm), ("get_pred_mstar_ssfr_data_wrapper", dc, q), ("get_pred_mstar_ssfr_sat_data_wrapper", dsat, q)):
            if A(nm_):
                close(nm_, A(nm_)(flat, a_), want, **tol)
        # a perfect prediction costs nothing
        if A("mstar_kern_tobs"):
            close("loss of a perfect prediction", A("loss_mstar_kern_tobs")(u, (*dm[:-1], A("mstar_kern_tobs")(u, dm))), 0.0, atol=1e-12)
        must(abs(np.asarray(A("mstar_kern_tobs")(u, dm)).sum(1) - 1) < 1e-8, "distribution does not add up to one")
    R.case("population_losses", gen, run, n=5, n_deep=25)
