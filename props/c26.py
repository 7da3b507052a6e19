"""C26 automatic derivatives of galaxy histories are the derivatives of the declared model"""
from .common import *
from vc.deriv import diff
from vc.jaxvc import opaque_ew
import diffstar as ds
import importlib

QM, MM, HB = ("diffstar.kernels." + x for x in ("quenching_kernels", "main_sequence_kernels", "history_kernel_builders"))
UT = "diffstar.utils"
FLOOR = L("1e-14")


def mod(name):
    try:
        return importlib.import_module(name)
    except ImportError:
        raise Missing(name)


def c_q(lgt, *q):
    return opaque_ew("QF", lgt, *q)


def c_ms(t, mah, ms, logt0, fb):
    return opaque_ew("MSF", t, *[getattr(mah, f) for f in mah_fields()], *ms, logt0, fb)


OV = [(HB, "_quenching_kern", c_q), (HB, "sfh_ms_kernel", c_ms)]


def heads(t):
    return {x.v[0] for x in tm.atoms_of(t, lambda x: x.op == "uf")}


def args5(pre=""):
    return (In("t"), nt_in(mah_cls()), nt_in(ds.DiffstarParams), In("lgt0"), In("fb"))


def t_prod(t, m, p, lgt0, f):
    """floored product of the main sequence MSF and the quenching factor QF"""
    q = tm.uf("QF", tm.log10(t), p["lg_qt"], tm.pow10(p["qlglgdt"]), p["lg_drop"], p["lg_rejuv"])
    return tm.uf("MSF", t, *m, *[p[x] for x in MS], lgt0, f) * q


def flat(g):
    """leaves of a gradient with their names"""
    gt, gm, gp, gl, gf = g
    return [("t", gt)] + [(f, field(gm, f)) for f in mah_fields()] + [(f, field(gp, f)) for f in PN] + [("lgt0", gl), ("fb", gf)]


def sfh1(*y):
    """SFH of one galaxy at one time"""
    t, m, p, lgt0, f = y
    return ds.calc_sfh_singlegal(p, m, t[None], lgt0=lgt0, fb=f)[0]


def obligations(R):
    R.assume(MAH_ASSUMED, "the two diffmah functions are differentiable; their partial derivatives are uninterpreted functions",
             "at the quenching function's own switching times and at the floor the derivative is one-sided; the floor value itself is excluded")
    with R.section("quenching factor", QM + "._quenching_kern"):
        f = attr(mod(QM), "_quenching_kern")
        a = ("lgt", "lg_qt", "dt", "lg_drop", "lg_rejuv")
        M = Machine(Ctx([tm.lt(0, v("dt"))]))
        o = M.call(lambda *x: jax.grad(lambda y: f(*y))(x), Dims(), tuple(In(x) for x in a))
        h = v("dt") / 12
        y = (v("lgt") - v("lg_qt")) / h
        ex = tm.ite(tm.lt(y, L(0)), v("lg_drop") * t_tw(y + 3), v("lg_drop") - (v("lg_drop") - v("lg_rejuv")) * t_tw(y - 3))
        R.must_fail("false goal", M.ctx, tm.eq(o[1].get(), L(0)))
        for k, x in enumerate(a):
            R.defined("by " + x, M.ctx, o[k].get())
            R.eq("by " + x, M.ctx, o[k].get(), diff(tm.pow10(ex), v(x)))
    with R.section("main sequence", MM + ".sfh_ms_kernel", MM + "._sfr_eff_plaw"):
        f = attr(mod(MM), "sfh_ms_kernel")
        M = Machine(Ctx())
        o = M.call(lambda *x: jax.grad(lambda y: f(y[0], y[1], tuple(y[2]), y[3], y[4]))(x), Dims(),
                   (In("t"), nt_in(mah_cls()), tuple(In(x) for x in MS), In("lgt0"), In("fb")))
        w = t_ms(v("t"), v("lgt0"), v("fb"), pvars(MS), mvars())
        for n, g in [("t", o[0])] + [(x, field(o[1], x)) for x in mah_fields()] + list(zip(MS, o[2])) + [("lgt0", o[3]), ("fb", o[4])]:
            R.defined("by " + n, M.ctx, g.get())
            R.eq("by " + n, M.ctx, g.get(), diff(w, v(n)))
    w = t_prod(v("t"), mvars(), pvars(), v("lgt0"), v("fb"))
    full = tm.ite(tm.lt(w, FLOOR), FLOOR, w)
    for mode, df in (("reverse mode", jax.grad), ("forward mode", jax.jacfwd)):
        with R.section("star formation rate, " + mode, "diffstar.sfh_model.calc_sfh_singlegal", HB + "._sfh_singlegal_scalar"):
            mod(HB)
            M = Machine(Ctx([tm.lt(0, v("t")), tm.or_(tm.lt(w, FLOOR), tm.lt(FLOOR, w))]))
            o = M.call(lambda *x: df(lambda y: sfh1(*y))(x), Dims(), args5(), overrides=OV)
            leaves = flat(o)
            if not {"QF", "MSF"} & set().union(*[heads(g.get()) for _, g in leaves]):
                R.standin("star formation rate", "the history does not call the two kernels any more")
                continue
            R.must_fail("false goal", M.ctx, tm.eq(leaves[0][1].get(), L(0)))
            for n, g in leaves:
                R.defined("by " + n, M.ctx, g.get())
                R.eq("by " + n, M.ctx, g.get(), diff(full, v(n)))
    i, k, n = tm.ivar("i"), tm.ivar("k"), tm.ivar("n")
    with R.section("population", "diffstar.sfh_model.calc_sfh_galpop"):
        mod(HB)
        # tangents of every argument: each galaxy's derivative is that of its own parameters
        tk, ti = [tm.uf(f, k) for f in mah_fields()], tm.uf("t", i)
        pk = {p: tm.uf(p, k) for p in PN}
        wk = t_prod(ti, tk, pk, v("lgt0"), v("fb"))
        wf = tm.ite(tm.lt(wk, FLOOR), FLOOR, wk)
        M = Machine(Ctx([tm.le(0, i), tm.lt(i, n), tm.le(0, k), tm.lt(k, tm.ivar("g")), tm.lt(0, ti), tm.or_(tm.lt(wk, FLOOR), tm.lt(FLOOR, wk))]))
        g = ("g",)
        arg = lambda pre: (nt_in(ds.DiffstarParams, g, pre), nt_in(mah_cls(), g, pre), In(pre + "t", ("n",)))
        o = M.call(lambda x, dx, l, f: jax.jvp(lambda p, m, t: ds.calc_sfh_galpop(p, m, t, lgt0=l, fb=f), x, dx)[1], Dims(n=2, g=1),
                   (arg(""), arg("D"), In("lgt0"), In("fb")), overrides=OV).get(k, i)
        if not {"QF", "MSF"} & heads(o):
            R.standin("population", "the history does not call the two kernels any more")
        else:
            want = diff(wf, ti) * tm.uf("Dt", i)
            for nm in (*PN, *mah_fields()):
                want = want + diff(wf, tm.uf(nm, k)) * tm.uf("D" + nm, k)
            R.defined("directional derivative", M.ctx, o)
            R.eq("directional derivative of a galaxy at a time", M.ctx, o, want, budget=60)
    with R.section("stellar mass", UT + ".cumulative_mstar_formed"):
        cm = attr(mod(UT), "cumulative_mstar_formed")
        t, s, a, b = (lambda x: (lambda j: tm.uf(x, j)))("t"), (lambda j: tm.uf("s", j)), (lambda j: tm.uf("a", j)), (lambda j: tm.uf("b", j))
        M = Machine(Ctx([tm.le(0, i), tm.lt(i, n)]))
        o = M.call(lambda t, s, a, b: jax.jvp(cm, (t, s), (a, b))[1], Dims(n=2), tuple(In(x, ("n",)) for x in "tsab"))
        R.eq("each step adds the tangent of the trapezoid", M.ctx.with_facts([tm.le(1, i)]), o.get(i) - o.get(i - 1),
             10**9 * ((a(i) - a(i - 1)) * (s(i) + s(i - 1)) + (t(i) - t(i - 1)) * (b(i) + b(i - 1))) / 2)
        R.eq("first entry", M.ctx, o.get(L(0)), 10**9 * (a(L(0)) * (s(L(0)) + FLOOR) + (t(L(0)) - L("1/1000")) * b(L(0))) / 2)
        R.loops(M, M.ctx)
        M = Machine(Ctx([tm.le(0, i), tm.lt(i, n)]))
        o = M.call(lambda t, s: jax.grad(lambda s: cm(t, s)[-1])(s), Dims(n=2), tuple(In(x, ("n",)) for x in "ts"))
        R.eq("reverse mode: interior weights", M.ctx.with_facts([tm.le(1, i), tm.lt(i, n - 1)]), o.get(i), 10**9 * (t(i + 1) - t(i - 1)) / 2)
        R.eq("reverse mode: first weight", M.ctx, o.get(L(0)), 10**9 * (t(L(1)) - L("1/1000")) / 2)
        R.eq("reverse mode: last weight", M.ctx, o.get(n - 1), 10**9 * (t(n - 1) - t(n - 2)) / 2)
        R.loops(M, M.ctx)
    U = ds.DEFAULT_DIFFSTAR_U_PARAMS
    jac = lambda f: lambda x: jax.jacfwd(f)(x)
    with R.section("bounding transforms", "diffstar.defaults.get_bounded_diffstar_params", "diffstar.defaults.get_unbounded_diffstar_params"):
        sg = {p: tm.sigma((L(4) / (bnd(p)[1] - bnd(p)[0])) * (v("u_" + p) - (bnd(p)[0] + bnd(p)[1]) / 2)) for p in PN}
        M = Machine()
        o = M.call(jac(ds.get_bounded_diffstar_params), Dims(), (nt_in(U),))
        M0 = Machine()
        val = M0.call(ds.get_bounded_diffstar_params, Dims(), (nt_in(U),))
        for p in PN:
            for q in PN:
                g = field(field(o, p), "u_" + q).get()
                R.eq(f"bounded {p} by u_{q}", M.ctx, g, diff(field(val, p).get(), v("u_" + q)))
                if p == q:
                    R.prove(f"bounded {p} by its own u: positive", M.ctx, tm.lt(0, g))
        M = Machine(Ctx(in_range(PN)))
        o = M.call(jac(ds.get_unbounded_diffstar_params), Dims(), (nt_in(ds.DEFAULT_DIFFSTAR_PARAMS),))
        val = Machine(Ctx(in_range(PN))).call(ds.get_unbounded_diffstar_params, Dims(), (nt_in(ds.DEFAULT_DIFFSTAR_PARAMS),))
        for p in PN:
            for q in PN:
                g = field(field(o, "u_" + p), q).get()
                R.defined(f"unbounded {p} by {q}", M.ctx, g)
                R.eq(f"unbounded {p} by {q}", M.ctx, g, diff(field(val, "u_" + p).get(), v(q)))


def fd(f, x, h):
    """fourth-order central difference"""
    return (8 * (f(x + h) - f(x - h)) - (f(x + 2 * h) - f(x - 2 * h))) / (12 * h)


def cases(R):
    def gen(rng):
        p = rand_params(rng, edge=0.1)
        return dict(p=p, mah=rand_mah(rng), t=rand_times(rng, int(rng.choice([2, 5, 12]))), lgt0=float(math.log10(rng.uniform(13, 14.5))), fb=float(rng.uniform(.1, .2)))

    def run(inp):
        p, mah, t = inp["p"], inp["mah"], np.array(inp["t"])
        l, f = inp["lgt0"], inp["fb"]
        sp = ds.DiffstarParams(*[float(p[q]) for q in PN])
        hist = lambda q: ds.calc_sfh_singlegal(q, mah_nt(mah), jnp.array(t), lgt0=l, fb=f, return_smh=True)
        sfh0 = o_sfh(t, l, f, p, mah)
        must(all(np.all(np.isfinite(np.asarray(x))) for x in jax.tree_util.tree_leaves(jax.jacfwd(hist)(sp))), "derivative not finite")
        fw, rv = jax.jacfwd(hist)(sp), jax.jacrev(hist)(sp)
        sm0 = o_smh(t, sfh0)
        live = sfh0 > 1e-13
        y0 = (np.log10(t) - p["lg_qt"]) / (10 ** p["qlglgdt"] / 12)
        smooth = live & (np.abs(y0) > 0.05) & (np.abs(np.abs(y0) - 6) > 0.05)
        for q in PN:
            g, g2 = (np.asarray(getattr(x.sfh, q)) for x in (fw, rv))
            close(f"forward and reverse derivative of the SFH by {q}", g, g2, rtol=1e-6, atol=1e-10 * (np.abs(sfh0).max() + np.abs(g).max()))
            gm, gm2 = (np.asarray(getattr(x.smh, q)) for x in (fw, rv))
            close(f"forward and reverse derivative of the mass by {q}", gm, gm2, rtol=1e-6, atol=1e-10 * (np.abs(sm0).max() + np.abs(gm).max()))
            # the mass is the trapezoid of the rate, so is its derivative
            tt, s = np.concatenate([[0.001], t]), np.concatenate([[0.0], g])
            close(f"derivative of the mass by {q}", gm, np.cumsum(np.diff(tt) * (s[1:] + s[:-1]) / 2) * 1e9, rtol=1e-6, atol=1e-8 * (np.abs(gm).max() + 1e-30))
            must(np.all(g[sfh0 < 0.999e-14] == 0), "derivative at the floor")
            h = 2e-5 * (1 + abs(p[q]))
            num = fd(lambda x: o_sfh(t, l, f, {**p, q: x}, mah), p[q], h)
            sc = np.abs(sfh0) + np.abs(num)
            must(np.all(np.abs(g - num)[smooth] <= 2e-5 * sc[smooth] + 1e-13), f"derivative of the SFH by {q}: {g[smooth]} against {num[smooth]} ({inp})")
        ga = np.asarray(jax.jacfwd(lambda x: ds.calc_sfh_singlegal(sp, mah_nt(mah), jnp.array(t), lgt0=l, fb=x))(f))
        close("derivative by the baryon fraction", ga[live], (sfh0 / f)[live], rtol=1e-6)
        two = ds.DiffstarParams(*[jnp.array([p[q], p[q]]) for q in PN])
        bm = mah_nt({q: jnp.array([mah[q]] * 2) for q in mah})
        jp = jax.jvp(lambda y: ds.calc_sfh_galpop(y, bm, jnp.array(t), lgt0=l, fb=f), (two,), (ds.DiffstarParams(*[jnp.array([1.0, 0.0])] * 8),))[1]
        tot = sum(np.asarray(getattr(fw.sfh, q)) for q in PN)
        close("population derivative of the varied galaxy", jp[0], tot, rtol=1e-7, atol=1e-9 * (np.abs(tot).max() + 1e-30))
        must(np.all(np.asarray(jp[1]) == 0), "a galaxy's history varies with another galaxy's parameters")
    R.case("derivatives", gen, run, n=10, n_deep=120)

    def gen_u(rng):
        return dict(u=[float(x) for x in np.array([float(x) for x in ds.DEFAULT_DIFFSTAR_U_PARAMS]) + rng.normal(size=8)], j=int(rng.integers(8)))

    def run_u(inp):
        u, j = np.array(inp["u"]), inp["j"]
        U = ds.DEFAULT_DIFFSTAR_U_PARAMS
        g = jax.jacfwd(ds.get_bounded_diffstar_params)(U._make(list(map(float, u))))
        e = np.zeros(8)
        for q in PN:
            num = fd(lambda x: o_bound(np.where(np.arange(8) == j, x, u))[q], u[j], 1e-4)
            close(f"d {q} / d {U._fields[j]}", float(getattr(getattr(g, q), U._fields[j])), num, rtol=1e-5, atol=1e-7)
        b = ds.get_bounded_diffstar_params(U._make(list(map(float, u))))
        b = ds.DiffstarParams(*[float(x) for x in b])
        gi = jax.jacfwd(ds.get_unbounded_diffstar_params)(b)
        A = np.array([[float(getattr(getattr(g, p), q)) for q in U._fields] for p in PN])
        B = np.array([[float(getattr(getattr(gi, p), q)) for q in PN] for p in U._fields])
        close("Jacobians of inverse maps", A @ B, np.eye(8), rtol=1e-5, atol=1e-5)
    R.case("bounding_jacobian", gen_u, run_u, n=20, n_deep=200)
