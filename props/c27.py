"""C27 automatic derivatives of the population model and its histograms are the derivatives of the declared model"""
from .popspec import *
from .c12 import trace_draw, MCM
from .c14 import law, no_std
from .c13 import MVN
from .c17 import ND, SM, wt
from .c26 import fd
from vc.deriv import diff
from vc.jaxvc import opaque_ew
import diffstar as ds
import importlib

SEQ = [("main-sequence vector", 0), ("quenched vector", 1)]


def c_kern(pop, logmp0, tpeak, upid, lgmu, lgmhost, gyr, key):
    """contract of the draw kernel: any differentiable functions of the population parameters"""
    kd = key
    if jnp.issubdtype(kd.dtype, jax.dtypes.prng_key):
        kd = jax.random.key_data(kd)
    xs = (*jax.tree_util.tree_leaves(pop), logmp0, tpeak, upid, lgmu, lgmhost, gyr, kd[..., 0], kd[..., 1])
    U = ds.DiffstarUParams
    return (U(*[opaque_ew(f"DRAWMS{j}", *xs) for j in range(8)]), U(*[opaque_ew(f"DRAWQ{j}", *xs) for j in range(8)]),
            opaque_ew("FRACQ", *xs), opaque_ew("FLAGQ", *jax.lax.stop_gradient(xs)) > 0)


def c_hist(sfh_params, mah_params, tarr, *, lgt0, fb, return_smh=False):
    """contract of the history call: any differentiable function of parameters and time"""
    a = (*[getattr(sfh_params, p) for p in PN], *mah_params, lgt0, fb)
    if jnp.ndim(a[0]):
        a = [jnp.asarray(x)[..., None] for x in a[:-2]] + list(a[-2:])
        return opaque_ew("SFH", *a, tarr[None, :])
    return opaque_ew("SFH", *a, tarr)


HOV = [("diffstar.sfh_model", "calc_sfh_singlegal", c_hist), ("diffstar.sfh_model", "calc_sfh_galpop", c_hist),
       (MC, "mc_diffstar_u_params_singlegal_kernel", c_kern)]


def obligations(R):
    R.assume(MVN, MAH_ASSUMED, "derivative of a normal draw of fixed key: mean plus standard deviation times a fixed normal deviate (reparametrised)",
             "positivity of the population scatters (proved as C13) is used to read sqrt(std^2) as std",
             "derivative of a product along an axis of literal length: the product rule (JAX's own rule needs concrete sizes)")
    P, G = pop_v(), gal_v()
    with R.section("draws and fractions by each population parameter", MC + ".mc_diffstar_u_params_singlegal", PKN + ".mc_diffstar_u_params_singlegal_kernel",
                   PKN + "._diffstarpop_means_covs"):
        f = attr(MCM, "mc_diffstar_u_params_singlegal")
        M = Machine(Ctx(pop_range()))
        o = M.call(lambda p, *a: jax.jacfwd(lambda q: f(q, *a)[:3])(p), Dims(), (pop_in(), *gal_in(), KeyIn("key")))
        w = law(G, P, tm.uf("key", sort="key"))
        R.must_fail("false goal", M.ctx, tm.eq(o[2]._asdict()["frac_quench_cen_yhi"].get(), L(0)))
        for p in POPN:
            for tag, k in SEQ:
                for j, q in enumerate(SHORT):
                    g, d = field(o[k][j], p).get(), diff(w[k][j], v(p))
                    if g is L(0) and d is L(0):
                        continue
                    R.eq(f"{tag} {q} by {p}", M.ctx, no_std(R, M.ctx, g), no_std(R, M.ctx, d))
            R.eq(f"quenched fraction by {p}", M.ctx, field(o[2], p).get(), diff(w[2], v(p)))
    with R.section("derivatives are defined", PKN + "._diffstarpop_means_covs"):
        # no undefined value hides in a branch that is not taken
        c = M.ctx
        for p in POPN:
            for tag, k in SEQ:
                for j, q in enumerate(SHORT):
                    g = no_std(R, c, field(o[k][j], p).get())
                    if g is L(0) or p.startswith("std_"):
                        continue
                    R.defined(f"{tag} {q} by {p}", c, g)
            R.defined(f"quenched fraction by {p}", c, field(o[2], p).get())
    i, k, n = tm.ivar("i"), tm.ivar("k"), tm.ivar("n")
    with R.section("histories by the population parameters", MC + ".mc_diffstar_sfh_singlegal"):
        f = attr(MCM, "mc_diffstar_sfh_singlegal")
        attr(MCM, "mc_diffstar_u_params_singlegal_kernel")
        gi = [x for x in gal_in() if x.name != "tpeak"]
        M = Machine(Ctx([tm.le(0, i), tm.lt(i, n)]))
        pick = lambda h: (tuple(h.diffstar_params_ms), tuple(h.diffstar_params_q), h.sfh_ms, h.sfh_q, h.frac_q)
        o = M.call(lambda p, dp, m, *a, lgt0, fb: jax.jvp(lambda q: pick(f(q, m, *a, lgt0=lgt0, fb=fb)), (p,), (dp,)), Dims(n=1),
                   (pop_in(), pop_in("D"), nt_in(mah_cls()), *gi, KeyIn("key"), In("t", ("n",))), dict(lgt0=In("lgt0"), fb=In("fb")), overrides=HOV)
        val, tan = o
        us = ds.DiffstarUParams._fields
        bv = Machine().call(ds.get_bounded_diffstar_params, Dims(), (nt_in(ds.DiffstarUParams),))
        fr = val[4].get()
        if not (fr.op == "uf" and fr.v[0] == "FRACQ"):
            R.standin("histories by the population parameters", "the fraction is not the kernel's")
        else:
            a = fr.a
            dd = lambda nm: tm.add(*[tm.uf(f"d{z}:{nm}", *a) * v("D" + p) for z, p in enumerate(POPN)])
            R.eq("quenched fraction", M.ctx, tan[4].get(), dd("FRACQ"))
            for tag, col, hist, nm in (("main-sequence", 0, 2, "DRAWMS"), ("quenched", 1, 3, "DRAWQ")):
                at = {v(u): tm.uf(f"{nm}{z}", *a) for z, u in enumerate(us)}
                dpar = []
                for z, p in enumerate(PN):
                    b = field(bv, p).get()
                    d = tm.add(*[tm.subst(diff(b, v(u)), at) * dd(f"{nm}{y}") for y, u in enumerate(us)])
                    dpar.append(d)
                    R.eq(f"{tag} {p}", M.ctx, tan[col][z].get(), d)
                h = val[hist].get(i)
                if not (h.op == "uf" and h.v[0] == "SFH"):
                    R.standin("histories by the population parameters", "the history is not that of one call")
                    continue
                R.eq(f"{tag} history", M.ctx, tan[hist].get(i), tm.add(*[tm.uf(f"d{z}:SFH", *h.a) * tan[col][z].get() for z in range(8)]), budget=60)
    from diffstar.diffstarpop import get_bounded_diffstarpop_params as gb, get_unbounded_diffstarpop_params as gu
    from diffstar.diffstarpop.defaults import DEFAULT_DIFFSTARPOP_U_PARAMS as UP, DEFAULT_DIFFSTARPOP_PARAMS as PP
    for nm, f, T, facts in (("bounded", gb, UP, []), ("unbounded", gu, PP, pop_range())):
        with R.section(nm + " population parameters", f"diffstar.diffstarpop.defaults.get_{nm}_diffstarpop_params"):
            M = Machine(Ctx(facts))
            val, tan = M.call(lambda u, du: jax.jvp(f, (u,), (du,)), Dims(), (nt_in(T), nt_in(T, (), "D")))
            for x, y in zip(val._fields, T._fields):
                g = field(tan, x).get()
                R.eq(f"{x}: tangent is its own slope times the tangent of {y}", M.ctx, g, diff(field(val, x).get(), v(y)) * v("D" + y))
                R.defined(x, M.ctx, g)
    hist, whist, sm = mod_attr(ND, "tw_ndhist"), mod_attr(ND, "tw_ndhist_weighted"), mod_attr(SM, "compute_smhm")
    b, p_ = tm.ivar("b_"), tm.ivar("p")
    for nd in (1, 2):
        with R.section(f"histogram in {nd} dimensions", ND + ".tw_ndhist", ND + ".tw_ndhist_weighted", ND + "._tw_cuml_lax_kern"):
            if hist is None or whist is None:
                raise Missing("histograms")
            shp = dict(x=("p", nd), s=("p", nd), lo=("b", nd), hi=("b", nd))
            arg = lambda pre: [In(pre + q, shp[q]) for q in shp]
            pos = [tm.le(0, b), tm.lt(b, tm.ivar("b"))]
            atom = lambda q, j, z: tm.uf(q, j if q in "xs" else b, L(z))
            datm = lambda q, j, z: tm.uf("D" + q, j if q in "xs" else b, L(z))

            def body(j):
                """one point's weight with its coordinates as variables, and its total derivative"""
                sv = {(q, z): v(f"_{q}{z}") for q in shp for z in range(nd)}
                w = L(1)
                for z in range(nd):
                    w = w * wt(*[sv[q, z] for q in ("x", "s", "lo", "hi")])
                d = tm.add(*[diff(w, sv[q, z]) * datm(q, j, z) for q in shp for z in range(nd)])
                back = {sv[q, z]: atom(q, j, z) for q in shp for z in range(nd)}
                return tm.subst(w, back), tm.subst(d, back)
            M = Machine(Ctx(pos))
            o = M.call(lambda x, dx: jax.jvp(hist, tuple(x), tuple(dx))[1], Dims(p=1, b=1), (arg(""), arg("D")))
            R.eq("count of a bin", M.ctx, o.get(b), tm.Sum(0, p_, lambda j: body(j)[1]), budget=60)
            M = Machine(Ctx(pos))
            f = lambda x, s, l, h, y: whist(x, s, y, l, h)
            o = M.call(lambda x, y, dx, dy: jax.jvp(f, (*x, y), (*dx, dy))[1], Dims(p=1, b=1), (arg(""), In("y", ("p",)), arg("D"), In("Dy", ("p",))))
            R.eq("weighted sum of a bin", M.ctx, o.get(b),
                 tm.Sum(0, p_, lambda j: body(j)[1] * tm.uf("y", j) + body(j)[0] * tm.uf("Dy", j)), budget=60)


def cases(R):
    import diffstar.diffstarpop as dp

    def gen(rng):
        return dict(g=rand_gal(rng), mah=rand_mah(rng), P=rand_pop(rng, edge=0.0), seed=int(rng.integers(0, 2**31)), t=rand_times(rng, 4, lo=0.5),
                    fb=float(rng.uniform(.05, .3)), lgt0=float(math.log10(rng.uniform(13, 14.5))), pick=[int(z) for z in rng.integers(0, len(POPN), 6)])

    def run(inp):
        g, P = inp["g"], inp["P"]
        key = jax.random.PRNGKey(inp["seed"])
        f = attr(MCM, "mc_diffstar_u_params_singlegal")
        a = [g[x] for x in GAL]
        fl = lambda d: DPP(d)
        draw = lambda p: tuple(jnp.stack([jnp.asarray(z) for z in y]) if isinstance(y, tuple) else jnp.asarray(y) for y in f(p, *a, key)[:3])
        fw = jax.jacfwd(draw)(pop_nt(P))
        rv = jax.jacrev(draw)(pop_nt(P))
        for x in POPN:
            for y, z in zip(fw, rv):
                must(np.all(np.isfinite(np.asarray(getattr(y, x)))), f"derivative by {x} not finite")
                close(f"forward and reverse derivative by {x}", getattr(y, x), getattr(z, x), rtol=1e-6, atol=1e-9)
        names = [POPN[z] for z in inp["pick"]]
        for x in names:
            lo, hi = pbf(x)
            h = 1e-5 * (hi - lo)
            num = [fd(lambda y, k=k: np.asarray(oracle(g, {**P, x: y}, key)[k], float), P[x], h) for k in range(3)]
            for k, tag in enumerate(("main-sequence draw", "quenched draw", "quenched fraction")):
                got = np.asarray(getattr(fw[k], x))
                if k == 1:
                    got = got[:8]
                sc = 1 + np.abs(num[k])
                must(np.all(np.abs(got - num[k]) <= 2e-4 * sc / min(1.0, hi - lo)), f"derivative of the {tag} by {x}: {got} against {num[k]}")
        pp = ds.DiffstarParams
        hist = lambda p: dp.mc_diffstar_sfh_singlegal(p, mah_nt(inp["mah"]), *(g[x] for x in GAL if x != "tpeak"), key, jnp.array(inp["t"]), lgt0=inp["lgt0"], fb=inp["fb"])
        J = jax.jacfwd(lambda p: tuple(hist(p)[:5]))(pop_nt(P))
        base = hist(pop_nt(P))
        for c, (par, sf) in enumerate(((0, 2), (1, 3))):
            q = pp(*[float(z) for z in base[par]])
            S = jax.jacfwd(lambda z: ds.calc_sfh_singlegal(z, mah_nt(inp["mah"]), jnp.array(inp["t"]), lgt0=inp["lgt0"], fb=inp["fb"]))(q)
            for x in names + ["mean_ulgm_mseq_ytp", "mean_ulgy_qseq_ytp", "mean_uqt_ytp"]:
                w = sum(np.asarray(getattr(S, z)) * np.asarray(getattr(getattr(J[par], z), x)) for z in PN)
                close(f"chain rule of the history by {x}", getattr(J[sf], x), w, rtol=1e-5, atol=1e-8 * (1e-30 + np.abs(w).max()) + 1e-14)

    def oracle(g, P, key):
        a = n_draw(g, P, key)
        return a[0], a[1] if len(a[1]) == 8 else np.concatenate([a[1], a[2]]), n_frac(g, P)
    R.case("population_derivatives", gen, run, n=4, n_deep=60)

    def gen_h(rng):
        nd, p = int(rng.integers(1, 4)), int(rng.choice([1, 2, 7]))
        x = rng.uniform(-3, 3, (p, nd))
        lo = rng.uniform(-3, 2, (3, nd))
        return dict(x=x.tolist(), sg=(10 ** rng.uniform(-1, .5, (p, nd))).tolist(), lo=lo.tolist(), hi=(lo + 10 ** rng.uniform(-1, .7, (3, nd))).tolist(),
                    y=[float(z) for z in rng.uniform(-2, 5, p)], j=int(rng.integers(p)), k=int(rng.integers(nd)))

    def run_h(inp):
        x, sg, lo, hi, y = (np.array(inp[z]) for z in ("x", "sg", "lo", "hi", "y"))
        h, hw = mod_attr(ND, "tw_ndhist"), mod_attr(ND, "tw_ndhist_weighted")
        j, k = inp["j"], inp["k"]

        def W(x, sg):
            return np.prod(o_tw((x[None] - lo[:, None]) / sg[None]) - o_tw((x[None] - hi[:, None]) / sg[None]), axis=2)

        def at(arr, z):
            r = arr.copy()
            r[j, k] = z
            return r
        for nm, arr, fx in (("position", x, lambda z: (at(x, z), sg)), ("width", sg, lambda z: (x, at(sg, z)))):
            st = 1e-4 * (1 if nm == "position" else sg[j, k])
            num = fd(lambda z: W(*fx(z)), arr[j, k], st)
            tol = 1e-4 * (1 + np.abs(num).max()) / min(1, sg[j, k])
            if h is not None:
                e = np.zeros_like(x)
                e[j, k] = 1.0
                z0 = np.zeros_like(x)
                g = jax.jvp(lambda a, b: h(a, b, lo, hi), (x, sg), (e, z0) if nm == "position" else (z0, e))[1]
                close(f"derivative of the counts by a {nm}", g, num.sum(1), rtol=1e-4, atol=tol)
                r = jax.jacrev(lambda a, b: h(a, b, lo, hi), argnums=(0, 1))(x, sg)[0 if nm == "position" else 1][:, j, k]
                close(f"reverse derivative of the counts by a {nm}", r, g, rtol=1e-6, atol=1e-9)
            if hw is not None:
                g = jax.jvp(lambda a, b: hw(a, b, y, lo, hi), (x, sg), (e, z0) if nm == "position" else (z0, e))[1]
                close(f"derivative of the weighted sums by a {nm}", g, (num * y).sum(1), rtol=1e-4, atol=5 * tol)
        if hw is not None:
            g = jax.jacfwd(lambda q: hw(x, sg, q, lo, hi))(y)
            close("derivative of the weighted sums by the values", g, W(x, sg), rtol=1e-7, atol=1e-8)
    R.case("histogram_derivatives", gen_h, run_h, n=10, n_deep=100)
