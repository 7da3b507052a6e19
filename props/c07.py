"""C07 population calls equal galaxy-by-galaxy calls"""
from .common import *
import diffstar as ds
from diffstar import utils as ut


def at_gal(term, g, names):
    """single-galaxy term with every galaxy input replaced by the row of galaxy g"""
    return tm.subst(term, {v(n): tm.uf(n, g) for n in names})


def obligations(R):
    R.assume(MAH_ASSUMED)
    g, i = tm.ivar("k"), tm.ivar("i")
    rng = [tm.le(0, g), tm.lt(g, tm.ivar("g")), tm.le(0, i), tm.lt(i, tm.ivar("n"))]
    names = list(PN) + list(mah_fields())
    DS = ds.DiffstarParams

    def single(M, fn, n, kw, static=None):
        return M.call(fn, Dims(n=n), (nt_in(DS), nt_in(mah_cls()), In("t", ("n",))), kw, static)

    def pop(M, fn, n, kw, static=None):
        return M.call(fn, Dims(n=n, g=1), (nt_in(DS, ("g",)), nt_in(mah_cls(), ("g",)), In("t", ("n",))), kw, static)
    kw = dict(lgt0=In("lgt0"), fb=In("fb"))
    for tag, one, many, n, static, fields in (
            ("SFH", ds.calc_sfh_singlegal, ds.calc_sfh_galpop, 1, dict(return_smh=False), None),
            ("SFH and stellar mass", ds.calc_sfh_singlegal, ds.calc_sfh_galpop, 1, dict(return_smh=True), ("sfh", "smh")),
            ("gas", ds.calc_mgas_singlegal, ds.calc_mgas_galpop, 3, None, ("sfh", "smh", "dmgash", "mgash"))):
        with R.section(tag, f"{one.__module__}.{one.__name__}", f"{many.__module__}.{many.__name__}"):
            Mp, Ms = Machine(Ctx(rng)), Machine(Ctx(rng[2:]))
            P = pop(Mp, many, n, kw, static)
            S = single(Ms, one, n, kw, static)
            c = Mp.ctx
            if fields is None:
                R.eq("SFR", c, P.get(g, i), at_gal(S.get(i), g, names))
                R.must_fail("false goal", c, tm.eq(P.get(g, i), tm.uf("t", i)))
            else:
                for f in fields:
                    a, b = field(P, f), field(S, f)
                    R.eq(f, c, a.get(g, i), at_gal(b.get(i), g, names))
                    R.prove(f"{f} shape", c, tm.and_(tm.eq(a.shape[0], tm.ivar("g")), tm.eq(a.shape[1], tm.ivar("n"))))
            R.loops(Mp, Mp.ctx)
            R.loops(Ms, Ms.ctx)
    with R.section("gas defaults for the age of the Universe and the baryon fraction", "diffstar.mgas_model.calc_mgas_galpop"):
        Mp, Ms = Machine(Ctx(rng)), Machine(Ctx(rng[2:]))
        P = pop(Mp, ds.calc_mgas_galpop, 3, {})
        S = single(Ms, ds.calc_mgas_singlegal, 3, {})
        for f in ("sfh", "mgash"):
            R.eq(f, Mp.ctx, field(P, f).get(g, i), at_gal(field(S, f).get(i), g, names))
    with R.section("cumulative stellar mass", "diffstar.utils.cumulative_mstar_formed_galpop", "diffstar.utils.cumulative_mstar_formed"):
        Mp, Ms = Machine(Ctx(rng)), Machine(Ctx(rng[2:]))
        P = Mp.call(ut.cumulative_mstar_formed_galpop, Dims(n=1, g=1), (In("t", ("n",)), In("s", ("g", "n"))))
        S = Ms.call(ut.cumulative_mstar_formed, Dims(n=1), (In("t", ("n",)), In("s", ("n",))))
        row = lambda x: tm.replace(x, {a: tm.uf("s", g, a.a[0]) for a in tm.atoms_of(x, lambda q: q.op == "uf" and q.v[0] == "s")})
        from vc.jaxvc import Expr
        S2 = Ms.call(ut.cumulative_mstar_formed, Dims(n=1), (In("t", ("n",)), Expr(Arr((tm.ivar("n"),), lambda j: tm.uf("s", g, j)), ("n",))))
        R.eq("row", Mp.ctx, P.get(g, i), S2.get(i))
        R.loops(Mp, Mp.ctx)


def cases(R):
    def gen(rng):
        ng = int(rng.choice([1, 3, 5]))
        n = {1: 4, 3: 3, 5: 5}[ng]      # includes ng == n
        return dict(p=[rand_params(rng) for _ in range(ng)], mah=[rand_mah(rng) for _ in range(ng)], t=rand_times(rng, n),
                    fb=float(rng.uniform(0.05, 0.3)), lgt0=float(math.log10(rng.uniform(12, 15))), dflt=bool(rng.random() < .3))

    def run(inp):
        t = jnp.array(inp["t"])
        kw = dict(lgt0=inp["lgt0"], fb=inp["fb"])
        one = [(ds.DiffstarParams(**p), mah_nt(m)) for p, m in zip(inp["p"], inp["mah"])]
        sp = ds.DiffstarParams(*[jnp.array([p[k] for p in inp["p"]]) for k in PN])
        mp = mah_nt({k: jnp.array([m[k] for m in inp["mah"]]) for k in inp["mah"][0]})
        P = ds.calc_sfh_galpop(sp, mp, t, **kw)
        H = ds.calc_sfh_galpop(sp, mp, t, **kw, return_smh=True)
        gkw = {} if inp["dflt"] else kw
        G = ds.calc_mgas_galpop(sp, mp, t, **gkw)
        must(np.shape(P) == (len(one), len(t)), f"population SFH has shape {np.shape(P)}")
        cum = ut.cumulative_mstar_formed_galpop(t, P)
        for k, (a, b) in enumerate(one):
            s = ds.calc_sfh_singlegal(a, b, t, **kw, return_smh=True)
            x = f"galaxy {k}"
            close(x + " SFH", P[k], s.sfh, rtol=1e-9, atol=1e-20)
            close(x + " SFH (with mass)", H.sfh[k], s.sfh, rtol=1e-9, atol=1e-20)
            close(x + " stellar mass", H.smh[k], s.smh, rtol=1e-9, atol=1e-9 * np.abs(np.asarray(s.smh)).max())
            close(x + " cumulative mass", cum[k], ut.cumulative_mstar_formed(t, P[k]), rtol=1e-9)
            m = ds.calc_mgas_singlegal(a, b, t, **gkw)
            for f in ("sfh", "smh", "dmgash", "mgash"):
                w = np.asarray(getattr(m, f))
                close(f"{x} gas model {f}", getattr(G, f)[k], w, rtol=1e-8, atol=1e-9 * np.abs(w).max())
    R.case("population_vs_single", gen, run, n=15, n_deep=120)
