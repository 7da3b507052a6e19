"""C22 the individual-galaxy fit loss"""
from .common import *
from vc.jaxvc import opaque_ew
import diffstar as ds

FH = "diffstar.fitting_helpers.diffstar_fitting_helpers"
SM = "diffstar.sfh_model"
UT = "diffstar.utils"


def fh():
    import importlib
    try:
        return importlib.import_module(FH)
    except ImportError:
        raise Missing(FH)


def rows(x):
    return jnp.arange(x.shape[0]).astype(float)


def c_sfh(sfh_params, mah_params, tarr, *, lgt0, fb, return_smh=False):
    from diffstar.sfh_model import GalHistory
    a = (*[getattr(sfh_params, p) for p in PN], *mah_params, lgt0, fb)
    h = [opaque_ew(nm, rows(tarr), tarr, *a) for nm in ("SFH", "SMH")]
    return GalHistory(*h) if return_smh else h[0]


def c_fstar(tarr, mstar, fstar_tdelay):
    return opaque_ew("FSTAR", rows(tarr), tarr, mstar, fstar_tdelay)


OV = [(SM, "calc_sfh_singlegal", c_sfh), (UT, "compute_fstar", c_fstar)]
NAMES = ("sm", "lsm", "sfr", "lfs")


def data_in():
    N = ("n",)
    return (In("t", N), nt_in(mah_cls()), In("sm", N), In("lsm", N), In("sfr", N), In("lfs", N), In("delay"), In("floor"),
            In("w", N), In("wf", N), In("lgtmax"), In("lgt0"), In("fb"))


def obligations(R):
    R.assume("callees by contract: calc_sfh_singlegal (C06, C08) and compute_fstar (C11) return any values that depend only on their arguments, entry by entry")
    m = fh()
    n = tm.ivar("n")
    D = Dims(n=3)
    U = ds.DEFAULT_DIFFSTAR_U_PARAMS
    with R.section("bounding of the varied parameters", FH + ".loss_default_clipssfrh"):
        M = Machine()
        bp = M.call(ds.get_bounded_diffstar_params, Dims(), (nt_in(U),))
        p = {k: field(bp, k).get() for k in PN}
        R.prove("eight parameters", M.ctx, L(len(p) == 8))
    with R.section("loss of an individual fit", FH + ".loss_default_clipssfrh"):
        f = attr(m, "loss_default_clipssfrh")
        i = tm.ivar("i")
        a = (*[p[k] for k in PN], *mvars(), v("lgt0"), v("fb"))
        T = lambda j: tm.uf("t", j)
        S = lambda j: tm.uf("SMH", j, T(j), *a)
        H = lambda j: tm.uf("SFH", j, T(j), *a)
        FS = lambda j: tm.uf("FSTAR", j, T(j), S(j), v("delay"))
        u = lambda nm, j: tm.uf(nm, j)
        low = lambda j: S(j) * v("floor") / 10
        pos = [tm.lt(0, v("floor"))]
        d1 = lambda j: (tm.log10(S(j)) - u("lsm", j)) / u("w", j)
        lf = lambda j: tm.log10(tm.max_(FS(j), low(j)))
        d2 = lambda j: (lf(j) - u("lfs", j)) / u("wf", j)
        r = lambda j: 10**8 * (tm.max_(H(j), low(j)) - u("sfr", j)) / u("sm", j)
        d3 = lambda j: tm.min_(L(1), tm.max_(L(-1), r(j))) / u("w", j)
        sq = lambda d: tm.Sum(0, n, lambda j: tm.ipow(d(j), 2)) / n
        end = tm.ipow(lf(n - 1) - u("lfs", n - 1), 2)
        ridge = 100 - 100 * tm.sigma(50 * (p["lg_qt"] - v("lgtmax")))
        want = 30 * sq(d1) + sq(d2) + sq(d3) + end / 2 + ridge
        M = Machine(Ctx(pos))
        o = M.call(f, D, (In("u", (8,)), data_in()), overrides=OV).get()
        sub = {v(k): tm.uf("u", L(q)) for q, k in enumerate(U._fields)}
        R.must_fail("false goal", M.ctx, tm.eq(o, L(0)))
        R.eq("sum of its parts", M.ctx, o, tm.subst(want, sub), budget=90)
        M2 = Machine(Ctx(pos))
        o2 = M2.call(f, D, (nt_in(U), data_in()), overrides=OV).get()
        R.eq("same for named parameters", M2.ctx, o2, want, budget=90)
        # consequences
        for nm, d in (("mass", d1), ("smoothed rate", d2), ("rate", d3)):
            R.prove(f"{nm} term: every summand is non-negative", Ctx(), tm.le(0, tm.ipow(v("_d"), 2)))
        R.prove("ridge between 0 and 100", M.ctx, tm.and_(tm.lt(0, ridge), tm.lt(ridge, 100)))
        x = [v("_A"), v("_B"), v("_C"), v("_D")]
        R.prove("never negative", Ctx([tm.le(0, q) for q in x] + [tm.lt(0, v("_R"))]), tm.lt(0, 30 * x[0] + x[1] + x[2] + x[3] / 2 + v("_R")))
        c = Ctx(pos + [tm.lt(0, u("w", i)), tm.lt(0, u("wf", i))])
        same = {u("lsm", i): tm.log10(S(i)), u("lfs", i): lf(i), u("sfr", i): tm.max_(H(i), low(i))}
        for nm, d in (("mass", d1), ("smoothed rate", d2), ("rate", d3)):
            R.eq(f"{nm} residual vanishes where the model reproduces the target", c, tm.replace(d(i), same), L(0))
        R.prove("rate residual limited to one over the weight", Ctx(pos + [tm.lt(0, u("w", i))]), tm.le(tm.ipow(d3(i) * u("w", i), 2), 1))
    with R.section("defined", FH + ".loss_default_clipssfrh"):
        fct = pos + [tm.lt(0, S(i)), tm.lt(0, H(i)), tm.lt(0, u("sm", i)), tm.lt(0, u("w", i)), tm.lt(0, u("wf", i))]
        for nm, d in (("mass", d1), ("smoothed rate", d2), ("rate", d3)):
            R.defined(nm + " residual", Ctx(fct), d(i))


def cases(R):
    def gen(rng):
        n = int(rng.choice([3, 12, 40]))
        t = rand_times(rng, n, lo=0.1)
        U = ds.DEFAULT_DIFFSTAR_U_PARAMS
        return dict(u=(np.array([float(x) for x in U]) + rng.normal(size=8) * rng.choice([0.3, 2.0])).tolist(), t=t, mah=rand_mah(rng),
                    tgt=(np.array([float(x) for x in U]) + rng.normal(size=8)).tolist(), noise=rng.normal(size=(3, n)).tolist(), eps=float(rng.choice([0, 0.1, 1.0])),
                    w=rng.choice([0.5, 1.0, 1e10], size=n).tolist(), wf=rng.choice([0.5, 1.0, 1e10], size=n).tolist(), delay=float(rng.choice([1.0, 0.3, 3.0])),
                    floor=float(rng.choice([1e-12, 1e-10, 1e-8])), lgtmax=float(rng.uniform(0, 1.2)), lgt0=math.log10(rng.uniform(13, 14.5)), fb=float(rng.uniform(.1, .2)))

    def model(inp, u):
        p = o_bound(u)
        t = np.array(inp["t"])
        sfh = o_sfh(t, inp["lgt0"], inp["fb"], p, inp["mah"])
        sm = o_smh(t, sfh)
        fs = np.maximum(0, (sm - np.interp(t - inp["delay"], t, sm)) / inp["delay"] / 1e9)
        low = sm * inp["floor"] / 10
        return p, np.maximum(sfh, low), sm, np.log10(np.maximum(fs, low))

    def run(inp):
        f = attr(fh(), "loss_default_clipssfrh")
        t, w, wf = (np.array(inp[k]) for k in ("t", "w", "wf"))
        _, s0, m0, l0 = model(inp, inp["tgt"])
        e, nz = inp["eps"], np.array(inp["noise"])
        ls, ss, lf = np.log10(m0) + e * nz[0], s0 * 10 ** (e * nz[1]), l0 + e * nz[2]
        p, s, sm, lfs = model(inp, inp["u"])
        r = np.clip(1e8 * (s - ss) / 10**ls, -1, 1)
        want = (30 * np.mean(((np.log10(sm) - ls) / w) ** 2) + np.mean(((lfs - lf) / wf) ** 2) + np.mean((r / w) ** 2)
                + 0.5 * (lfs - lf)[-1] ** 2 + 100 * (1 - 1 / (1 + np.exp(-50 * (p["lg_qt"] - inp["lgtmax"])))))
        data = (jnp.array(t), mah_nt(inp["mah"]), jnp.array(10**ls), jnp.array(ls), jnp.array(ss), jnp.array(lf), inp["delay"], inp["floor"],
                jnp.array(w), jnp.array(wf), inp["lgtmax"], inp["lgt0"], inp["fb"])
        got = float(f(jnp.array(inp["u"]), data))
        close("loss", got, want, rtol=1e-6, atol=1e-9)
        must(got >= 0, "negative loss")
        perfect = (data[0], data[1], jnp.array(sm), jnp.log10(sm), jnp.array(s), jnp.array(lfs), *data[6:])
        ridge = 100 * (1 - 1 / (1 + np.exp(-50 * (p["lg_qt"] - inp["lgtmax"]))))
        close("only the ridge is left for a perfect model", float(f(jnp.array(inp["u"]), perfect)), ridge, rtol=1e-6, atol=1e-9)
        g = getattr(fh(), "loss_grad_default_clipssfrh_np", None)
        if g is not None:
            must(np.all(np.isfinite(g(jnp.array(inp["u"]), data))), "gradient not finite")
    R.case("fit_loss", gen, run, n=12, n_deep=80)
