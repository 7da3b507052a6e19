"""C13 population means and scatters: clipped lines and rolling slopes of the declared parameters"""
from .popspec import *
from .c12 import trace_draw, MCM
from diffstar.diffstarpop import utils as pu


def obligations(R):
    R.assume(MVN)
    P, G = pop_v(), gal_v()
    x, x0, y0, m, lo, hi, y = (v(z) for z in ("x", "x0", "y0", "m", "y_lo", "y_hi", "y"))
    fs = [tm.lt(lo, y0), tm.lt(y0, hi)]
    with R.section("clipped line", "diffstar.diffstarpop.utils.smoothly_clipped_line"):
        f = attr(pu, "smoothly_clipped_line")
        M = Machine(Ctx(fs))
        out = M.call(f, Dims(), tuple(In(z) for z in ("x", "x0", "y0", "m", "y_lo", "y_hi"))).get()
        R.must_fail("false goal", M.ctx, tm.lt(out, hi))
        R.eq("law", M.ctx, out, t_clip(y0 + m * (x - x0), y0, lo, hi))
        R.defined("finite for every slope, zero included", M.ctx, out)
        clip_lemmas(R)
    with R.section("means and scatters", MC + ".mc_diffstar_u_params_singlegal", "diffstar.diffstarpop.kernels.sfh_pdf_mgash._get_mean_u_params_mseq",
                   "diffstar.diffstarpop.kernels.sfh_pdf_mgash._get_mean_u_params_qseq", "diffstar.diffstarpop.kernels.sfh_pdf_mgash._get_covariance_mseq_ms_block",
                   "diffstar.diffstarpop.kernels.sfh_pdf_mgash._get_covariance_qseq_ms_block", "diffstar.diffstarpop.kernels.sfh_pdf_mgash._get_covariance_qseq_q_block",
                   "diffstar.diffstarpop.utils.covariance_from_correlation"):
        M = Machine(Ctx(pop_range()))
        ums, uq, _, _ = trace_draw(M)
        c = M.ctx
        for seq, u, names in (("mseq", ums, SHORT[:4]), ("qseq", uq, SHORT)):
            for q in names:
                t = u[SHORT.index(q)].get()
                zs = tm.atoms_of(t, lambda a: a.op == "uf" and a.v[0] == "STDNORMAL")
                at = lambda k: tm.replace(t, {z: L(k) for z in zs})
                tag = f"{q} of the {'quenched' if seq == 'qseq' else 'main'} sequence: "
                R.prove(tag + "carries one normal draw", c, L(len(zs) == 1))
                R.eq(tag + "mean", c, at(0), t_mean(seq, q, G["logmp0"], G["tpeak"], P))
                sd = at(1) - at(0)
                w = t_std(seq, q, G["logmp0"], P)
                R.eq(tag + "variance", c, tm.ipow(sd, 2), tm.ipow(w, 2))
                R.eq(tag + "linear in the draw", c, at(3) - at(0), 3 * sd)
    with R.section("declared clipping ranges bracket the intercepts", "diffstar.diffstarpop.kernels.sfh_pdf_mgash"):
        for k in POPN:
            if k.endswith("_int"):
                b = CLIPB[k.replace("_mseq", "").replace("_qseq", "")[:-4]]
                R.prove(f"{k} inside its clip range", Ctx(pop_range([k])), tm.and_(tm.lt(L(b[0]), v(k)), tm.lt(v(k), L(b[1]))))
        for k in CLIPB:
            if k.startswith("std"):
                R.prove(f"lower clip of {k} positive", Ctx(), tm.lt(0, L(CLIPB[k][0])))


MVN = ("jax.random.multivariate_normal (dependency): for a diagonal covariance C component i is mean_i + sqrt(C_ii) * Z_i(key), "
       "Z a vector of standard normal draws that depends only on the key and the dimension")


def clip_lemmas(R):
    """t_clip stays above y_lo and exceeds y_hi by at most (y0-y_lo)*2e-4"""
    y0, lo, hi, y = (v(z) for z in ("y0", "y_lo", "y_hi", "y"))
    s, z, w = v("_s"), v("_z"), v("_w")
    # one sigmoid step: z*sigma(-z) <= 1/3 for z >= 0  (exp z >= 1 + z + z^2/2)
    e = tm.exp(z)
    R.prove("z*sigma(-z) <= 1/3", Ctx([tm.le(0, z), tm.le(1 + z + z * z / 2, v("_e"))]), tm.le(3 * z, 1 + v("_e")))
    d = v("_d")      # y0 - y_lo
    a, b = lo + d / 100, hi - (hi - y0) / 100
    # first step: value c1 = a + (y-a) s1 with s1 in (0,1); when y < a, (a-y) s1 <= (1/3)/K = d/6000
    c1, s1, s2 = v("_c1"), v("_s1"), v("_s2")
    base = [tm.lt(0, d), tm.eq(d, y0 - lo), tm.lt(y0, hi), tm.lt(0, s1), tm.lt(s1, 1), tm.lt(0, s2), tm.lt(s2, 1)]
    up = [tm.implies(tm.lt(y, a), tm.le((a - y) * s1, d / 6000))]
    R.prove("first clip stays above the lower bound", Ctx(base + up), tm.lt(lo, a + (y - a) * s1))
    R.prove("first clip never above max(line, lower knee)", Ctx(base), tm.le(a + (y - a) * s1, tm.max_(a, y)))
    out = c1 + (b - c1) * s2
    c1f = [tm.lt(lo, c1), tm.le(c1, tm.max_(a, y)), tm.implies(tm.lt(b, y), tm.le((y - b) * (1 - s2), d / 6000))]
    R.prove("knees ordered", Ctx(base), tm.lt(a, b))
    R.prove("never below the lower clip", Ctx(base + c1f + [tm.lt(lo, b)]), tm.lt(lo, out))
    R.prove("exceeds the upper clip by at most 2e-4 of y0-y_lo", Ctx(base + c1f + [tm.lt(a, b)]), tm.lt(out, hi + d * L("2e-4")))
    A, B = lo + (y0 - lo) / 100, b
    K = 2000 / (y0 - lo)
    c1t = A + (y - A) * tm.sigma(K * (y - A))
    R.eq("the clipped line is these two steps", Ctx([tm.lt(lo, y0), tm.lt(y0, hi)]), t_clip(y, y0, lo, hi),
         c1t + (B - c1t) * tm.sigma(K * (y - B)))
    # link: s = 1/(1+exp z) with z = K*(distance to the knee) >= 0
    gap, E = v("_gap"), v("_E")
    R.prove("one step overshoots its knee by at most d/6000", Ctx([tm.lt(0, d), tm.le(0, z), tm.eq(gap * 2000, z * d), tm.le(1 + z + z * z / 2, E)]),
            tm.le(gap * 6000, d * (1 + E)))


def cases(R):
    def gen(rng):
        P = rand_pop_mix(rng)
        g = rand_gal(rng)
        y0 = float(rng.uniform(-2, 2))
        ln = dict(x=[float(z) for z in rng.uniform(9, 16, 5)], x0=12.5, y0=y0, m=float(rng.choice([0.0, 1e-6, 0.3, -0.3, 20, -20])),
                  y_lo=y0 - float(rng.uniform(.1, 3)), y_hi=y0 + float(rng.uniform(.1, 3)))
        return dict(P=P, g=g, ln=ln, seed=int(rng.integers(0, 2**31)))

    def run(inp):
        ln = inp["ln"]
        if hasattr(pu, "smoothly_clipped_line"):
            got = np.asarray(pu.smoothly_clipped_line(jnp.array(ln["x"]), *(ln[k] for k in ("x0", "y0", "m", "y_lo", "y_hi"))))
            must(np.isfinite(got), f"clipped line not finite for {ln}")
            must(got > ln["y_lo"], f"clipped line below its lower clip for {ln}")
            must(got < ln["y_hi"] + 2e-4 * (ln["y0"] - ln["y_lo"]), f"clipped line above its upper clip for {ln}")
            want = n_clip(ln["y0"] + ln["m"] * (np.array(ln["x"]) - ln["x0"]), ln["y0"], ln["y_lo"], ln["y_hi"])
            close("clipped line", got, want, rtol=1e-7, atol=1e-9, extra=str(ln))
        # means and scatters through the draws: the same key gives the same normals
        P, g = inp["P"], inp["g"]
        key = jax.random.PRNGKey(inp["seed"])
        ums, uq, _, _ = attr(MCM, "mc_diffstar_u_params_singlegal")(pop_nt(P), *(g[x] for x in GAL), key)
        ms, qm, qq, _ = n_draw(g, P, key)
        close("main-sequence draw", [float(z) for z in ums], ms, rtol=1e-7, atol=1e-8, extra=str(g))
        close("quenched draw", [float(z) for z in uq], np.concatenate([qm, qq]), rtol=1e-7, atol=1e-8, extra=str(g))
    R.case("means_and_scatters", gen, run, n=40, n_deep=300)
