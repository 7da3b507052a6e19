"""C12 quenched fractions are probabilities; satellites never below their baseline; centrals ignore satellite quantities"""
from .popspec import *
import importlib

MCM = importlib.import_module(MC)


def trace_draw(M, fn=None, D=None):
    """(u_ms, u_q, frac, flag) of one galaxy from the real code"""
    fn = fn or attr(MCM, "mc_diffstar_u_params_singlegal")
    return M.call(fn, D or Dims(), (pop_in(), *gal_in(), KeyIn("key")))


def obligations(R):
    P, G = pop_v(), gal_v()
    with R.section("quenched fraction", MC + ".mc_diffstar_u_params_singlegal", PKN + "._diffstarpop_means_covs",
                   "diffstar.diffstarpop.kernels.sfh_pdf_mgash._frac_quench_cen", "diffstar.diffstarpop.kernels.sfh_pdf_mgash._frac_quench_sat",
                   "diffstar.diffstarpop.kernels.satquenchpop_model.get_qprob_sat"):
        M = Machine(Ctx(pop_range()))
        fr = trace_draw(M)[2].get()
        c = M.ctx
        cen = tm.eq(G["upid"], L(-1))
        R.must_fail("false goal", c, tm.lt(fr, L("1/2")))
        cc, cs = c.with_facts([cen]), c.with_facts([tm.not_(cen)])
        wc, wq = t_fq("cen", G["logmp0"], G["tpeak"], P), t_fq("sat", G["logmp0"], G["tpeak"], P)
        ws = t_satfrac(G["lgmu"], G["lgmhost"], G["gyr"], P)
        R.eq("central galaxies", cc, fr, wc)
        R.eq("satellite galaxies", cs, fr, wq + ws * (1 - wq))
        # bounds: on the specification terms, with nested sigmoids abstracted one level at a time
        s1, s2, s3, a, b, lo, hi = (v("_" + z) for z in ("s1", "s2", "s3", "a", "b", "lo", "hi"))
        unit = lambda *xs: [f for x in xs for f in (tm.lt(0, x), tm.lt(x, 1))]
        sg = lambda s, l, h: l + (h - l) * s
        R.prove("sigmoid between two probabilities is a probability", Ctx(unit(s1, lo, hi)), tm.and_(tm.lt(0, sg(s1, lo, hi)), tm.lt(sg(s1, lo, hi), 1)))
        R.prove("sigmoid from zero to a probability is a probability", Ctx(unit(s1, hi)), tm.and_(tm.lt(0, sg(s1, L(0), hi)), tm.lt(sg(s1, L(0), hi), 1)))
        R.prove("satellite excess keeps a probability and raises it", Ctx(unit(a, b)), tm.and_(tm.lt(a, a + b * (1 - a)), tm.lt(a + b * (1 - a), 1)))
        for nm, w in (("central", wc), ("satellite baseline", wq)):
            R.prove(f"{nm} fraction in (0,1)", c, tm.and_(tm.lt(0, w), tm.lt(w, 1)))
        R.prove("satellite excess in (0,1)", c, tm.and_(tm.lt(0, ws), tm.lt(ws, 1)), budget=60)
        dep = tm.free_vars(cc.norm().canon(cc.simp_conds(fr)))
        bad = {x.v[0] for x in dep} & ({"lgmu", "lgmhost", "gyr"} | {p for p in POPN if p.startswith(("td_", "qp", "lgmu_", "frac_quench_sat"))})
        R.prove("a central depends on no satellite quantity", c, L(not bad))
        R.defined("fraction defined", c, fr)


def cases(R):
    def gen(rng):
        g = rand_gal(rng)
        return dict(g=g, P=rand_pop_mix(rng), seed=int(rng.integers(0, 2**31)))

    def run(inp):
        g, P = inp["g"], inp["P"]
        f = attr(MCM, "mc_diffstar_u_params_singlegal")
        key = jax.random.PRNGKey(inp["seed"])
        call = lambda g: float(f(pop_nt(P), *(g[x] for x in GAL), key)[2])
        fr = call(g)
        must(0 < fr < 1 + 1e-15, f"quenched fraction {fr} not in (0,1) for {g}")
        close("quenched fraction", fr, n_frac(g, P), rtol=1e-9, extra=str(g))
        if g["upid"] == -1:
            for z in (dict(lgmu=-1.0), dict(lgmhost=14.0), dict(gyr=5.0)):
                must(call(dict(g, **z)) == fr, f"central fraction depends on {list(z)}")
        else:
            q = n_fq("sat", g["logmp0"], g["tpeak"], P)
            must(fr >= q * (1 - 1e-12), f"satellite fraction {fr} below its baseline {q}")
            must(call(dict(g, upid=g["upid"] + (2 if g["upid"] == -2 else 1))) == fr, "fraction depends on the host identifier's value")
            must(call(dict(g, gyr=g["gyr"] + 1.0)) >= fr * (1 - 1e-12), "satellite fraction falls with time since infall")
    R.case("quenched_fraction", gen, run, n=40, n_deep=300)
