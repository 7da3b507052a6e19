"""C02 bounded <-> unbounded galaxy parameters are mutually inverse"""
from .common import *
import diffstar as ds


def obligations(R):
    D = Dims()
    U, P = ds.DEFAULT_DIFFSTAR_U_PARAMS, ds.DEFAULT_DIFFSTAR_PARAMS
    bnd_f, unb_f = ds.get_bounded_diffstar_params, ds.get_unbounded_diffstar_params
    names = ("diffstar.defaults.get_bounded_diffstar_params", "diffstar.defaults.get_unbounded_diffstar_params",
             "diffstar.utils._inverse_sigmoid", "diffstar.utils._sigmoid")
    with R.section("unbounded(bounded(u)) == u", *names):
        M = Machine()
        out = M.call(lambda u: unb_f(bnd_f(u)), D, (nt_in(U),))
        for f in U._fields:
            t = field(out, f).get()
            R.defined(f, M.ctx, t)
            R.eq(f"{f} recovered", M.ctx, t, v(f))
        R.must_fail("false goal", M.ctx, tm.lt(field(out, U._fields[0]).get(), L(0)))
    with R.section("bounded(unbounded(p)) == p", *names):
        M = Machine(Ctx(in_range(PN)))
        out = M.call(lambda p: bnd_f(unb_f(p)), D, (nt_in(P),))
        for f in PN:
            t = field(out, f).get()
            R.defined(f, M.ctx, t)
            R.eq(f"{f} recovered", M.ctx, t, v(f))
    import importlib
    for mod, b, u, nm in (("diffstar.kernels.main_sequence_kernels", "_get_bounded_sfr_params_vmap", "_get_unbounded_sfr_params_vmap", MS),
                          ("diffstar.kernels.quenching_kernels", "_get_bounded_q_params_vmap", "_get_unbounded_q_params_vmap", Q)):
        m = importlib.import_module(mod)
        if not (hasattr(m, b) and hasattr(m, u)):
            R.note("helpers absent in " + mod)
            continue
        with R.section("population inverse " + mod, mod + "." + b, mod + "." + u):
            D2 = Dims(g=1)
            i = tm.ivar("i")
            M = Machine(Ctx([tm.le(0, i), tm.lt(i, tm.ivar("g"))]))
            out = M.call(lambda x: getattr(m, u)(getattr(m, b)(x)), D2, (In("x", ("g", 4)),))
            for k, p in enumerate(nm):
                R.eq(f"u_{p} recovered for every galaxy", M.ctx, out.get(i, L(k)), tm.uf("x", i, L(k)))
            facts = []
            for k, p in enumerate(nm):
                lo, hi = bnd(p)
                facts += [tm.lt(lo, tm.uf("x", i, L(k))), tm.lt(tm.uf("x", i, L(k)), hi)]
            if "lg_rejuv" in nm:
                facts.append(tm.lt(tm.uf("x", i, L(2)), tm.uf("x", i, L(3))))
            M = Machine(Ctx([tm.le(0, i), tm.lt(i, tm.ivar("g"))] + facts))
            out = M.call(lambda x: getattr(m, b)(getattr(m, u)(x)), D2, (In("x", ("g", 4)),))
            for k, p in enumerate(nm):
                R.eq(f"{p} recovered for every galaxy", M.ctx, out.get(i, L(k)), tm.uf("x", i, L(k)))


def cases(R):
    U, P = ds.DEFAULT_DIFFSTAR_U_PARAMS, ds.DEFAULT_DIFFSTAR_PARAMS

    def gen(rng):
        p = rand_params(rng)
        u = {}
        for q in PN:
            lo, hi = fb(q)
            u["u_" + q] = float((lo + hi) / 2 + (hi - lo) / 4 * rng.choice([0.0, rng.uniform(-2, 2), rng.uniform(-8, 8)]))
        return dict(p=p, u=u)

    def run(inp):
        p = P._make([inp["p"][f] for f in PN])
        u = ds.get_unbounded_diffstar_params(p)
        must(type(u)._fields == U._fields, "field order of the unbounded parameters")
        back = ds.get_bounded_diffstar_params(u)
        close("bounded(unbounded(p))", [float(x) for x in back], list(p), rtol=1e-7, atol=1e-9, extra=str(inp["p"]))
        ob = o_bound([float(x) for x in u])
        close("unbounded parameters under the declared transform", [ob[q] for q in PN], list(p), rtol=1e-7, atol=1e-9)
        u0 = U._make([inp["u"][f] for f in U._fields])
        b = ds.get_unbounded_diffstar_params(ds.get_bounded_diffstar_params(u0))
        close("unbounded(bounded(u))", [float(x) for x in b], list(u0), rtol=1e-6, atol=1e-7, extra=str(inp["u"]))
        from diffstar.kernels import main_sequence_kernels as mk, quenching_kernels as qk
        for m, a_, b_, sl in ((mk, "_get_unbounded_sfr_params_vmap", "_get_bounded_sfr_params_vmap", slice(0, 4)),
                              (qk, "_get_unbounded_q_params_vmap", "_get_bounded_q_params_vmap", slice(4, 8))):
            if hasattr(m, a_) and hasattr(m, b_):
                x = jnp.array([list(p)[sl], list(P)[sl]])
                y = getattr(m, b_)(getattr(m, a_)(x))
                close(a_, y, x, rtol=1e-7, atol=1e-9)
    R.case("round_trip", gen, run, n=40, n_deep=400)
