"""C01 bounded galaxy parameters stay inside their declared ranges, increasing"""
from .common import *
import diffstar as ds
from diffstar import defaults as df


def obligations(R):
    D = Dims()
    U = ds.DEFAULT_DIFFSTAR_U_PARAMS
    F = U._fields
    with R.section("bounded params", "diffstar.defaults.get_bounded_diffstar_params",
                   "diffstar.kernels.main_sequence_kernels._get_bounded_sfr_params",
                   "diffstar.kernels.quenching_kernels._get_bounded_q_params", "diffstar.utils._sigmoid"):
        M = Machine()
        out = M.call(ds.get_bounded_diffstar_params, D, (nt_in(U),))
        R.must_fail("false goal", M.ctx, tm.lt(out[0].get(), L(9)))
        o = {p: field(out, p).get() for p in PN}
        c = M.ctx
        for p in PN:
            lo, hi = bnd(p)
            if p == "lg_rejuv":
                lo = o["lg_drop"]
            R.prove(f"{p} above lower bound", c, tm.lt(lo, o[p]))
            R.prove(f"{p} below upper bound", c, tm.lt(o[p], hi))
            R.defined(f"{p} defined", c, o[p])
        for p, u in zip(PN, F):
            a, b = v("_ua"), v("_ub")
            pa, pb = (tm.subst(o[p], {v(u): x}) for x in (a, b))
            R.prove(f"{p} strictly increasing in {u}", c.with_facts([tm.lt(a, b)]), tm.lt(pa, pb))
            dep = {x.v[0] for x in tm.free_vars(o[p])} - {u}
            allow = {"u_lg_drop"} if p == "lg_rejuv" else set()
            for w in sorted(dep - allow):
                q = tm.subst(o[p], {v(w): a})
                R.eq(f"{p} does not depend on {w}", c, q, o[p])
            # law: the declared sigmoid through the midpoint of the range
            lo, hi = bnd(p)
            if p == "lg_rejuv":
                want = t_sigm(v(u), L("-3/2"), L("4/3"), o["lg_drop"], L(0))
            else:
                want = t_sigm(v(u), (lo + hi) / 2, 4 / (hi - lo), lo, hi)
            R.eq(f"{p} is the sigmoid of {u} centred on its range with slope 4/width", c, o[p], want)
    vm = [("ms", "diffstar.kernels.main_sequence_kernels", "_get_bounded_sfr_params_vmap", MS),
          ("q", "diffstar.kernels.quenching_kernels", "_get_bounded_q_params_vmap", Q)]
    import importlib
    for tag, mod, name, names in vm:
        m = importlib.import_module(mod)
        if not hasattr(m, name):
            R.note("helper absent: " + name)
            continue
        with R.section(f"population {tag} block", f"{mod}.{name}"):
            D2 = Dims(g=1)
            M2 = Machine()
            arr = M2.call(getattr(m, name), D2, (In("u", ("g", 4)),))
            i = tm.ivar("i")
            c2 = M2.ctx.with_facts([tm.le(0, i), tm.lt(i, D2.t["g"])])
            M1 = Machine()
            out = M1.call(ds.get_bounded_diffstar_params, D, (nt_in(U),))
            off = 0 if tag == "ms" else 4
            sub = {v(F[off + k]): tm.uf("u", i, L(k)) for k in range(4)}
            for k, p in enumerate(names):
                R.eq(f"row of {p} equals the single-galaxy transform", c2, arr.get(i, L(k)),
                     tm.subst(field(out, p).get(), sub))


def cases(R):
    U = ds.DEFAULT_DIFFSTAR_U_PARAMS

    def gen(rng):
        u = []
        for p in PN:
            lo, hi = fb(p)
            mid, w = (lo + hi) / 2, (hi - lo) / 4
            z = rng.choice([0.0, 1e-3, rng.uniform(-3, 3), rng.uniform(-15, 15)])
            u.append(float(mid + w * z))
        return dict(zip(U._fields, u))

    def run(inp):
        u = U._make([inp[f] for f in U._fields])
        got = ds.get_bounded_diffstar_params(u)
        want = o_bound([inp[f] for f in U._fields])
        for p in PN:
            x = float(getattr(got, p))
            lo, hi = fb(p)
            if p == "lg_rejuv":
                lo = float(got.lg_drop)
            must(lo < x < hi, f"{p}={x!r} not strictly inside ({lo}, {hi}) for {inp}")
            close(p, x, want[p], extra=str(inp))
        for k, f in enumerate(U._fields):
            u2 = list(u)
            u2[k] += 0.25
            g2 = ds.get_bounded_diffstar_params(U._make(u2))
            must(float(g2[k]) > float(got[k]), f"{PN[k]} not increasing in {f} at {inp}")
            for q in range(8):
                if q != k and not (PN[k] == "lg_drop" and PN[q] == "lg_rejuv"):
                    must(float(g2[q]) == float(got[q]), f"{PN[q]} moved with {f} at {inp}")
        from diffstar.kernels import main_sequence_kernels as mk, quenching_kernels as qk
        for m, nm, sl in ((mk, "_get_bounded_sfr_params_vmap", slice(0, 4)), (qk, "_get_bounded_q_params_vmap", slice(4, 8))):
            if hasattr(m, nm):
                a = np.asarray(getattr(m, nm)(jnp.array([list(u)[sl], [x + 0.3 for x in list(u)[sl]]])))
                close(nm, a[0], [float(x) for x in got[sl]], extra=str(inp))
    R.case("bounded_params", gen, run, n=40, n_deep=400)
