"""C03 population parameters: declared ranges, inverse maps, addressed by name"""
from collections import namedtuple
from .common import *
import diffstar.diffstarpop as dp

NM = ("diffstar.diffstarpop.kernels.defaults_mgash.get_bounded_diffstarpop_params",
      "diffstar.diffstarpop.kernels.defaults_mgash.get_unbounded_diffstarpop_params",
      "diffstar.diffstarpop.kernels.sfh_pdf_mgash.get_bounded_sfh_pdf_params",
      "diffstar.diffstarpop.kernels.sfh_pdf_mgash.get_unbounded_sfh_pdf_params",
      "diffstar.diffstarpop.kernels.satquenchpop_model.get_bounded_satquenchpop_params",
      "diffstar.diffstarpop.kernels.satquenchpop_model.get_unbounded_satquenchpop_params",
      "diffstar.diffstarpop.utils._sigmoid", "diffstar.diffstarpop.utils._inverse_sigmoid")


def want_bounded(u, p):
    lo, hi = pb(p)
    return t_sigm(u, (lo + hi) / 2, L("1/10"), lo, hi)


def obligations(R):
    D = Dims()
    U, P = dp.DiffstarPopUParams, dp.DiffstarPopParams
    R.note("names: " + str(set(P._fields) == set(POPN)))
    ub, bb = dp.get_unbounded_diffstarpop_params, dp.get_bounded_diffstarpop_params
    with R.section("bounded population parameters", *NM[::2]):
        M = Machine()
        out = M.call(bb, D, (nt_in(U),))
        c = M.ctx
        R.must_fail("false goal", c, tm.lt(field(out, P._fields[0]).get(), L(1)))
        for p in P._fields:
            t = field(out, p).get()
            lo, hi = pb(p)
            R.prove(f"{p} strictly inside its range", c, tm.and_(tm.lt(lo, t), tm.lt(t, hi)))
            R.eq(f"{p} is the sigmoid of its own unbounded value", c, t, want_bounded(v("u_" + p), p))
    with R.section("unbounded(bounded(u)) == u", *NM):
        M = Machine()
        out = M.call(lambda u: ub(bb(u)), D, (nt_in(U),))
        for p in U._fields:
            t = field(out, p).get()
            R.defined(p, M.ctx, t)
            R.eq(f"{p} recovered", M.ctx, t, v(p))
    with R.section("bounded(unbounded(p)) == p", *NM):
        M = Machine(Ctx(pop_range()))
        out = M.call(lambda p: bb(ub(p)), D, (nt_in(P),))
        for p in P._fields:
            t = field(out, p).get()
            cp = Ctx(pop_range([p]))
            R.defined(p, cp, t)
            R.eq(f"{p} recovered", cp, t, v(p))
    with R.section("fields are matched by name", *NM[:2]):
        RU = namedtuple("RU", tuple(reversed(U._fields)))
        RP = namedtuple("RP", tuple(reversed(P._fields)))
        M = Machine()
        out = M.call(bb, D, (nt_in(RU),))
        for p in P._fields:
            R.eq(f"{p} from reordered input", M.ctx, field(out, p).get(), want_bounded(v("u_" + p), p))
        M = Machine()
        a = M.call(ub, D, (nt_in(P),))
        b = M.call(ub, D, (nt_in(RP),))
        for p in U._fields:
            R.eq(f"{p} from reordered input", M.ctx, field(b, p).get(), field(a, p).get())
    with R.section("shipped parameter sets are inside the ranges"):
        sets = {"default": dp.DEFAULT_DIFFSTARPOP_PARAMS, **dict(dp.SIMULATION_FIT_PARAMS)}
        for nm, q in sets.items():
            for p in P._fields:
                lo, hi = pb(p)
                x = tm.const(repr(float(getattr(q, p))))
                R.prove(f"{nm}: {p}", Ctx(), tm.and_(tm.lt(lo, x), tm.lt(x, hi)))


def cases(R):
    U, P = dp.DiffstarPopUParams, dp.DiffstarPopParams

    def gen(rng):
        u = {}
        for p in POPN:
            lo, hi = pbf(p)
            u["u_" + p] = float((lo + hi) / 2 + rng.choice([0.0, rng.uniform(-30, 30), rng.uniform(-120, 120)]))
        return dict(p=rand_pop(rng), u=u, rev=bool(rng.integers(2)))

    def run(inp):
        must(set(P._fields) == set(POPN) and set(U._fields) == {"u_" + p for p in POPN}, "parameter names")
        P1 = namedtuple("P1", tuple(reversed(P._fields))) if inp["rev"] else P
        U1 = namedtuple("U1", tuple(reversed(U._fields))) if inp["rev"] else U
        p0 = P1(**inp["p"])
        u = dp.get_unbounded_diffstarpop_params(p0)
        b = dp.get_bounded_diffstarpop_params(u)
        for p in POPN:
            lo, hi = pbf(p)
            close(f"bounded(unbounded({p}))", float(getattr(b, p)), inp["p"][p], rtol=1e-7, atol=1e-8)
            close(f"{p} from the unbounded value", sigm(float(getattr(u, "u_" + p)), (lo + hi) / 2, .1, lo, hi), inp["p"][p], rtol=1e-7, atol=1e-8)
        b = dp.get_bounded_diffstarpop_params(U1(**inp["u"]))
        for p in POPN:
            lo, hi = pbf(p)
            x = float(getattr(b, p))
            must(lo < x < hi, f"{p}={x!r} not strictly inside ({lo}, {hi})")
            close(p, x, sigm(inp["u"]["u_" + p], (lo + hi) / 2, .1, lo, hi), rtol=1e-8, atol=1e-9)
        u2 = dp.get_unbounded_diffstarpop_params(b)
        for f in U._fields:
            close(f"unbounded(bounded({f}))", float(getattr(u2, f)), inp["u"][f], rtol=1e-6, atol=1e-4)
    R.case("population_round_trip", gen, run, n=12, n_deep=150)

    def gen2(rng):
        return dict(i=int(rng.integers(0, 6)))

    def run2(inp):
        sets = {"default": dp.DEFAULT_DIFFSTARPOP_PARAMS, **dict(dp.SIMULATION_FIT_PARAMS)}
        want = {"default", "smdpl_dr1_nomerging", "smdpl_dr1", "tng", "galacticus_in_situ", "galacticus_in_plus_ex_situ"}
        must(want <= set(sets), f"shipped parameter sets {sorted(sets)}")
        for nm, q in sets.items():
            b = dp.get_bounded_diffstarpop_params(dp.get_unbounded_diffstarpop_params(q))
            for p in POPN:
                lo, hi = pbf(p)
                x = float(getattr(q, p))
                must(lo < x < hi, f"shipped {nm}: {p}={x} outside ({lo}, {hi})")
                close(f"shipped {nm}: round trip of {p}", float(getattr(b, p)), x, rtol=1e-7, atol=1e-8)
    R.case("shipped_parameter_sets", gen2, run2, n=1, n_deep=1)
