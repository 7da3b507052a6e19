"""C19 covariance and correlation matrices convert back and forth"""
from .common import *

DU = "diffstar.diffstarpop.utils"


def obligations(R):
    i, j, n = tm.ivar("i"), tm.ivar("j"), tm.ivar("n")
    C, E = (lambda a, b: tm.uf("c", a, b)), (lambda a: tm.uf("e", a))
    rng = [tm.le(0, i), tm.lt(i, n), tm.le(0, j), tm.lt(j, n)]
    D = Dims(n=1)
    cin, ein = In("c", ("n", "n")), In("e", ("n",))
    fc, fv = mod_attr(DU, "correlation_from_covariance"), mod_attr(DU, "covariance_from_correlation")
    if fc is None and fv is None:
        R.standin("matrix conversions", "both functions are gone")
    pos = [tm.lt(0, C(i, i)), tm.lt(0, C(j, j))]
    with R.section("covariance from correlation", DU + ".covariance_from_correlation"):
        if fv is None:
            raise Missing("covariance_from_correlation")
        M = Machine(Ctx(rng))
        o = M.call(fv, D, (cin, ein))
        R.must_fail("false goal", M.ctx, tm.eq(o.get(i, j), C(i, j)))
        R.eq("entry", M.ctx, o.get(i, j), E(i) * C(i, j) * E(j))
        R.eq("variances of a unit-diagonal matrix", M.ctx.with_facts([tm.eq(C(i, i), 1)]), tm.subst(o.get(i, i), {}), tm.ipow(E(i), 2))
        R.prove("square of the same size", M.ctx, tm.and_(tm.eq(o.shape[0], n), tm.eq(o.shape[1], n)))
    with R.section("correlation from covariance", DU + ".correlation_from_covariance"):
        if fc is None:
            raise Missing("correlation_from_covariance")
        M = Machine(Ctx(rng + pos))
        o = M.call(fc, D, (cin,))
        c = M.ctx
        sd = lambda a: tm.sqrt(C(a, a))
        R.eq("entry", c, o.get(i, j), C(i, j) / (sd(i) * sd(j)))
        R.eq("unit diagonal", c, o.get(i, i), L(1))
        R.eq("symmetric when the covariance is", c.with_facts([tm.eq(C(i, j), C(j, i))]), o.get(i, j), o.get(j, i))
        R.defined("entry", c, C(i, j) / (sd(i) * sd(j)))
    with R.section("round trips", DU + ".covariance_from_correlation", DU + ".correlation_from_covariance"):
        if fc is None or fv is None:
            raise Missing("matrix conversions")
        M = Machine(Ctx(rng + pos))
        back = M.call(lambda c: fv(fc(c), jnp.sqrt(jnp.diag(c))), D, (cin,))
        R.eq("covariance to correlation and back", M.ctx, back.get(i, j), C(i, j))
        unit = [tm.lt(0, E(i)), tm.lt(0, E(j)), tm.eq(C(i, i), 1), tm.eq(C(j, j), 1)]
        M = Machine(Ctx(rng + unit))
        back = M.call(lambda c, e: fc(fv(c, e)), D, (cin, ein))
        R.eq("correlation to covariance and back", M.ctx, back.get(i, j), C(i, j))


def cases(R):
    def gen(rng):
        n = int(rng.choice([1, 2, 3, 6]))
        a = rng.normal(size=(n, n + 1))
        sd = 10 ** rng.uniform(-3, 3, n)
        c = a @ a.T
        if n > 2 and rng.random() < .4:
            c[0, 1] = c[1, 0] = 0.0
        d = np.sqrt(np.diag(c))
        corr = c / np.outer(d, d)
        np.fill_diagonal(corr, 1.0)
        return dict(corr=corr.tolist(), sd=sd.tolist())

    def run(inp):
        corr, sd = np.array(inp["corr"]), np.array(inp["sd"])
        cov = corr * np.outer(sd, sd)
        fc, fv = mod_attr(DU, "correlation_from_covariance"), mod_attr(DU, "covariance_from_correlation")
        if fv is not None:
            close("covariance", fv(corr, sd), cov, rtol=1e-8, atol=0)
        if fc is not None:
            got = np.asarray(fc(cov))
            close("correlation", got, corr, rtol=1e-7, atol=1e-12)
            close("unit diagonal", np.diag(got), np.ones(len(sd)), rtol=1e-9)
            close("symmetric", got, got.T, rtol=1e-9)
        if fc is not None and fv is not None:
            close("covariance to correlation and back", fv(fc(cov), jnp.sqrt(jnp.diag(cov))), cov, rtol=1e-8, atol=0)
    R.case("matrix_conversions", gen, run, n=30, n_deep=200)
