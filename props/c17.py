"""C17 differentiable histograms: sums over points of products of triweight bin weights"""
from .common import *
from .c16 import mono_ctx, t_tw

ND = "diffstar.diffstarpop.sumstats.diffndhist"
SM = "diffstar.diffstarpop.sumstats.smhm"


def wt(x, s, lo, hi):
    return t_tw((x - lo) / s) - t_tw((x - hi) / s)


def obligations(R):
    R.assume("sums and products over an index range of symbolic length: a sum (product) of terms each proved >= 0 is >= 0, a product of "
             "factors each in [0,1] is in [0,1], a sum of n terms each <= 1 is <= n (Finset lemmas, lean/Axioms.lean)")
    j, k, b, p = tm.ivar("j"), tm.ivar("k"), tm.ivar("b_"), tm.ivar("p")
    d, nb = tm.ivar("d"), tm.ivar("b")
    X, S = (lambda i, q: tm.uf("x", i, q)), (lambda i, q: tm.uf("sig", i, q))
    LO, HI = (lambda i, q: tm.uf("lo", i, q)), (lambda i, q: tm.uf("hi", i, q))
    Y = lambda i: tm.uf("y", i)
    idx = [tm.le(0, b), tm.lt(b, nb)]
    # the generic weight of one point in one dimension of one bin
    x, s, lo, hi = (v(z) for z in ("x", "sig", "lo", "hi"))
    with R.section("weight of one point in one dimension"):
        c = Ctx([tm.lt(0, s), tm.le(lo, hi)])
        cm = mono_ctx(c, None, x, s, lo, hi)
        from .c16 import order
        order(R, c, x, s, lo, hi)
        R.prove("never negative", cm, tm.le(0, wt(x, s, lo, hi)))
        R.prove("at most 1", cm, tm.le(wt(x, s, lo, hi), 1))
        from .c16 import lemmas
        lemmas(R)
    hist, whist = mod_attr(ND, "tw_ndhist"), mod_attr(ND, "tw_ndhist_weighted")
    ins = (In("x", ("p", "d")), In("sig", ("p", "d")))
    bins = (In("lo", ("b", "d")), In("hi", ("b", "d")))
    with R.section("histogram of any dimension", ND + ".tw_ndhist", ND + "._tw_ndhist_kern", ND + "._tw_bin_weight_lax_kern", ND + "._tw_cuml_lax_kern"):
        if hist is None:
            raise Missing("tw_ndhist")
        M = Machine(Ctx(idx))
        h = M.call(hist, Dims(p=1, d=1, b=1), ins + bins)
        spec = tm.Sum(0, p, lambda j: tm.Prod(0, d, lambda k: wt(X(j, k), S(j, k), LO(b, k), HI(b, k))))
        R.must_fail("false goal", M.ctx, tm.eq(h.get(b), L(0)))
        R.eq("count of a bin", M.ctx, h.get(b), spec)
        R.prove("one count per bin", M.ctx, tm.eq(h.shape[0], nb))
        bound_count(R, M.ctx, spec, X, S, LO, HI, b)
    with R.section("weighted histogram of any dimension", ND + ".tw_ndhist_weighted", ND + "._tw_ndhist_weighted_sum_kern"):
        if whist is None:
            raise Missing("tw_ndhist_weighted")
        M = Machine(Ctx(idx))
        h = M.call(whist, Dims(p=1, d=1, b=1), ins + (In("y", ("p",)),) + bins)
        spec = tm.Sum(0, p, lambda j: Y(j) * tm.Prod(0, d, lambda k: wt(X(j, k), S(j, k), LO(b, k), HI(b, k))))
        R.eq("weighted sum of a bin", M.ctx, h.get(b), spec)
        one = M.call(lambda a, s_, l_, u_: whist(a, s_, jnp.ones_like(a[:, 0]), l_, u_) - hist(a, s_, l_, u_), Dims(p=1, d=1, b=1), ins + bins)
        R.eq("with unit values it is the count", M.ctx, one.get(b), L(0))
    for nd in (1, 2, 3):
        with R.section(f"adjacent bins in {nd} dimensions", ND + ".tw_ndhist", ND + ".tw_ndhist_weighted"):
            if hist is None or whist is None:
                raise Missing("histograms")
            M = Machine(Ctx(idx))

            def parts(x_, s_, y_, l_, m_, u_):
                # split the bins along the last axis at m_
                mid_hi = jnp.concatenate([u_[:, :-1], m_], axis=1)
                mid_lo = jnp.concatenate([l_[:, :-1], m_], axis=1)
                f = lambda a, c2: (hist(x_, s_, a, c2), whist(x_, s_, y_, a, c2))
                (a1, w1), (a2, w2), (a, w) = f(l_, mid_hi), f(mid_lo, u_), f(l_, u_)
                return a1 + a2 - a, w1 + w2 - w
            o = M.call(parts, Dims(p=1, b=1), (In("x", ("p", nd)), In("sig", ("p", nd)), In("y", ("p",)), In("lo", ("b", nd)), In("m", ("b", 1)), In("hi", ("b", nd))))
            R.eq("count", M.ctx, o[0].get(b), L(0))
            R.eq("weighted sum", M.ctx, o[1].get(b), L(0))
    sm = mod_attr(SM, "compute_smhm")
    with R.section("mean stellar-to-halo mass relation", SM + ".compute_smhm", ND + ".tw_ndhist_weighted"):
        if sm is None:
            raise Missing("compute_smhm")
        M = Machine(Ctx([tm.le(0, b), tm.lt(b, tm.ivar("m") - 1)]))
        o = M.call(sm, Dims(p=1, m=2), (In("mh", ("p",)), In("ms", ("p",)), In("sg", ("p",)), In("bins", ("m",))))
        mh, ms, sg, bn = (lambda z: (lambda i: tm.uf(z, i)))("mh"), (lambda i: tm.uf("ms", i)), (lambda i: tm.uf("sg", i)), (lambda i: tm.uf("bins", i))
        w = lambda j: wt(mh(j), sg(j), bn(b), bn(b + 1))
        W = tm.Sum(0, p, w)
        WY = tm.Sum(0, p, lambda j: w(j) * ms(j))
        R.eq("weighted sum over the count", M.ctx.with_facts([tm.not_(tm.eq(W, L(0)))]), o.get(b), WY / W)
        R.prove("one value per bin", M.ctx, tm.eq(o.shape[0], tm.ivar("m") - 1))
        A, B = v("_A"), v("_B")
        R.eq("weighted distance above a bound", M.ctx, tm.Sum(0, p, lambda j: w(j) * (ms(j) - A)), WY - A * W)
        yy, w_ = v("_y"), v("_w")
        R.prove("summand above a lower bound of the data", Ctx([tm.le(0, w_), tm.le(A, yy)]), tm.le(0, w_ * (yy - A)))
        Wv, WYv = v("_W"), v("_WY")
        R.prove("mean within the range of the data", Ctx([tm.lt(0, Wv), tm.le(0, WYv - A * Wv), tm.le(0, B * Wv - WYv)]),
                tm.and_(tm.le(A, WYv / Wv), tm.le(WYv / Wv, B)))


def bound_count(R, ctx, spec, X, S, LO, HI, b):
    """0 <= count <= number of points, for positive widths and ordered bins"""
    def per_point(j, c, P):
        def hyp(k):
            x, s, lo, hi = X(j, k), S(j, k), LO(b, k), HI(b, k)
            return [tm.lt(0, s)] + [f for f in mono_ctx(Ctx(), None, x, s, lo, hi).facts]
        R.prod_unit("0 <= count <= number of points", c, P, hyp)
    R.sum_range("0 <= count <= number of points", ctx, spec, per_point)


def cases(R):
    def gen(rng):
        nd, p = int(rng.integers(1, 4)), int(rng.choice([1, 2, 7, 30]))
        x = rng.uniform(-3, 3, (p, nd))
        sg = 10 ** rng.uniform(-2, .5, (p, nd))
        lo = rng.uniform(-3, 2, (4, nd))
        hi = lo + 10 ** rng.uniform(-2, .7, (4, nd))
        return dict(x=x.tolist(), sg=sg.tolist(), lo=lo.tolist(), hi=hi.tolist(), y=[float(z) for z in rng.uniform(-2, 5, p)],
                    f=float(rng.uniform(.1, .9)), bins=[float(z) for z in np.sort(rng.uniform(-3.5, 3.5, 6)) + np.arange(6) * .05])

    def weights(x, sg, lo, hi):
        return np.prod(o_tw((x[None] - lo[:, None]) / sg[None]) - o_tw((x[None] - hi[:, None]) / sg[None]), axis=2)

    def run(inp):
        x, sg, lo, hi, y = (np.array(inp[z]) for z in ("x", "sg", "lo", "hi", "y"))
        w = weights(x, sg, lo, hi)
        h, hw = mod_attr(ND, "tw_ndhist"), mod_attr(ND, "tw_ndhist_weighted")
        p = len(y)
        if h is not None:
            got = np.asarray(h(x, sg, lo, hi))
            close("counts", got, w.sum(1), rtol=1e-7, atol=1e-8 * p)
            must((got >= -1e-8) & (got <= p + 1e-8), "count outside [0, number of points]")
            # adjacent bins
            m = lo[:, -1] + inp["f"] * (hi - lo)[:, -1]
            h1, l2 = hi.copy(), lo.copy()
            h1[:, -1] = m
            l2[:, -1] = m
            close("adjacent bins", np.asarray(h(x, sg, lo, h1)) + np.asarray(h(x, sg, l2, hi)), got, rtol=1e-7, atol=1e-8 * p)
            close("bins covering all points", h(x, sg, lo * 0 - 100, hi * 0 + 100), np.full(len(lo), float(p)), rtol=1e-8)
        if hw is not None:
            close("weighted sums", hw(x, sg, y, lo, hi), (w * y).sum(1), rtol=1e-7, atol=1e-7 * p)
        sm = mod_attr(SM, "compute_smhm")
        if sm is not None:
            bins = np.array(inp["bins"])
            W = weights(x[:, :1], sg[:, :1], bins[:-1, None], bins[1:, None])
            ok = W.sum(1) > 1e-4
            got = np.asarray(sm(x[:, 0], y, sg[:, 0], bins))
            must(got.shape == ok.shape, "one mean per bin")
            close("mean relation", got[ok], (W * y).sum(1)[ok] / W.sum(1)[ok], rtol=1e-5, atol=1e-6)
            must((got[ok] >= y.min() - 1e-4) & (got[ok] <= y.max() + 1e-4), "mean outside the range of the data")
    R.case("histograms", gen, run, n=25, n_deep=150)
