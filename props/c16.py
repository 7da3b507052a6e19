"""C16 triweight kernels: cumulative distributions with additive bins"""
from .common import *
from diffstar import utils as ut

DU = "diffstar.diffstarpop.utils"
ND = "diffstar.diffstarpop.sumstats.diffndhist"
QK = "diffstar.kernels.quenching_kernels"
CUML = [("diffstar.utils", "tw_cuml_jax_kern"), (DU, "_tw_cuml_lax_kern"), (ND, "_tw_cuml_lax_kern")]
BINS = [(DU, "_tw_bin_weight_lax_kern"), (ND, "_tw_bin_weight_lax_kern")]


def t_pdf(z):
    return L("35/96") * tm.ipow(1 - z * z / 9, 3)


def obligations(R):
    x, m, h, a, b, c_ = (v(z) for z in ("x", "m", "h", "_a", "_b", "_c"))
    pos = [tm.lt(0, h)]
    with R.section("triweight cumulative function"):
        K = t_tw
        lemmas(R)
    for mod, nm in CUML:
        with R.section(f"{mod.split('.')[-1]}.{nm}", f"{mod}.{nm}"):
            f = mod_attr(mod, nm)
            if f is None:
                raise Missing(nm)
            M = Machine(Ctx(pos))
            k = M.call(f, Dims(), (In("x"), In("m"), In("h"))).get()
            c = M.ctx
            R.must_fail("false goal", c, tm.lt(k, 1))
            R.eq("law", c, k, t_tw((x - m) / h))
            R.defined("defined", c, k)
            R.eq("one half at the point", c, tm.subst(k, {x: m}), L("1/2"))
            R.eq("0 from three widths below", c.with_facts([tm.le(x, m - 3 * h)]), k, L(0))
            R.eq("1 from three widths above", c.with_facts([tm.le(m + 3 * h, x)]), k, L(1))
            # derivative
            Mg = Machine(Ctx(pos))
            g = Mg.call(jax.grad(f), Dims(), (In("x"), In("m"), In("h"))).get()
            z = (x - m) / h
            R.eq("density inside", Mg.ctx.with_facts([tm.lt(-3, z), tm.lt(z, 3)]), g, t_pdf(z) / h)
            R.eq("no density outside", Mg.ctx.with_facts([tm.or_(tm.lt(z, -3), tm.lt(3, z))]), g, L(0))
            R.eq("density vanishes at both ends: smooth joins", Ctx(pos), t_pdf(L(3)) + t_pdf(L(-3)), L(0))
    lo, hi, y = v("lo"), v("hi"), v("y")
    f = mod_attr("diffstar.utils", "tw_bin_jax_kern")
    with R.section("utils.tw_bin_jax_kern", "diffstar.utils.tw_bin_jax_kern"):
        if f is None:
            raise Missing("tw_bin_jax_kern")
        M = Machine(Ctx(pos))
        w = M.call(f, Dims(), (In("m"), In("h"), In("lo"), In("hi"))).get()
        R.eq("bin weight is the difference at the edges", M.ctx, w, t_tw((hi - m) / h) - t_tw((lo - m) / h))
        bin_facts(R, M.ctx, w, m, h, lo, hi)
    for mod, nm in BINS:
        with R.section(f"{mod.split('.')[-1]}.{nm}", f"{mod}.{nm}"):
            f = mod_attr(mod, nm)
            if f is None:
                raise Missing(nm)
            M = Machine(Ctx(pos))
            w = M.call(f, Dims(), (In("m"), In("h"), In("lo"), In("hi"))).get()
            R.eq("bin weight is the difference at the edges", M.ctx, w, t_tw((m - lo) / h) - t_tw((m - hi) / h))
            bin_facts(R, M.ctx, w, m, h, lo, hi)
    jt = mod_attr(QK, "_jax_tw")
    if jt is not None:
        with R.section("quenching_kernels._jax_tw", QK + "._jax_tw"):
            M = Machine()
            try:
                k = M.call(jt, Dims(), (In("y"),)).get()
            except TypeError:
                raise Missing("_jax_tw signature")
            R.eq("law", M.ctx, k, t_tw(y))


def bin_facts(R, c, w, m, h, lo, hi):
    mid = v("_mid")
    sub = lambda l_, u_: tm.subst(w, {lo: l_, hi: u_}) if (l_ is not lo or u_ is not hi) else w
    a_, b_ = v("_za"), v("_zb")
    R.eq("additive over adjacent bins", c, sub(lo, mid) + sub(mid, hi), w)
    R.eq("a bin covering the kernel has weight 1", c.with_facts([tm.le(lo, m - 3 * h), tm.le(m + 3 * h, hi)]), w, L(1))
    R.eq("a bin out of reach has weight 0", c.with_facts([tm.le(lo, hi), tm.or_(tm.le(hi, m - 3 * h), tm.le(m + 3 * h, lo))]), w, L(0))
    order(R, c, m, h, lo, hi)
    R.prove("never negative", mono_ctx(c, w, m, h, lo, hi), tm.le(0, w))
    R.prove("at most 1", mono_ctx(c, w, m, h, lo, hi), tm.le(w, 1))


def order(R, c, m, h, lo, hi):
    """scaled edges keep their order (h > 0)"""
    R.prove("scaled edges ordered", c.with_facts([tm.le(lo, hi)]), tm.and_(tm.le((lo - m) / h, (hi - m) / h), tm.le((m - hi) / h, (m - lo) / h)))


def mono_ctx(c, w, m, h, lo, hi):
    """instances of the lemmas 'monotone' and 'range' of the triweight function at the scaled edges"""
    za, zb = (lo - m) / h, (hi - m) / h
    ya, yb = (m - hi) / h, (m - lo) / h
    K = t_tw
    fs = [tm.le(lo, hi)]
    for p, q in ((za, zb), (ya, yb)):
        fs += [tm.le(K(p), K(q)), tm.le(0, K(p)), tm.le(K(q), 1)]
    return c.with_facts(fs)


def lemmas(R):
    a, b = v("_a"), v("_b")
    e = Ctx()
    K = t_tw
    R.eq("one half at the point", e, K(L(0)), L("1/2"))
    R.eq("symmetric", e, K(a) + K(-a), L(1))
    P = lambda z: (L("-5/69984") * tm.ipow(z, 7) + L("7/2592") * tm.ipow(z, 5) - L("35/864") * tm.ipow(z, 3) + L("35/96") * z + L("1/2"))
    # closed forms at the ends: K = (z+3)^4 * q(z), 1-K = (3-z)^4 * q(-z), with q > 0 on [-3, 3]
    q = lambda z: (L(-5) * tm.ipow(z, 3) + 60 * z * z - 261 * z + 432) / 69984
    R.eq("closed form from the lower end", e, P(a), tm.ipow(a + 3, 4) * q(a))
    R.eq("closed form from the upper end", e, 1 - P(a), tm.ipow(3 - a, 4) * q(-a))
    inr = e.with_facts([tm.le(-3, a), tm.le(a, 3)])
    R.prove("cofactor positive", inr, tm.lt(0, q(a)))
    R.prove("never below 0", e, tm.le(0, K(a)))
    R.prove("never above 1", e, tm.le(K(a), 1))
    # monotone: P(b)-P(a) = (b-a) * mean density; the density is (35/96)(1-z^2/9)^3 >= 0
    s, d = v("_s"), v("_dd")
    inc = P(s + d) - P(s - d)
    # with s the midpoint and d >= 0 the half-width: increment = 2 d * W, W >= 0
    W = Wterm(s, d)
    R.eq("increment between two points", e, inc, 2 * d * W)
    sq, dq = v("_sq"), v("_dq")
    R.prove("mean density non-negative", e.with_facts([tm.le(0, d), tm.le(-3, s - d), tm.le(s + d, 3)]), tm.le(0, W), budget=90)
    R.prove("monotone inside", e.with_facts([tm.le(0, d), tm.le(0, W), tm.eq(v("_inc"), 2 * d * W)]), tm.le(0, v("_inc")))
    fa = [tm.le(a, b)]
    ends = [tm.implies(tm.and_(tm.le(-3, a), tm.le(a, 3)), tm.and_(tm.le(0, P(a)), tm.le(P(a), 1))),
            tm.implies(tm.and_(tm.le(-3, b), tm.le(b, 3)), tm.and_(tm.le(0, P(b)), tm.le(P(b), 1))),
            tm.implies(tm.and_(tm.le(-3, a), tm.le(b, 3)), tm.le(P(a), P(b)))]
    pa, pb_ = v("_pa"), v("_pb")
    ends2 = [tm.replace(z, {P(a): pa, P(b): pb_}) for z in ends]
    Ka = tm.ite(tm.lt(a, -3), L(0), tm.ite(tm.lt(3, a), L(1), pa))
    Kb = tm.ite(tm.lt(b, -3), L(0), tm.ite(tm.lt(3, b), L(1), pb_))
    R.prove("monotone everywhere", e.with_facts(fa + ends2), tm.le(Ka, Kb))


def Wterm(s, d):
    """(P(s+d)-P(s-d))/(2d), expanded: the average of (35/96)(1-z^2/9)^3 over [s-d, s+d]"""
    c = L("35/96")
    # average of z^2, z^4, z^6 over the interval
    s2, d2 = s * s, d * d
    m2 = s2 + d2 / 3
    m4 = s2 * s2 + 2 * s2 * d2 + d2 * d2 / 5
    m6 = s2 * s2 * s2 + 5 * s2 * s2 * d2 + 3 * s2 * d2 * d2 + d2 * d2 * d2 / 7
    return c * (1 - m2 / 3 + m4 / 27 - m6 / 729)


def cases(R):
    def gen(rng):
        m, h = float(rng.uniform(-10, 10)), float(10 ** rng.uniform(-3, 1))
        z = sorted(float(q) for q in np.concatenate([rng.choice([-5, -3.0001, -3, -2.9999, 0, 2.9999, 3, 3.0001, 5], 4), rng.uniform(-3.3, 3.3, 4)]))
        return dict(m=m, h=h, z=z)

    def run(inp):
        m, h, z = inp["m"], inp["h"], np.array(inp["z"])
        x = m + h * z
        want = o_tw((x - m) / h)
        for mod, nm in CUML:
            f = mod_attr(mod, nm)
            if f is None:
                continue
            got = np.array([float(f(q, m, h)) for q in x])
            close(f"{mod}.{nm}", got, want, rtol=1e-9, atol=1e-9)
            must(np.diff(got) >= -1e-9, f"{nm} decreases")
            must((got >= -1e-12) & (got <= 1 + 1e-12), f"{nm} outside [0, 1]")
            close(f"{nm} at the point", float(f(m, m, h)), 0.5)
        f = mod_attr("diffstar.utils", "tw_bin_jax_kern")
        fs = [("tw_bin_jax_kern", f, False)] if f else []
        fs += [(mod, mod_attr(mod, nm), True) for mod, nm in BINS if mod_attr(mod, nm)]
        for nm, f, flip in fs:
            w = np.array([float(f(m, h, lo, hi)) for lo, hi in zip(x[:-1], x[1:])])
            # kernel centred on m, edges x
            close(f"{nm}: bin weights", w, np.diff(want), rtol=1e-8, atol=1e-9)
            must(w >= -1e-9, f"{nm}: negative bin weight")
            close(f"{nm}: whole kernel", float(f(m, h, m - 4 * h, m + 4 * h)), 1.0)
            close(f"{nm}: additive", w.sum(), float(f(m, h, x[0], x[-1])), atol=1e-9)
        jt = mod_attr(QK, "_jax_tw")
        if jt is not None:
            zz = np.clip(z, -3, 3)
            close("_jax_tw", [float(jt(q)) for q in zz], o_tw(zz), atol=1e-9)
    R.case("triweight_kernels", gen, run, n=25, n_deep=200)
