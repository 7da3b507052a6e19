"""C21 targets and weights of the individual-galaxy fit"""
import inspect
from .common import *
from vc.pyvc import VM, XF, PArr, Opq, PList, ident_fn
from vc.pyrun import execute
from .c20 import imp, iff, splits
import diffstar as ds

FF = "diffstar.fitting_helpers.diffstar_fitting_helpers"
n = tm.ivar("n")
i, j = tm.ivar("i"), tm.ivar("j")


def A(nm):
    return PArr((n,), lambda q: tm.uf(nm, q))


def bind(g, a, k):
    b = inspect.signature(g).bind(*a, **k)
    b.apply_defaults()
    return b.arguments


def el(x, q):
    x = x.get(q)
    if isinstance(x, XF):
        raise Unsupported("possibly-NaN entry")
    return x


def is_len(R, name, ctx, x):
    R.prove(name + ": one entry per time", ctx, tm.eq(tm.lift(x.shape[0]), n) if isinstance(x, PArr) and x.ndim == 1 else tm.FALSE)


def atoms(t, nm):
    out = []
    for a in tm.atoms_of(tm.lift(t), lambda y: y.op == "uf" and y.v[0] == nm):
        if a not in out:
            out.append(a)
    return out


def extreme_atom(ts, nm):
    """the one reduction the terms refer to"""
    a = [x for t in ts for x in atoms(t, nm)]
    a = [x for x in dict.fromkeys(a) if not any(x is not y and x in tm.atoms_of(y, lambda z: z is x) for y in a)]
    if len(a) != 1:
        raise Unsupported("no single reduction over the target rates")
    return a[0]


def obligations(R):
    m = imp(FF)
    n1 = [tm.le(1, n)]
    ii = [tm.le(0, i), tm.lt(i, n)]
    u = tm.uf
    delay, dcut, tmin, mmin = (tm.var(x) for x in ("fstar_tdelay", "dlogm_cut", "t_fit_min", "mass_fit_min"))
    R.assume("numpy masks, masked assignment, clip, where, max and argmax by contract (contracts of vc/pycontracts.py)")
    with R.section("weights", FF + ".get_weights"):
        f = attr(m, "get_weights")
        vm = VM(facts=n1)
        outs = execute(R, vm, f, lambda: ((A("t"), A("lsm"), A("lfs"), delay, dcut, tmin, mmin), {}))
        lsm, lfs, t = (lambda q: u("lsm", q)), (lambda q: u("lfs", q)), (lambda q: u("t", q))
        last = lsm(n - 1)
        big, half = L(10**10), L(0.5)
        floor = tm.min_(last - half, mmin)
        kept = tm.and_(tm.lt(last - dcut, lsm(i)), tm.lt(floor, lsm(i)), tm.le(tmin, t(i)))
        w = tm.ite(tm.lt(last - lsm(i), L(0.1)), half, tm.ite(kept, L(1), big))
        for q, o in enumerate(outs):
            tag = f"path {q}: "
            w1, w2 = o.value
            c = o.ctx(*ii)
            R.must_fail(tag + "false goal", c, tm.eq(el(w1, i), L(1)))
            is_len(R, tag + "mass weights", o.ctx(), w1)
            is_len(R, tag + "rate weights", o.ctx(), w2)
            R.eq(tag + "mass weight", c, el(w1, i), w)
            # the largest target rate
            x = extreme_atom([el(w2, i)], "valmax")
            R.prove(tag + "largest target rate is an upper bound", o.ctx(*ii, *o.inst(i, "extreme")), tm.le(lfs(i), x))
            am = [a for f2 in o.facts for a in atoms(f2, "argmax")]
            R.prove(tag + "largest target rate is attained", o.ctx(), tm.or_(*[tm.and_(tm.le(0, a), tm.lt(a, n), tm.eq(lfs(a), x)) for a in dict.fromkeys(am)]))
            w0 = tm.ite(tm.lt(x - lfs(i), L(0.1)), half, tm.ite(kept, L(1), big))
            R.eq(tag + "rate weight", c, el(w2, i), tm.ite(tm.lt(t(i), delay + L(0.01)), big, w0))
            R.prove(tag + "weights are positive", c, tm.and_(tm.lt(0, el(w1, i)), tm.lt(0, el(w2, i))))
            R.prove(tag + "the final mass always counts", o.ctx(tm.eq(i, n - 1), *ii), tm.eq(tm.subst(el(w1, i), {i: n - 1}), half))
    with R.section("loss data", FF + ".get_loss_data_default"):
        f = attr(m, "get_loss_data_default")
        cum, fst, mah, gw = (attr(m, x) for x in ("cumulative_mstar_formed", "compute_fstar", "mah_singlehalo", "get_weights"))

        def uf_arr(g, nm, outn, *order):
            def h(vm, node, *a, **k):
                b = bind(g, a, k)
                ids = [vm.ident(b[x]) for x in order]
                r = tuple(PArr((n,), lambda q, o=o: tm.uf(o, *ids, q)) for o in outn)
                return r if nm else r[0]
            return h
        con = {ident_fn(cum): uf_arr(cum, 0, ["MSTAR"], *list(inspect.signature(cum).parameters)),
               ident_fn(fst): uf_arr(fst, 0, ["FSTAR"], *list(inspect.signature(fst).parameters)),
               ident_fn(mah): uf_arr(mah, 1, ["DMHDT", "LOGMAH"], *list(inspect.signature(mah).parameters)),
               ident_fn(gw): uf_arr(gw, 1, ["W", "WF"], *list(inspect.signature(gw).parameters))}
        vm = VM(facts=n1, contracts=con)
        opts = {k: tm.var(k) for k in ("dlogm_cut", "t_fit_min", "mass_fit_min", "fstar_tdelay", "ssfrh_floor", "lgt0", "fb")}
        MAH = Opq(tm.ivar("MAH"))
        outs = execute(R, vm, f, lambda: ((A("t"), A("sfh"), MAH), dict(opts)), called=[ident_fn(x) for x in (cum, fst, gw)])
        v0 = VM(facts=n1)
        ms = PArr((n,), lambda q: u("MSTAR", v0.ident(A("t")), v0.ident(A("sfh")), q))
        M = lambda q: ms.get(q)
        F = lambda q: u("FSTAR", v0.ident(A("t")), v0.ident(ms), opts["fstar_tdelay"], q)
        pos = [tm.lt(0, M(i)), tm.lt(0, M(j)), tm.lt(0, opts["ssfrh_floor"])]
        flo = lambda q: tm.max_(F(q), opts["ssfrh_floor"] * M(q))
        sfrmin = L(ds.defaults.SFR_MIN)
        for q, o in enumerate(outs):
            tag = f"path {q}: "
            pinit, data = o.value
            R.prove(tag + "thirteen entries", o.ctx(), L(len(data) == 13))
            tt, mp, mst, lms, sfr, lf, dl, fl, w1, w2, lgmax, lgt0, fb_ = data
            c = o.ctx(*ii, *pos)
            R.must_fail(tag + "false goal", c, tm.eq(el(mst, i), L(1)))
            for nm, x in (("times", tt), ("target mass", mst), ("log target mass", lms), ("target rate", sfr), ("log smoothed rate", lf), ("mass weights", w1), ("rate weights", w2)):
                is_len(R, tag + nm, o.ctx(), x)
            R.eq(tag + "times", c, el(tt, i), u("t", i))
            R.prove(tag + "halo parameters", o.ctx(), L(mp is MAH))
            R.eq(tag + "mass is the mass formed by the given history", c, el(mst, i), M(i))
            R.eq(tag + "log mass", c, el(lms, i), tm.log10(M(i)))
            R.eq(tag + "rate floored at the smallest rate", c, el(sfr, i), tm.max_(u("sfh", i), sfrmin))
            x = extreme_atom([el(lf, i)], "valmax")
            at = lambda f2, k2: [tm.subst(z, {i: k2}) for z in f2]
            R.prove(tag + "reference rate bounds every floored look-back rate", o.ctx(*ii, *pos, *o.inst(i, "extreme")), tm.le(flo(i), x))
            am = [a for f2 in o.facts for a in atoms(f2, "argmax") if x.a[0] is a.a[0]]
            R.prove(tag + "reference rate is attained", o.ctx(*[tm.lt(0, M(a)) for a in am], pos[2]),
                    tm.or_(*[tm.and_(tm.le(0, a), tm.lt(a, n), tm.eq(flo(a), x)) for a in dict.fromkeys(am)]))
            arg = tm.max_(flo(i), x / 1000)
            fr, lo = F(i), opts["ssfrh_floor"] * M(i)
            cx = c.with_facts([tm.lt(0, x)])
            lem = iff(tm.lt(opts["ssfrh_floor"], fr / M(i)), tm.lt(lo, fr))
            R.prove(tag + "specific rate above its floor", cx, lem)
            for nm, h, val in (("above", tm.lt(lo, fr), fr), ("below", tm.lt(fr, lo), lo), ("at", tm.eq(fr, lo), lo)):
                R.eq(tag + "log look-back rate, floored at the least specific rate and a thousandth of its maximum: rate %s the floor" % nm,
                     cx.with_facts([h, lem]), el(lf, i), tm.log10(tm.max_(val, x / 1000)))
            R.prove(tag + "averaging time, specific-rate floor, final time and baryon fraction in their places", o.ctx(),
                    tm.and_(*[tm.eq(tm.lift(p), opts[k]) for p, k in ((dl, "fstar_tdelay"), (fl, "ssfrh_floor"), (lgt0, "lgt0"), (fb_, "fb"))]))
            for k, (nm, x2) in enumerate((("W", w1), ("WF", w2))):
                b = dict(t_table=A("t"), log_smah_sim=lms, log_fstar_sim=lf, fstar_tdelay=opts["fstar_tdelay"], dlogm_cut=opts["dlogm_cut"], t_fit_min=opts["t_fit_min"], mass_fit_min=opts["mass_fit_min"])
                pn = list(inspect.signature(gw).parameters)
                if sorted(pn) != sorted(b):
                    raise Unsupported("other arguments of get_weights")
                R.eq(tag + ("mass" if not k else "rate") + " weights of these targets and cuts", c, el(x2, i), u(nm, *[v0.ident(b[y]) for y in pn], i))
            a = extreme_atom([lgmax], "argmax")
            R.eq(tag + "time of the largest target rate", o.ctx(), lgmax, tm.log10(u("t", a)))
            R.prove(tag + "no target rate is larger than at that time", o.ctx(*ii, *o.inst(i, "extreme")), tm.le(el(lf, i), el(lf, a)))
            R.prove(tag + "that time is in the table", o.ctx(), tm.and_(tm.le(0, a), tm.lt(a, n)))
            u0, err = pinit
            R.prove(tag + "eight starting values and spreads", o.ctx(), tm.and_(*[tm.eq(tm.lift(y.shape[0]), L(8)) for y in (u0, err)]))
            for k in range(8):
                y = el(u0, L(k))
                R.defined(tag + f"starting value {k}", o.ctx(), y)
                R.prove(tag + f"spread {k} is positive", o.ctx(), tm.lt(0, el(err, L(k))))


# ------------------------------------------------------------------ concrete runs

def o_weights(t, lsm, lfs, delay, dcut, tmin, mmin):
    k = len(t)
    w, wf = np.ones(k), np.ones(k)
    top = max(lfs)
    mm = min(lsm[-1] - 0.5, mmin)
    for q in range(k):
        ok = lsm[q] > lsm[-1] - dcut and lsm[q] > mm and t[q] >= tmin
        w[q] = 0.5 if lsm[-1] - lsm[q] < 0.1 else (1 if ok else 1e10)
        wf[q] = 1e10 if t[q] < delay + 0.01 else (0.5 if top - lfs[q] < 0.1 else (1 if ok else 1e10))
    return w, wf


def cases(R):
    def gen(rng):
        k = int(rng.choice([1, 2, 5, 30]))
        t = np.sort(rng.uniform(0.2, 14, k))
        lsm = np.sort(rng.uniform(4, 11.5, k)) if rng.random() < .7 else rng.uniform(9.3, 11, k)
        lfs = rng.choice([rng.normal(0, 2, k), rng.normal(0, .1, k)]) if k else []
        return dict(t=t.tolist(), lsm=lsm.tolist(), lfs=np.asarray(lfs).tolist(), delay=float(rng.choice([1.0, .2, 5.0])), dcut=float(rng.choice([3.5, 1.0, 0.05, 10])),
                    tmin=float(rng.choice([1.0, 0.1, 8.0])), mmin=float(rng.choice([7.0, 9.0, 12.0, 3.0])))

    def run(inp):
        f = attr(imp(FF), "get_weights")
        a = [np.array(inp[k]) for k in ("t", "lsm", "lfs")] + [inp[k] for k in ("delay", "dcut", "tmin", "mmin")]
        keep = [np.array(x) for x in a[:3]]
        w, wf = f(*a)
        ow, owf = o_weights(*a)
        close("mass weights", w, ow)
        close("rate weights", wf, owf)
        must(all(np.array_equal(x, y) for x, y in zip(keep, a)), "the inputs are left alone")
    edge = dict(t=[0.5, 1.0, 1.009, 1.02, 3.0, 9.0], lsm=[8.0, 8.5, 9.0, 9.45, 9.95, 10.0], lfs=[-10.0, 0.0, 1.0, 2.0, 1.95, 1.8], delay=1.0, dcut=1.5, tmin=1.0, mmin=9.6)
    R.case("weights", gen, run, n=60, n_deep=400, first=[edge, dict(edge, mmin=8.5, dcut=0.7), dict(edge, tmin=2.0, delay=2.9)])

    def gen2(rng):
        k = int(rng.choice([3, 8, 30]))
        t = np.array(rand_times(rng, k, lo=0.1))
        s = rng.lognormal(0, 2, k) * np.exp(-t * rng.choice([0, 1, 3]))
        if rng.random() < .6:
            s[rng.integers(k, size=max(1, k // 3))] = rng.choice([0.0, 1e-30, 1e-15])
        if not s[0]:
            s[0] = 1.0
        return dict(t=t.tolist(), s=s.tolist(), mah=rand_mah(rng), delay=float(rng.choice([1.0, 0.3, 3.0])), floor=float(rng.choice([1e-12, 1e-10, 1e-9])), dcut=float(rng.choice([3.5, 1.0])),
                    tmin=float(rng.choice([1.0, 3.0])), mmin=float(rng.choice([7.0, 9.0])), lgt0=math.log10(rng.uniform(13, 14.5)), fb=float(rng.uniform(.1, .2)))

    def run2(inp):
        f = attr(imp(FF), "get_loss_data_default")
        t, s = np.array(inp["t"]), np.array(inp["s"])
        kw = dict(dlogm_cut=inp["dcut"], t_fit_min=inp["tmin"], mass_fit_min=inp["mmin"], fstar_tdelay=inp["delay"], ssfrh_floor=inp["floor"], lgt0=inp["lgt0"], fb=inp["fb"])
        pinit, d = f(t, s, mah_nt(inp["mah"]), **kw)
        must(len(d) == 13, "thirteen entries")
        m = o_smh(t, s)
        fs = np.maximum(0, (m - np.interp(t - inp["delay"], t, m)) / inp["delay"] / 1e9)
        fl = np.maximum(fs, inp["floor"] * m)
        lf = np.log10(np.maximum(fl, fl.max() / 1000))
        tol = dict(rtol=1e-6, atol=1e-9)
        close("times", d[0], t)
        must(tuple(float(x) for x in d[1]) == tuple(float(x) for x in mah_nt(inp["mah"])), "halo parameters")
        close("target mass", d[2], m, **tol)
        close("log target mass", d[3], np.log10(m), **tol)
        close("target rate", d[4], np.maximum(s, ds.defaults.SFR_MIN), **tol)
        close("log smoothed rate", d[5], lf, rtol=1e-6, atol=1e-6)
        close("averaging time, floor", d[6:8], [inp["delay"], inp["floor"]])
        w, wf = o_weights(t, np.array(d[3]), np.array(d[5]), inp["delay"], inp["dcut"], inp["tmin"], inp["mmin"])
        close("mass weights", d[8], w)
        close("rate weights", d[9], wf)
        close("time of the largest rate", d[10], np.log10(t[int(np.argmax(np.array(d[5])))]), **tol)
        close("final time and baryon fraction", d[11:13], [inp["lgt0"], inp["fb"]])
        must(np.all(np.isfinite(np.array(pinit[0], dtype=float))) and len(pinit[0]) == 8, "starting point")
        must(np.all(np.array(pinit[1]) > 0) and len(pinit[1]) == 8, "spread")
        must(np.array_equal(s, np.array(inp["s"])) and np.array_equal(t, np.array(inp["t"])), "the inputs are left alone")
    R.case("loss_data", gen2, run2, n=16, n_deep=80)
