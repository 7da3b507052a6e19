"""C20 the restarting minimiser"""
import inspect
import warnings
from .common import *
import diffstar as ds
from vc.pyvc import VM, XF, PArr, Ext, Opq, PList, is_num
from vc.pycontracts import Rec, exists
from vc.pyrun import execute
import scipy.optimize

FU = "diffstar.fitting_helpers.utils"
PU = "diffstar.diffstarpop.utils"
FF = "diffstar.fitting_helpers.diffstar_fitting_helpers"


def imp(nm):
    import importlib
    try:
        return importlib.import_module(nm)
    except ImportError:
        raise Missing(nm)


NP = tm.ivar("n_params")


def c_start(vm, node, p_init, loss_data, deriv):
    """a starting point of this run, and whether its gradient has a NaN"""
    k = vm.iters[-1] if vm.iters else tm.ZERO
    a = [vm.ident(x) for x in (p_init, loss_data, deriv)]
    return PArr((NP,), lambda j: tm.uf("START", *a, k, j)), tm.uf("NANS", *a, k, sort="bool")


def c_min(vm, node, fun, x0=None, args=(), method=None, jac=None):
    """scipy.optimize.minimize: some point, its loss (any float or NaN) and a flag; depends on its arguments only"""
    a = [vm.ident(x) for x in (fun, jac, args, method, x0)]
    return Rec(x=PArr((NP,), lambda j: tm.uf("MINX", *a, j)),
               fun=XF(tm.uf("MINF", *a), tm.uf("MINF.nan", *a, sort="bool"), tm.uf("MINF.fin", *a, sort="bool")),
               success=tm.uf("MINOK", *a, sort="bool"))


LOSS, DERIV = Ext("LOSS", None), Ext("DERIV", None)
P0 = PArr((NP,), lambda j: tm.uf("P0", j))
P1 = PArr((NP,), lambda j: tm.uf("P1", j))
DATA = Opq(tm.ivar("DATA"))


def as_xf(x):
    from vc.pyvc import xf
    return xf(x)


def arr_eq(R, name, ctx, got, want, n=NP):
    j = tm.ivar("j")
    R.prove(name + ": length", ctx, tm.eq(tm.lift(got.shape[0]), tm.lift(n)) if isinstance(got, PArr) and got.ndim == 1 else tm.FALSE)
    c = ctx.with_facts([tm.le(0, j), tm.lt(j, n)])
    g, w = got.get(j), want(j)
    R.eq(name, c, g, w) if not isinstance(g, XF) else R.prove(name, c, tm.and_(tm.not_(g.nan), tm.eq(g.val, w)))


def obligations(R):
    R.assume("scipy.optimize.minimize returns any point, loss (possibly NaN) and flag, depending on its arguments only",
             "numpy isnan/all/nanmin/nanargmin by contract (first smallest entry that is not NaN); the tolerance is finite",
             "infinite losses are ordered above every finite one by the float comparison (not modelled further)")
    m = imp(FU)
    tol, mx = tm.var("tol"), tm.ivar("max_iter")
    n1 = [tm.le(1, NP)]
    n1t = n1 + [tm.lt(tol, tm.var("INF"))]
    with R.section("restarts", FU + ".minimizer_wrapper"):
        f, rp, mini = attr(m, "minimizer_wrapper"), attr(m, "return_random_pinit"), attr(m, "minimize")
        vm = VM(facts=n1t, contracts={id(rp): c_start, id(mini): c_min})
        outs = execute(R, vm, f, lambda: ((LOSS, DERIV, (P0, P1), DATA), dict(loss_tol=tol, max_iter=mx)), called=(id(rp), id(mini)))
        v0 = VM(facts=n1)
        ai = [v0.ident(x) for x in ((P0, P1), DATA, DERIV)]
        start = lambda k: PArr((NP,), lambda j: tm.uf("START", *ai, k, j))
        nan_start = lambda k: tm.uf("NANS", *ai, tm.lift(k), sort="bool")
        margs = lambda k: [v0.ident(x) for x in (LOSS, DERIV, (DATA,), "L-BFGS-B", start(tm.lift(k)))]
        # run k: loss, is it NaN, point, code
        loss = lambda k: tm.ite(nan_start(k), const_999, tm.uf("MINF", *margs(k)))
        isn = lambda k: tm.and_(tm.not_(nan_start(k)), tm.uf("MINF.nan", *margs(k), sort="bool"))
        point = lambda k, j: tm.ite(nan_start(k), tm.uf("P0", j), tm.uf("MINX", *margs(k), j))
        code = lambda k: tm.ite(nan_start(k), L(-1), L(1))
        const_999 = L(999.99)
        i, j = tm.ivar("i"), tm.ivar("j")
        R.prove("a run may end with a result and a run may end without one", Ctx(), L(len(outs) >= 2))
        for q, o in enumerate(outs):
            tag = f"path {q}"
            N = o.iterations()
            p, l, s = o.value
            l = as_xf(l)
            R.must_fail(tag + ": false goal", o.ctx(), tm.eq(N, L(0)))
            last = o.ctx(*o.inst(tm.sub(N, 1), "loop"))
            R.prove(tag + ": at most max_iter runs", last, tm.or_(tm.le(N, tm.max_(mx, L(0)))))
            # a run is only started while no earlier run reached the tolerance
            h = [tm.le(0, i), tm.lt(i, j), tm.lt(j, N)]
            c = o.ctx(*h, *o.inst(j, "loop"), *o.inst(tm.sub(j, 1), "loop"), *o.inst2(tm.sub(j, 1), i))
            R.prove(tag + ": no run after the tolerance is reached", c, tm.or_(isn(i), tm.lt(tol, loss(i))))
            # the loop only stops early with a run within the tolerance
            a = o.inst(i)
            c = o.ctx(tm.lt(N, mx), tm.le(1, N), *o.inst(tm.sub(N, 1), "loop"), *o.inst2(tm.sub(N, 1), i))
            wit = [x for t in o.facts for x in tm.atoms_of(t, lambda y: y.op == "uf" and y.v[0] in ("argmin", "valmin"))]
            at = [x for x in wit if x.v[0] == "argmin"]
            goal = [tm.and_(tm.not_(isn(w)), tm.le(loss(w), tol), tm.le(0, w), tm.lt(w, N)) for w in dict.fromkeys(at)]
            extra = [f for w in dict.fromkeys(at) for f in o.inst(w) + o.inst2(tm.sub(N, 1), w)]
            wn = [x for t in o.facts for x in tm.atoms_of(t, lambda y: y.op == "uf" and y.v[0] == "witness")]
            R.prove(tag + ": stops early only with a run within the tolerance", c.with_facts(extra), tm.or_(*goal))
            R.prove(tag + ": at least one run when allowed", o.ctx(), tm.or_(tm.le(1, N), tm.le(mx, 0)))
            rng_i = [tm.le(0, i), tm.lt(i, N)]
            if isinstance(s, int) or (isinstance(s, tm.T) and s.op == "const"):
                # no run has a loss
                c = o.ctx(*rng_i, *o.inst(i))
                R.prove(tag + ": every run has a NaN loss", c, isn(i))
                arr_eq(R, tag + ": starting point", o.ctx(), p, lambda jj: tm.uf("P0", jj))
                R.prove(tag + ": failure loss", o.ctx(), tm.and_(tm.not_(l.nan), tm.eq(l.val, const_999)))
                R.prove(tag + ": failure code", o.ctx(), tm.eq(L(s), L(-1)))
                continue
            R.prove(tag + ": the loss is not NaN", o.ctx(*o.inst(result_index(o, [l.val, s]))), tm.not_(l.nan))
            a = result_index(o, [l.val, s])
            at_a = o.ctx(*o.inst(a))
            R.prove(tag + ": a run was made", o.ctx(), tm.and_(tm.le(0, a), tm.lt(a, N)))
            R.prove(tag + ": loss of the selected run", at_a, tm.and_(tm.not_(isn(a)), tm.eq(l.val, loss(a))))
            c = o.ctx(*rng_i, *o.inst(i), *o.inst(a))
            R.prove(tag + ": no run has a smaller loss", c, tm.or_(isn(i), tm.le(l.val, loss(i))))
            arr_eq(R, tag + ": point of the selected run", at_a, p, lambda jj: point(a, jj))
            R.eq(tag + ": code of the selected run", at_a, L(s), code(a))
    with R.section("starting points", FU + ".return_random_pinit"):
        f = attr(m, "return_random_pinit")
        ng = NP

        def grad(vm, node, p, d):
            a = [vm.ident(p), vm.ident(d)]
            return PArr((ng,), lambda j: XF(tm.uf("G", *a, j), tm.uf("G.nan", *a, j, sort="bool"), tm.uf("G.fin", *a, j, sort="bool")))

        def normal(vm, node, loc, scale, size=None):
            if size is not None:
                raise Unsupported("size of the draw")
            s, ix = vm.site("Z", node)
            return PArr((NP,), lambda j: loc.get(j) + scale.get(j) * tm.uf(s, *ix, j))
        D = Ext("DERIV", grad)
        vm = VM(facts=n1, contracts={id(np.random.normal): normal, ("m", id(np.random.normal.__self__), None): normal})
        vm.contracts[ident(np.random.normal)] = normal
        outs = execute(R, vm, f, lambda: (((P0, P1), DATA, D), {}), called=(ident(np.random.normal),))
        j = tm.ivar("j")
        for q, o in enumerate(outs):
            p, flag = o.value
            tag = f"path {q}"
            R.must_fail(tag + ": false goal", o.ctx(), tm.FALSE)
            fl = tm.lift(flag) if not isinstance(flag, PArr) else flag.get()
            x = p.get(j)
            hs = [hi for lo, hi, ff, nm in o.foralls if nm.startswith("loop")]
            for q2, extra in enumerate(splits(o.ctx(), [x])):
                c0 = o.ctx(*extra)
                S = c0.simp_conds
                g = grad(vm, None, PArr((NP,), lambda jj: S(tm.subst(x, {j: jj}))), DATA)
                vv = VM(facts=[S(t) for t in o.facts] + list(extra))
                want = exists(vv, ng, lambda jj: g.get(jj).nan)
                cv = Ctx(vv.facts + list(extra))
                nm = tag if not q2 else f"{tag}.{q2}"
                R.prove(nm + ": the flag tells whether the gradient at the returned point has a NaN", cv, iff(S(fl), want))
                xs = S(x)
                z = [a for a in tm.atoms_of(xs, lambda t: t.op == "uf" and t.v[0].startswith("Z"))]
                c = cv.with_facts([tm.le(0, j), tm.lt(j, NP)])
                R.prove(nm + ": drawn around the starting point", c, tm.eq(tm.replace(xs, {a: L(0) for a in z}), tm.uf("P0", j)))
                R.prove(nm + ": with the given spreads", c, tm.eq(tm.replace(xs, {b: L(1) for b in z}), tm.uf("P0", j) + tm.uf("P1", j)))
                if hs:
                    R.prove(nm + ": gives up only after 1000 further draws", cv, tm.implies(want, tm.le(1000, hs[-1])))
                else:
                    R.prove(nm + ": no NaN without redrawing", cv, tm.not_(want))
    with R.section("fitter of individual galaxies", FF + ".diffstar_fitter"):
        mf = imp(FF)
        f, gl, mw = attr(mf, "diffstar_fitter"), attr(mf, "get_loss_data_default"), attr(mf, "minimizer_wrapper")
        loss, dloss = attr(mf, "loss_default_clipssfrh"), attr(mf, "loss_grad_default_clipssfrh_np")
        opt = ("dlogm_cut", "t_fit_min", "mass_fit_min", "fstar_tdelay", "ssfrh_floor", "lgt0", "fb")
        got = {}

        def bound(g, a, k):
            b = inspect.signature(g).bind(*a, **k)
            b.apply_defaults()
            return b.arguments

        def c_data(vm, node, *a, **k):
            b = bound(gl, a, k)
            got["data"] = [b.pop(x) for x in ("t_table", "sfh_table", "mah_params")] + [b]
            return Opq(tm.ivar("PINIT")), Opq(tm.ivar("LDATA"))

        def c_mw(vm, node, *a, **k):
            got["fit"] = bound(mw, a, k)
            return PArr((8,), lambda j: tm.uf("UBEST", j)), XF(tm.var("LBEST"), tm.var("LNAN", "bool")), tm.ivar("CODE")
        T0, S0, H0 = (Opq(tm.ivar(x)) for x in ("T_TABLE", "SFH", "MAH"))
        vm = VM(contracts={id(gl): c_data, id(mw): c_mw})
        outs = execute(R, vm, f, lambda: ((T0, S0, H0), {k: tm.var(k) for k in opt}), called=(id(gl), id(mw)))
        t, s, h, a = got["data"]
        R.prove("loss data of the given table, history and halo", Ctx(), L(t is T0 and s is S0 and h is H0))
        R.prove("options handed on under their names", Ctx(), L(sorted(a) == sorted(opt) and all(a[k] is tm.var(k) for k in opt)))
        a = got["fit"]
        if a["loss_func"] not in (loss, dloss) or a["loss_func_deriv"] not in (loss, dloss):
            raise Unsupported("other loss functions are handed to the minimiser")
        R.prove("default loss and gradient, starting point and loss data in order", Ctx(), L(
            a["loss_func"] is loss and a["loss_func_deriv"] is dloss and getattr(a["p_init"], "term", None) is tm.ivar("PINIT")
            and getattr(a["loss_data"], "term", None) is tm.ivar("LDATA")))
        M = Machine()
        bp = M.call(ds.get_bounded_diffstar_params, Dims(), (nt_in(ds.DEFAULT_DIFFSTAR_U_PARAMS),))
        sub = {v(nm): tm.uf("UBEST", L(q)) for q, nm in enumerate(ds.DEFAULT_DIFFSTAR_U_PARAMS._fields)}
        for o in outs:
            p, l, c = o.value
            for nm in PN:
                got_p = getattr(p, nm)
                R.eq("bounded value of " + nm, o.ctx(), got_p.get() if isinstance(got_p, PArr) else got_p, tm.subst(field(bp, nm).get(), sub))
            R.prove("loss and code of the best run", o.ctx(), tm.and_(tm.eq(as_xf(l).val, tm.var("LBEST")), tm.eq(tm.lift(c), tm.ivar("CODE"))))
    for mod in (FU, PU):
        with R.section("plain minimiser " + mod, mod + ".minimizer"):
            mm = imp(mod)
            f, mini = attr(mm, "minimizer"), attr(mm, "minimize")

            def adam(vm, node, lf, p, d, n, **kw):
                from vc.pyvc import XF
                a = [vm.ident(x) for x in (lf, p, d, n)]
                return (PArr((NP,), lambda j: tm.uf("AX", *a, j)), tm.uf("AF", *a), Opq(tm.ivar("la")), Opq(tm.ivar("pa")), tm.uf("AT", *a, sort="int"))
            con = {id(mini): c_min}
            args = [LOSS, DERIV, P0, DATA]
            if mod == FU:
                con[id(attr(mm, "jax_adam_wrapper_v2"))] = adam
                args.append(tm.ivar("nstep"))
            vm = VM(facts=n1, contracts=con)
            outs = execute(R, vm, f, lambda: (tuple(args), {}), called=(id(mini),))
            v0 = VM(facts=n1)
            a = [v0.ident(x) for x in (LOSS, DERIV, (DATA,), "L-BFGS-B", P0)]
            ok = tm.uf("MINOK", *a, sort="bool")
            for q, o in enumerate(outs):
                p, l, s = o.value
                l = as_xf(l)
                c = o.ctx(*([ok] if mod == FU else []))
                if mod == PU or o.ctx().decide(ok) is True:
                    arr_eq(R, f"path {q}: point", c, p, lambda jj: tm.uf("MINX", *a, jj))
                    R.prove(f"path {q}: loss", c, tm.and_(tm.eq(l.val, tm.uf("MINF", *a)), iff(l.nan, tm.uf("MINF.nan", *a, sort="bool"))))
                    R.prove(f"path {q}: code", c, tm.eq(L(s), L(1)))
                else:
                    c = o.ctx()
                    R.prove(f"path {q}: only when L-BFGS-B fails", c, tm.not_(ok))
                    b = [v0.ident(x) for x in (LOSS, P0, DATA, tm.ivar("nstep"))]
                    arr_eq(R, f"path {q}: fallback point", c, p, lambda jj: tm.uf("AX", *b, jj))
                    R.prove(f"path {q}: fallback loss", c, tm.eq(l.val, tm.uf("AF", *b)))
                    t = tm.uf("AT", *b, sort="int")
                    R.prove(f"path {q}: fallback code", c, tm.eq(L(s), tm.ite(tm.eq(t, L(0)), L(-1), L(0))))
            if mod == FU:
                R.prove("both outcomes of L-BFGS-B are handled", Ctx(), L(len(outs) >= 2))


def splits(ctx, ts):
    """case distinctions over the conditions inside the terms"""
    cs = []

    def walk(t):
        if t.op == "ite" and t.a[0] not in cs and ctx.decide(t.a[0]) is None and len(cs) < 3:
            cs.append(t.a[0])
        for q in t.a:
            if isinstance(q, tm.T):
                walk(q)
    for t in ts:
        walk(t)
    out = [[]]
    for c in cs:
        out = [e + [d] for e in out for d in (c, tm.not_(c))]
    return [e for e in out if ctx.with_facts(e).decide(tm.FALSE) is not True]


def iff(a, b):
    a, b = tm.lift(a), tm.lift(b)
    return tm.and_(tm.or_(tm.not_(a), b), tm.or_(tm.not_(b), a))


def ident(f):
    from vc.pyvc import ident_fn
    return ident_fn(f)


def result_index(o, ts):
    """the run the result refers to"""
    c = []
    for t in ts:
        for a in tm.atoms_of(tm.lift(t), lambda y: y.op == "uf" and y.v[0] == "argmin"):
            if a not in c:
                c.append(a)
    if not c:
        raise Unsupported("the returned run is not selected by an argmin")
    return c[0]


# ------------------------------------------------------------------ concrete runs

class patched:
    """scipy's minimize replaced by a script of results"""

    def __init__(self, f, *mods):
        self.f, self.mods = f, mods

    def __enter__(self):
        self.old = [(m, getattr(m, "minimize")) for m in self.mods if hasattr(m, "minimize")]
        for m, _ in self.old:
            m.minimize = self.f
        return self

    def __exit__(self, *a):
        for m, g in self.old:
            m.minimize = g


def simulate(script, tol, max_iter):
    """the runs the specification allows: list of (kind, loss)"""
    runs = []
    for k, x in enumerate(script):
        if k >= max_iter:
            break
        runs.append(x)
        if x is not None and x == x and x <= tol:
            break
        if x is None and 999.99 <= tol:
            break
    return runs


def cases(R):
    vals = [float("nan"), 5.0, 0.2, 0.05, 1000.0, 1e4, 0.1, 3.0, -1.0]

    def gen(rng):
        k = int(rng.integers(1, 9))
        npar = int(rng.integers(1, 5))
        mode = rng.integers(4)
        pn, pv = [(0.1, 0.2), (0.5, 0.3), (0.2, 0.6), (0.0, 0.9)][mode]
        script = []
        for _ in range(12):
            u = rng.random()
            script.append("nan_start" if u < pn else float("nan") if u < pn + pv else float(rng.choice(vals) if rng.random() < .5 else rng.lognormal(0, 3)))
        return dict(script=script, tol=float(rng.choice([0.1, 1.0, 0.01, -5.0, 1e-3, 2000.0])), max_iter=k, p0=rng.normal(size=npar).tolist(), err=rng.uniform(.1, 1, size=npar).tolist(), seed=int(rng.integers(1 << 30)))

    def run(inp):
        m = imp(FU)
        f = attr(m, "minimizer_wrapper")
        attr(m, "minimize")
        script = [None if x == "nan_start" else (float(x) if x is not None else float("nan")) for x in inp["script"]]
        p0, err = np.array(inp["p0"]), np.array(inp["err"])
        state = dict(run=0, grads=0, used=[], x0=[], argsok=True, log=[])

        def lossf(p, d):
            return float(np.sum(np.asarray(p) ** 2))

        def deriv(p, d):
            k = state["run"]
            if k >= len(script):
                return np.zeros_like(p)
            if script[k] is None:
                state["grads"] += 1
                if state["grads"] == 1001:
                    state["run"] += 1
                    state["grads"] = 0
                    state["log"].append(None)
                g = np.zeros_like(p)
                g[k % len(g)] = np.nan
                return g
            return np.ones_like(p)

        def fake(fun, x0=None, args=(), method=None, jac=None, **kw):
            k = state["run"]
            must(k < len(script) and script[k] is not None, "a run starts from a point with a NaN gradient")
            must(fun is lossf and jac is deriv and len(args) == 1 and args[0] == "DATA", "minimise the given loss with its gradient and data")
            must(method == "L-BFGS-B", "method")
            state["run"] += 1
            state["log"].append(script[k])
            return scipy.optimize.OptimizeResult(x=np.asarray(x0) + 100.0 * (k + 1), fun=script[k], success=bool(k % 2), message="")
        np.random.seed(inp["seed"])
        with patched(fake, m), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            p, l, s = f(lossf, deriv, (p0, err), "DATA", loss_tol=inp["tol"], max_iter=inp["max_iter"])
        want = simulate(script, inp["tol"], inp["max_iter"])
        log = state["log"]
        must(len(log) == len(want), f"{len(log)} runs made, {len(want)} expected for losses {script[:len(want) + 1]}, tolerance {inp['tol']}, at most {inp['max_iter']}")
        L_ = [999.99 if x is None else x for x in want]
        if all(x != x for x in L_):
            close("starting point returned", p, p0)
            close("failure loss", l, 999.99)
            must(s == -1, "failure code")
            return
        b = int(np.nanargmin(L_))
        close("smallest loss", l, L_[b])
        if want[b] is None:
            close("starting point of the failed run", p, p0)
            must(s == -1, "code of the failed run")
        else:
            must(np.all(np.abs(np.asarray(p) - p0 - 100.0 * (b + 1)) < 20), "point of the run with the smallest loss")
            must(s == 1, "code of the selected run")
    R.case("restarts", gen, run, n=60, n_deep=400, first=[
        dict(script=[float("nan"), "nan_start", 5.0, 0.05, 1.0], tol=0.1, max_iter=10, p0=[0.3, -1.0], err=[0.1, 0.2], seed=1),
        dict(script=[float("nan")] * 12, tol=0.1, max_iter=4, p0=[0.3], err=[0.1], seed=2),
        dict(script=["nan_start"] * 12, tol=0.1, max_iter=3, p0=[0.3, 2.0], err=[0.1, 0.3], seed=3),
        dict(script=["nan_start", 1e4, 5e3, float("nan")] + [2e3] * 8, tol=0.1, max_iter=5, p0=[0.3, 2.0], err=[0.1, 0.3], seed=4),
        dict(script=[5.0, 0.2, 3.0, 0.2, 7.0] + [2e3] * 8, tol=0.1, max_iter=5, p0=[0.3, 2.0], err=[0.1, 0.3], seed=4)])

    def gen2(rng):
        return dict(p0=rng.normal(size=3).tolist(), err=rng.uniform(.01, 1, size=3).tolist(), bad=int(rng.choice([0, 1, 2, 5, 60, 999, 1000, 5000])), seed=int(rng.integers(1 << 30)), pos=int(rng.integers(3)), flip=bool(rng.random() < .5))

    def run2(inp):
        f = attr(imp(FU), "return_random_pinit")
        p0, err = np.array(inp["p0"]), np.array(inp["err"])
        k = min(inp["bad"], 1000)
        np.random.seed(inp["seed"])
        w = np.array([np.random.normal(p0, err) for _ in range(k + 1)])
        bad = {tuple(x) for x in (w if inp["bad"] > 1000 else w[:k])}
        flip = {tuple(p0)} if inp["flip"] else set()

        def deriv(p, d):
            must(d == "DATA", "gradient asked for other data")
            g = np.array(p) * 2
            if tuple(np.array(p)) in bad or tuple(np.array(p)) in flip:
                g[inp["pos"]] = np.nan
            return g
        np.random.seed(inp["seed"])
        p, flag = f((p0, err), "DATA", deriv)
        must(bool(flag) == (inp["bad"] > 1000), "flag of a start without a usable gradient")
        close("first draw whose gradient has no NaN", p, w[k])
    R.case("starting_point", gen2, run2, n=16, n_deep=60)

    def gen3(rng):
        return dict(c=rng.normal(size=2).tolist(), p0=rng.normal(size=2).tolist(), ok=bool(rng.random() < .5), fun=float(rng.choice(vals)), n=int(rng.integers(3, 30)), blow=bool(rng.random() < .4))

    def run3(inp):
        c = np.array(inp["c"])
        p0 = np.array(inp["p0"])
        for nm in (FU, PU):
            m = imp(nm)
            f = attr(m, "minimizer")
            attr(m, "minimize")
            asked = []

            def lossf(p, d):
                s = jnp.sum((p - c) ** 2)
                return jnp.sqrt(-1.0 - s) if inp["blow"] else s

            def fake(fun, x0=None, args=(), method=None, jac=None, **kw):
                must(fun is lossf and jac == "DERIV" and len(args) == 1 and np.allclose(x0, p0), "arguments of the minimiser")
                return scipy.optimize.OptimizeResult(x=p0 + 7, fun=inp["fun"], success=inp["ok"])
            with patched(fake, m), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                p, l, s = f(lossf, "DERIV", p0, jnp.zeros(1), *([inp["n"]] if nm == FU else []))
            if nm == PU or inp["ok"]:
                close(nm + " point", p, p0 + 7)
                must(l == inp["fun"] or (l != l and inp["fun"] != inp["fun"]), nm + " loss")
                must(s == 1, nm + " code")
            elif inp["blow"]:
                must(s == -1, "a fallback cut short by NaN reports -1")
            else:
                must(s == 0, "a completed fallback reports 0")
                close("loss of the fallback at its point", l, np.sum((np.array(p, dtype=float) - c) ** 2), rtol=1e-3, atol=1e-5)
                must(l <= np.sum((p0 - c) ** 2) * (1 + 1e-5) + 1e-6, "the fallback does not end above its start")
    R.case("plain_minimisers", gen3, run3, n=8, n_deep=40)

    def gen4(rng):
        n = int(rng.choice([6, 15]))
        return dict(t=np.sort(rng.uniform(0.5, 13.8, n)).tolist(), sfh=rng.lognormal(0, 1, n).tolist(), mah=rand_mah(rng), u=rng.normal(size=8).tolist(), up=rng.normal(size=8).tolist(), loss=float(rng.choice([0.3, 7.0])), code=int(rng.choice([-1, 0, 1])),
                    lgt0=math.log10(13.9), fb=float(rng.uniform(.1, .2)), delay=float(rng.uniform(.3, 2)), floor=float(10 ** rng.uniform(-13, -10)))

    def run4(inp):
        mf = imp(FF)
        f, mw, lf = attr(mf, "diffstar_fitter"), attr(mf, "minimizer_wrapper"), attr(mf, "loss_default_clipssfrh")
        got = {}

        def fake(*a, **k):
            b = inspect.signature(mw).bind(*a, **k)
            got.update(b.arguments)
            return np.array(inp["u"]), inp["loss"], inp["code"]
        kw = dict(lgt0=inp["lgt0"], fb=inp["fb"], fstar_tdelay=inp["delay"], ssfrh_floor=inp["floor"])
        mf.minimizer_wrapper = fake
        try:
            p, l, c = f(np.array(inp["t"]), np.array(inp["sfh"]), mah_nt(inp["mah"]), **kw)
        finally:
            mf.minimizer_wrapper = mw
        if not got:
            raise Missing("minimizer_wrapper not called")
        U = ds.DEFAULT_DIFFSTAR_U_PARAMS
        must(p._fields == ds.DEFAULT_DIFFSTAR_PARAMS._fields, "names of the fitted parameters")
        for k, x in o_bound(inp["u"]).items():
            close("bounded " + k, getattr(p, k), x, rtol=1e-8)
        must(l == inp["loss"] and c == inp["code"], "loss and code of the best run")
        up = jnp.array(inp["up"])
        d2 = attr(mf, "get_loss_data_default")(np.array(inp["t"]), np.array(inp["sfh"]), mah_nt(inp["mah"]), **kw)
        close("loss handed to the minimiser", float(got["loss_func"](up, got["loss_data"])), float(lf(up, d2[1])), rtol=1e-9)
        close("starting point", got["p_init"][0], d2[0][0])
        close("spread", got["p_init"][1], d2[0][1])
        g = np.asarray(got["loss_func_deriv"](up, got["loss_data"]))
        h = 1e-5
        fd = [(float(got["loss_func"](up.at[q].add(h), got["loss_data"])) - float(got["loss_func"](up.at[q].add(-h), got["loss_data"]))) / (2 * h) for q in range(8)]
        must(g.shape == (8,) and np.all(np.abs(g - fd) <= 2e-2 * (np.abs(fd) + np.abs(g)) + 1e-2), f"gradient handed to the minimiser: {g} against differences {fd}")
    R.case("fitter", gen4, run4, n=3, n_deep=12)
