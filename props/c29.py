"""C29 the Adam fallback of the minimiser"""
import warnings
from .common import *
from .c20 import imp, FU, NP, LOSS, P0, DATA, as_xf, arr_eq, iff, ident, result_index
from vc.pyvc import VM, XF, PArr, Ext, Opq, is_num, xf
from vc.pycontracts import exists
from vc.pyrun import execute

ADAM = "jax.example_libraries.optimizers.adam: the state after k updates is STATE(k); each update is checked to be made with the step number, the gradient at the current point and the current state"
XP = lambda nm: PArr((NP,), lambda j: XF(tm.uf(nm, j), tm.uf(nm + ".nan", j, sort="bool"), tm.uf(nm + ".fin", j, sort="bool")))
NS, STEP = tm.ivar("n_step"), tm.var("step")


def state(k):
    return tm.uf("STATE", tm.lift(k), sort="int")


def xuf(nm, *a):
    """any float: NaN only if not finite"""
    fin = tm.uf(nm + ".fin", *a, sort="bool")
    return XF(tm.uf(nm, *a), tm.and_(tm.not_(fin), tm.uf(nm + ".nan", *a, sort="bool")), fin)


def par(k):
    """parameters read from the optimiser before update k"""
    return PArr((NP,), lambda j: xuf("PAR", state(k), j))


def at(vm, p, d):
    return [vm.ident(p), vm.ident(d)]


def grad_at(vm, p, d):
    a = at(vm, p, d)
    return PArr((NP,), lambda j: xuf("G", *a, j))


def loss_at(vm, p, d):
    return xuf("LV", *at(vm, p, d))


def same(vm, name, a, b):
    vm.require(name, tm.eq(vm.ident(a), vm.ident(b)))


def c_adam(vm, node, step_size, *a, **k):
    if a or k:
        raise Unsupported("options of Adam")
    vm.require("Adam with the given step size", tm.eq(tm.lift(step_size), STEP))

    def init(vm, node, p):
        same(vm, "the optimiser starts from the given point", p, P0)
        return Opq(state(0))

    def update(vm, node, i, g, s):
        k = vm.iters[-1] if vm.iters else tm.ZERO
        vm.require("update with the number of the step", tm.eq(tm.lift(i), k))
        vm.require("update of the current state", tm.eq(s.term, state(k)))
        same(vm, "update with the gradient at the current point", g, grad_at(vm, par(k), DATA))
        return Opq(state(tm.add(k, 1)))

    def get(vm, node, s):
        return PArr((NP,), lambda j: xuf("PAR", s.term, j))
    return Ext("init", init), Ext("update", update), Ext("get", get)


def c_vg(vm, node, f, argnums=0):
    if f is not LOSS or argnums not in (0, (0,)):
        raise Unsupported("value and gradient of another function")
    return Ext("VG", lambda vm, node, p, d: (loss_at(vm, p, d), grad_at(vm, p, d)))


def obligations(R):
    R.assume(ADAM, "value_and_grad returns any loss and gradient (possibly NaN or infinite) that depend on the point and the data only",
             "a finite float is not NaN; storing a number as float32 rounds it", "numpy isfinite/all/nanargmin by contract (first smallest entry that is not NaN)")
    m = imp(FU)
    import jax as J
    base = [tm.le(1, NP), tm.le(1, NS)]
    i, j = tm.ivar("i"), tm.ivar("j")
    f4 = lambda x: tm.uf("f4", x)
    with R.section("one descent", FU + "._jax_adam_wrapper"):
        f = attr(m, "_jax_adam_wrapper")
        con = {ident(attr(attr(m, "jax_opt"), "adam")): c_adam, ident(J.value_and_grad): c_vg, ident(J.jit): lambda vm, node, f, **k: f}
        vm = VM(facts=base, contracts=con)
        outs = execute(R, vm, f, lambda: ((LOSS, P0, DATA, NS), dict(step_size=STEP)), called=(ident(J.value_and_grad),))
        v0 = VM(facts=base)

        def fine(k):
            """loss, gradient and parameters of step k are finite"""
            p = par(k)
            vv = VM(facts=base)
            l = loss_at(vv, p, DATA)
            g = grad_at(vv, p, DATA)
            return l, g, p

        def all_fin(vv, k):
            l, g, p = fine(k)
            bad = [exists(vv, NP, lambda q: tm.not_(p.get(q).fin)), tm.not_(l.fin), exists(vv, NP, lambda q: tm.not_(g.get(q).fin))]
            return tm.and_(*[tm.not_(b) for b in bad])
        nan_fin = lambda k: [tm.implies(fine(k)[0].fin, tm.not_(fine(k)[0].nan)), tm.implies(par(k).get(j).fin, tm.not_(par(k).get(j).nan))]
        kinds = set()
        for q, o in enumerate(outs):
            tag = f"path {q}"
            N = o.iterations()
            p, l, la, pa = o.value
            l = as_xf(l)
            R.must_fail(tag + ": false goal", o.ctx(), tm.FALSE)
            R.prove(tag + ": one recorded loss and point per completed step", o.ctx(), tm.and_(tm.eq(tm.lift(la.shape[0]), N), tm.eq(tm.lift(pa.shape[0]), N), tm.eq(tm.lift(pa.shape[1]), NP)))
            vv = VM(facts=[])
            fin = all_fin(vv, i)
            ci = o.ctx(tm.le(0, i), tm.lt(i, N), *o.inst(i, "loop"), *vv.facts, *[g for lo, hi, ff, nm in vv.foralls for g in [tm.implies(tm.and_(tm.le(lo, j), tm.lt(j, hi)), ff(j))]])
            R.prove(tag + ": every completed step is finite", ci, fin)
            cj = ci.with_facts([tm.le(0, j), tm.lt(j, NP), fin] + nan_fin(i))
            g = xf(la.get(i))
            R.prove(tag + ": recorded loss", cj, tm.and_(tm.not_(g.nan), tm.eq(g.val, f4(fine(i)[0].val))))
            g = xf(pa.get(i, j))
            R.prove(tag + ": recorded point", cj, tm.and_(tm.not_(g.nan), tm.eq(g.val, f4(par(i).get(j).val))))
            full = o.ctx().decide(tm.eq(N, NS))
            if full is True:
                kinds.add("all steps")
                R.prove(tag + ": all steps made", o.ctx(), tm.eq(N, NS))
            else:
                R.prove(tag + ": stops before the last step", o.ctx(), tm.lt(N, NS))
                vv = VM(facts=[])
                fin = all_fin(vv, N)
                R.prove(tag + ": stops only at a step that is not finite", o.ctx(*o.inst(N), *vv.facts), tm.not_(fin))
            if o.ctx().decide(tm.eq(N, L(0))) is True:
                kinds.add("no step")
                g = p.get(j)
                w = par(N).get(j)
                c = o.ctx(tm.le(0, j), tm.lt(j, NP))
                R.prove(tag + ": point of the failed step", c, tm.and_(iff(xf(g).nan, w.nan), tm.or_(w.nan, tm.eq(xf(g).val, w.val))))
                R.prove(tag + ": failure loss", o.ctx(), tm.and_(tm.not_(l.nan), tm.eq(l.val, L(999.99))))
                continue
            if full is not True:
                kinds.add("some steps")
            R.prove(tag + ": a step was completed", o.ctx(), tm.le(1, N))
            a = result_index(o, [l.val])
            rec = nan_fin(a) + nan_fin(i)
            ca = o.ctx(*o.inst(a), *rec)
            R.prove(tag + ": step of the result", ca, tm.and_(tm.le(0, a), tm.lt(a, N)))
            R.prove(tag + ": recorded loss of that step", ca, tm.and_(tm.not_(l.nan), tm.eq(l.val, f4(fine(a)[0].val))))
            c = o.ctx(tm.le(0, i), tm.lt(i, N), *o.inst(i), *o.inst(a), *rec)
            R.prove(tag + ": no recorded loss is smaller", c, tm.le(l.val, f4(fine(i)[0].val)))
            arr_like(R, tag + ": recorded point of that step", ca, p, lambda jj: f4(par(a).get(jj).val))
        R.prove("a descent may complete, stop early or fail at once", Ctx(), L(kinds == {"all steps", "some steps", "no step"}))
    with R.section("warm-up and final descent", FU + ".jax_adam_wrapper_v2"):
        f, g = attr(m, "jax_adam_wrapper_v2"), attr(m, "_jax_adam_wrapper")
        ws, nw, wn = tm.var("wstep"), tm.ivar("n_warmup"), tm.ivar("warmup_n_step")
        import inspect
        sig = inspect.signature(g)
        for tag, wopt, nw in (("given warm-up step", ws, nw), ("default warm-up step", None, nw), ("no warm-up", None, 0)):
            warm_step = ws if wopt is not None else 5 * STEP

            def c_one(vm, node, *a, **k):
                b = sig.bind(*a, **k)
                b.apply_defaults()
                b = b.arguments
                lf, p, d, n, st = [b[x] for x in ("loss_func", "params_init", "loss_data", "n_step", "step_size")]
                vm.require("descent on the given loss and data", L(lf is LOSS and d is DATA))
                if vm.iters:
                    k_ = vm.iters[-1]
                    vm.require("warm-up with its own step and number of steps", tm.and_(tm.eq(tm.lift(st), warm_step), tm.eq(tm.lift(n), wn)))
                    same(vm, "each warm-up starts from the best point of the previous one", p, warm(k_))
                    return warm(tm.add(k_, 1)), Opq(tm.ivar("_l")), Opq(tm.ivar("_la")), Opq(tm.ivar("_pa"))
                vm.require("final descent with its own step and number of steps", tm.and_(tm.eq(tm.lift(st), STEP), tm.eq(tm.lift(n), NS)))
                x = vm.ident(p)
                M_ = tm.uf("MADE", x, sort="int")
                vm.fact(tm.and_(tm.le(0, M_), tm.le(M_, NS)))
                return (PArr((NP,), lambda jj: xuf("BEST", x, jj)), xuf("BLOSS", x), PArr((M_,), lambda q: tm.uf("LARR", x, q)),
                        PArr((M_, NP), lambda q, jj: tm.uf("PARR", x, q, jj)))
            def warm(k):
                return PArr((NP,), lambda jj: xuf("WARM", tm.lift(k), jj))
            INIT = warm(0)
            vm = VM(facts=base + [tm.le(1, nw)] * (not isinstance(nw, int)), contracts={ident(g): c_one})
            opts = dict(n_warmup=nw, step_size=STEP, warmup_n_step=wn)
            if wopt is not None:
                opts["warmup_step_size"] = wopt
            outs = execute(R, vm, f, lambda: ((LOSS, INIT, DATA, NS), opts), called=(ident(g),))
            R.prove(tag + ": both outcomes of the warm-up are handled", Ctx(), L(len(outs) >= 2))
            for q, o in enumerate(outs):
                p, l, la, pa, flag = o.value
                t = f"{tag}, path {q}"
                starts = {x.a[0] for x in tm.atoms_of(as_xf(l).val, lambda x: x.op == "uf" and x.v[0] == "BLOSS")}
                vv = VM(facts=list(o.facts))
                bad = exists(vv, NP, lambda jj: tm.not_(warm(nw).get(jj).fin))
                c = Ctx(vv.facts)
                s = starts.pop()
                good, fall = vv.ident(warm(nw)), vv.ident(INIT)
                R.prove(t + ": starts from the warmed-up point, or from the initial guess if that is not finite", c.with_facts([tm.not_(bad)]), tm.eq(s, good))
                R.prove(t + ": initial guess otherwise", c.with_facts([bad]), tm.eq(s, fall))
                w = PArr((NP,), lambda jj: xuf("BEST", s, jj))
                R.prove(t + ": best point of the final descent", c.with_facts([tm.le(0, j), tm.lt(j, NP)]), tm.eq(xf(p.get(j)).val, w.get(j).val))
                R.prove(t + ": its loss", c, tm.eq(as_xf(l).val, tm.uf("BLOSS", s)))
                M_ = tm.uf("MADE", s, sort="int")
                R.prove(t + ": its records", c, tm.and_(tm.eq(tm.lift(la.shape[0]), M_), tm.eq(la.get(i), tm.uf("LARR", s, i)), tm.eq(pa.get(i, j), tm.uf("PARR", s, i, j))))
                R.prove(t + ": flag tells whether all steps were made", c, tm.eq(tm.lift(flag), tm.ite(tm.eq(M_, NS), L(1), L(0))))


def arr_like(R, name, ctx, got, want):
    j = tm.ivar("j")
    c = ctx.with_facts([tm.le(0, j), tm.lt(j, NP)])
    g = got.get(j)
    R.prove(name, c, tm.eq(xf(g).val, want(j)))


class F:
    """test losses with their gradients and finite domains"""

    def __init__(self, kind, c, wall):
        self.kind, self.c, self.wall = kind, np.array(c), wall

    def jax(self, p, d):
        x = p - self.c
        q = jnp.sum(d * x ** 2) + 0.3 * jnp.sum(jnp.sin(3 * p))
        return q if self.kind == "smooth" else q + (jnp.sum(jnp.log(self.wall - p)) if self.kind == "log" else jnp.sum(jnp.sqrt(self.wall - p)))

    def np(self, p, d):
        with np.errstate(all="ignore"):
            x = p - self.c
            q, g = np.sum(d * x ** 2) + 0.3 * np.sum(np.sin(3 * p)), 2 * d * x + 0.9 * np.cos(3 * p)
            if self.kind == "log":
                return q + np.sum(np.log(self.wall - p)), g - 1 / (self.wall - p)
            if self.kind == "root":
                return q + np.sum(np.sqrt(self.wall - p)), g - 0.5 / np.sqrt(self.wall - p)
            return q, g


def o_adam(f, p0, d, n, step):
    """losses and points of the completed steps"""
    x, m, v = np.array(p0, float), 0.0, 0.0
    out = []
    for k in range(n):
        l, g = f.np(x, d)
        if not (np.all(np.isfinite(x)) and np.isfinite(l) and np.all(np.isfinite(g))):
            break
        out.append((l, x.copy()))
        m, v = 0.9 * m + 0.1 * g, 0.999 * v + 0.001 * g ** 2
        x = x - step * (m / (1 - 0.9 ** (k + 1))) / (np.sqrt(v / (1 - 0.999 ** (k + 1))) + 1e-8)
    return out, x


def o_best(out, x0, last):
    return (last, 999.99) if not out else (out[int(np.argmin([np.float32(q[0]) for q in out]))][1], min(q[0] for q in out))


def cases(R):
    def gen(rng):
        k = int(rng.integers(1, 4))
        kind = str(rng.choice(["smooth", "log", "root"]))
        p0 = rng.normal(size=k)
        wall = float(p0.max() + rng.choice([0.0, -0.1, 0.05, 0.3, 3.0]))
        return dict(kind=kind, c=(p0 + rng.normal(size=k) * 2).tolist(), wall=wall, p0=p0.tolist(), d=rng.uniform(.1, 3, size=k).tolist(), n=int(rng.choice([1, 2, 7, 30])),
                    step=float(rng.choice([0.01, 0.1, 1.0])), nw=int(rng.choice([0, 1, 2])), wn=int(rng.choice([1, 5, 20])), ws=None if rng.random() < .5 else float(rng.choice([.03, .5])))

    def run(inp):
        m = imp(FU)
        one, two = attr(m, "_jax_adam_wrapper"), attr(m, "jax_adam_wrapper_v2")
        f = F(inp["kind"], inp["c"], inp["wall"])
        p0, d, n, st = np.array(inp["p0"]), np.array(inp["d"]), inp["n"], inp["step"]
        tol = dict(rtol=2e-4, atol=2e-4)

        def check(tag, res, start, n, st):
            out, last = o_adam(f, start, d, n, st)
            p, l, la, pa = res
            must(la.shape == (len(out),) and pa.shape == (len(out), len(p0)), f"{tag}: {la.shape[0]} steps recorded, {len(out)} finite steps expected")
            bp, bl = o_best(out, start, last)
            if out:
                close(tag + ": recorded losses", la, [q[0] for q in out], **tol)
                close(tag + ": recorded points", pa, np.array([q[1] for q in out]), **tol)
                must(float(l) == float(np.min(la)), f"{tag}: loss {l} is not the smallest recorded {np.min(la)}")
                b = int(np.argmin(la))
                must(np.array_equal(np.asarray(p), pa[b]), tag + ": not the point of the smallest recorded loss")
            else:
                close(tag + ": failed first step", p, bp, **tol)
                close(tag + ": failure loss", float(l), 999.99)
            return bp
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            check("one descent", one(f.jax, p0, d, n, step_size=st), p0, n, st)
            kw = dict(n_warmup=inp["nw"], step_size=st, warmup_n_step=inp["wn"])
            if inp["ws"] is not None:
                kw["warmup_step_size"] = inp["ws"]
            *res, flag = two(f.jax, p0, d, n, **kw)
            x = p0
            for _ in range(inp["nw"]):
                x = one(f.jax, x, d, inp["wn"], step_size=inp["ws"] if inp["ws"] is not None else 5 * st)[0]
            want = one(f.jax, x if np.all(np.isfinite(x)) else p0, d, n, step_size=st)
        for q, nm in enumerate(("point", "loss", "recorded losses", "recorded points")):
            must(np.shape(res[q]) == np.shape(want[q]), f"after warm-up: {np.shape(res[q])} {nm}, {np.shape(want[q])} expected")
            close("after warm-up: " + nm, res[q], want[q], rtol=1e-5, atol=1e-6)
        must(bool(flag) == (len(res[2]) == n), "flag of a descent that completed all steps")
        must(np.array_equal(p0, inp["p0"]), "the initial guess is changed")
    R.case("descent", gen, run, n=10, n_deep=60, first=[
        dict(kind="log", c=[3.0], wall=0.3, p0=[0.0], d=[1.0], n=30, step=0.1, nw=2, wn=20, ws=None),
        dict(kind="smooth", c=[0.2, -1.0], wall=0.0, p0=[0.1, -0.9], d=[1.0, 2.0], n=7, step=1.0, nw=1, wn=5, ws=0.5),
        dict(kind="log", c=[0.2], wall=-1.0, p0=[0.1], d=[1.0], n=7, step=0.1, nw=1, wn=5, ws=0.5)])
