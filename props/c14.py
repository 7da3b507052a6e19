"""C14 Monte Carlo draws follow the population law, one independent random stream per galaxy"""
from .popspec import *
from .c12 import trace_draw, MCM
from .c13 import MVN


def law(G, P, key):
    """(u_ms, u_q, frac, flag) of the specification for one galaxy and its key"""
    k = draw_keys(key)
    ms, q = [], []
    for j in range(4):
        ms.append(t_mean("mseq", SHORT[j], G["logmp0"], G["tpeak"], P) + t_std("mseq", SHORT[j], G["logmp0"], P) * znorm(k[0], j))
    ms += [L(5)] * 4
    for j in range(8):
        kk, jj = (k[1], j) if j < 4 else (k[2], j - 4)
        q.append(t_mean("qseq", SHORT[j], G["logmp0"], G["tpeak"], P) + t_std("qseq", SHORT[j], G["logmp0"], P) * znorm(kk, jj))
    fr = t_frac(G, P)
    return ms, q, fr, tm.lt(tm.uf("U01", k[3]), fr)


def check_draw(R, c, out, want, tag=""):
    ums, uq, fr, flag = out
    wms, wq, wfr, wflag = want
    for j, q in enumerate(SHORT):
        R.eq(f"{tag}main-sequence vector: {q}", c, no_std(R, c, ums[j]), no_std(R, c, wms[j]))
        R.eq(f"{tag}quenched vector: {q}", c, no_std(R, c, uq[j]), no_std(R, c, wq[j]))
    R.eq(f"{tag}quenched fraction", c, fr, wfr)
    R.prove(f"{tag}flag is a uniform draw below the fraction", c, tm.eq(flag, tm.lt(tm.uf("U01", key_of(flag)), fr)))


def key_of(flag):
    us = tm.atoms_of(flag, lambda a: a.op == "uf" and a.v[0] == "U01")
    if len(us) != 1:
        raise Violation("the flag does not use exactly one uniform draw")
    return us[0].a[0]


def no_std(R, c, t):
    """sqrt(std^2) -> std, justified by the positivity of the clipped lines (C13)"""
    for a in tm.atoms_of(t, lambda a: a.op == "fn" and a.v == "sqrt"):
        x = a.a[0]
        if x.op == "ipow" and x.v == 2:
            t = tm.replace(t, {a: x.a[0]})
    return t


def streams(outs):
    """random atoms used by each output group: {group: set of keys}"""
    r = {}
    for g, ts in outs.items():
        r[g] = {a.a[0] for t in ts for a in tm.atoms_of(t, lambda a: a.op == "uf" and a.v[0] in ("STDNORMAL", "U01", "MVN"))}
    return r


def obligations(R):
    R.assume(MVN, "jax.random.uniform (dependency): a number in [0,1) that depends only on the key and the shape",
             "jax.random.split (dependency): sub-keys of different index are distinct, independent streams",
             "positivity of the population scatters (proved as C13) is used to read sqrt(std^2) as std")
    P, G = pop_v(), gal_v()
    with R.section("one galaxy", MC + ".mc_diffstar_u_params_singlegal", PKN + ".mc_diffstar_u_params_singlegal_kernel"):
        M = Machine(Ctx(pop_range()))
        o = trace_draw(M)
        c = M.ctx
        out = ([x.get() for x in o[0]], [x.get() for x in o[1]], o[2].get(), o[3].get())
        key = tm.uf("key", sort="key")
        w = law(G, P, key)
        R.must_fail("false goal", c, tm.eq(out[0][0], out[1][0]))
        R.prove("eight parameters in each vector", c, L(len(o[0]) == 8 and len(o[1]) == 8))
        st = streams({"main": out[0], "q1": out[1][:4], "q2": out[1][4:], "flag": [out[3]]})
        ks = [next(iter(s)) for s in st.values() if len(s) == 1]
        R.prove("one stream per block", c, L(all(len(s) == 1 for s in st.values())))
        R.prove("the four streams are different", c, L(len(set(ks)) == 4 and all(k.op == "uf" and k.v[0] == "splitkey" and k.a[0] is key for k in ks)))
        # the law for whichever sub-key serves each block
        kk = dict(zip(st, ks))
        k = draw_keys(key)
        names = dict(main=k[0], q1=k[1], q2=k[2], flag=k[3])
        ren = {names[g]: kk[g] for g in names if kk[g] is not names[g]}
        w = tuple([tm.replace(z, ren) for z in x] if isinstance(x, list) else tm.replace(x, ren) for x in w)
        check_draw(R, c, out, w)
        R.prove("flag", c, tm.eq(out[3], w[3]))
    with R.section("population: one stream per galaxy", MC + ".mc_diffstar_u_params_galpop"):
        f = attr(MCM, "mc_diffstar_u_params_galpop")
        g = tm.ivar("k")
        M2 = Machine(Ctx([tm.le(0, g), tm.lt(g, tm.ivar("g"))]))
        o2 = M2.call(f, Dims(g=1), (pop_in(), *gal_in(("g",)), KeyIn("key")))
        flag = o2[3].get(g)
        root = key_of(flag)
        gk = root.a[0] if root.v[0] == "splitkey" else None
        R.prove("each galaxy has its own sub-key", M2.ctx, L(gk is not None and gk.op == "uf" and gk.v[0] == "splitkey" and gk.a[0] is key and gk.a[2] is g))
        R.prove("as many sub-keys as galaxies", M2.ctx, tm.eq(gk.a[1], tm.ivar("g")))
        sub = {v(f_, "int" if f_ == "upid" else "real"): tm.uf(f_, g, sort="int" if f_ == "upid" else "real") for f_ in GAL}
        row = lambda t: tm.replace(tm.subst(t, sub), {key: gk})
        for j in range(8):
            R.eq(f"main-sequence {SHORT[j]} equals the single-galaxy draw", M2.ctx, o2[0][j].get(g), row(out[0][j]))
            R.eq(f"quenched {SHORT[j]} equals the single-galaxy draw", M2.ctx, o2[1][j].get(g), row(out[1][j]))
        R.eq("fraction equals the single-galaxy one", M2.ctx, o2[2].get(g), row(out[2]))
        R.prove("flag equals the single-galaxy one", M2.ctx, tm.eq(flag, row(out[3])))


def cases(R):
    def gen(rng):
        n = int(rng.choice([1, 3, 4]))
        return dict(g=[rand_gal(rng) for _ in range(n)], P=rand_pop_mix(rng), seed=int(rng.integers(0, 2**31)))

    def run(inp):
        P, gs = inp["P"], inp["g"]
        one = attr(MCM, "mc_diffstar_u_params_singlegal")
        key = jax.random.PRNGKey(inp["seed"])
        n = len(gs)
        keys = jax.random.split(key, n)
        many = attr(MCM, "mc_diffstar_u_params_galpop")(pop_nt(P), *(jnp.array([g[x] for g in gs]) for x in GAL), key)
        for j, g in enumerate(gs):
            o = one(pop_nt(P), *(g[x] for x in GAL), keys[j])
            ums, uq = np.array([float(z) for z in o[0]]), np.array([float(z) for z in o[1]])
            ms, qm, qq, u = n_draw(g, P, keys[j])
            close("main-sequence vector", ums, ms, rtol=1e-7, atol=1e-8, extra=str(g))
            close("quenched vector", uq, np.concatenate([qm, qq]), rtol=1e-7, atol=1e-8, extra=str(g))
            fr = float(o[2])
            must(bool(o[3]) == (u < fr), f"flag {bool(o[3])} with draw {u} and fraction {fr}")
            close("population main-sequence row", [float(z[j]) for z in many[0]], ums, rtol=1e-9, atol=1e-12)
            close("population quenched row", [float(z[j]) for z in many[1]], uq, rtol=1e-9, atol=1e-12)
            close("population fraction", many[2][j], fr)
            must(bool(many[3][j]) == bool(o[3]), "population flag differs from the single-galaxy flag")
        again = attr(MCM, "mc_diffstar_u_params_galpop")(pop_nt(P), *(jnp.array([g[x] for g in gs]) for x in GAL), key)
        must(all(np.array_equal(a, b) for a, b in zip(jax.tree_util.tree_leaves(many), jax.tree_util.tree_leaves(again))), "same key, different draws")
    R.case("monte_carlo_draws", gen, run, n=25, n_deep=200)
