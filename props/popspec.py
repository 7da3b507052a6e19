"""specification of the galaxy population model (terms and numpy oracles)"""
from .common import *

U8 = ("u_lgmcrit", "u_lgy_at_mcrit", "u_indx_lo", "u_indx_hi", "u_lg_qt", "u_qlglgdt", "u_lg_drop", "u_lg_rejuv")
SHORT = ("ulgm", "ulgy", "ul", "uh", "uqt", "uqs", "udrop", "urej")
GAL = ("logmp0", "tpeak", "upid", "lgmu", "lgmhost", "gyr")
MC = "diffstar.diffstarpop.mc_diffstarpop_mgash"
PKN = "diffstar.diffstarpop.kernels.diffstarpop_mgash"


# ---------------------------------------------------------------- terms

def t_clip(y, y0, lo, hi):
    """clipped line as a function of the unclipped value y"""
    a, b, K = lo + (y0 - lo) / 100, hi - (hi - y0) / 100, 2000 / (y0 - lo)
    c1 = t_sigm(y, a, K, a, y)
    return t_sigm(y, b, K, c1, b)


def t_line(x, y0, m, bound):
    lo, hi = (tm.const(z) for z in CLIPB[bound])
    return t_clip(y0 + m * (x - L("12.5")), y0, lo, hi)


def t_mcrit(x, xtp, ytp, lo, hi):
    return ytp + t_sigm(x, xtp, L(3), lo, hi) * (x - xtp)


def t_mean(seq, q, x, tpeak, P):
    """mean of the unbounded parameter q of the seq ('mseq'/'qseq') population"""
    k = SHORT.index(q)
    if q in ("ulgm", "ulgy"):
        n = f"mean_{q}_{seq}_"
        return t_mcrit(x, *(P[n + z] for z in ("xtp", "ytp", "lo", "hi")))
    if q in ("ul", "uh"):
        return t_line(x, P[f"mean_{q}_{seq}_int"], P[f"mean_{q}_{seq}_slp"], f"mean_{q}")
    if q == "uqt":
        m = t_mcrit(x, *(P["mean_uqt_" + z] for z in ("xtp", "ytp", "lo", "hi")))
        d = t_sigm(tpeak, *(P["delta_uqt_" + z] for z in ("x0", "k", "ylo", "yhi")))
        return m + d + (x - L("12.5")) * P["delta_uqt_slope"]
    return t_line(x, P[f"mean_{q}_int"], P[f"mean_{q}_slp"], f"mean_{q}")


def t_std(seq, q, x, P):
    n = f"std_{q}_{seq}" if q in SHORT[:4] else f"std_{q}"
    return t_line(x, P[n + "_int"], P[n + "_slp"], f"std_{q}")


def t_fq(seq, x, tpeak, P):
    p = lambda z: P[f"frac_quench_{seq}_{z}"]
    x0 = t_sigm(tpeak, p("x0_tpeak"), p("k_tpeak"), p("x0_ylotpeak"), p("x0_yhitpeak"))
    ylo = t_sigm(tpeak, p("x0_tpeak"), p("k_tpeak"), p("ylo_ylotpeak"), p("ylo_yhitpeak"))
    return t_sigm(x, x0, p("k"), ylo, p("yhi"))


def t_satfrac(lgmu, lgmhost, gyr, P):
    hi_lo = t_sigm(lgmu, P["qphi_lgmu_crit"], L(2), P["lgmu_lo_mh_lo"], P["lgmu_hi_mh_lo"])
    hi_hi = t_sigm(lgmu, P["qphi_lgmu_crit"], L(2), P["lgmu_lo_mh_hi"], P["lgmu_hi_mh_hi"])
    hi = t_sigm(lgmhost, P["qp_lgmh_crit"], L(5), hi_lo, hi_hi)
    td = t_sigm(lgmhost, P["td_lgmhc"], L(5), P["td_mlo"], P["td_mhi"])
    return t_sigm(gyr, td, L(5), L(0), hi)


def t_fqsat(x, tpeak, lgmu, lgmhost, gyr, P):
    q = t_fq("sat", x, tpeak, P)
    return q + t_satfrac(lgmu, lgmhost, gyr, P) * (1 - q)


def t_frac(G, P):
    return tm.ite(tm.eq(G["upid"], L(-1)), t_fq("cen", G["logmp0"], G["tpeak"], P),
                  t_fqsat(G["logmp0"], G["tpeak"], G["lgmu"], G["lgmhost"], G["gyr"], P))


def draw_keys(key):
    """the four keys of one galaxy: main sequence, quenched (main-sequence part), quenched (quenching part), flag"""
    return [tm.uf("splitkey", key, L(4), L(j), sort="key") for j in range(4)]


def znorm(key, j):
    return tm.uf("STDNORMAL", key, L(4), L(j))


# ---------------------------------------------------------------- numpy oracles

def n_clip(y, y0, lo, hi):
    a, b, K = lo + (y0 - lo) / 100, hi - (hi - y0) / 100, 2000 / (y0 - lo)
    with np.errstate(over="ignore"):
        c1 = sigm(y, a, K, a, y)
        return sigm(y, b, K, c1, b)


def n_line(x, y0, m, bound):
    lo, hi = (float(z) for z in CLIPB[bound])
    return n_clip(y0 + m * (x - 12.5), y0, lo, hi)


def n_mcrit(x, xtp, ytp, lo, hi):
    return ytp + sigm(x, xtp, 3.0, lo, hi) * (x - xtp)


def n_mean(seq, q, x, tpeak, P):
    if q in ("ulgm", "ulgy"):
        return n_mcrit(x, *(P[f"mean_{q}_{seq}_{z}"] for z in ("xtp", "ytp", "lo", "hi")))
    if q in ("ul", "uh"):
        return n_line(x, P[f"mean_{q}_{seq}_int"], P[f"mean_{q}_{seq}_slp"], f"mean_{q}")
    if q == "uqt":
        return (n_mcrit(x, *(P["mean_uqt_" + z] for z in ("xtp", "ytp", "lo", "hi")))
                + sigm(tpeak, *(P["delta_uqt_" + z] for z in ("x0", "k", "ylo", "yhi"))) + (x - 12.5) * P["delta_uqt_slope"])
    return n_line(x, P[f"mean_{q}_int"], P[f"mean_{q}_slp"], f"mean_{q}")


def n_std(seq, q, x, P):
    n = f"std_{q}_{seq}" if q in SHORT[:4] else f"std_{q}"
    return n_line(x, P[n + "_int"], P[n + "_slp"], f"std_{q}")


def n_fq(seq, x, tpeak, P):
    p = lambda z: P[f"frac_quench_{seq}_{z}"]
    x0 = sigm(tpeak, p("x0_tpeak"), p("k_tpeak"), p("x0_ylotpeak"), p("x0_yhitpeak"))
    ylo = sigm(tpeak, p("x0_tpeak"), p("k_tpeak"), p("ylo_ylotpeak"), p("ylo_yhitpeak"))
    return sigm(x, x0, p("k"), ylo, p("yhi"))


def n_satfrac(lgmu, lgmhost, gyr, P):
    hl = sigm(lgmu, P["qphi_lgmu_crit"], 2.0, P["lgmu_lo_mh_lo"], P["lgmu_hi_mh_lo"])
    hh = sigm(lgmu, P["qphi_lgmu_crit"], 2.0, P["lgmu_lo_mh_hi"], P["lgmu_hi_mh_hi"])
    hi = sigm(lgmhost, P["qp_lgmh_crit"], 5.0, hl, hh)
    td = sigm(lgmhost, P["td_lgmhc"], 5.0, P["td_mlo"], P["td_mhi"])
    return sigm(gyr, td, 5.0, 0.0, hi)


def n_frac(g, P):
    if g["upid"] == -1:
        return n_fq("cen", g["logmp0"], g["tpeak"], P)
    q = n_fq("sat", g["logmp0"], g["tpeak"], P)
    return q + n_satfrac(g["lgmu"], g["lgmhost"], g["gyr"], P) * (1 - q)


def n_draw(g, P, key):
    """(u_ms, u_q, frac, flag) by the specification, using jax.random for the raw draws"""
    k = jax.random.split(key, 4)
    x, tp = g["logmp0"], g["tpeak"]

    def block(kk, seq, qs):
        mu = jnp.array([n_mean(seq, q, x, tp, P) for q in qs])
        sd = jnp.array([n_std(seq, q, x, P) for q in qs])
        return np.asarray(jax.random.multivariate_normal(kk, mu, jnp.diag(sd**2), shape=()))
    ms = np.concatenate([block(k[0], "mseq", SHORT[:4]), [5.0] * 4])
    return ms, block(k[1], "qseq", SHORT[:4]), block(k[2], "qseq", SHORT[4:]), float(jax.random.uniform(k[3]))


def rand_gal(rng):
    sat = rng.random() < 0.5
    return dict(logmp0=float(rng.uniform(10.5, 15)), tpeak=float(rng.uniform(2, 14)), upid=int(rng.choice([-99, -2, 0, 1, 5, 8])) if sat else -1,
                lgmu=float(rng.uniform(-4, 0)) if sat else 0.0, lgmhost=float(rng.uniform(11, 15)) if sat else 0.0,
                gyr=float(rng.uniform(0, 10)) if sat else -100.0)


def gal_in(dims=(), pre=""):
    return [In(pre + f, dims, "int" if f == "upid" else "real") for f in GAL]


def gal_v(pre="", idx=()):
    out = {}
    for f in GAL:
        so = "int" if f == "upid" else "real"
        out[f] = tm.uf(pre + f, *idx, sort=so) if idx else v(pre + f, so)
    return out


def pop_v(pre=""):
    return {p: v(pre + p) for p in POPN}


def rand_pop_mix(rng):
    return popdef() if rng.random() < 0.25 else rand_pop(rng)
