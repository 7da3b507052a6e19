"""shared specification constants and samplers (independent of /repo)"""
import math

import numpy as np
import jax
import jax.numpy as jnp

from vc import terms as tm
from vc.jaxvc import In, KeyIn, Dims, Machine, Arr, Unsupported
from vc.report import Violation, Missing, close, must, attr
from vc.smt import Ctx

# declared physical ranges (the specification)
MS = ("lgmcrit", "lgy_at_mcrit", "indx_lo", "indx_hi")
Q = ("lg_qt", "qlglgdt", "lg_drop", "lg_rejuv")
PN = MS + Q
BOUNDS = dict(lgmcrit=("9", "13.5"), lgy_at_mcrit=("-12", "-8"), indx_lo=("0", "5"), indx_hi=("-5", "0"),
              lg_qt=("0.1", "2"), qlglgdt=("-3", "-0.01"), lg_drop=("-3", "0"), lg_rejuv=("-3", "0"))
L = tm.lift


def bnd(p):
    lo, hi = BOUNDS[p]
    return tm.const(lo), tm.const(hi)


def fb(p):
    lo, hi = BOUNDS[p]
    return float(lo), float(hi)


def v(name, sort="real"):
    return tm.var(name, sort)


def nt_in(cls, dims=(), pre=""):
    cls = cls if isinstance(cls, type) else cls.__class__
    return cls._make([In(pre + f, dims) for f in cls._fields])


def field(x, name):
    """field of a namedtuple/dict-like result"""
    return getattr(x, name)


def in_range(names, pre="", idx=()):
    """facts: parameters strictly inside their ranges (lg_rejuv above lg_drop)"""
    out = []
    for p in names:
        lo, hi = bnd(p)
        x = tm.uf(pre + p, *idx) if idx else v(pre + p)
        out += [tm.lt(lo, x), tm.lt(x, hi)]
    if "lg_rejuv" in names and "lg_drop" in names:
        d = tm.uf(pre + "lg_drop", *idx) if idx else v(pre + "lg_drop")
        r = tm.uf(pre + "lg_rejuv", *idx) if idx else v(pre + "lg_rejuv")
        out += [tm.lt(d, r)]
    return out


# ------------------------------------------------------------- numeric oracles

def sigm(x, x0, k, lo, hi):
    return lo + (hi - lo) / (1.0 + np.exp(-k * (x - x0)))


def o_bound(u):
    """numpy oracle of the bounding transform, dict/seq of 8 -> dict"""
    out = {}
    for p, x in zip(PN, u):
        lo, hi = fb(p)
        if p == "lg_rejuv":
            out[p] = sigm(x, -1.5, 4 / 3.0, out["lg_drop"], 0.0)
        else:
            out[p] = sigm(x, 0.5 * (lo + hi), 4 / (hi - lo), lo, hi)
    return out


def rand_params(rng, n=None, edge=0.25):
    """random in-range galaxy parameters (dict of floats)"""
    out = {}
    for p in PN:
        lo, hi = fb(p)
        if p == "lg_rejuv":
            lo = out["lg_drop"]
        if rng.random() < edge:
            f = rng.choice([1e-3, 0.999, 0.02, 0.98, 0.5])
        else:
            f = rng.uniform(0.01, 0.99)
        out[p] = float(lo + f * (hi - lo))
    return out


def rand_mah(rng):
    """random halo-history parameters of diffmah"""
    return dict(logm0=float(rng.uniform(10.5, 15.0)), logtc=float(rng.uniform(-0.2, 0.8)),
                early_index=float(rng.uniform(1.5, 5.0)), late_index=float(rng.uniform(0.05, 1.4)),
                t_peak=float(rng.uniform(3.0, 14.0)))


def rand_times(rng, n, lo=0.05, hi=13.7):
    kind = rng.integers(0, 3)
    if kind == 0:
        t = np.linspace(lo + rng.random() * 0.5, hi, n)
    elif kind == 1:
        t = np.geomspace(lo, hi, n)
    else:
        t = np.sort(rng.uniform(lo, hi, n))
        t = t + np.arange(n) * 1e-3
    return [float(x) for x in t]


def o_log_mah(t, mah, lgt0):
    """diffmah log10 halo mass: evaluated through the dependency itself"""
    from diffmah.diffmah_kernels import _log_mah_kern, DEFAULT_MAH_PARAMS
    p = DEFAULT_MAH_PARAMS._make([mah[f] for f in ("logm0", "logtc", "early_index", "late_index", "t_peak")])
    return np.array([float(_log_mah_kern(p, tt, lgt0)) for tt in np.atleast_1d(t)])


def mah_nt(mah):
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS
    f = DEFAULT_MAH_PARAMS._fields
    return DEFAULT_MAH_PARAMS._make([mah[k] if k in mah else mah[a] for k, a in zip(
        f, ("logm0", "logtc", "early_index", "late_index", "t_peak"))])


def o_tw(z):
    z = np.clip(z, -3.0, 3.0)
    return -5 * z**7 / 69984 + 7 * z**5 / 2592 - 35 * z**3 / 864 + 35 * z / 96 + 0.5


def o_quench(lgt, lg_qt, qlglgdt, lg_drop, lg_rejuv):
    # polynomial written independently of the code: integral of the triweight kernel
    lg_dt = 10.0**qlglgdt
    h = lg_dt / 12.0
    y = (np.asarray(lgt, float) - lg_qt) / h
    down = lg_drop * o_tw(y + 3)
    up = lg_drop - (lg_drop - lg_rejuv) * o_tw(y - 3)
    return 10.0 ** np.where(y < 0, down, up)


def o_eff(lgm, lgmcrit, lgy, lo, hi, k=9.0):
    sl = sigm(lgm, lgmcrit, k, lo, hi)
    return 10.0 ** (lgy + sl * (lgm - lgmcrit))


def o_ms(t, lgt0, fb_, p, mah):
    lgm = o_log_mah(t, mah, lgt0)
    return fb_ * 10.0**lgm * o_eff(lgm, p["lgmcrit"], p["lgy_at_mcrit"], p["indx_lo"], p["indx_hi"])


def o_sfh(t, lgt0, fb_, p, mah):
    t = np.asarray(t, float)
    q = o_quench(np.log10(t), *(p[x] for x in Q))
    return np.maximum(1e-14, o_ms(t, lgt0, fb_, p, mah) * q)


def o_smh(t, sfh):
    t = np.concatenate([[0.001], np.asarray(t, float)])
    s = np.concatenate([[1e-14], np.asarray(sfh, float)])
    return np.cumsum(0.5 * np.diff(t) * (s[1:] + s[:-1])) * 1e9


# ------------------------------------------------------------- spec-side terms

def t_sigm(x, x0, k, lo, hi):
    return lo + (hi - lo) * tm.sigma(k * (x - x0))


def t_tw(z):
    """triweight cumulative kernel as a term"""
    poly = (L("-5/69984") * tm.ipow(z, 7) + L("7/2592") * tm.ipow(z, 5)
            - L("35/864") * tm.ipow(z, 3) + L("35/96") * z + L("1/2"))
    return tm.ite(tm.lt(z, L(-3)), L(0), tm.ite(tm.lt(L(3), z), L(1), poly))


def t_quench_lg(lgt, lg_qt, qlglgdt, lg_drop, lg_rejuv):
    h = tm.pow10(qlglgdt) / 12
    y = (lgt - lg_qt) / h
    return tm.ite(tm.lt(y, L(0)), lg_drop * t_tw(y + 3),
                  lg_drop - (lg_drop - lg_rejuv) * t_tw(y - 3))


def t_log_mah(t, lgt0, mah_terms):
    """log10 halo mass: the dependency's accretion model, an uninterpreted function here"""
    return tm.uf("LOGMAH", *mah_terms, t, lgt0)


def t_dmhdt(t, lgt0, mah_terms):
    return tm.uf("DMHDT", *mah_terms, t, lgt0)


MAH_ASSUMED = ("diffmah (dependency): log10 halo mass and accretion rate are the scalar functions _log_mah_kern and "
               "_dmhdt_kern of (halo parameters, time, lgt0), applied element by element; nothing else is assumed of them")


MAHF = None


def mah_fields():
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS
    return DEFAULT_MAH_PARAMS._fields


def t_eff_lg(lgm, lgmcrit, lgy, lo, hi, k=9):
    return lgy + t_sigm(lgm, lgmcrit, L(k), lo, hi) * (lgm - lgmcrit)


def t_ms(t, lgt0, fb_, p, mah_terms):
    lgm = t_log_mah(t, lgt0, mah_terms)
    return fb_ * tm.pow10(lgm) * tm.pow10(t_eff_lg(lgm, *(p[x] for x in MS)))


def t_sfh(t, lgt0, fb_, p, mah_terms):
    qf = tm.pow10(t_quench_lg(tm.log10(t), *(p[x] for x in Q)))
    return tm.max_(L("1e-14"), qf * t_ms(t, lgt0, fb_, p, mah_terms))


# ------------------------------------------------------------- population model

import json as _json
import os as _os
_POP = _json.load(open(_os.path.join(_os.path.dirname(_os.path.dirname(_os.path.abspath(__file__))), "spec", "pop.json")))
POPB = _POP["param_bounds"]
CLIPB = _POP["clip_bounds"]
POPN = tuple(POPB)


def pb(p):
    lo, hi = POPB[p]
    return tm.const(lo), tm.const(hi)


def pbf(p):
    lo, hi = POPB[p]
    return float(lo), float(hi)


def rand_pop(rng, edge=0.15):
    """random population parameters strictly inside the declared ranges"""
    out = {}
    for p in POPN:
        lo, hi = pbf(p)
        if rng.random() < edge:
            f = rng.choice([1e-3, 0.999, 0.5])
        else:
            f = rng.uniform(0.02, 0.98)
        out[p] = float(lo + f * (hi - lo))
    return out


def pop_nt(d):
    from diffstar.diffstarpop import DiffstarPopParams
    return DiffstarPopParams(**d)


def popdef():
    from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_PARAMS
    return {k: float(x) for k, x in DEFAULT_DIFFSTARPOP_PARAMS._asdict().items()}


def pop_in(pre=""):
    from diffstar.diffstarpop import DiffstarPopParams
    return DiffstarPopParams._make([In(pre + f) for f in DiffstarPopParams._fields])


def pop_range(names=None, pre=""):
    out = []
    for p in names or POPN:
        lo, hi = pb(p)
        out += [tm.lt(lo, v(pre + p)), tm.lt(v(pre + p), hi)]
    return out


def mod_attr(modname, name):
    """attribute of a module of the code under test, None when a refactoring removed it"""
    import importlib
    try:
        m = importlib.import_module(modname)
    except ImportError:
        return None
    return getattr(m, name, None)


def sfh_call(p, mah, t, lgt0=None, fb_=0.156, smh=False):
    """real calc_sfh_singlegal on dict parameters"""
    import diffstar as ds
    lgt0 = math.log10(13.8) if lgt0 is None else lgt0
    sp = ds.DiffstarParams(**{k: p[k] for k in PN})
    return ds.calc_sfh_singlegal(sp, mah_nt(mah), jnp.array(t, dtype=float), lgt0=lgt0, fb=fb_, return_smh=smh)


def sym_sfh(M, n=2, return_smh=False, pre=""):
    """trace calc_sfh_singlegal with n symbolic times t(i); returns result"""
    import diffstar as ds
    D = Dims(n=n)
    out = M.call(ds.calc_sfh_singlegal, D, (nt_in(ds.DiffstarParams, (), pre), nt_in(mah_cls(), (), pre), In("t", ("n",))),
                 dict(lgt0=In("lgt0"), fb=In("fb")), dict(return_smh=return_smh))
    return out


def mah_cls():
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS
    return DEFAULT_MAH_PARAMS.__class__


def pvars(names=PN, pre=""):
    return {p: v(pre + p) for p in names}


def mvars(pre=""):
    return [v(pre + f) for f in mah_fields()]


def mah_facts(pre=""):
    """physical halo parameters: positive transition speed and peak time"""
    return []


def abstracter(get, name, key="t"):
    """generalisation: every occurrence of the terms get(e), for the e of the atoms key[e], becomes name[e] (any function of the index)"""
    def f(t):
        out, seen, st = set(), set(), [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "uf" and x.v[0] == key and len(x.a) == 1:
                out.add(x.a[0])
            st.extend(x.a)
        m = {}
        for e in sorted(out, key=lambda q: q.id):
            m[get(e)] = tm.uf(name, e)
        return tm.replace(t, m)
    return f


def abstract_table(get, table, key="t", name="SFH"):
    """(get', table') with table' = name[.], when replacing the table leaves nothing of its definition behind; else unchanged"""
    ab = abstracter(table, name, key)
    j = tm.ivar("i")
    def heads(t):
        return {x.v[0] for x in tm.atoms_of(t, lambda x: x.op == "uf" or (x.op == "var" and x.v[1] != "int"))} - {key, name}
    if any(heads(table(j)) & heads(ab(get(e))) for e in (L(0), j)):
        return get, table
    return (lambda e: ab(get(e))), (lambda e: tm.uf(name, e))
