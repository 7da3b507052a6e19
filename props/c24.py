"""C24 data loaders"""
import os
import inspect
import tempfile
import shutil
import h5py
from .common import *
from vc.pyvc import VM, XF, PArr, Opq, PList, PDict, SymSeq, Str, Fmt, ident_fn, strterm
from vc.pycontracts import H5Read, H5Write, Table, h5file, run_atom
from vc.pyrun import execute
from .c20 import imp
from .c21 import el, bind
import diffstar as ds

U = "diffstar.data_loaders.utils"
EX = "diffstar.data_loaders.extract_galacticus_sfh_data"
LG = "diffstar.data_loaders.load_galacticus_sfh"
LS = "diffstar.data_loaders.load_smah_data"
iv = tm.ivar
n, N, m, nt, c, w = (iv(x) for x in ("n", "N", "m", "nt", "c", "w"))
i, j, k = iv("i"), iv("j"), iv("k")
IS, IE = iv("istart"), iv("iend")
rng_facts = lambda q, hi: [tm.le(0, q), tm.lt(q, hi)]
FN, DRN = Opq(iv("FN")), Opq(iv("DRN"))
h5 = ident_fn(h5py.File)
NODE = ("Outputs", "Output1", "nodeData")


def uf1(nm, *pre):
    return lambda q: tm.uf(nm, *pre, q)


def is_arr(x, *shape):
    if not isinstance(x, PArr) or x.ndim != len(shape):
        return tm.FALSE
    return tm.and_(*[tm.eq(tm.lift(a), tm.lift(b)) for a, b in zip(x.shape, shape)])


def path(*parts):
    t = VM().ident(parts[0])
    for p in parts[1:]:
        t = tm.uf("path", t, VM().ident(p), sort="int")
    return t


class Row(SymSeq):
    """one row of a ragged data set: an array of arrays"""
    def py_getattr(self, vm, name):
        if name == "size":
            return self.n
        if name == "shape":
            return (self.n,)
        raise Unsupported("attribute " + name)


def opened(R, tag, o, *names):
    R.prove(tag + "reads the given file", o.ctx(), L(len(o.effects) >= 1 and all(e[0] == "r" and any(e[1] is q for q in names) for e in o.effects)))


def families(d):
    if not isinstance(d, PDict) or d.d or len(d.fam) != 1 or d.fam[0][0] != "seq":
        raise Unsupported("contents of the result")
    return d.fam[0][1:]


def sliced(R, tag, ctx, x, rows, src, start, end):
    """x holds the rows start <= r < end of a table of that many rows (python slice)"""
    a = tm.min_(start, rows)
    b = rows if end is None else tm.min_(end, rows)
    ln = tm.max_(b - a, L(0))
    if not isinstance(x, PArr) or x.ndim != 1:
        R.prove(tag + ": one-dimensional", ctx, tm.FALSE)
        return
    R.prove(tag + ": number of rows", ctx, tm.eq(tm.lift(x.shape[0]), ln))
    c2 = ctx.with_facts(rng_facts(i, ln))
    R.prove(tag + ": entry i is that of row start + i", c2, tm.eq(el(x, i), src(start + i)))


def flat_contract(vm_names):
    """contract of load_flat_hdf5: rows start <= r < end of every requested column under its name"""
    g = attr(imp(U), "load_flat_hdf5")

    def h(vm, node, *a, **kw):
        b = bind(g, a, kw)
        keys = b["keys"]
        if keys is None:
            return Opq(tm.uf("FLAT", *[vm.ident(b[x]) for x in ("fn", "istart", "iend")], sort="int"))
        r = PDict()
        for nm in vm.iterate(keys):
            if not isinstance(nm, str):
                raise Unsupported("column name")
            rows = tm.uf("rows", vm.ident(b["fn"]), strterm(nm), sort="int")
            src = lambda q, nm=nm: tm.uf("COL:" + nm, vm.ident(b["fn"]), q)
            s = tm.lift(b["istart"])
            a2 = tm.min_(s, rows)
            b2 = rows if b["iend"] is None else tm.min_(tm.lift(b["iend"]), rows)
            r.d[nm] = PArr((tm.max_(b2 - a2, L(0)),), lambda q, src=src, s=s: src(s + q))
        return r
    return ident_fn(g), h


def obligations(R):
    ranges = [tm.le(0, IS), tm.le(IS, IE)]
    R.assume("h5py files opened for reading by contract: datasets are arrays (trailing axes carried along as one cell), slices follow numpy; np.load returns the stored table; paths are opaque")
    R.assume("files are well formed: requested columns exist; a galaxy's star-formation data is empty or holds 2 m metallicity bins, m >= 1, and some galaxy has data")
    with R.section("flat tables", U + ".load_flat_hdf5"):
        f = attr(imp(U), "load_flat_hdf5")
        leaf = lambda p: PArr((tm.uf("rows", p[0], sort="int"),), uf1("D", p[0])) if len(p) == 1 and isinstance(p[0], tm.T) else None
        NAME = lambda q: tm.uf("NAME", q, sort="int")
        KEY = lambda q: tm.uf("KEY", q, sort="int")
        con = {h5: h5file(read=lambda vm, fn: H5Read(leaf, keys=lambda p: SymSeq(c, lambda q: Opq(NAME(q)))))}
        nk = iv("nk")
        for form, kw, src, num in (("every column", {}, NAME, c), ("requested columns", dict(keys=SymSeq(nk, lambda q: Opq(KEY(q)))), KEY, nk)):
            for sl, kw2, s, e in (("all rows", {}, L(0), None), ("rows from the start row", dict(istart=IS), IS, None),
                                  ("rows up to the end row", dict(iend=IE), L(0), IE), ("rows between", dict(istart=IS, iend=IE), IS, IE)):
                vm = VM(facts=[tm.le(0, c), tm.le(0, nk), *ranges], contracts=con)
                for q, o in enumerate(execute(R, vm, f, lambda: ((FN,), dict(kw, **kw2)), called=[h5])):
                    tag = f"{form}, {sl}, path {q}: "
                    opened(R, tag, o, FN)
                    cnt, key, val = families(o.value)
                    rows = tm.uf("rows", src(k), sort="int")
                    cx = o.ctx(*rng_facts(k, num), tm.le(0, rows))
                    R.prove(tag + "one entry per column", o.ctx(), tm.eq(tm.lift(cnt), num))
                    R.prove(tag + "under its name", cx, tm.eq(key(k), src(k)))
                    sliced(R, tag + "column", cx, val(k), rows, uf1("D", src(k)), s, e)
                    R.must_fail(tag + "false goal", cx, tm.eq(el(val(k), i), tm.uf("D", src(k), i + 1)))
    with R.section("merger-tree mass histories", EX + ".extract_galacticus_mah_tables"):
        f = attr(imp(EX), "extract_galacticus_mah_tables")
        ids = [f"haloAccretionHistory{x}" for x in ("Mass", "Time")] + ["nodeIsIsolated", "basicTimeLastIsolated"]
        leaf = lambda p: PArr((N,), uf1(p[3])) if p[:3] == NODE and len(p) == 4 and p[3] in ids else None
        con = {h5: h5file(read=lambda vm, fn: H5Read(leaf))}
        for sl, kw, s, e in (("all rows", {}, L(0), None), ("rows from the start row", dict(istart=IS), IS, None), ("rows between", dict(istart=IS, iend=IE), IS, IE)):
            vm = VM(facts=[tm.le(0, N), *ranges], contracts=con)
            for q, o in enumerate(execute(R, vm, f, lambda: ((FN,), kw), called=[h5])):
                tag = f"{sl}, path {q}: "
                opened(R, tag, o, FN)
                R.prove(tag + "four tables", o.ctx(), L(len(o.value) == 4))
                for nm, x in zip(ids, o.value):
                    sliced(R, tag + nm, o.ctx(), x, N, uf1(nm), s, e)
    with R.section("number of halos", EX + ".get_nhalos_tot"):
        f = attr(imp(EX), "get_nhalos_tot")
        for q, o in enumerate(execute(R, VM(facts=[tm.le(0, N)], contracts=con), f, lambda: ((FN,), {}), called=[h5])):
            R.prove(f"path {q}: one per mass history", o.ctx(), tm.eq(tm.lift(o.value), N))
    with R.section("merger-tree star formation histories", EX + ".extract_galacticus_sfh_tables"):
        f = attr(imp(EX), "extract_galacticus_sfh_tables")
        HAS = lambda q: tm.uf("HAS", q, sort="bool")
        X = lambda *a: tm.uf("X", *a)
        data = SymSeq(N, lambda g: Row(tm.ite(HAS(tm.lift(g)), 2 * m, L(0)), lambda b, g=g: PArr((nt,), lambda q: X(tm.lift(g), tm.lift(b), q))))
        leaf = lambda p: data if p == (*NODE, "COLUMN") else None

        def at(p, nm):
            if nm != "time":
                raise Unsupported("file attribute")
            return PArr((nt,), uf1("TIME"))
        con = {h5: h5file(read=lambda vm, fn: H5Read(leaf, attrs=at))}
        for sl, kw, s, e in (("all rows", {}, L(0), N), ("rows from the start row", dict(istart=IS), IS, N), ("rows between", dict(istart=IS, iend=IE), IS, IE)):
            vm = VM(facts=[*ranges, tm.le(IE, N), tm.le(1, m), tm.le(1, nt), tm.le(0, w), tm.lt(w, N), HAS(w)], contracts=con)
            vm.witnesses = [w]
            for q, o in enumerate(execute(R, vm, f, lambda: ((FN, "COLUMN"), kw), called=[h5])):
                tag = f"{sl}, path {q}: "
                opened(R, tag, o, FN)
                tot, ins, tarr = o.value
                for nm, x in (("total", tot), ("in situ", ins)):
                    R.prove(tag + nm + ": one row per requested galaxy, one column per time", o.ctx(), is_arr(x, e - s, nt))
                R.prove(tag + "times of the column", o.ctx(*rng_facts(k, nt)), tm.and_(is_arr(tarr, nt), tm.eq(el(tarr, k), tm.uf("TIME", k))))
                cx = o.ctx(*rng_facts(i, e - s), *rng_facts(k, nt))
                for has in (True, False):
                    h = HAS(s + i) if has else tm.not_(HAS(s + i))
                    for nm, x, lo in (("total", tot, L(0)), ("in situ", ins, m)):
                        want = tm.Sum(L(0), m, lambda b: X(s + i, lo + b, k)) if has else L(0)
                        R.eq(tag + nm + (": sum over its metallicity bins" if has else ": zero without data"), cx.with_facts([h]), el2(x, i, k), want)
                R.must_fail(tag + "false goal", cx, tm.eq(el2(tot, i, k), el2(ins, i, k)))
    flat, flat_h = flat_contract(None)
    with R.section("blocks of star formation histories", LG + ".load_galacticus_sfh_data_block"):
        f = attr(imp(LG), "load_galacticus_sfh_data_block")
        cols = ("sfh_in_situ", "sfh_tot", "is_cen")
        for q, o in enumerate(execute(R, VM(facts=ranges, contracts={flat: flat_h}), f, lambda: ((FN, IS, IE), {}), called=[flat])):
            tag = f"path {q}: "
            d = o.value.d
            R.prove(tag + "columns", o.ctx(), L(sorted(d) == sorted((*cols, "tarr"))))
            for nm in (*cols, "tarr"):
                rows = tm.uf("rows", FN.term, strterm(nm), sort="int")
                sliced(R, tag + nm, o.ctx(tm.le(0, rows)), d[nm], rows, uf1("COL:" + nm, FN.term), *((L(0), None) if nm == "tarr" else (IS, IE)))
    with R.section("halo fits", LS + ".load_smdpl_diffmah_fits"):
        f = attr(imp(LS), "load_smdpl_diffmah_fits")
        dk = attr(imp(LS), "dk")
        pn = dk.DEFAULT_MAH_PARAMS._fields
        ml = iv("npts_min")
        t0 = tm.var("t0")

        def halopop(vm, node, p, t, lg):
            ids = [vm.ident(vm.to_arr(x)) for x in p] + [vm.ident(vm.to_arr(t)), vm.ident(lg)]
            sh = (vm.to_arr(p[0]).shape[0], vm.to_arr(t).shape[0])
            return tuple(PArr(sh, lambda g, q, o=o: tm.uf(o, *ids, g, q)) for o in ("DMHDT", "LOGMAH"))
        hp = ident_fn(dk.mah_halopop)
        vm = VM(facts=[*ranges, tm.lt(0, t0)], contracts={flat: flat_h, hp: halopop})
        # every column of a table has the same number of rows
        fn = path(DRN, Opq(iv("BN")))
        rows = {nm: tm.uf("rows", fn, strterm(nm), sort="int") for nm in (*pn, "loss", "n_points_per_fit")}
        same = [tm.eq(rows[x], rows["loss"]) for x in rows if x != "loss"] + [tm.le(0, rows["loss"])]
        vm.facts += same
        for q, o in enumerate(execute(R, vm, f, lambda: ((Opq(iv("BN")),), dict(data_drn=DRN, npts_fit_min=ml, t0=t0, istart=IS, iend=IE)), called=[flat, hp])):
            tag = f"path {q}: "
            p, logmp0, loss, npts = o.value
            C = lambda nm: uf1("COL:" + nm, fn)
            for nm, x in (("loss", loss), ("n_points_per_fit", npts)):
                sliced(R, tag + nm, o.ctx(), x, rows[nm], C(nm), IS, IE)
            a = tm.min_(IS, rows["loss"])
            ln = tm.max_(tm.min_(IE, rows["loss"]) - a, L(0))
            no = lambda g: tm.or_(tm.lt(C("loss")(IS + g), 0), tm.lt(C("n_points_per_fit")(IS + g), ml))
            cx = o.ctx(*rng_facts(i, ln))
            R.prove(tag + "five parameters", o.ctx(), L(len(p) == 5 and p._fields == pn))
            for nm in pn:
                x = getattr(p, nm)
                R.prove(tag + nm + ": one per requested halo", o.ctx(), is_arr(x, ln))
                R.prove(tag + nm + ": the stored value of the halo, -1 without a fit", cx, tm.eq(el(x, i), tm.ite(no(i), L(-1), C(nm)(IS + i))))
            v0 = VM()
            filled = [PArr((ln,), lambda g, nm=nm: tm.ite(no(g), L(float(getattr(dk.DEFAULT_MAH_PARAMS, nm))), C(nm)(IS + g))) for nm in pn]
            R.prove(tag + "final mass: one per requested halo", o.ctx(), is_arr(logmp0, ln))
            lm = atoms1(el(logmp0, i), "LOGMAH")
            R.prove(tag + "final mass is that of the halo model at the final time", cx, tm.and_(tm.eq(el(logmp0, i), lm), tm.eq(lm.a[-2], i), tm.eq(lm.a[-1], L(0)), tm.eq(lm.a[-3], tm.log10(t0))))
            R.prove(tag + "at one time", cx, tm.eq(tm.body_at(lm.a[-4], L(0)), t0))
            for nm, y, z in zip(pn, lm.a, filled):
                R.prove(tag + f"final mass: {nm} of the fit, default without one", o.ctx(*rng_facts(j, ln)), tm.eq(tm.body_at(y, j), z.get(j)))
    with R.section("precomputed halo fits", LS + ".load_precomputed_diffmah_fits"):
        f = attr(imp(LS), "load_precomputed_diffmah_fits")
        g = attr(imp(LS), "load_smdpl_diffmah_fits")
        bn = lambda x: tm.uf(x, FN.term, sort="int")

        def h(vm, node, *a, **kw):
            b = bind(g, a, kw)
            ids = [vm.ident(b[x]) for x in ("basename", "data_drn", "npts_fit_min", "t0", "istart", "iend")]
            return tuple(Opq(tm.uf(f"FITS{q}", *ids, sort="int")) for q in range(4))
        for q, o in enumerate(execute(R, VM(contracts={ident_fn(g): h}), f, lambda: ((FN, t0), dict(npts_fit_min=ml, istart=IS, iend=IE)), called=[ident_fn(g)])):
            for b, x in enumerate(o.value):
                R.prove(f"path {q}: result {b} of the same file, cuts and rows", o.ctx(), tm.eq(x.term, tm.uf(f"FITS{b}", bn("basename"), bn("dirname"), ml, t0, IS, IE, sort="int")))
    with R.section("merger-tree target data", LG + ".load_galacticus_sfh_target_data"):
        f = attr(imp(LG), "load_galacticus_sfh_target_data")
        lg = imp(LG)
        comp = [f"delta_mstar_{a}_{b}" for a in ("in_situ", "tot") for b in ("bulge", "disk")]
        known = {path(DRN, nm + ".npy"): nm for nm in ("tarr_bulge", *comp)}

        def npload(vm, node, p, **kw):
            nm = known.get(vm.ident(p))
            if nm is None:
                raise Unsupported("another file")
            return PArr((nt,), uf1(nm)) if nm == "tarr_bulge" else PArr((n, nt), lambda a, b: tm.uf(nm, a, b))
        leaf = lambda p: PArr((n,), uf1("ISO")) if p == (*NODE, "nodeIsIsolated") else None

        def read(vm, p):
            if vm.ident(p) is not path(DRN, attr(lg, "BN_GALCUS")):
                raise Unsupported("another file")
            return H5Read(leaf)
        con = {ident_fn(np.load): npload, h5: h5file(read=read)}
        for q, o in enumerate(execute(R, VM(facts=[tm.le(1, n), tm.le(1, nt)], contracts=con), f, lambda: ((DRN,), {}), called=[ident_fn(np.load), h5])):
            tag = f"path {q}: "
            d = o.value.d
            R.prove(tag + "columns", o.ctx(), L(sorted(d) == sorted(("tarr", "sfh_in_situ", "sfh_tot", "is_cen"))))
            T_ = uf1("tarr_bulge")
            cx = o.ctx(*rng_facts(i, n), *rng_facts(k, nt))
            R.prove(tag + "times", cx, tm.and_(is_arr(d["tarr"], nt), tm.eq(el(d["tarr"], k), T_(k))))
            R.prove(tag + "central flag", cx, tm.and_(is_arr(d["is_cen"], n), tm.eq(el(d["is_cen"], i), tm.uf("ISO", i))))
            for nm, x in (("in_situ", d["sfh_in_situ"]), ("tot", d["sfh_tot"])):
                R.prove(tag + nm + ": one row per galaxy, one column per time", o.ctx(), is_arr(x, n, nt))
                for first in (True, False):
                    dt = T_(k) if first else T_(k) - T_(k - 1)
                    h = tm.eq(k, L(0)) if first else tm.lt(0, k)
                    want = (tm.uf(f"delta_mstar_{nm}_bulge", i, k) + tm.uf(f"delta_mstar_{nm}_disk", i, k)) / dt / 10**9
                    R.eq(tag + nm + ": bulge and disk mass formed per year of the " + ("first step" if first else "step"), cx.with_facts([h, tm.lt(0, dt)]), el2(x, i, k), want)
    with R.section("merger-tree target file", LG + ".write_galacticus_sfh_data_block"):
        f, g = attr(lg, "write_galacticus_sfh_data_block"), attr(lg, "load_galacticus_sfh_target_data")
        tgt = {nm: Opq(iv("TGT:" + nm)) for nm in ("tarr", "sfh_in_situ", "sfh_tot", "is_cen")}
        con = {ident_fn(g): lambda vm, node, drn: PDict(dict(tgt)), h5: h5file()}
        for q, o in enumerate(execute(R, VM(contracts=con), f, lambda: ((DRN,), {}), called=[ident_fn(g), h5])):
            R.prove(f"path {q}: one file", o.ctx(), L(len(o.effects) == 1 and VM().ident(o.effects[0][1]) is path(DRN, attr(lg, "BNAME_SFH_DATA"))))
            d = o.effects[0][2].w.d
            R.prove(f"path {q}: every column under its name", o.ctx(), L(sorted(d) == sorted(tgt) and all(d[x] is tgt[x] for x in tgt)))
    with R.section("merger-tree fits", LG + ".load_galacticus_diffstar_data"):
        f = attr(lg, "load_galacticus_diffstar_data")
        con = {flat: flat_h, ident_fn(g): lambda vm, node, drn: Opq(tm.uf("TARGET", vm.ident(drn), sort="int"))}
        A, B = Opq(iv("DSDRN")), Opq(iv("DMDRN"))
        whole = lambda d, b: tm.uf("FLAT", path(d, attr(lg, b)), L(0), iv("None"), sort="int")
        for q, o in enumerate(execute(R, VM(contracts=con), f, lambda: ((DRN,), dict(diffstar_drn=A, diffmah_drn=B)), called=[flat, ident_fn(g)])):
            r = o.value
            want = dict(diffmah_fit_data=whole(B, "BN_DIFFMAH"), diffstar_in_situ_fit_data=whole(A, "BN_DIFFSTAR_IN_SITU"),
                        diffstar_in_plus_ex_situ_fit_data=whole(A, "BN_DIFFSTAR_IN_PLUS_EX_SITU"), galcus_sfh_data=tm.uf("TARGET", DRN.term, sort="int"))
            R.prove(f"path {q}: four tables", o.ctx(), L(sorted(r._fields) == sorted(want)))
            for nm, x in want.items():
                R.prove(f"path {q}: {nm}", o.ctx(), tm.eq(getattr(r, nm).term, x))
    simulations(R)


def el2(x, a, b):
    x = x.get(a, b)
    if isinstance(x, XF):
        raise Unsupported("possibly-NaN entry")
    return x


def atoms1(t, nm):
    a = list(tm.atoms_of(tm.lift(t), lambda y: y.op == "uf" and y.v[0] == nm))
    if len(a) != 1:
        raise Unsupported("no single " + nm)
    return a[0]


# name, arguments, table file, time file, identifiers, rate field, halo field (scale), shape
SIMS = [
    ("load_bolshoi_data", "cens", "bpl_diffmah_{}.npy", "bpl_cosmic_time.npy", "halo_id", "sfr_history_main_prog", None),
    ("load_bolshoi_small_data", "sats", "um_histories_subsample_dr1_bpl_{}_diffmah.npy", "bpl_cosmic_time.npy", "halo_id", "sfr_history_main_prog", None),
    ("load_tng_data", None, "tng_diffmah.npy", "tng_cosmic_time.npy", None, "sfh", "mpeakh"),
    ("load_tng_small_data", "cens", "tng_small.npy", "tng_cosmic_time.npy", None, "sfh", None),
    ("load_mdpl_data", "orphans", "mdpl2_diffmah_{}.npy", "mdpl2_cosmic_time.npy", "halo_id", "sfr_history_main_prog", None),
    ("load_mdpl_small_data", "cens", "um_histories_dr1_mdpl2_small_{}.npy", "mdpl2_cosmic_time.npy", "halo_id", "sfr_history_main_prog", None),
]
MOCKS = [("load_SMDPL_nomerging_data", "sfr_history_main_prog"), ("load_SMDPL_DR1_data", "sfr_history_all_prog")]


def simulations(R):
    ls = imp(LS)
    cum = attr(ls, "cumulative_mstar_formed_galpop")

    def mstar(vm, node, *a, **kw):
        b = bind(cum, a, kw)
        s = vm.to_arr(b["sfh"] if "sfh" in b else list(b.values())[1])
        ids = [vm.ident(vm.to_arr(list(b.values())[0])), vm.ident(s), *[vm.ident(x) for x in list(b.values())[2:]]]
        return PArr(s.shape, lambda g, q: tm.uf("MSTAR", *ids, g, q))
    defaults = [VM().ident(p.default) for p in list(inspect.signature(cum).parameters.values())[2:]]
    A2 = lambda nm: PArr((n, nt), lambda a, b: tm.uf(nm, a, b))
    times = PArr((nt,), uf1("TIME"))

    def common(R, tag, o, ids, lsm, sfr, t, rate):
        cx = o.ctx(*rng_facts(i, n), *rng_facts(k, nt))
        v0 = VM()
        M = tm.uf("MSTAR", v0.ident(times), v0.ident(A2(rate)), *defaults, i, k)
        R.prove(tag + "rates of every galaxy", cx, tm.and_(is_arr(sfr, n, nt), tm.eq(el2(sfr, i, k), tm.uf(rate, i, k))))
        R.prove(tag + "times", cx, tm.and_(is_arr(t, nt), tm.eq(el(t, k), tm.uf("TIME", k))))
        R.eq(tag + "log of the mass formed by those rates", cx.with_facts([tm.lt(0, M)]), el2(lsm, i, k), tm.log10(M))
        R.prove(tag + "masses: one row per galaxy, one column per time", o.ctx(), is_arr(lsm, n, nt))
        R.prove(tag + "identifiers", cx, tm.and_(is_arr(ids[0], n), tm.eq(el(ids[0], i), ids[1])))
        return cx
    for name, arg, table, tfile, idf, rate, halo in SIMS:
        with R.section("simulation " + name, LS + "." + name):
            f = attr(ls, name)

            def npload(vm, node, p, **kw):
                p = vm.ident(p)
                if p is path(DRN, tfile):
                    return times
                if p is not path(DRN, table.format(arg)):
                    raise Unsupported("another file")
                return Table(lambda nm: PArr((n,), uf1(nm)) if nm in ("halo_id", "mpeak") else A2(nm))
            vm = VM(facts=[tm.le(1, n), tm.le(1, nt)], contracts={ident_fn(np.load): npload, ident_fn(cum): mstar})
            for q, o in enumerate(execute(R, vm, f, lambda: (() if arg is None else (arg,), dict(data_drn=DRN)), called=[ident_fn(np.load), ident_fn(cum)])):
                tag = f"path {q}: "
                r = o.value
                cx = common(R, tag, o, (r[0], tm.uf("halo_id", i) if idf else i), r[1], r[2], r[3], rate)
                if halo:
                    lg = lambda g: (lambda b: tm.uf(halo, g, b) - tm.log10(L(attr(ls, "H_TNG"))))
                    want = lambda q: run_atom(VM(), "maximum", nt, lg(i), q)
                    R.prove(tag + "halo histories are the running peak", cx, tm.and_(is_arr(r[4], n, nt), tm.eq(el2(r[4], i, k), want(k))))
                    R.prove(tag + "final halo masses", cx, tm.and_(is_arr(r[5], n), tm.eq(el(r[5], i), want(nt - 1))))
    had = {x: getattr(ls, x, None) for x in ("HAS_UM_LOADER", "load_mock_from_binaries")}
    for name, rate in MOCKS:
        with R.section("simulation " + name, LS + "." + name):
            f = attr(ls, name)
            R.assume("umachine_pyio is not installed: load_mock_from_binaries by contract (the requested columns of the requested subvolumes)")

            def mock(subvols, root_dirname=None, galprops=None):
                raise AssertionError

            def mock_h(vm, node, subvols, root_dirname=None, galprops=None):
                if VM().ident(root_dirname) is not DRN.term or VM().ident(subvols) is not iv("SUBVOLS"):
                    raise Unsupported("another mock")
                props = vm.iterate(galprops)

                def field(nm):
                    if nm not in props:
                        raise Unsupported("column was not requested")
                    return PArr((n,), uf1(nm)) if nm == "halo_id" else A2(nm)
                return Table(field)

            def loadtxt(vm, node, p, **kw):
                if vm.ident(p) is not path(DRN, "smdpl_cosmic_time.txt"):
                    raise Unsupported("another file")
                return times
            try:
                ls.HAS_UM_LOADER, ls.load_mock_from_binaries = True, mock
                vm = VM(facts=[tm.le(1, n), tm.le(1, nt)], contracts={ident_fn(mock): mock_h, ident_fn(np.loadtxt): loadtxt, ident_fn(cum): mstar})
                outs = execute(R, vm, f, lambda: ((Opq(iv("SUBVOLS")),), dict(data_drn=DRN)), called=[ident_fn(mock), ident_fn(np.loadtxt), ident_fn(cum)])
                for q, o in enumerate(outs):
                    tag = f"path {q}: "
                    r = o.value
                    cx = common(R, tag, o, (r[0], tm.uf("halo_id", i)), r[1], r[2], r[3], rate)
                    H = lambda b: tm.uf("mpeak_history_main_prog", i, b)
                    lm = el2(r[4], i, k)
                    at = atoms1(lm, "running:maximum")
                    R.prove(tag + "halo histories are a running peak", cx, tm.and_(is_arr(r[4], n, nt), tm.eq(lm, at), tm.eq(at.a[-1], k)))
                    b = tm.body_at(at.a[0], j)
                    cj = cx.with_facts(rng_facts(j, nt))
                    R.eq(tag + "of the log halo mass", cj.with_facts([tm.le(10**7, H(j))]), b, tm.log10(H(j)))
                    R.eq(tag + "of zero below the mass floor", cj.with_facts([tm.lt(H(j), 10**7)]), b, L(0))
                    R.prove(tag + "final halo masses", cx, tm.and_(is_arr(r[5], n), tm.eq(el(r[5], i), tm.subst(lm, {k: nt - 1}))))
            finally:
                for x, y in had.items():
                    if y is None and x != "HAS_UM_LOADER":
                        delattr(ls, x)
                    else:
                        setattr(ls, x, y)


# ------------------------------------------------------------------ concrete runs

class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp()
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def pick_range(rng, k):
    a = int(rng.integers(0, k))
    b = int(rng.integers(a, k + 1))
    return [None, None] if rng.random() < .2 else [a, None] if rng.random() < .3 else [None, b] if rng.random() < .2 else [a, b]


def kwargs_of(r):
    return {x: y for x, y in zip(("istart", "iend"), r) if y is not None}


def same(name, got, want):
    got, want = np.asarray(got), np.asarray(want)
    must(got.shape == want.shape, f"{name}: shape {got.shape}, expected {want.shape}")
    must(np.array_equal(got, want), f"{name}: got {got.ravel()[:5]}, expected {want.ravel()[:5]}")


def cases(R):
    def g_flat(rng):
        rows = int(rng.choice([1, 3, 9]))
        names = ["halo_id", "logm0", "sfh", "a", "Z", "tarr"][:int(rng.integers(1, 7))]
        req = None if rng.random() < .4 else [str(x) for x in rng.permutation(names)[:int(rng.integers(1, len(names) + 1))]]
        return dict(rows=rows, names=names, req=req, kind=str(rng.choice(["list", "tuple"])), rng=pick_range(rng, rows), seed=int(rng.integers(10**6)))

    def r_flat(inp):
        f = attr(imp(U), "load_flat_hdf5")
        rng = np.random.default_rng(inp["seed"])
        dat = {}
        for nm in inp["names"]:
            q = inp["rows"]
            dat[nm] = rng.integers(2**60, 2**62, q) if nm == "halo_id" else rng.normal(size=(q, 4)) if nm == "sfh" else rng.normal(size=q).astype("f4" if nm == "a" else "f8")
        with Scratch() as d:
            fn = os.path.join(d, "t.h5")
            with h5py.File(fn, "w") as hdf:
                for nm, x in dat.items():
                    hdf[nm] = x
            kw = kwargs_of(inp["rng"])
            if inp["req"] is not None:
                kw["keys"] = list(inp["req"]) if inp["kind"] == "list" else tuple(inp["req"])
            got = f(fn, **kw)
            want = inp["req"] or inp["names"]
            must(sorted(got) == sorted(want), f"columns {list(got)}")
            a, b = inp["rng"]
            for nm in want:
                same(nm, got[nm], dat[nm][(a or 0):(inp["rows"] if b is None else b)])
                must(np.asarray(got[nm]).dtype == dat[nm].dtype, "type of " + nm)
            if "tarr" in inp["names"] and len(inp["names"]) == 6:
                pass
    R.case("flat_tables", g_flat, r_flat, n=40, n_deep=300)

    def g_block(rng):
        rows = int(rng.choice([2, 6]))
        a = int(rng.integers(0, rows))
        return dict(rows=rows, nt=int(rng.choice([3, 8])), istart=a, iend=int(rng.integers(a, rows + 1)), seed=int(rng.integers(10**6)))

    def r_block(inp):
        """target data, the block file written from them, and blocks read back"""
        lg = imp(LG)
        rng = np.random.default_rng(inp["seed"])
        q, nt_ = inp["rows"], inp["nt"]
        with Scratch() as d:
            t = np.sort(rng.uniform(.1, 13.8, nt_))
            np.save(os.path.join(d, "tarr_bulge"), t)
            raw = {f"{a}_{b}": rng.lognormal(18, 2, (q, nt_)) for a in ("in_situ", "tot") for b in ("bulge", "disk")}
            for nm, x in raw.items():
                np.save(os.path.join(d, "delta_mstar_" + nm), x)
            iso = rng.integers(0, 2, q)
            with h5py.File(os.path.join(d, attr(lg, "BN_GALCUS")), "w") as hdf:
                hdf["Outputs/Output1/nodeData/nodeIsIsolated"] = iso
            dt = np.diff([0, *t])
            want = {"sfh_" + a: (raw[a + "_bulge"] + raw[a + "_disk"]) / dt / 1e9 for a in ("in_situ", "tot")}
            got = attr(lg, "load_galacticus_sfh_target_data")(d)
            must(sorted(got) == ["is_cen", "sfh_in_situ", "sfh_tot", "tarr"], "columns")
            for nm, x in want.items():
                close(nm, got[nm], x, rtol=1e-12)
            same("tarr", got["tarr"], t)
            same("is_cen", got["is_cen"], iso)
            attr(lg, "write_galacticus_sfh_data_block")(d)
            fn = os.path.join(d, attr(lg, "BNAME_SFH_DATA"))
            blk = attr(lg, "load_galacticus_sfh_data_block")(fn, inp["istart"], inp["iend"])
            must(sorted(blk) == ["is_cen", "sfh_in_situ", "sfh_tot", "tarr"], "columns of a block")
            s = slice(inp["istart"], inp["iend"])
            for nm in ("sfh_in_situ", "sfh_tot", "is_cen"):
                same("block " + nm, blk[nm], got[nm][s])
            same("block tarr", blk["tarr"], t)
            # fit tables
            A, B = os.path.join(d, "A"), os.path.join(d, "B")
            os.mkdir(A)
            os.mkdir(B)
            for dr, b, z in ((B, "BN_DIFFMAH", 1), (A, "BN_DIFFSTAR_IN_SITU", 2), (A, "BN_DIFFSTAR_IN_PLUS_EX_SITU", 3)):
                with h5py.File(os.path.join(dr, attr(lg, b)), "w") as hdf:
                    hdf["loss"] = np.arange(q) + z * 100
            r = attr(lg, "load_galacticus_diffstar_data")(d, diffstar_drn=A, diffmah_drn=B)
            for nm, z in (("diffmah_fit_data", 1), ("diffstar_in_situ_fit_data", 2), ("diffstar_in_plus_ex_situ_fit_data", 3)):
                must(list(attr(r, nm)) == ["loss"], nm)
                same(nm, attr(r, nm)["loss"], np.arange(q) + z * 100)
            same("target rates", attr(r, "galcus_sfh_data")["sfh_tot"], got["sfh_tot"])
    R.case("target_data", g_block, r_block, n=8, n_deep=60)

    def g_tree(rng):
        rows = int(rng.choice([1, 4, 8]))
        has = [bool(x) for x in rng.random(rows) < .6]
        has[int(rng.integers(rows))] = True
        a = int(rng.integers(0, rows))
        return dict(has=has, m=int(rng.choice([1, 2, 3])), nt=int(rng.choice([1, 4])), rng=pick_range(rng, rows), seed=int(rng.integers(10**6)))

    def r_tree(inp):
        ex = imp(EX)
        rng = np.random.default_rng(inp["seed"])
        rows, mm, nt_ = len(inp["has"]), inp["m"], inp["nt"]
        a, b = inp["rng"]
        s = slice(a or 0, rows if b is None else b)
        with Scratch() as d:
            fn = os.path.join(d, "t.h5")
            dt = h5py.vlen_dtype(h5py.vlen_dtype(np.float64))
            tot, ins = np.zeros((rows, nt_)), np.zeros((rows, nt_))
            cols = {}
            with h5py.File(fn, "w") as hdf:
                g = hdf.create_group("Outputs/Output1/nodeData")
                for cn in ("disk", "spheroid"):
                    ds_ = g.create_dataset(cn, (rows,), dtype=dt)
                    tot, ins = np.zeros((rows, nt_)), np.zeros((rows, nt_))
                    for q in range(rows):
                        if inp["has"][q]:
                            x = rng.lognormal(5, 1, (2 * mm, nt_))
                            o = np.empty(2 * mm, dtype=object)
                            for z in range(2 * mm):
                                o[z] = x[z]
                            ds_[q] = o
                            tot[q], ins[q] = x[:mm].sum(0), x[mm:].sum(0)
                    ds_.attrs["time"] = np.arange(nt_) + (1. if cn == "disk" else 2.)
                    cols[cn] = (tot, ins, np.arange(nt_) + (1. if cn == "disk" else 2.))
                mah = rng.normal(size=(4, rows))
                for q, nm in enumerate(("haloAccretionHistoryMass", "haloAccretionHistoryTime", "nodeIsIsolated", "basicTimeLastIsolated")):
                    g[nm] = mah[q]
            for cn, (tot, ins, t) in cols.items():
                got = attr(ex, "extract_galacticus_sfh_tables")(fn, cn, **kwargs_of(inp["rng"]))
                must(len(got) == 3, "three results")
                for nm, x, y in (("total", got[0], tot), ("in situ", got[1], ins)):
                    must(np.shape(x) == y[s].shape, f"{nm}: shape {np.shape(x)}")
                    close(nm, x, y[s], rtol=1e-12) if y[s].size else None
                same("times", got[2], t)
            got = attr(ex, "extract_galacticus_mah_tables")(fn, **kwargs_of(inp["rng"]))
            must(len(got) == 4, "four tables")
            for q in range(4):
                same(f"mass history table {q}", got[q], mah[q][s])
            must(int(attr(ex, "get_nhalos_tot")(fn)) == rows, "number of halos")
    R.case("merger_trees", g_tree, r_tree, n=30, n_deep=200,
           first=[dict(has=[False, True, False, True, True], m=2, nt=3, rng=[2, 5], seed=1), dict(has=[True, False], m=1, nt=1, rng=[1, None], seed=2)])

    def g_fits(rng):
        rows = int(rng.choice([1, 5]))
        return dict(rows=rows, rng=pick_range(rng, rows), seed=int(rng.integers(10**6)), t0=float(rng.uniform(13, 14.5)), cut=int(rng.choice([5, 2, 9])))

    def r_fits(inp):
        ls = imp(LS)
        dk = attr(ls, "dk")
        rng = np.random.default_rng(inp["seed"])
        q = inp["rows"]
        mah = [rand_mah(rng) for _ in range(q)]
        pn = dk.DEFAULT_MAH_PARAMS._fields
        dat = {nm: np.array([z[b] if not isinstance(z, dict) else z[nm] for z in mah]) for b, nm in enumerate(pn)}
        dat["loss"] = rng.choice([-1.0, 0.0, 0.01], q)
        dat["n_points_per_fit"] = rng.integers(0, 12, q)
        no = (dat["loss"] < 0) | (dat["n_points_per_fit"] < inp["cut"])
        a, b = inp["rng"]
        s = slice(a or 0, q if b is None else b)
        with Scratch() as d:
            with h5py.File(os.path.join(d, "f.h5"), "w") as hdf:
                for nm, x in dat.items():
                    hdf[nm] = x
            kw = dict(t0=inp["t0"], npts_fit_min=inp["cut"], **kwargs_of(inp["rng"]))
            r1 = attr(ls, "load_smdpl_diffmah_fits")("f.h5", data_drn=d, **kw)
            t0 = kw.pop("t0")
            r2 = attr(ls, "load_precomputed_diffmah_fits")(os.path.join(d, "f.h5"), t0, **kw)
        for r in (r1, r2):
            p, lm, loss, npts = r
            must(tuple(p._fields) == tuple(pn), "parameter names")
            for nm in pn:
                same(nm, getattr(p, nm), np.where(no, -1.0, dat[nm])[s])
            same("loss", loss, dat["loss"][s])
            same("points", npts, dat["n_points_per_fit"][s])
            fill = [np.where(no, getattr(dk.DEFAULT_MAH_PARAMS, nm), dat[nm])[s] for nm in pn]
            if len(fill[0]):
                want = np.array([np.asarray(dk.mah_singlehalo(dk.DEFAULT_MAH_PARAMS._make([float(z[g]) for z in fill]), np.array([t0]), np.log10(t0))[1])[0] for g in range(len(fill[0]))])
                close("final mass", lm, want, rtol=1e-9)
            must(np.shape(lm) == fill[0].shape, "shape of the final mass")
    R.case("halo_fits", g_fits, r_fits, n=6, n_deep=40)

    def g_sim(rng):
        return dict(rows=int(rng.choice([1, 3])), nt=int(rng.choice([3, 6])), seed=int(rng.integers(10**6)))

    def r_sim(inp):
        ls = imp(LS)
        rng = np.random.default_rng(inp["seed"])
        q, nt_ = inp["rows"], inp["nt"]
        t = np.sort(rng.uniform(.3, 13.8, nt_))

        def check(name, r, ids, sfr):
            same(name + " identifiers", r[0], ids)
            same(name + " rates", r[2], sfr)
            same(name + " times", r[3], t)
            close(name + " log masses", r[1], np.log10([o_smh(t, x) for x in sfr]), rtol=1e-6, atol=1e-6)
        for name, arg, table, tfile, idf, rate, halo in SIMS:
            dt = [(rate, "f8", (nt_,)), ("mpeakh", "f8", (nt_,)), ("mpeak", "f8"), ("halo_id", "i8")]
            x = np.zeros(q, dtype=dt)
            x[rate] = rng.lognormal(0, 1, (q, nt_))
            x["mpeakh"] = rng.uniform(10, 14, (q, nt_))
            x["halo_id"] = rng.integers(2**60, 2**62, q)
            with Scratch() as d:
                np.save(os.path.join(d, table.format(arg)), x)
                np.save(os.path.join(d, tfile), t)
                r = attr(ls, name)(*([] if arg is None else [arg]), data_drn=d)
            check(name, r, x["halo_id"] if idf else np.arange(q), x[rate])
            if halo:
                lm = np.maximum.accumulate(x["mpeakh"] - np.log10(0.6774), axis=1)
                close("halo histories", r[4], lm, rtol=1e-12)
                close("final halo masses", r[5], lm[:, -1], rtol=1e-12)
        had = {x: getattr(ls, x, None) for x in ("HAS_UM_LOADER", "load_mock_from_binaries")}
        for name, rate in MOCKS:
            allc = {"halo_id": rng.integers(2**60, 2**62, q), "sfr_history_main_prog": rng.lognormal(0, 1, (q, nt_)), "sfr_history_all_prog": rng.lognormal(0, 1, (q, nt_)),
                    "mpeak_history_main_prog": rng.choice([0., 5e6, 1e7, 3e9, 1e12], (q, nt_))}
            seen = []

            def mock(subvols, root_dirname=None, galprops=None):
                seen.append((list(subvols), root_dirname))
                return {z: allc[z] for z in galprops}
            with Scratch() as d:
                np.savetxt(os.path.join(d, "smdpl_cosmic_time.txt"), t)
                tt = np.loadtxt(os.path.join(d, "smdpl_cosmic_time.txt"))
                try:
                    ls.HAS_UM_LOADER, ls.load_mock_from_binaries = True, mock
                    r = attr(ls, name)([3, 5], data_drn=d)
                finally:
                    for x, y in had.items():
                        if y is None and x != "HAS_UM_LOADER":
                            delattr(ls, x)
                        else:
                            setattr(ls, x, y)
                must(seen == [([3, 5], d)], "requested subvolumes")
            t, keep = tt, t
            check(name, r, allc["halo_id"], allc[rate])
            t = keep
            mp = allc["mpeak_history_main_prog"]
            lm = np.maximum.accumulate(np.log10(np.where(mp < 1e7, 1, mp)), axis=1)
            close(name + " halo histories", r[4], lm, rtol=1e-12, atol=1e-12)
            close(name + " final halo masses", r[5], lm[:, -1], rtol=1e-12, atol=1e-12)
    R.case("simulations", g_sim, r_sim, n=2, n_deep=12)
