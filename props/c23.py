"""C23 layout of the fit output"""
import os
import re
import tempfile
import shutil
import h5py
from .common import *
from vc.pyvc import VM, XF, PArr, Opq, PList, Str, Fmt, SymSeq, ident_fn, strterm
from vc.pycontracts import H5Read, h5file
from vc.pyrun import execute
from .c20 import imp
from .c21 import el
import diffstar as ds

FF = "diffstar.fitting_helpers.diffstar_fitting_helpers"
LD = "diffstar.data_loaders.load_smah_data"
PARS = list(PN)
COLS = ["halo_id", *PARS, "loss", "success"]
n, c = tm.ivar("n"), tm.ivar("c")
i, q = tm.ivar("i"), tm.ivar("q")


def tokens(s):
    """white-space separated fields of one line; a field is a list of literal and formatted parts"""
    parts = s.parts if isinstance(s, Str) else (s,)
    out, cur = [], []
    for p in parts:
        if not isinstance(p, str):
            cur.append(p)
            continue
        for k, w in enumerate(re.split(r"\s+", p)):
            if k:
                if cur:
                    out.append(cur)
                cur = []
            if w:
                cur.append(w)
    if cur:
        out.append(cur)
    return out


def one_line(s):
    parts = s.parts if isinstance(s, Str) else (s,)
    if not isinstance(parts[-1], str):
        return False
    return parts[-1].endswith("\n") and sum(p.count("\n") for p in parts if isinstance(p, str)) == 1


def value(tok, integer=False):
    """the number a field is the text of"""
    if len(tok) != 1:
        raise Unsupported("field of several parts")
    t = tok[0]
    if isinstance(t, str):
        try:
            return L(int(t)) if integer else L(float(t))
        except ValueError:
            raise Unsupported("field is no number")
    ok = {"str", "", "d"} if integer else {"str", "", "r"}
    m = re.fullmatch(r"\.(\d+)e", t.spec)
    if not (t.spec in ok or (m and int(m[1]) >= 5 and not integer)):
        raise Unsupported("number format " + t.spec)
    if isinstance(t.value, (XF, PArr)):
        raise Unsupported("formatted value")
    return tm.lift(t.value)


def row(R, tag, o, want):
    R.prove(tag + "is one line", o.ctx(), L(one_line(o.value)))
    tk = tokens(o.value)
    R.prove(tag + "one field per header column", o.ctx(), L(len(tk) == len(COLS)))
    if len(tk) != len(COLS):
        return
    for k, (nm, w) in enumerate(zip(COLS, want)):
        v = value(tk[k], nm in ("halo_id", "success"))
        stored = tm.uf("f4", w) if w.op != "const" else w
        R.prove(tag + f"column {k} holds {nm}", o.ctx(), L(True) if v is stored else tm.eq(v, w))


def obligations(R):
    m = imp(FF)
    R.assume("text formatting of numbers ('.5e', str) and of strings by contract; numbers are read back as written")
    R.assume("h5py.File opened for writing is a mapping from distinct names to arrays; opened for reading it returns what was stored (contract H5Write/H5Read)")
    R.assume("astype of text parses the number the text stands for (int and float parses are separate functions); float to int truncates; 'f4' storage rounding is an uninterpreted function")
    HID, LOSS, SUC = tm.ivar("HID"), tm.var("LOSS"), tm.ivar("SUC")
    with R.section("header", FF + ".get_header"):
        for k, o in enumerate(execute(R, VM(), attr(m, "get_header"), lambda: ((), {}))):
            tag = f"path {k}: "
            s, names = o.value
            got = list(names.items) if isinstance(names, PList) and names.prefix is None else list(names)
            R.prove(tag + "column names in order", o.ctx(), L(got == COLS))
            R.prove(tag + "no name twice", o.ctx(), L(len(set(got)) == len(got)))
            if not isinstance(s, str):
                raise Unsupported("symbolic header")
            R.prove(tag + "header line is a comment listing the columns", o.ctx(), L(one_line(s) and s.startswith("#") and s[1:].split() == COLS))
    with R.section("row of a fit", FF + ".get_outline"):
        f = attr(m, "get_outline")
        P = lambda: PArr((8,), lambda k: tm.uf("P", k))
        want = [HID, *[tm.uf("P", L(k)) for k in range(8)], LOSS, SUC]
        for form, p in (("array", P), ("tuple", lambda: tuple(tm.uf("P", L(k)) for k in range(8)))):
            for k, o in enumerate(execute(R, VM(), f, lambda: ((HID, p(), LOSS, SUC), {}))):
                row(R, f"{form} path {k}: ", o, want)
                R.must_fail(f"{form} path {k}: false goal", o.ctx(), tm.eq(value(tokens(o.value)[0], True), SUC))
    with R.section("row of a galaxy without a fit", FF + ".get_outline_nofit"):
        for k, o in enumerate(execute(R, VM(), attr(m, "get_outline_nofit"), lambda: ((HID,), {}))):
            row(R, f"path {k}: ", o, [HID] + [L(-99)] * 8 + [L(-1), L(-1)])
    with R.section("collated file", FF + ".write_collated_data"):
        f = attr(m, "write_collated_data")
        FN = Opq(tm.ivar("FN"))
        con = {ident_fn(h5py.File): h5file()}
        isint = lambda nm: tm.or_(tm.eq(nm, strterm("halo_id")), tm.eq(nm, strterm("success")))

        def cell(kind, want):
            if kind == "str":
                return lambda a, b: tm.uf("parse:" + want, tm.uf("D", a, b, sort="int"), sort=want)
            return lambda a, b: tm.uf("int", tm.uf("D", a, b), sort="int") if want == "int" else tm.uf("D", a, b)

        def table(kind, cols):
            return PArr((n, cols), (lambda a, b: Opq(tm.uf("D", a, b, sort="int"))) if kind == "str" else (lambda a, b: tm.uf("D", a, b)), kind)

        def written(R, tag, o):
            ws = [e for e in o.effects if e[0] == "w"]
            R.prove(tag + "one file is written", o.ctx(), L(len(ws) == 1 and len(o.effects) == 1))
            R.prove(tag + "under the given name", o.ctx(), L(ws[0][1] is FN))
            return ws[0][2].w
        for kind in ("str", "real"):
            base = f"{kind} cells: "
            # any names, any number of columns
            COL = lambda k: tm.uf("COL", k, sort="int")
            cc = tm.ivar("cc")
            vm = VM(facts=[tm.le(1, n), tm.le(1, c), tm.le(0, cc)], contracts=con)
            outs = execute(R, vm, f, lambda: ((FN, table(kind, c), SymSeq(cc, lambda k: Opq(COL(k)))), {}), called=[ident_fn(h5py.File)], kinds=("return", "raise"))
            for k, o in enumerate(outs):
                tag = base + f"path {k}: "
                if o.kind == "raise":
                    R.prove(tag + "rejected only when names and columns differ in number", o.ctx(), tm.not_(tm.eq(c, cc)))
                    continue
                R.prove(tag + "accepted only with one name per column", o.ctx(), tm.eq(c, cc))
                w = written(R, tag, o)
                if w.d or len(w.fam) != 1 or w.fam[0][0] != "seq":
                    raise Unsupported("contents of the file")
                _, num, key, val = w.fam[0]
                R.prove(tag + "one data set per column", o.ctx(), tm.eq(tm.lift(num), c))
                cx = o.ctx(tm.le(0, q), tm.lt(q, c), tm.le(0, i), tm.lt(i, n))
                R.prove(tag + "named after its column", cx, tm.eq(key(q), COL(q)))
                v = val(q)
                R.prove(tag + "one entry per row", cx, tm.eq(tm.lift(v.shape[0]), n) if v.ndim == 1 else tm.FALSE)
                R.prove(tag + "identifier and flag columns hold the column's integers", cx.with_facts([isint(COL(q))]), tm.eq(el(v, i), cell(kind, "int")(i, q)))
                R.prove(tag + "other columns hold the column's numbers", cx.with_facts([tm.not_(isint(COL(q)))]), tm.eq(el(v, i), cell(kind, "real")(i, q)))
                R.must_fail(tag + "false goal", cx, tm.eq(el(v, i), cell(kind, "real")(i, L(0))))
            # the names of the header
            vm = VM(facts=[tm.le(1, n)], contracts=con)
            outs = execute(R, vm, f, lambda: ((FN, table(kind, len(COLS)), PList(list(COLS))), {}), called=[ident_fn(h5py.File)])
            for k, o in enumerate(outs):
                tag = base + f"fit columns path {k}: "
                w = written(R, tag, o)
                R.prove(tag + "data sets", o.ctx(), L(sorted(w.d) == sorted(COLS) and not w.fam))
                for b, nm in enumerate(COLS):
                    v = w.d[nm]
                    want = "int" if nm in ("halo_id", "success") else "real"
                    R.prove(tag + nm, o.ctx(tm.le(0, i), tm.lt(i, n)), tm.and_(tm.eq(tm.lift(v.shape[0]), n), L(v.ndim == 1 and v.kind == want), tm.eq(el(v, i), cell(kind, want)(i, L(b)))))
    with R.section("fit file read back", LD + ".load_fit_sfh"):
        f = attr(imp(LD), "load_fit_sfh")
        ids = {}

        def leaf(path):
            if len(path) != 1 or not isinstance(path[0], str) or path[0] not in COLS:
                raise Unsupported("other data set")
            return PArr((n,), lambda k: tm.uf("F:" + path[0], k))
        con = {ident_fn(h5py.File): h5file(read=lambda vm, fn: H5Read(leaf))}
        vm = VM(facts=[tm.le(0, n)], contracts=con)
        for k, o in enumerate(execute(R, vm, f, lambda: ((Opq(tm.ivar("BN")),), dict(data_drn=Opq(tm.ivar("DRN")))), called=[ident_fn(h5py.File)])):
            tag = f"path {k}: "
            R.prove(tag + "the named file", o.ctx(), tm.eq(VM().ident(o.effects[0][1]), tm.uf("path", tm.ivar("DRN"), tm.ivar("BN"), sort="int")))
            ms, qq = o.value
            for nm, x, names in (("main sequence", ms, PARS[:4]), ("quenching", qq, PARS[4:])):
                R.prove(tag + nm + ": one row per galaxy, one column per parameter", o.ctx(), tm.and_(L(x.ndim == 2), tm.eq(tm.lift(x.shape[0]), n), tm.eq(tm.lift(x.shape[1]), L(4))))
                for b, pn in enumerate(names):
                    R.prove(tag + f"{nm} column {b} holds {pn}", o.ctx(tm.le(0, i), tm.lt(i, n)), tm.eq(tm.lift(x.get(i, L(b))), tm.uf("F:" + pn, i)))


# ------------------------------------------------------------------ concrete runs

def gen(rng):
    k = int(rng.choice([1, 2, 7]))
    rows = []
    for _ in range(k):
        if rng.random() < .3:
            rows.append(dict(id=int(rng.choice([3, 2**53 + 1, 9007199254740993001, 2**62 + 12345])), fit=False))
        else:
            p = [float(x) for x in rng.normal(0, 1, 8) * 10.0 ** rng.integers(-8, 4, 8)]
            rows.append(dict(id=int(rng.choice([0, 12, 2**53 + 3, 2**62 + 1])), fit=True, p=p, loss=float(rng.choice([1e-12, 0.5, 999.99, 3e7]) * rng.uniform(.5, 1)), flag=int(rng.choice([1, 0, -1]))))
    return dict(rows=rows, p_kind=str(rng.choice(["array", "tuple", "jax"])), header_first=bool(rng.random() < .5))


def run(inp):
    m, ld = imp(FF), imp(LD)
    head, cols = attr(m, "get_header")()
    must(list(cols) == COLS and len(set(cols)) == len(cols), f"column names {list(cols)}")
    must(head.startswith("#") and head[1:].split() == COLS and head.endswith("\n") and head.count("\n") == 1, f"header line {head!r}")
    lines, want = [], []
    for r in inp["rows"]:
        if r["fit"]:
            p = {"array": np.array, "tuple": tuple, "jax": jnp.array}[inp["p_kind"]](r["p"])
            lines.append(attr(m, "get_outline")(r["id"], p, r["loss"], r["flag"]))
            want.append([r["id"], *[float(np.float32(x)) for x in r["p"]], r["loss"], r["flag"]])
        else:
            lines.append(attr(m, "get_outline_nofit")(r["id"]))
            want.append([r["id"]] + [-99.0] * 8 + [-1.0, -1])
    for ln, w in zip(lines, want):
        must(ln.endswith("\n") and ln.count("\n") == 1, f"one line: {ln!r}")
        tk = ln.split()
        must(len(tk) == len(COLS), f"one field per column: {ln!r}")
        must(int(tk[0]) == w[0] and int(tk[-1]) == w[-1], f"identifier and flag: {ln!r}")
        close("fields", [float(x) for x in tk[1:-1]], w[1:-1], rtol=1.2e-5, atol=1e-42)
    d = tempfile.mkdtemp()
    try:
        fn = os.path.join(d, "fit.hdf5")
        with open(os.path.join(d, "a.dat"), "w") as f:
            f.write(head)
            f.writelines(lines)
        data = np.atleast_2d(np.genfromtxt(os.path.join(d, "a.dat"), dtype="str"))
        keep = data.copy()
        attr(m, "write_collated_data")(fn, data, cols)
        must(np.array_equal(keep, data), "the table is left alone")
        with h5py.File(fn, "r") as hdf:
            must(sorted(hdf) == sorted(COLS), f"data sets {list(hdf)}")
            got = {k: hdf[k][...] for k in hdf}
        for b, nm in enumerate(COLS):
            must(got[nm].shape == (len(lines),), "one entry per row of " + nm)
            if nm in ("halo_id", "success"):
                must(got[nm].dtype.kind == "i" and [int(x) for x in got[nm]] == [w[b] for w in want], f"{nm}: {got[nm]}")
            else:
                must(got[nm].dtype == np.float64, "type of " + nm)
                close(nm, got[nm], [float(x[b]) for x in data], rtol=0, atol=0)
        ms, q = attr(ld, "load_fit_sfh")("fit.hdf5", data_drn=d)
        close("main sequence parameters", ms, np.array([got[k] for k in PARS[:4]]).T, rtol=0, atol=0)
        close("quenching parameters", q, np.array([got[k] for k in PARS[4:]]).T, rtol=0, atol=0)
        for bad in (COLS[:-1], COLS + ["x"]):
            try:
                attr(m, "write_collated_data")(os.path.join(d, "bad.hdf5"), data, bad)
                ok = False
            except AssertionError:
                ok = True
            must(ok, "names and columns differ in number")
        # numeric tables
        num = np.array([[float(x) for x in w] for w in want])
        attr(m, "write_collated_data")(fn, num, cols)
        with h5py.File(fn, "r") as hdf:
            for b, nm in enumerate(COLS):
                close("numeric " + nm, hdf[nm][...], num[:, b], rtol=0, atol=0)
    finally:
        shutil.rmtree(d)


def cases(R):
    first = dict(rows=[dict(id=2**53 + 1, fit=True, p=[1.5, -2.25, 3e-7, 4.125, 5e5, -6.5, 7.0, -8e-3], loss=0.123456789, flag=1), dict(id=2**62 + 1, fit=False)], p_kind="tuple", header_first=True)
    R.case("pipeline", gen, run, n=25, n_deep=150, first=[first])
