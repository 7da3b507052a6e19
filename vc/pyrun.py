"""glue between the symbolic executor for plain Python and the recorder"""
from . import terms as tm
from .terms import T
from .smt import Ctx
from .jaxvc import Unsupported
from .pyvc import VM, XF, PArr, PList, PDict, Opq, Str, Fmt, is_num, lift


def terms_of(v, out=None):
    out = [] if out is None else out
    if isinstance(v, T):
        out.append(v)
    elif isinstance(v, XF):
        out += [v.val, v.nan, v.fin]
    elif isinstance(v, PArr):
        out += [tm.lift(s) for s in v.shape]
        terms_of(v.get(*[tm.ivar(f"_w{q}") for q in range(v.ndim)]), out)
    elif isinstance(v, PList):
        for x in v.items:
            terms_of(x, out)
        if v.prefix is not None:
            out.append(tm.lift(v.prefix[0]))
            terms_of(v.prefix[1](tm.ivar("_w")), out)
    elif isinstance(v, PDict):
        for x in v.d.values():
            terms_of(x, out)
    elif isinstance(v, tuple):
        for x in v:
            terms_of(x, out)
    elif isinstance(v, Opq):
        out.append(v.term)
    elif isinstance(v, Str):
        for p in v.parts:
            if isinstance(p, Fmt):
                terms_of(p.value, out)
    return out


def opaque_state(ts):
    for t in ts:
        for a in tm.atoms_of(t, lambda x: x.op == "uf" and x.v[0].startswith("cur") and ":" in x.v[0]):
            return a.v[0]
    return None


def execute(R, vm, fn, mk, called=(), kinds=("return",)):
    """every path of fn; loop and safety obligations are discharged here.
    A contract in called that the code never reaches, or loop state without a
    closed form, puts the function outside the reach of the generator."""
    outs = vm.run(fn, mk)
    if not outs:
        raise Unsupported("no feasible path")
    for c in called:
        if c not in vm.called:
            raise Unsupported("an expected callee is not reached")
    for o in outs:
        bad = opaque_state(list(o.facts) + terms_of(o.value))
        if bad:
            raise Unsupported("no closed form for loop state " + bad)
    seen = {}
    for nm, fs, g in vm.obl:
        n = seen[nm] = seen.get(nm, 0) + 1
        R.prove(nm + (f" #{n}" if n > 1 else ""), Ctx(fs), g)
    R.note(f"paths: {len(outs)}; loop and safety obligations: {len(vm.obl)}")
    bad = [o for o in outs if o.kind not in kinds]
    for o in bad:
        last = [f for lo, hi, g, nm in o.foralls if not nm.startswith("nested") for f in o.inst(tm.sub(tm.lift(hi), tm.ONE))]
        R.prove(f"no exception ({o.value.kind})", o.ctx(*last), tm.FALSE)
    return [o for o in outs if o.kind in kinds]
