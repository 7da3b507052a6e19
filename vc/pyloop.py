"""Symbolic loops of pyvc: closed forms for everything the body changes, with base and step obligations."""
import ast

from . import terms as tm
from .terms import T, const, ZERO, ONE, TRUE, FALSE
from .smt import is_int
from .jaxvc import Unsupported
from .pyvc import (VM, XF, Poison, Box, PArr, PList, PDict, Opq, Brk, Cnt, Ret, PyRaise, Infeasible, vclone, vmerge, vmap, vsub,
                   is_num, lift, lift_keep, xf, boolt, norm_int, same_prefix)


def stored_names(nodes):
    out = []
    for n in nodes:
        for q in ast.walk(n):
            if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store) and q.id not in out:
                out.append(q.id)
            if isinstance(q, ast.FunctionDef):
                raise Unsupported("function defined in a loop")
    return out


def strip_common(conds):
    """the literals shared by every path are no part of the distinction between paths"""
    sets = [set(c.a) if c.op == "and" else {c} for c in conds]
    com = set.intersection(*sets) if sets else set()
    return [tm.and_(*[x for x in (c.a if c.op == "and" else (c,)) if x not in com]) for c in conds]


def content(b):
    if isinstance(b, PArr):
        return (b.f, tuple(tm.lift(s).id for s in b.shape))
    if isinstance(b, PList):
        return (tuple(id(x) for x in b.items), b.prefix and (tm.lift(b.prefix[0]).id, b.prefix[1]))
    if isinstance(b, PDict):
        return (tuple((k, id(v)) for k, v in b.d.items()), tuple(id(x) for x in b.fam))
    return b.content()


class Loop:
    def __init__(self, vm, s, n, get):
        self.vm, self.s, self.n, self.get = vm, s, n, get
        key = (id(s), len(vm.frames))
        self.lid = vm.loopid.setdefault(key, len(vm.loopid) + 1)
        self.k = tm.ivar(f"k{self.lid}")
        self.outer = [tm.lift(q) for q in vm.iters]
        self.names = stored_names(s.body + ([s.target] if isinstance(s, ast.For) else [s.test]))
        self.base = vm.frames
        self.carried = [x for x in self.names if x in vm.frames[-1]]
        self.var = {}        # name -> closed form j -> value
        self.box = {}        # id(original) -> closed form j -> setter(clone)
        self.dirty = {}      # id(original) -> original
        self.prefix = f"cur{self.lid}:"
        self.outer_foralls = list(vm.foralls)
        self.offs = {}       # id(array written row by row) -> row of iteration 0
        self.init = {x: vm.frames[-1][x] for x in self.carried}

    def uf(self, name, k, *i, sort="real"):
        return tm.uf(self.prefix + name, *self.outer, k, *i, sort=sort)

    def curs(self, t):
        return tm.atoms_of(t, lambda x: x.op == "uf" and x.v[0].startswith(self.prefix))

    def has_cur(self, v):
        """does the value mention the state at the start of the iteration"""
        hit = []

        def f(t):
            if self.curs(t):
                hit.append(t)
            return t
        self.walk(v, f)
        return bool(hit)

    def walk(self, v, f):
        if isinstance(v, PArr):
            i = [tm.ivar(f"_w{q}") for q in range(v.ndim)]
            self.walk(v.get(*i), f)
        elif isinstance(v, PList):
            for x in v.items:
                self.walk(x, f)
            if v.prefix is not None:
                f(tm.lift(v.prefix[0]))
                self.walk(v.prefix[1](tm.ivar("_w")), f)
        elif isinstance(v, tuple):
            for x in v:
                self.walk(x, f)
        elif isinstance(v, XF):
            f(v.val), f(v.nan), f(v.fin)
        elif isinstance(v, Opq):
            f(v.term)
        elif is_num(v):
            f(lift(v))
        elif isinstance(v, Poison):
            raise Unsupported(v.why)

    # ---------------------------------------------------------- state at iteration j
    def cur_value(self, name, v0, j):
        if isinstance(v0, bool) or (isinstance(v0, T) and tm.sort_of(v0) == "bool"):
            return self.uf(name, j, sort="bool")
        if isinstance(v0, int) or (isinstance(v0, T) and is_int(v0)):
            return self.uf(name, j, sort="int")
        if isinstance(v0, XF) or (is_num(v0)):
            # an initial inf or nan announces a float that may be nan
            if isinstance(v0, XF) or (isinstance(v0, float) and (v0 != v0 or v0 in (float("inf"), float("-inf")))):
                return XF(self.uf(name, j), self.uf(name + ".nan", j, sort="bool"), self.uf(name + ".fin", j, sort="bool"))
            return self.uf(name, j)
        if isinstance(v0, PArr):
            return PArr(v0.shape, self.cur_arr(name, v0, j), v0.kind, v0.cast)
        if isinstance(v0, Opq):
            return Opq(self.uf(name, j, sort="int"))
        if isinstance(v0, tuple):
            ys = [self.cur_value(f"{name}.{q}", x, j) for q, x in enumerate(v0)]
            return v0._make(ys) if hasattr(v0, "_make") else tuple(ys)
        return Poison("loop-carried " + type(v0).__name__)

    def cur_arr(self, name, v0, j):
        i = [tm.ivar(f"_w{q}") for q in range(v0.ndim)]
        probe = v0.get(*i)
        if isinstance(probe, XF):
            return lambda *i: XF(self.uf(name, j, *i), self.uf(name + ".nan", j, *i, sort="bool"), self.uf(name + ".fin", j, *i, sort="bool"))
        so = "bool" if v0.kind == "bool" else ("int" if v0.kind == "int" else "real")
        return lambda *i: self.uf(name, j, *i, sort=so)

    def set_var(self, env, name, j):
        c = self.var.get(name)
        if c is not None:
            env[name] = c(j)
        else:
            v0 = self.init[name]
            if isinstance(v0, (PList, PDict)) or (isinstance(v0, Box) and not isinstance(v0, PArr)):
                return      # containers are tracked as boxes
            env[name] = self.cur_value(name, v0, j)

    def set_box(self, orig, b, j):
        c = self.box.get(id(orig))
        if c is not None:
            c(b, j)
            return
        nm = f"box{list(self.dirty).index(id(orig))}"
        if isinstance(orig, PArr):
            b.f = self.cur_arr(nm, orig, j)
        elif isinstance(orig, PList):
            n0 = tm.lift(orig.length())
            g = self.list_get.setdefault((id(orig), j), lambda i: XF(self.uf(nm, j, i), self.uf(nm + ".nan", j, i, sort="bool"), self.uf(nm + ".fin", j, i, sort="bool")))
            b.items, b.prefix = [], (norm_int(tm.add(n0, j)), g)
        elif isinstance(orig, PDict):
            b.fam = list(orig.fam) + [("cur", self.lid)]
        else:
            b.set_cur(self.lid)

    # ---------------------------------------------------------- one symbolic iteration
    def thunk(self, test_only=False):
        vm = self.vm
        memo = {}
        vm.frames = [{q: vclone(v, memo) for q, v in fr.items()} for fr in self.base]
        env = vm.frames[-1]
        rebound = set(self.rebound)
        for x in self.carried:
            if isinstance(self.init[x], Box) and x not in rebound:
                continue
            self.set_var(env, x, self.k)
        for x in self.names:
            if x not in self.carried:
                env.pop(x, None)
        start = {}
        for oid, (o, c) in list(memo.items()):
            if oid in self.dirty:
                self.set_box(o, c, self.k)
            if isinstance(c, PArr):
                c.rows = None
            start[oid] = content(c)
        vm.facts.append(tm.le(ZERO, self.k))
        vm.iters = vm.iters + [self.k]
        try:
            if isinstance(self.s, ast.For):
                vm.facts.append(tm.lt(self.k, self.n))
                vm.assign(self.s.target, self.get(self.k))
            else:
                if test_only:
                    return vm.ev(self.s.test), None, None, None, None
                c = vm.ev(self.s.test)
                vm.fact(boolt(c) if not isinstance(c, XF) else c)
            nf = len(vm.facts)
            try:
                vm.block(self.s.body)
                r = ("next", None)
            except Cnt:
                r = ("next", None)
            except Brk:
                r = ("break", None)
            except Ret as e:
                r = ("return", e.v)
            except PyRaise as e:
                r = ("raise", e)
            extra = [f for f in vm.facts[nf:] if f not in vm.decisions]
            return (*r, vm.frames, memo, (start, extra))
        finally:
            vm.iters = vm.iters[:-1]

    def passes(self):
        vm = self.vm
        self.rebound = set()
        self.list_get = {}
        for rnd in range(12):
            nobl = len(vm.obl)
            if isinstance(self.s, ast.While):
                tests = vm.explore(lambda: self.thunk(True))
                self.cond = boolt(vmerge([t[0] for t in tests], [t[3][0] for t in tests]))
            else:
                self.cond = TRUE
            res = vm.explore(self.thunk)
            # new mutated boxes, rebound variables
            again = False
            for d, fs, fa, (kind, v, frames, memo, (start, extra)) in res:
                for oid, (o, c) in memo.items():
                    if oid in start and content(c) != start[oid] and oid not in self.dirty:
                        self.dirty[oid] = o
                        again = True
                for x in self.carried:
                    o = self.init[x]
                    if isinstance(o, Box):
                        cl = memo.get(id(o), (None, None))[1]
                        if x not in self.rebound and frames[-1].get(x) is not cl:
                            if not isinstance(o, PArr):
                                raise Unsupported("container variable rebound in a loop")
                            self.rebound.add(x)
                            again = True
            if not again:
                nxt = [r for r in res if r[3][0] == "next"]
                again = self.resolve(nxt) if nxt else False
            if again:
                del vm.obl[nobl:]
                continue
            self.res, self.nxt = res, nxt
            for x in self.carried:
                if x not in self.var and not isinstance(self.init[x], Box) and isinstance(self.cur_value(x, self.init[x], self.k), Poison):
                    pass
            return
        raise Unsupported("no closed form for the loop state")

    # ---------------------------------------------------------- closed forms
    def resolve(self, nxt):
        """find a closed form for one more variable; True if found"""
        conds = strip_common([r[0] for r in nxt])
        found = False
        for x in self.carried:
            if x in self.var:
                continue
            o = self.init[x]
            if isinstance(o, Box) and x not in self.rebound:
                continue
            F = vmerge(conds, [r[3][2][-1].get(x, Poison("deleted")) for r in nxt])
            c = self.closed(o, self.cur_value(x, o, self.k), F)
            if c is not None:
                self.var[x] = c
                found = True
        for oid, o in self.dirty.items():
            if oid in self.box:
                continue
            cl = [r[3][3][oid][1] for r in nxt if oid in r[3][3]]
            if len(cl) != len(nxt):
                raise Unsupported("object unreachable on some path")
            c = self.closed_box(o, cl, conds)
            if c is not None:
                self.box[oid] = c
                found = True
        return found

    def closed(self, v0, cur, F):
        k = self.k
        if isinstance(F, Poison):
            return None
        try:
            hc = self.has_cur(F)
        except Unsupported:
            return None
        if self.vm.same(F, cur):
            return lambda j: v0
        if not hc:
            return self.previous(v0, F)
        if isinstance(F, PArr) and isinstance(v0, PArr) and len(F.shape) == len(v0.shape):
            i = [tm.ivar(f"_w{q}") for q in range(F.ndim)]
            a, b = F.get(*i), cur.get(*i)
            if isinstance(a, XF) or isinstance(b, XF):
                return None
            d = tm.sub(lift(a), lift(b))
            if self.curs(d):
                return None
            return lambda j: PArr(v0.shape, lambda *ix: tm.add(lift(v0.get(*ix)), tm.Sum(ZERO, j, lambda q: tm.subst(d, {k: q, **dict(zip(i, ix))}))), v0.kind)
        if is_num(F) and isinstance(cur, T) and tm.sort_of(cur) != "bool" and tm.sort_of(lift(F)) != "bool":
            d = tm.sub(lift(F), cur)
            if self.curs(d):
                return None
            a = lift(v0)
            if k not in tm.free_vars(d):
                return lambda j: norm_int(tm.add(a, tm.mul(d, j))) if is_int(a) else tm.add(a, tm.mul(d, j))
            return lambda j: tm.add(a, tm.Sum(ZERO, j, lambda q: tm.subst(d, {k: q})))
        return None

    def previous(self, v0, F):
        """the value computed by the previous iteration"""
        k = self.k
        if isinstance(v0, PArr) and isinstance(F, PArr):
            if len(v0.shape) != len(F.shape) or any(tm.lift(a) is not tm.lift(b) and self.vm.decide(tm.eq(tm.lift(a), tm.lift(b))) is not True for a, b in zip(v0.shape, F.shape)):
                return None

        def at(j):
            j = tm.lift(j)
            if j is ZERO:
                return v0
            G = vsub(F, {k: tm.sub(j, ONE)})
            if self.vm.decide(tm.le(ONE, j)) is True:
                return G
            return vmerge([tm.eq(j, ZERO), TRUE], [v0, G])
        if isinstance(at(tm.ivar("_p")), Poison):
            return None
        try:
            if self.vm.same(vsub(F, {k: const(-1)}), v0):
                # the first value has the same form
                return lambda j: vsub(F, {k: tm.sub(tm.lift(j), ONE)})
        except Unsupported:
            pass
        return at

    def closed_box(self, o, cl, conds):
        k = self.k
        if isinstance(o, PArr):
            if any(len(c.shape) != len(o.shape) or any(tm.lift(a) is not tm.lift(b) for a, b in zip(c.shape, o.shape)) for c in cl):
                return None
            off = None
            ok = True
            for c in cl:
                for r in (c.rows or []):
                    d = None if r is None else self.vm.simp(tm.sub(r, k))
                    if d is None or k in tm.free_vars(d) or self.curs(d) or (off is not None and d is not off):
                        ok = False
                    else:
                        off = d
            nm = f"box{list(self.dirty).index(id(o))}"
            i0 = o.f
            if ok and off is not None:
                ws = [c.f for c in cl]

                def w(kk, *rest):
                    v = vmerge(conds, [f(tm.add(off, k), *rest) for f in ws])
                    if isinstance(v, Poison):
                        raise Unsupported(v.why)
                    v = self.uncur(v, nm, tm.add(off, k), PArr(o.shape, i0, o.kind))
                    return v
                probe = w(k, *[tm.ivar(f"_w{q}") for q in range(1, o.ndim)])
                if self.has_cur(probe):
                    return None

                def setter(b, j):
                    j = tm.lift(j)

                    def f(r, *rest):
                        c = tm.and_(tm.le(off, r), tm.lt(tm.sub(r, off), j))
                        return vmerge([c, TRUE], [vsub(lift_keep(w(k, *rest)), {k: tm.sub(r, off)}), lift_keep(i0(r, *rest))])
                    b.f = f
                self.offs[id(o)] = off
                return setter
            # elementwise
            F = PArr(o.shape, lambda *i: vmerge(conds, [c.f(*i) for c in cl]), o.kind)
            cur = PArr(o.shape, self.cur_arr(nm, o, k), o.kind)
            o0 = PArr(o.shape, i0, o.kind)
            c = self.closed(o0, cur, F)
            if c is None:
                return None

            def setter2(b, j):
                b.f = c(tm.lift(j)).f
            return setter2
        if isinstance(o, PList):
            n0 = o.length()
            its = [c.items for c in cl]
            if not all(len(i) == 1 for i in its):
                if any(len(i) != len(its[0]) for i in its):
                    raise Unsupported("a list grows differently on different paths")
                raise Unsupported("a list does not grow by one per iteration")
            w = vmerge(conds, [i[0] for i in its])
            if isinstance(w, Poison) or self.has_cur(w):
                return None
            oi, op = list(o.items), o.prefix

            def get(i):
                i = tm.lift(i)
                if n0 == 0:
                    return vsub(w, {k: i})
                old = PList(oi, op)
                c = tm.lt(i, tm.lift(n0))
                r = self.vm.decide(c)
                if r is True:
                    return old.at(self.vm, i)
                return vmerge([c, TRUE], [old.at(self.vm, i), vsub(w, {k: tm.sub(i, tm.lift(n0))})])

            def setl(b, j):
                b.items, b.prefix = [], (norm_int(tm.add(tm.lift(n0), tm.lift(j))), get)
            return setl
        d0 = o if isinstance(o, PDict) else o.pdict()
        dl = [c if isinstance(c, PDict) else c.pdict() for c in cl]
        new = []
        for c in dl:
            if list(c.d) != list(d0.d) or len(c.fam) != len(d0.fam) + 2:
                raise Unsupported("a mapping does not grow by one key per iteration")
            new.append(c.fam[-1])
        kt = vmerge(conds, [f[1] for f in new])
        val = vmerge(conds, [f[2] for f in new])
        if isinstance(kt, Poison) or isinstance(val, Poison) or self.has_cur(kt) or self.has_cur(val):
            return None
        fam = {}

        def setd(b, j):
            bd = b if isinstance(b, PDict) else b.pdict()
            j = tm.lift(j)
            e = fam.setdefault(j, ("seq", j, lambda i: tm.subst(lift(kt), {k: tm.lift(i)}), lambda i: vsub(val, {k: tm.lift(i)})))
            bd.d = dict(d0.d)
            bd.fam = list(d0.fam) + [e]
        return setd

    def uncur(self, v, nm, row, o):
        """the row of the current iteration still has its initial contents when the iteration starts"""
        def f(t):
            m = {}
            for a in self.curs(t):
                if a.v[0] in (self.prefix + nm, self.prefix + nm + ".nan", self.prefix + nm + ".fin"):
                    ix = a.a[len(self.outer) + 1:]
                    if tm.sub(ix[0], row) is ZERO:
                        z = o.get(*ix)
                        if isinstance(z, XF):
                            z = {"": z.val, ".nan": z.nan, ".fin": z.fin}[a.v[0][len(self.prefix + nm):]]
                        m[a] = lift(z)
            return tm.replace(t, m) if m else t
        return vmap(lift_keep(v), f)

    # ---------------------------------------------------------- step obligations
    def obligations(self):
        vm = self.vm
        k1 = tm.add(self.k, ONE)
        for x in self.var:
            for d, fs, fa, (kind, v, frames, memo, st) in self.nxt:
                self.equal(f"loop {self.lid}: {x} after the iteration", fs, self.var[x](k1), frames[-1].get(x))
        for oid, c in self.box.items():
            o = self.dirty[oid]
            for d, fs, fa, (kind, v, frames, memo, st) in self.nxt:
                got = memo[oid][1]
                want = vclone(o, {})
                c(want, k1)
                row = tm.add(self.offs[oid], self.k) if oid in self.offs else None
                self.equal(f"loop {self.lid}: {type(o).__name__} after the iteration", fs, want, got, row)

    def equal(self, name, fs, a, b, row=None):
        vm = self.vm
        save = vm.facts
        vm.facts = list(fs)
        try:
            self._equal(name, a, b, row)
        finally:
            vm.facts = save

    def _equal(self, name, a, b, row=None):
        vm = self.vm
        if isinstance(a, (PDict,)) or hasattr(a, "pdict"):
            a = a if isinstance(a, PDict) else a.pdict()
            b = b if isinstance(b, PDict) else b.pdict()
            e, f = a.fam[-1], b.fam[-1]
            if f[0] == "one":     # written in this iteration: closed form at index k
                self._equal(name + " key", e[2](self.k), f[1])
                self._equal(name + " value", e[3](self.k), f[2])
                return
            raise Unsupported("mapping state")
        if vm.same(a, b):
            vm.obl.append((name, list(vm.facts), TRUE))
            return
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("loop state: " + (a.why if isinstance(a, Poison) else b.why))
        if isinstance(a, PArr) and isinstance(b, PArr) and a.ndim == b.ndim:
            i = [tm.ivar(f"i{q}") for q in range(a.ndim)]
            save = list(vm.facts)
            for q, s in zip(i, a.shape):
                vm.facts += [tm.le(ZERO, q), tm.lt(q, tm.lift(s))]
            if row is None:
                self._equal(name, lift_keep(a.get(*i)), lift_keep(b.get(*i)))
            else:
                # the row written by this iteration, and the others
                f0 = list(vm.facts)
                vm.facts = [tm.subst(f, {i[0]: row}) for f in f0]
                S = lambda v: vmap(lift_keep(v), vm.simp)
                self._equal(name + ", its own row", S(a.get(row, *i[1:])), S(b.get(row, *i[1:])))
                vm.facts = f0 + [tm.not_(tm.eq(i[0], row))]
                self._equal(name + ", other rows", S(a.get(*i)), S(b.get(*i)))
            vm.facts = save
            return
        if isinstance(a, PList) and isinstance(b, PList):
            self._equal(name + " length", a.length(), b.length())
            j = tm.ivar("i0")
            save = list(vm.facts)
            vm.facts += [tm.le(ZERO, j), tm.lt(j, tm.lift(a.length()))]
            self._equal(name, a.at(vm, j), b.at(vm, j))
            vm.facts = save
            return
        if isinstance(a, XF) or isinstance(b, XF):
            p, q = xf(a), xf(b)
            vm.obl.append((name + " (nan)", list(vm.facts), tm.eq(p.nan, q.nan)))
            vm.obl.append((name, list(vm.facts), tm.or_(p.nan, tm.eq(p.val, q.val))))
            return
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for x, y in zip(a, b):
                self._equal(name, x, y)
            return
        if isinstance(a, Opq) and isinstance(b, Opq):
            vm.obl.append((name, list(vm.facts), tm.eq(a.term, b.term)))
            return
        if is_num(a) and is_num(b):
            vm.obl.append((name, list(vm.facts), tm.eq(lift(a), lift(b))))
            return
        raise Unsupported("loop state of type " + type(a).__name__)

    # ---------------------------------------------------------- leaving the loop
    def leave(self):
        vm, k = self.vm, self.k
        isfor = isinstance(self.s, ast.For)
        exits = [r for r in self.res if r[3][0] != "next"]
        N = self.n if isfor else tm.uf(f"N{self.lid}", *self.outer, sort="int")
        no_exit = tm.and_(*[tm.not_(r[0]) for r in exits])
        per_iter = [tm.implies(r[0], f) for r in self.nxt for f in r[3][4][1]]
        step = []
        base = []
        for x in self.carried:
            if x in self.var or (isinstance(self.init[x], Box) and x not in self.rebound):
                continue
            c0, c1 = self.cur_value(x, self.init[x], ZERO), self.cur_value(x, self.init[x], tm.add(k, ONE))
            if isinstance(c0, (T, Opq)) and self.nxt:
                F = vmerge([r[0] for r in self.nxt], [r[3][2][-1].get(x, Poison("")) for r in self.nxt])
                if not isinstance(F, Poison):
                    un = lambda v: v.term if isinstance(v, Opq) else lift(v)
                    base.append(tm.eq(un(c0), un(self.init[x])))
                    step.append(tm.eq(un(c1), un(F)))
        every = tm.and_(self.cond, no_exit, *per_iter, *step)

        def before(hi, tag):
            vm.foralls.append((ZERO, hi, lambda j: tm.subst(every, {k: j}), f"loop {self.lid}"))
            n0 = len(self.outer_foralls)
            for r in self.nxt:
                for (lo, h, f, nm) in r[2][n0:]:
                    if nm.startswith("nested"):
                        continue
                    vm.foralls.append((ZERO, hi, lambda kk, lo=lo, h=h, f=f, c=r[0]: (
                        tm.subst(tm.lift(lo), {k: kk}), tm.subst(tm.lift(h), {k: kk}),
                        lambda j: tm.subst(tm.implies(c, f(j)), {k: kk})), "nested " + nm))
        pick = vm.choose(1 + len(exits)) if self.nxt else (vm.choose(1 + len(exits)))
        for b in base:
            vm.fact(b)
        if pick == 0:
            if not self.nxt:
                # no iteration can complete
                vm.facts.append(tm.le(N, ZERO) if isfor else tm.eq(N, ZERO))
                if vm.ctx().inconsistent():
                    raise Infeasible()
            if not isfor:
                vm.fact(tm.le(ZERO, N))
            before(N, "all")
            for w in vm.witnesses:
                rng, f = tm.and_(tm.le(ZERO, w), tm.lt(w, N)), tm.subst(every, {k: w})
                vm.fact(vm.simp(f if vm.decide(rng) is True else tm.implies(rng, f)))
            if not isfor:
                vm.fact(tm.not_(tm.subst(self.cond, {k: N})))
            if vm.ctx().inconsistent():
                raise Infeasible()
            env = vm.frames[-1]
            for x in self.carried:
                if isinstance(self.init[x], Box) and x not in self.rebound:
                    continue
                self.set_var(env, x, N)
            for oid, o in self.dirty.items():
                o2 = vclone(o, {})
                self.set_box(o, o2, N)
                self.store(o, o2)
            last = tm.sub(N, ONE)
            nonempty = vm.decide(tm.le(ONE, N)) is True
            for x in self.names:
                if x in self.carried:
                    continue
                if nonempty and self.nxt:
                    v = vmerge(strip_common([r[0] for r in self.nxt]), [r[3][2][-1].get(x, Poison("unset")) for r in self.nxt])
                    env[x] = Poison(v.why) if isinstance(v, Poison) else vsub(v, {k: last}) if not isinstance(v, Box) or isinstance(v, PArr) else Poison("container made in a loop")
                else:
                    env[x] = Poison("set in a loop that may not run")
            if self.s.orelse:
                vm.block(self.s.orelse)
            return
        d, fs, fa, (kind, payload, frames, memo, (start, extra)) = exits[pick - 1]
        r = tm.ivar(f"r{self.lid}" + ("" if pick == 1 else f"_{pick}"))
        vm.facts.append(tm.le(ZERO, r))
        if isfor:
            vm.facts.append(tm.lt(r, N))
        else:
            vm.fact(tm.subst(self.cond, {k: r}))
        for f in [d] + extra:
            vm.fact(tm.subst(f, {k: r}))
        if vm.ctx().inconsistent():
            raise Infeasible()
        before(r, "before")
        for (lo, h, f, nm) in fa[len(self.outer_foralls):]:
            if not nm.startswith("nested"):
                vm.foralls.append((tm.subst(lo, {k: r}), tm.subst(h, {k: r}), lambda j, f=f: tm.subst(f(j), {k: r}), nm))
        if kind == "return":
            raise Ret(vsub(payload, {k: r}))
        if kind == "raise":
            raise payload
        env = vm.frames[-1]
        for x in self.names:
            v = frames[-1].get(x, Poison("unset"))
            if isinstance(v, Box) and not isinstance(v, PArr):
                if x in self.carried:
                    continue
                env[x] = Poison("container made in a loop")
            elif isinstance(v, PArr) and x in self.carried and x not in self.rebound:
                continue
            else:
                env[x] = v if isinstance(v, Poison) else vsub(v, {k: r})
        for oid, o in self.dirty.items():
            self.store(o, vsub(memo[oid][1], {k: r}))

    def store(self, o, src):
        if isinstance(o, PArr):
            o.f, o.shape = src.f, src.shape
            o.rows = (o.rows or []) + [None]
        elif isinstance(o, PList):
            o.items, o.prefix = src.items, src.prefix
        elif isinstance(o, PDict):
            o.d, o.fam = src.d, src.fam
        else:
            o.pdict().d, o.pdict().fam = src.pdict().d, src.pdict().fam


def run(vm, s, n, get):
    if n is not None:
        n = vm.simp(tm.lift(n))
    L = Loop(vm, s, n, get)
    L.rebound = set()
    L.list_get = {}
    L.passes()
    L.obligations()
    L.leave()
