"""Contexts (assumption sets), SMT discharge and the obligation prover."""
import sys
import time
from fractions import Fraction

try:
    import z3
except ImportError:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import z3

from . import terms as tm
from .terms import T, const, ZERO, ONE, TRUE, FALSE
from .norm import Norm, TooBig

STATS = {"z3": 0, "z3_time": 0.0, "cvc5": 0, "cvc5_time": 0.0, "ring": 0, "ring_time": 0.0}

RL_PER_MS = 3000   # z3 resource units spent per nominal millisecond
LN10_LO, LN10_HI = Fraction(2302585, 10**6), Fraction(2302586, 10**6)


def is_int(t, _m={}):
    r = _m.get(t)
    if r is None:
        if t.op == "const":
            r = t.v.denominator == 1
        elif t.op == "var":
            r = t.v[1] == "int"
        elif t.op == "uf":
            r = t.v[1] == "int"
        elif t.op in ("add", "mul"):
            r = all(is_int(x) for x in t.a)
        elif t.op == "ipow":
            r = is_int(t.a[0])
        elif t.op == "ite":
            r = is_int(t.a[1]) and is_int(t.a[2])
        elif t.op in ("sum",):
            r = is_int(t.a[2])
        elif t.op == "fn":
            r = t.v in ("floordiv", "mod", "floor")
        else:
            r = False
        _m[t] = r
    return r


class Conv:
    """terms -> z3, one fresh constant per opaque atom"""

    def __init__(self, norm, linear=False):
        self.norm = norm
        self.linear = linear   # products and quotients of unknowns are opaque
        self.memo = {}
        self.atoms = {}   # z3 const name -> T
        self.byterm = {}
        self.axioms = []

    def opaque(self, t):
        z = self.byterm.get(t)
        if z is None:
            nm = f"a{t.id}"
            so = tm.sort_of(t)
            if so == "bool":
                z = z3.Bool(nm)
            elif is_int(t):
                z = z3.Int(nm)
            else:
                z = z3.Real(nm)
            self.byterm[t] = z
            self.atoms[nm] = t
        return z

    def c(self, t):
        z = self.memo.get(t)
        if z is None:
            z = self.c1(t)
            self.memo[t] = z
        return z

    def r(self, t):
        z = self.c(t)
        return z3.ToReal(z) if z.sort() == z3.IntSort() else z

    def num(self, ts):
        zs = [self.c(x) for x in ts]
        if any(z.sort() == z3.RealSort() for z in zs):
            zs = [z3.ToReal(z) if z.sort() == z3.IntSort() else z for z in zs]
        return zs

    def c1(self, t):
        op = t.op
        if op == "const":
            if t.v.denominator == 1:
                return z3.IntVal(t.v.numerator)
            return z3.RealVal(str(t.v))
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "var":
            return self.opaque(t)
        if op == "add":
            zs = self.num(t.a)
            return z3.Sum(zs)
        if self.linear and (op in ("ipow", "div") or op == "mul" and (
                len(t.a) > 2 or t.a[0].op != "const")):
            if op == "mul" and t.a[0].op == "const":
                zs = self.num((t.a[0], tm.mul(*t.a[1:])))
                return zs[0] * zs[1]
            return self.opaque(t)
        if op == "mul":
            zs = self.num(t.a)
            r = zs[0]
            for z in zs[1:]:
                r = r * z
            return r
        if op == "ipow":
            if t.v > 16:
                return self.opaque(t)
            z = self.r(t.a[0])
            r = z
            for _ in range(t.v - 1):
                r = r * z
            return r
        if op == "div":
            key = ("div", t)
            z = self.byterm.get(key)
            if z is None:
                z = z3.Real(f"q{t.id}")
                self.byterm[key] = z
                d = self.r(t.a[1])
                self.axioms.append(z3.Implies(d != 0, z * d == self.r(t.a[0])))
            return z
        if op == "lt":
            a, b = self.num(t.a)
            return a < b
        if op == "eq":
            a, b = self.num(t.a)
            return a == b
        if op == "eqb":
            return self.c(t.a[0]) == self.c(t.a[1])
        if op == "and":
            return z3.And([self.c(x) for x in t.a])
        if op == "or":
            return z3.Or([self.c(x) for x in t.a])
        if op == "not":
            return z3.Not(self.c(t.a[0]))
        if op == "ite":
            a, b = self.num(t.a[1:])
            return z3.If(self.c(t.a[0]), a, b)
        if op in ("fn", "uf", "sum", "prod", "lam"):
            if op == "fn" and t.v == "LN10":
                z = self.opaque(t)
                return z
            k = self.norm.canon(t)
            if k is not t and k.op not in ("fn", "uf", "sum", "prod", "lam"):
                return self.c(k)
            return self.opaque(k)
        raise ValueError(op)

    def fn_axioms(self, pairs=True, ctx=None):
        """instances of the axioms for the opaque atoms met so far (to fixpoint on arguments)"""
        out = []
        done = set()
        groups = {}
        while True:
            todo = [t for t in list(self.byterm) if isinstance(t, T) and t not in done]
            if not todo:
                break
            for t in todo:
                done.add(t)
                z = self.byterm[t]
                if t.op == "fn":
                    if t.v == "LN10":
                        out += [z > z3.RealVal(str(LN10_LO)), z < z3.RealVal(str(LN10_HI))]
                    elif t.v == "exp":
                        x = self.r(t.a[0])
                        out += [z > 0, z >= 1 + x, z3.Implies(x < 0, z < 1),
                                z3.Implies(x < 1, z * (1 - x) <= 1)]
                        groups.setdefault("exp", []).append((t, x, z))
                    elif t.v == "log":
                        x = self.r(t.a[0])
                        out += [z3.Implies(x > 0, z <= x - 1),
                                z3.Implies(x > 0, z * x >= x - 1),
                                z3.Implies(x > 1, z > 0), z3.Implies(z3.And(x > 0, x < 1), z < 0)]
                        groups.setdefault("log", []).append((t, x, z))
                    elif t.v == "logistic":
                        x = self.r(t.a[0])
                        out += [z > 0, z < 1, (x > 0) == (2 * z > 1), (x < 0) == (2 * z < 1),
                                z3.Implies(x <= 0, z * (2 - x) <= 1),
                                z3.Implies(x >= 0, (1 - z) * (2 + x) <= 1)]
                        groups.setdefault("logistic", []).append((t, x, z))
                    elif t.v == "sqrt":
                        x = self.r(t.a[0])
                        out += [z >= 0, z3.Implies(x >= 0, z * z == x), z3.Implies(x > 0, z > 0)]
                        groups.setdefault("sqrt", []).append((t, x, z))
                elif t.op == "uf" and t.a:
                    if t.v[0] in POSUF:
                        out.append(z > 0)
                    groups.setdefault(("uf",) + t.v + (len(t.a),), []).append((t, None, z))
        ln10 = self.byterm.get(tm.LN10)
        if ln10 is not None:      # log 10 = LN10, log 1/10 = -LN10 and log increases
            for _, x, z in groups.get("log", [])[:30]:
                out += [z3.Implies(x > 10, z > ln10), z3.Implies(z3.And(x > 0, x < 10), z < ln10),
                        z3.Implies(x * 10 > 1, z > -ln10), z3.Implies(z3.And(x > 0, x * 10 < 1), z < -ln10)]
        if pairs:
            for g, xs in groups.items():
                if len(xs) > 30:
                    continue
                for i in range(len(xs)):
                    for k in range(i):
                        (t1, x1, z1), (t2, x2, z2) = xs[i], xs[k]
                        if isinstance(g, tuple):
                            if g[2] == "key":
                                continue
                            e = z3.And([self.c(p) == self.c(q) for p, q in zip(t1.a, t2.a)])
                            out.append(z3.Implies(e, z1 == z2))
                        elif g == "log" or g == "sqrt":
                            out.append(z3.Implies(z3.And(x1 > 0, x2 > 0),
                                                  z3.And((x1 < x2) == (z1 < z2), (x1 == x2) == (z1 == z2))))
                        else:
                            out.append(z3.And((x1 < x2) == (z1 < z2), (x1 == x2) == (z1 == z2)))
        return out + self.axioms


_LIN = {}
_LINN = Norm(None)
POSUF = set()    # opaque functions whose contract says: positive for every argument
RANGES = {}      # integer input array -> (lo, hi): precondition on every element


def range_facts(c):
    out = []
    if RANGES:
        for t in tm.atoms_of(c, lambda x: x.op == "uf" and x.v[0] in RANGES):
            lo, hi = RANGES[t.v[0]]
            out += [tm.le(lo, t), tm.lt(t, hi)]
    return tuple(out)


class Ctx:
    def __init__(self, facts=(), generic=False):
        """generic: no two compared real quantities are exactly equal (an assumption the caller has to declare)"""
        self.generic = generic
        fs = []
        for f in facts:
            f = tm.lift(f)
            if f is TRUE:
                continue
            for x in (f.a if f.op == "and" else (f,)):
                if x not in fs:
                    fs.append(x)
        self.facts = tuple(fs)
        self._dec = {}
        self._inc = None
        self._norms = {}
        self._kids = {}
        self.pos = set()
        for f in self.facts:
            if f.op == "lt" and f.a[0].op == "const" and f.a[0].v >= 0:
                self.pos.add(f.a[1])

    def with_facts(self, fs):
        fs = tuple(tm.lift(f) for f in fs)
        k = tuple(f.id for f in fs)
        c = self._kids.get(k)
        if c is None:
            c = Ctx(self.facts + fs, self.generic)
            self._kids[k] = c
        return c

    def norm(self, mode="A"):
        n = self._norms.get(mode)
        if n is None:
            n = self._norms[mode] = Norm(self, mode)
        return n

    # ---- decisions by linear reasoning over the monomials of normal forms
    def _lin(self, f):
        """a comparison as (kind, {monomial: coefficient}) for 0 < p, 0 = p and their negations; None if it is not one"""
        pos = True
        if f.op == "not":
            f, pos = f.a[0], False
        if f.op not in ("lt", "eq"):
            return None
        r = _LIN.get((f, pos))
        if r is None:
            r = False
            try:
                n, d = _LINN.nf(tm.sub(f.a[1], f.a[0]))
                if len(d) == 1 and () in d and len(n) <= 60:
                    from .norm import ATOM, mmul
                    at = {a for m in n for a, _ in m}
                    inv = []
                    for a in at:
                        x = ATOM[a]
                        if _positive_fn(x):
                            e = min(dict(m).get(a, 0) for m in n)
                            if e:
                                inv.append((a, -e))
                    inv = tuple(sorted(inv))
                    q = 1 / d[()]
                    r = (f.op if pos else "not" + f.op, {mmul(m, inv): c * q for m, c in n.items()})
            except Exception:
                r = False
            _LIN[(f, pos)] = r
        return r or None

    def lin_known(self, c):
        """truth value of the comparison c by linear arithmetic over monomials (unknown products are opaque)"""
        k = ("lin", c)
        if k in self._dec:
            return self._dec[k]
        self._dec[k] = None
        g = self._lin(c)
        if g is None:
            return None
        from .norm import ATOM
        fv = tm.free_vars(c)
        ms = {}

        def z(m):
            if m not in ms:
                ms[m] = z3.Real("m" + "_".join(f"{a}^{e}" for a, e in m))
            return ms[m]

        def expr(l):
            kind, p = l
            x = z3.Sum([z3.RealVal(str(co)) * (z(m) if m else 1) for m, co in p.items()] or [z3.RealVal(0)])
            return {"lt": x > 0, "notlt": x <= 0, "eq": x == 0, "noteq": x != 0}[kind]
        t0 = time.time()
        try:
            s = z3.SimpleSolver()
            s.set("rlimit", 600000)
            s.set("timeout", 8000)
            for f in self.facts:
                if tm.free_vars(f) & fv:
                    l = self._lin(f)
                    if l is not None:
                        s.add(expr(l))
            zg = expr(g)
            for m in list(ms):
                if m and all(ATOM[a].op == "fn" and ATOM[a].v in ("exp", "logistic", "LN10") for a, _ in m):
                    s.add(ms[m] > 0)
            for val in (True, False):
                s.push()
                s.add(z3.Not(zg) if val else zg)
                STATS["z3"] += 1
                if s.check() == z3.unsat:
                    self._dec[k] = val
                    return val
                s.pop()
            return None
        except z3.Z3Exception:
            return None
        finally:
            STATS["z3_time"] += time.time() - t0

    # ---- light-weight decisions (linear integer / real reasoning)
    def is_pos(self, t):
        r = self.sign(t)
        if r is not None:
            return r
        if not self.facts:
            return False
        return self.decide(tm.lt(ZERO, t)) is True

    def sign(self, t):
        """True if syntactically > 0"""
        if t in self.pos:
            return True
        if t.op == "const":
            return t.v > 0
        if t.op == "fn" and t.v in ("exp", "logistic", "LN10"):
            return True
        if t.op == "uf" and t.v[0] in POSUF:
            return True
        if t.op in ("add", "mul") and all(self.sign(x) for x in t.a):
            return True
        if t.op == "ipow" and self.sign(t.a[0]):
            return True
        if t.op == "div" and self.sign(t.a[0]) and self.sign(t.a[1]):
            return True
        if t.op == "ite" and self.sign(t.a[1]) and self.sign(t.a[2]):
            return True
        return None

    def decide(self, c):
        c = tm.lift(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self._dec:
            return self._dec[c]
        if c in self.facts:
            r = True
        elif tm.not_(c) in self.facts:
            r = False
        elif self._skip(c):
            r = None
        else:
            r = self._decide(c)
        self._dec[c] = r
        return r

    def _skip(self, c):
        """no shared variable with any fact -> undecidable by linear reasoning (unless int)"""
        fv = tm.free_vars(c)
        names = {t.v for t in tm.atoms_of(c, lambda x: x.op == "uf")}
        if any(n[0] in RANGES for n in names):
            return False
        for f in self.facts:
            if tm.free_vars(f) & fv:
                return False
            if names and names & {t.v for t in tm.atoms_of(f, lambda x: x.op == "uf")}:
                return False
        return True

    def _decide(self, c):
        t0 = time.time()
        cv = Conv(_RAW, linear=True)
        s = z3.SimpleSolver()
        s.set("rlimit", 600000)   # deterministic resource limit
        s.set("timeout", 8000)
        fv = tm.free_vars(c)
        try:
            zc = cv.c(c)
            zf = [cv.c(f) for f in tuple(self.facts) + range_facts(c)]
            ax = cv.axioms
            s.add(zf)
            s.add(ax)
            s.push()
            s.add(z3.Not(zc))
            STATS["z3"] += 1
            if s.check() == z3.unsat:
                return True
            s.pop()
            s.push()
            s.add(zc)
            STATS["z3"] += 1
            if s.check() == z3.unsat:
                return False
            return None
        except z3.Z3Exception:
            return None
        finally:
            STATS["z3_time"] += time.time() - t0

    def inconsistent(self):
        """True when the facts contradict each other (by linear reasoning)"""
        if self._inc is None:
            if FALSE in self.facts:
                self._inc = True
                return True
            t0 = time.time()
            cv = Conv(_RAW, linear=True)
            s = z3.SimpleSolver()
            s.set("rlimit", 600000)
            s.set("timeout", 8000)
            try:
                s.add([cv.c(f) for f in self.facts])
                s.add(cv.axioms)
                STATS["z3"] += 1
                self._inc = s.check() == z3.unsat
            except z3.Z3Exception:
                self._inc = False
            finally:
                STATS["z3_time"] += time.time() - t0
        return self._inc

    def simp_conds(self, t):
        """resolve decided if-conditions (outside binders)"""
        memo = {}

        def go(t):
            r = memo.get(t)
            if r is not None:
                return r
            if not t.a:
                r = t
            elif t.op == "ite":
                d = self.decide(t.a[0])
                if d is None:
                    c = go(t.a[0])
                    r = tm.ite(c, go(t.a[1]), go(t.a[2]))
                else:
                    r = go(t.a[1] if d else t.a[2])
            elif t.op in tm.BINDERS:
                a0, a1 = go(t.a[0]), go(t.a[1])
                r = t if (a0 is t.a[0] and a1 is t.a[1]) else tm._binder(
                    t.op, a0, a1, lambda j: tm.body_at(t, j))
            else:
                a = [go(x) for x in t.a]
                r = t if all(x is y for x, y in zip(a, t.a)) else tm.rebuild(t, a)
            memo[t] = r
            return r
        return go(t)


_NOCTX = Ctx()


class _RawNorm:
    def canon(self, t):
        return t


_RAW = _RawNorm()


class Verdict:
    def __init__(self, status, backend="", detail="", model=None):
        self.status = status      # "proved" | "failed"
        self.backend = backend
        self.detail = detail
        self.model = model

    @property
    def ok(self):
        return self.status == "proved"

    def __repr__(self):
        return f"<{self.status} {self.backend} {self.detail[:200]}>"


def outer_conds(t):
    """ite conditions outside binders, outermost first"""
    out, seen = [], set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            out.append(x.a[0])
        if x.op in tm.BINDERS:
            st.extend(x.a[:2])
        else:
            st.extend(x.a)
    return out


def leaf_conds(c):
    if c.op in ("and", "or", "not", "eqb"):
        r = []
        for x in c.a:
            r += leaf_conds(x)
        return r
    if c.op == "ite" :
        r = []
        for x in c.a:
            r += leaf_conds(x)
        return r
    return [c]


def resolve(t, c, val):
    return tm.replace(t, {c: TRUE if val else FALSE})


class Prover:
    def __init__(self, budget=60.0, z3_timeout=8000):
        self.budget = budget
        self.z3_timeout = z3_timeout

    # ------------------------------------------------------------ equality
    def eq(self, ctx, a, b, level=0):
        t0 = time.thread_time()
        if level == 0:
            self.deadline = t0 + self.budget
        try:
            if a is b:
                return Verdict("proved", "identical")
            if level < 3:
                g = self._generalise(ctx, a, b, level)
                if g is not None:
                    c2, a2, b2 = g
                    v = self._eq(c2, tm.sub(a2, b2), 0, smt=False)
                    if v.ok:
                        v.backend = "ring+congruence"
                        return v
            if level:
                return self._eq(ctx, tm.sub(a, b), 0, smt=False)
            v = self._eq(ctx, tm.sub(a, b), 0)
        except (TooBig, RecursionError) as e:
            v = Verdict("failed", "ring", f"resource limit {type(e).__name__}")
        finally:
            STATS["ring_time"] += time.thread_time() - t0
        return v

    def _generalise(self, ctx, a, b, level):
        """replace provably equal transcendental subterms of a and b by common
        fresh variables (sound: proves a more general statement)"""
        sa, sb = _maximal_fns(a), _maximal_fns(b)
        if not sa and not sb:
            return None
        classes = []      # [representative, members]
        big = [t for t in dict.fromkeys(sa + sb)]
        for t in big:
            for cl in classes:
                r = cl[0]
                if r.v == t.v and len(r.a) == len(t.a):
                    if all(x is y for x, y in zip(r.a, t.a)) or (
                            tm.free_vars(r) == tm.free_vars(t) and time.thread_time() < self.deadline
                            and self.eq(ctx, r.a[0], t.a[0], level + 1).ok):
                        cl[1].append(t)
                        break
            else:
                classes.append([t, [t]])
        m, facts = {}, []
        for r, ts in classes:
            z = tm.fresh("_g", "real")
            for t in ts:
                m[t] = z
            if r.v == "exp":
                facts.append(tm.lt(ZERO, z))
            elif r.v == "logistic":
                facts += [tm.lt(ZERO, z), tm.lt(z, ONE)]
        c2 = Ctx([tm.replace(f, m) for f in ctx.facts] + facts, ctx.generic)
        return c2, tm.replace(a, m), tm.replace(b, m)

    def _eq(self, ctx, d, depth, hints=(), smt=True):
        d = ctx.simp_conds(d)
        if d is ZERO:
            return Verdict("proved", "ring")
        c = _early_cond(d) if depth <= 24 else None
        if c is not None:      # a branch inside a power: split before expanding
            r = self._known(ctx, c)
            for val in (True, False):
                if r is not None and val != r:
                    continue
                c2, d2 = self._branch(ctx, d, c, val)
                v = self._eq(c2, d2, depth + 1, smt=smt)
                if not v.ok:
                    return v
            return Verdict("proved", "ring+split")
        for mode in ("A", "B"):
            try:
                STATS["ring"] += 1
                if ctx.norm(mode).is_zero(d):
                    return Verdict("proved", "ring")
            except TooBig:
                pass
            if not tm.atoms_of(d, lambda x: x.op == "fn" and x.v == "logistic"):
                break
        if time.thread_time() > self.deadline:
            return Verdict("failed", "ring", "time budget exhausted")
        # use canonical form to expose remaining conditions
        d = ctx.norm("A").canon(d)
        cs = []
        for c in outer_conds(d):
            cs += [x for x in leaf_conds(c) if not _bound(x)]
        for c in cs:
            if c.op in ("true", "false"):
                continue
            if depth > 24:
                break
            c = _descend(c)
            r = self._known(ctx, c)
            for val in (True, False):
                if r is not None and val != r:
                    continue
                c2, d2 = self._branch(ctx, d, c, val)
                v = self._eq(c2, d2, depth + 1, smt=smt)
                if not v.ok:
                    return v
            return Verdict("proved", "ring+split")
        # a <= b and b <= a up to a constant factor: use a = b
        for e in self._squeezed(ctx, d):
            d2 = self._use_eq(e, d)
            if d2 is not d:
                return self._eq(ctx.with_facts([e]), d2, depth + 1, smt=smt)
        # integer equalities entailed by the path
        for f in reversed(ctx.facts):
            e = None
            if f.op == "not" and f.a[0].op == "lt":
                e = tm.eq(*f.a[0].a)
            elif f.op == "lt":
                e = tm.eq(tm.add(f.a[0], ONE), f.a[1])
            if e is None or e.op != "eq" or e in ctx.facts or not (is_int(e.a[0]) and is_int(e.a[1])):
                continue
            if not all(x.op == "var" for x in tm.atoms_of(e, lambda x: x.op in ("var", "uf", "sum"))):
                continue
            if ctx.decide(e) is True:
                d2 = self._use_eq(e, d)
                if d2 is not d:
                    return self._eq(ctx.with_facts([e]), d2, depth + 1, smt=smt)
        if depth and ctx.decide(tm.eq(d, ZERO)) is True:
            return Verdict("proved", "z3")
        # sums, products and applications equal by congruence
        if depth < 40:
            v = self._congruence(ctx, d, depth)
            if v is not None:
                return v
        # infeasible path?
        if depth and self._smt(ctx, FALSE, 2000).ok:
            return Verdict("proved", "z3")
        if not smt:
            return Verdict("failed", "ring", "residual " + tm.show(d, 6)[:600])
        # last resort: nonlinear arithmetic with the axioms
        v = self._smt(ctx, tm.eq(d, ZERO), self.z3_timeout)
        if v.ok:
            return v
        return Verdict("failed", "ring", "residual " + tm.show(d, 8)[:1500], v.model)

    def _congruence(self, ctx, d, depth):
        """d = 0 by (a) merging a linear combination of sums over one range into
        one sum with a zero generic term, (b) replacing atoms by others of the
        same head whose arguments (generic bodies) are provably equal"""
        at = _maximal_atoms(d)
        sums = [x for x in at if x.op == "sum"]
        ranges = {}
        for x in sums:
            ranges.setdefault((x.a[0].id, x.a[1].id), []).append(x)
        if sums:
            zs = {x: tm.fresh("_z", "real") for x in sums}
            dz = tm.replace(d, zs)
            try:
                n, _ = Norm(None).nf(dz)
                from .norm import ATOM
                grp = {zs[x]: k for k, xs in ranges.items() for x in xs}
                parts = {}
                for mo, co in n.items():
                    hit = [(grp[ATOM[q]], e) for q, e in mo if ATOM[q] in grp]
                    key = None if not hit else (hit[0][0] if len(hit) == 1 and hit[0][1] == 1 else "nonlinear")
                    parts.setdefault(key, {})[mo] = co
            except TooBig:
                parts = {"nonlinear": None}
            if "nonlinear" not in parts and (set(parts) != {None}):
                ok = True
                for key, part in sorted(parts.items(), key=lambda kv: kv[0] is None):
                    num = Norm(None).to_term(part, {(): Fraction(1)})
                    if key is None:
                        ok = self._eq(ctx, num, depth + 12, smt=False).ok
                    else:
                        j = tm.fresh("_j")
                        xs = ranges[key]
                        back = {zs[x]: tm.body_at(x, j) for x in xs}
                        c2 = ctx.with_facts([tm.le(xs[0].a[0], j), tm.lt(j, xs[0].a[1])])
                        ok = self._eq(c2, tm.subst(num, back), depth + 12, smt=False).ok
                    if not ok:
                        break
                if ok:
                    return Verdict("proved", "ring+sum")
        classes, m = [], {}
        for x in at:
            for r in classes:
                if r.op == x.op and r.v == x.v and len(r.a) == len(x.a) and time.thread_time() < self.deadline:
                    if self._args_equal(ctx, r, x, depth):
                        m[x] = r
                        break
            else:
                classes.append(x)
        if not m:
            return None
        d2 = tm.replace(d, m)
        try:
            if ctx.norm("A").is_zero(d2):
                return Verdict("proved", "ring+congruence")
        except TooBig:
            return None
        if len(classes) < len(at):
            v = self._eq(ctx, d2, depth + 12, smt=False)
            if v.ok:
                v.backend = "ring+congruence"
                return v
        return None

    def _args_equal(self, ctx, r, x, depth):
        if x.op in tm.BINDERS:
            if r.a[0] is not x.a[0] or r.a[1] is not x.a[1]:
                return False
            j = tm.fresh("_j")
            c2 = ctx.with_facts([tm.le(x.a[0], j), tm.lt(j, x.a[1])])
            p, q = tm.body_at(r, j), tm.body_at(x, j)
            if tm.sort_of(p) == "bool" or tm.sort_of(q) == "bool":
                return p is q
            return self._eq(c2, tm.sub(p, q), depth + 12, smt=False).ok
        for p, q in zip(r.a, x.a):
            if p is q:
                continue
            if p.op == "lam" or q.op == "lam":
                if not (p.op == q.op and self._args_equal(ctx, p, q, depth)):
                    return False
                continue
            if not {tm.sort_of(p), tm.sort_of(q)} <= {"real", "int", "num"}:
                return False
            if not self._eq(ctx, tm.sub(p, q), depth + 12, smt=False).ok:
                return False
        return True

    def _known(self, ctx, c):
        """truth value of a condition: linear reasoning, or a fact that is the
        same comparison up to a positive constant factor (ring identity)"""
        r = ctx.decide(c)
        if r is not None or c.op not in ("lt", "eq"):
            return r
        r = ctx.lin_known(c)
        if r is not None:
            return r
        d = tm.sub(c.a[1], c.a[0])
        fv = tm.free_vars(d)
        for f in ctx.facts:
            g, pos = (f.a[0], False) if f.op == "not" else (f, True)
            if g.op != c.op or g is c or tm.size(g) < 6 or not (tm.free_vars(g) & fv):
                continue
            q = self._ratio(ctx, d, tm.sub(g.a[1], g.a[0]))
            if q is not None:
                if q > 0 or (q < 0 and c.op == "eq"):
                    return pos
                if q < 0 and pos:      # 0 < e, d = q e
                    return False
        return None

    def _branch(self, ctx, d, c, val):
        """the context and the goal term on one side of a case split"""
        c2 = ctx.with_facts([c if val else tm.not_(c)])
        d2 = resolve(d, c, val)
        if val and c.op == "eq":
            d2 = self._use_eq(c, d2)
        elif not val and c.op == "lt":
            for e in self._squeezed(c2, d2, tm.not_(c)):
                d2 = self._use_eq(e, d2)
                c2 = c2.with_facts([e])
                break
        return c2, d2

    def _squeezed(self, ctx, d, only=None):
        """equalities a = b for pairs of facts not(a < b), not(b < a) up to a positive constant factor"""
        fv = tm.free_vars(d)
        fs = [f.a[0] for f in ctx.facts if f.op == "not" and f.a[0].op == "lt" and tm.size(f) > 4
              and tm.free_vars(f) & fv]
        if len(fs) > 24:
            fs = fs[-24:]
        out = []
        for i, f in enumerate(fs):
            if only is not None and f is not only.a[0]:
                continue
            for g in fs[:i]:
                if tm.free_vars(f) != tm.free_vars(g):
                    continue
                e = tm.eq(*f.a)
                if e in ctx.facts or e.op != "eq":
                    continue
                q = self._ratio(ctx, tm.sub(f.a[1], f.a[0]), tm.sub(g.a[1], g.a[0]))
                if q is not None and q < 0:
                    out.append(e)
        return out

    def _ratio(self, ctx, d, e):
        """the rational q with d = q e, None when there is none"""
        nm = ctx.norm("A")
        try:
            n1, d1 = nm.nf(d)
            n2, d2 = nm.nf(e)
            if d1 != d2:
                if len(n1) * len(d2) > 3000 or len(n2) * len(d1) > 3000:
                    return None
                n1, n2 = nm.pmul(n1, d2), nm.pmul(n2, d1)
        except TooBig:
            return None
        if not n1 or len(n1) != len(n2):
            return None
        k = next(iter(n1))
        if k not in n2:
            return None
        q = n1[k] / n2[k]
        return q if all(n2.get(m) is not None and c == q * n2[m] for m, c in n1.items()) else None

    def _use_eq(self, c, d):
        a, b = c.a
        for x, y in ((a, b), (b, a)):
            if x.op == "var" and x not in tm.free_vars(y):
                return tm.subst(d, {x: y})
        l = _NOCTX._lin(c)
        if l is not None:
            n = l[1]
            from .norm import ATOM, pscale
            from .norm import mmul
            for kind in ("var", "uf"):       # a variable first, then an element of an input array
                for m, co in n.items():
                    xs = [(q, e) for q, e in m if not _positive_fn(ATOM[q])]
                    if len(xs) != 1 or xs[0][1] != 1 or ATOM[xs[0][0]].op != kind:
                        continue
                    x = ATOM[xs[0][0]]
                    if kind == "uf" and (x.v[1] != "real" or _bound(x)):
                        continue
                    inv = tuple((q, -e) for q, e in m if q != xs[0][0])
                    rest = {mmul(k, inv): v for k, v in n.items() if k != m}
                    e = Norm(None).to_term(pscale(rest, -1 / co), {(): Fraction(1)})
                    if tm.atoms_of(e, lambda y: y is x) or (kind == "var" and x.v[1] == "int" and not is_int(e)):
                        continue
                    return tm.subst(d, {x: e}) if kind == "var" else tm.replace(d, {x: e})
        return d

    # ------------------------------------------------------------ general goals
    def prove(self, ctx, goal):
        t0 = time.thread_time()
        self.deadline = t0 + self.budget
        try:
            return self._prove(ctx, goal, 0)
        except (TooBig, RecursionError) as e:
            return Verdict("failed", "?", f"resource limit {type(e).__name__}")

    def _prove(self, ctx, g, depth):
        g = ctx.simp_conds(g)
        if g is TRUE:
            return Verdict("proved", "simp")
        if ctx.decide(g) is True:
            return Verdict("proved", "z3")
        if g.op == "and":
            for x in g.a:
                v = self._prove(ctx, x, depth)
                if not v.ok:
                    return v
            return Verdict("proved", "and")
        if g.op == "eq":
            v = self._eq(ctx, tm.sub(g.a[0], g.a[1]), depth)
            return v
        if g.op == "not" and g.a[0].op == "and":
            # disjunction: assume all but a (non-equality) last
            ds = [tm.not_(x) for x in g.a[0].a]
            eqs = [x for x in ds if x.op == "eq"]
            last = eqs[0] if eqs else ds[-1]
            facts = [tm.not_(x) for x in ds if x is not last]
            c2 = ctx.with_facts(facts)
            for f in facts:
                if f.op == "eq":
                    last = self._use_eq(f, last)
            return self._prove(c2, last, depth + 1)
        # inequalities and the rest
        c = _early_cond(g) if depth < 16 else None
        if c is not None:
            r = self._known(ctx, c)
            for val in (True, False):
                if r is not None and val != r:
                    continue
                c2, d2 = self._branch(ctx, g, c, val)
                v = self._prove(c2, d2, depth + 1)
                if not v.ok:
                    return v
            return Verdict("proved", "split")
        try:
            gc = ctx.norm("A").canon(g)
        except TooBig:
            gc = g
        if gc is TRUE:
            return Verdict("proved", "ring")
        v = self._smt(ctx, gc, min(self.z3_timeout, 3000))
        if v.ok:
            return v
        if gc is not g:
            v = self._smt(ctx, g, min(self.z3_timeout, 3000))
            if v.ok:
                return v
        cs = []
        for c in outer_conds(gc):
            cs += [x for x in leaf_conds(c) if not _bound(x) and x.op not in ("true", "false")]
        if cs and depth < 16 and time.thread_time() < self.deadline:
            c = _descend(cs[0])
            r = self._known(ctx, c)
            for val in (True, False):
                if r is not None and val != r:
                    continue
                c2, d2 = self._branch(ctx, gc, c, val)
                v = self._prove(c2, d2, depth + 1)
                if not v.ok:
                    return v
            return Verdict("proved", "split")
        v2 = self._smt(ctx, gc, self.z3_timeout)
        if v2.ok:
            return v2
        v2 = self._smt(ctx, g, self.z3_timeout)
        if v2.ok:
            return v2
        return Verdict("failed", "z3", "cannot prove " + tm.show(gc, 8)[:1500] + " :: " + v2.detail, v2.model)

    def _smt(self, ctx, goal, timeout):
        t0 = time.time()
        STATS["z3"] += 1
        try:
            nm = ctx.norm("A")
            cv = Conv(nm)
            zf = [cv.c(f) for f in ctx.facts]
            zg = cv.c(goal)
            ax = cv.fn_axioms(ctx=ctx)
            asserts = zf + ax + [z3.Not(zg)]
            last = "unknown"
            for conf in ("default", "nlsat"):
                if conf == "default":
                    s = z3.Solver()
                else:
                    try:
                        s = z3.Then("simplify", "purify-arith", "elim-term-ite", "solve-eqs", "qfnra-nlsat").solver()
                    except z3.Z3Exception:
                        continue
                s.set("rlimit", int(timeout / 2) * RL_PER_MS)
                s.set("timeout", 3 * int(timeout))
                s.add(asserts)
                try:
                    r = s.check()
                except z3.Z3Exception as e:
                    last = "z3 " + str(e)[:100]
                    continue
                if r == z3.unsat:
                    return Verdict("proved", "z3")
                if r == z3.sat:
                    m = s.model()
                    model = {}
                    for d in m.decls():
                        t = cv.atoms.get(d.name())
                        if t is None:
                            continue
                        try:
                            val = m[d]
                            if z3.is_bool(val):
                                model[t] = z3.is_true(val)
                            elif z3.is_algebraic_value(val):
                                model[t] = float(val.approx(12).as_fraction())
                            elif z3.is_rational_value(val):
                                model[t] = float(val.as_fraction())
                            elif z3.is_int_value(val):
                                model[t] = val.as_long()
                        except Exception:
                            pass
                    return Verdict("failed", "z3", "counter-model " + ", ".join(
                        f"{tm.show(k, 4)}={v}" for k, v in list(model.items())[:20]), model)
                last = "z3 " + s.reason_unknown()
            return Verdict("failed", "z3", last)
        except z3.Z3Exception as e:
            return Verdict("failed", "z3", "z3 exception " + str(e)[:200])
        finally:
            STATS["z3_time"] += time.time() - t0


def _positive_fn(x):
    return x.op == "fn" and x.v in ("exp", "logistic", "LN10")


def _descend(c):
    """an innermost if-condition of the condition c: c itself when it has no if-expression"""
    while True:
        inner = [y for z in outer_conds(c) for y in leaf_conds(z)
                 if y.op not in ("true", "false") and not _bound(y)]
        if not inner:
            return c
        c = inner[0]


def _early_cond(t):
    """a condition of an if-expression that sits inside a third or higher power
    (outside binders), None when there is none"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ipow" and x.v >= 3:
            for c in outer_conds(x.a[0]):
                for l in leaf_conds(c):
                    if not _bound(l) and l.op not in ("true", "false"):
                        return _descend(l)
        if x.op in tm.BINDERS:
            st.extend(x.a[:2])
        else:
            st.extend(x.a)
    return None


def _maximal_fns(t):
    """maximal exp / logistic subterms (outside binders) with a compound argument"""
    out, seen = [], set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "fn" and x.v in ("exp", "logistic") and not _bound(x):
            if tm.size(x) > 8:
                out.append(x)
            continue
        if x.op in tm.BINDERS:
            st.extend(x.a[:2])
        else:
            st.extend(x.a)
    return out


def _maximal_atoms(t):
    """maximal uf / fn / binder subterms outside binders, in a fixed order"""
    out, seen = [], set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in tm.BINDERS or (x.op in ("uf", "fn") and x.a):
            if not _bound(x) and tm.sort_of(x) in ("real", "int", "num"):
                out.append(x)
            continue
        st.extend(x.a)
    return out


def _bound(t):
    return any(v.v[0].startswith("§") for v in tm.free_vars(t))
