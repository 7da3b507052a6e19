"""Normal forms: rational functions over canonical atoms.

nf(t) = (num, den), polynomials over atoms with Fraction coefficients.
Monomials are tuples of (atom id, exponent) sorted by id; exponents may be
Fractions for atoms known to be positive (exp atoms, asserted-positive terms).

Rewrites used (each is a theorem of real arithmetic, proved in lean/Axioms.lean
or a ring identity):
  exp(x+y)=exp x*exp y, exp(q*x)=exp(x)^q, exp(log x)=x (x>0), log(exp x)=x,
  log(x*y)=log x+log y (x,y>0), logistic(x)=1/(1+exp(-x)) [mode B],
  sqrt(x)^2=x (x>=0), telescoping / index-shift of finite sums.
"""
import math
from fractions import Fraction
from . import terms as tm
from .terms import T, const, ZERO, ONE, LN10

ATOM = {}


class TooBig(Exception):
    pass


LIMIT = 4000


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m, 0) + c
        if s == 0:
            r.pop(m, None)
        else:
            r[m] = s
    return r


def pscale(p, c):
    return {m: c * v for m, v in p.items()} if c else {}


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        s = d.get(a, 0) + e
        if s == 0:
            d.pop(a, None)
        else:
            d[a] = s
    return tuple(sorted(d.items()))


def mpow(m, e):
    return tuple((a, x * e) for a, x in m) if e else ()


def pmul_raw(p, q):
    if len(p) * len(q) > 40 * LIMIT:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            s = r.get(m, 0) + c1 * c2
            if s == 0:
                r.pop(m, None)
            else:
                r[m] = s
    if len(r) > LIMIT:
        raise TooBig()
    return r


P1 = {(): Fraction(1)}


class Norm:
    """normaliser in a context (assumptions used only for positivity / sum splitting)"""

    def __init__(self, ctx=None, mode="A"):
        self.ctx = ctx
        self.mode = mode
        self.memo = {}
        self.cmemo = {}
        self.pmemo = {}
        self._depth = 0

    # -- polynomials with sqrt reduction
    def pmul(self, p, q):
        if p is P1:
            return q
        if q is P1:
            return p
        return self.reduce(pmul_raw(p, q))

    def reduce(self, p):
        # sqrt(x)^2 -> x
        hit = None
        for m in p:
            for a, e in m:
                if (e >= 2 or e <= -2) and ATOM[a].op == "fn" and ATOM[a].v == "sqrt":
                    hit = (m, a, e)
                    break
            if hit:
                break
        if not hit:
            return p
        m, a, e = hit
        c = p[m]
        rest = {k: v for k, v in p.items() if k != m}
        m2 = tuple((x, y) for x, y in m if x != a)
        n, d = self.nf(ATOM[a].a[0])
        k = int(e // 2) if e > 0 else -int((-e) // 2)
        left = e - 2 * k
        if left:
            m2 = mmul(m2, ((a, left),))
        if k < 0:
            n, d = d, n
            k = -k
        if d != P1:
            if len(d) == 1:
                (dm, dc), = d.items()
                n = {mmul(mm, mpow(dm, -1)): cc / dc for mm, cc in n.items()}
            else:
                return p
        q = {m2: c}
        for _ in range(k):
            q = pmul_raw(q, n)
        return self.reduce(padd(rest, q))

    def ppow(self, p, n):
        if len(p) == 1 and n > 1:
            (m, c), = p.items()
            if not any(ATOM[a].op == "fn" and ATOM[a].v == "sqrt" for a, _ in m):
                return {mpow(m, n): c ** n}
        if n > 60:
            raise TooBig()
        r = P1
        for _ in range(n):
            r = self.pmul(r, p)
        return r

    # -- rationals
    def radd(self, x, y):
        (n1, d1), (n2, d2) = x, y
        if d1 == d2:
            return self.rsimp(padd(n1, n2), d1)
        return self.rsimp(padd(self.pmul(n1, d2), self.pmul(n2, d1)), self.pmul(d1, d2))

    def rmul(self, x, y):
        (n1, d1), (n2, d2) = x, y
        if len(d2) > 1 and n1 == d2:
            n1, d2 = P1, P1
        if len(d1) > 1 and n2 == d1:
            n2, d1 = P1, P1
        return self.rsimp(self.pmul(n1, n2), self.pmul(d1, d2))

    def rinv(self, x):
        n, d = x
        return self.rsimp(d, n)

    def rsimp(self, n, d):
        if not n:
            return ({}, P1)
        if not d:
            # division by a polynomial that is identically zero: keep symbolic
            return (pmul_raw(n, {((self.atom(tm.uf("div0")), Fraction(1)),): Fraction(1)}), P1)
        # pull monomial content of den
        if len(d) == 1:
            (m, c), = d.items()
            if m == () and c == 1:
                return (n, P1)
            inv = mpow(m, -1)
            return (self.reduce({mmul(k, inv): v / c for k, v in n.items()}), P1)
        # normalise leading coefficient and common monomial of den
        ms = list(d)
        common = dict(ms[0])
        for m in ms[1:]:
            dd = dict(m)
            for a in list(common):
                e = common[a]
                f = dd.get(a, 0)
                g = min(e, f)
                if g == 0 and e >= 0 and f >= 0:
                    del common[a]
                else:
                    common[a] = g
            for a, f in dd.items():
                if a not in common and f < 0:
                    common[a] = f
        # atoms absent in some monomial with negative exponent in others
        for a in list(common):
            mn = min(dict(m).get(a, 0) for m in ms)
            if mn == 0:
                del common[a]
            else:
                common[a] = mn
        cm = tuple(sorted((a, e) for a, e in common.items()))
        lead = d[min(ms)]
        if cm or lead != 1:
            inv = mpow(cm, -1)
            d = {mmul(k, inv): v / lead for k, v in d.items()}
            n = {mmul(k, inv): v / lead for k, v in n.items()}
            lead2 = d[min(d)]
            if lead2 != 1:
                d = {k: v / lead2 for k, v in d.items()}
                n = {k: v / lead2 for k, v in n.items()}
        # exact proportionality
        if len(n) == len(d):
            k0 = next(iter(d))
            if k0 in n:
                r = n[k0] / d[k0]
                if all(n.get(k) == r * v for k, v in d.items()):
                    return ({(): r}, P1)
        return (n, d)

    def cancel(self, n, d):
        """full gcd cancellation through sympy"""
        if len(d) <= 1:
            return n, d
        import sympy
        atoms = sorted({a for p in (n, d) for m in p for a, _ in m})
        dens = {}
        mins = {}
        for p in (n, d):
            for m in p:
                dm = dict(m)
                for a in atoms:
                    e = Fraction(dm.get(a, 0))
                    dens[a] = dens.get(a, 1) * e.denominator // _gcd(dens.get(a, 1), e.denominator)
                    mins[a] = min(mins.get(a, Fraction(0)), e)
        size = 1
        for a in atoms:
            size *= 1 + int(dens[a] * max(Fraction(dict(m).get(a, 0)) - mins[a] for p in (n, d) for m in p))
        if size > 10 ** 8:
            return n, d
        syms = sympy.symbols(f"x0:{len(atoms)}")
        ix = {a: i for i, a in enumerate(atoms)}

        def topoly(p):
            dd = {}
            for m, c in p.items():
                ex = [0] * len(atoms)
                dm = dict(m)
                for a in atoms:
                    ex[ix[a]] = int((Fraction(dm.get(a, 0)) - mins[a]) * dens[a])
                dd[tuple(ex)] = sympy.Rational(c.numerator, c.denominator)
            return sympy.Poly.from_dict(dd, *syms, domain="QQ")

        P, Q = topoly(n), topoly(d)
        G = sympy.gcd(P, Q)
        if G.is_ground:
            return n, d
        P, Q = P.exquo(G), Q.exquo(G)

        def frompoly(P):
            out = {}
            for ex, c in P.terms():
                m = tuple(sorted((a, _norme(Fraction(ex[ix[a]], dens[a])))
                                 for a in atoms if ex[ix[a]] != 0))
                c = sympy.Rational(c)
                out[m] = Fraction(int(c.p), int(c.q))
            return out
        return self.rsimp(frompoly(P), frompoly(Q))

    # -- atoms
    def atom(self, t):
        ATOM[t.id] = t
        return t.id

    def ratom(self, t):
        return ({((self.atom(t), Fraction(1)),): Fraction(1)}, P1)

    def positive(self, t):
        """t (canonical atom) known > 0"""
        if t.op == "fn" and t.v in ("exp", "logistic", "LN10"):
            return True
        if t.op == "fn" and t.v == "log" and t.a[0].op == "const" and t.a[0].v > 1:
            return True
        if self.ctx is not None:
            r = self.pmemo.get(t)
            if r is None:
                r = self.ctx.is_pos(t)
                self.pmemo[t] = r
            return r
        return False

    # -- main
    def nf(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.nf1(t)
            self.memo[t] = r
        return r

    def nf1(self, t):
        op = t.op
        if op == "const":
            return ({(): t.v} if t.v else {}, P1)
        if op == "var":
            return self.ratom(t)
        if op == "add":
            acc = ({}, P1)
            # group by denominator first
            groups = {}
            for x in t.a:
                n, d = self.nf(x)
                key = frozenset(d.items())
                if key in groups:
                    groups[key] = (padd(groups[key][0], n), d)
                else:
                    groups[key] = (n, d)
            for n, d in groups.values():
                acc = self.radd(acc, self.rsimp(n, d))
            return acc
        if op == "mul":
            acc = (P1, P1)
            for x in t.a:
                acc = self.rmul(acc, self.nf(x))
            return acc
        if op == "div":
            return self.rmul(self.nf(t.a[0]), self.rinv(self.nf(t.a[1])))
        if op == "ipow":
            n, d = self.nf(t.a[0])
            return self.rsimp(self.ppow(n, t.v), self.ppow(d, t.v))
        if op == "fn":
            return self.nf_fn(t)
        if op == "uf":
            return self.ratom(tm.uf(t.v[0], *[self.canon(x) for x in t.a], sort=t.v[1]))
        if op == "ite":
            c = self.canon(t.a[0])
            if c is tm.TRUE:
                return self.nf(t.a[1])
            if c is tm.FALSE:
                return self.nf(t.a[2])
            r = tm.ite(c, self.canon(t.a[1]), self.canon(t.a[2]))
            if r.op != "ite":
                return self.nf(r)
            return self.ratom(r)
        if op == "sum":
            return self.nf_sum(t)
        if op == "lam":
            return self.ratom(self.canon(t))
        if op == "prod":
            j = tm.fresh("_p")
            b = self.canon(tm.body_at(t, j))
            r = tm.Prod(self.canon(t.a[0]), self.canon(t.a[1]), lambda k: tm.subst(b, {j: k}))
            if r.op != "prod":
                return self.nf(r)
            return self.ratom(r)
        if tm.sort_of(t) == "bool":
            return self.ratom(self.canon(t))
        raise ValueError(op)

    def content(self, p):
        """positive rational content and primitive part of a polynomial"""
        num = den = 0
        for c in p.values():
            num = math.gcd(num, abs(c.numerator))
            den = den * c.denominator // math.gcd(den, c.denominator) if den else c.denominator
        k = Fraction(num, den)
        return (k, p) if k == 1 else (k, pscale(p, 1 / k))

    def pos_poly(self, p):
        return all(c > 0 for c in p.values()) and all(self.positive(ATOM[a]) for m in p for a, _ in m)

    def logp(self, p):
        """log of a polynomial with unit content"""
        if p == P1:
            return ({}, P1)
        if len(p) == 1 and 1 in p.values():
            return self.nf(tm.fn("log", self.to_term(p, P1)))
        return self.ratom(tm.fn("log", self.to_term(p, P1)))

    def logc(self, c):
        """log of a positive rational, over the logarithms of its small primes"""
        acc = ({}, P1)
        for x, sg in ((c.numerator, 1), (c.denominator, -1)):
            for q in (10, 2, 3, 5, 7, 11, 13):
                e = 0
                while x % q == 0:
                    x //= q
                    e += 1
                if e:
                    if q == 5:
                        f = self.radd(self.ratom(LN10), self.rmul(({(): Fraction(-1)}, P1), self.ratom(tm._mk("fn", "log", (const(2),)))))
                    else:
                        f = self.ratom(LN10 if q == 10 else tm._mk("fn", "log", (const(q),)))
                    acc = self.radd(acc, self.rmul(({(): Fraction(sg * e)}, P1), f))
            if x != 1:
                acc = self.radd(acc, self.rmul(({(): Fraction(sg)}, P1), self.ratom(tm._mk("fn", "log", (const(x),)))))
        return acc

    def nf_fn(self, t):
        name = t.v
        if name == "LN10":
            return self.ratom(t)
        if name == "exp":
            n, d = self.nf(t.a[0])
            if len(d) > 1:
                n, d = self.cancel(n, d)
            if len(d) > 1:
                return self.ratom(tm._mk("fn", "exp", (self.to_term(n, d),)))
            num = P1
            mono = ()
            extra = (P1, P1)
            for m, c in n.items():
                # exp(c * log(x)) -> x^c
                if len(m) == 1 and m[0][1] == 1:
                    a = ATOM[m[0][0]]
                    if a.op == "fn" and a.v == "log" and (c.denominator == 1):
                        x = self.nf(a.a[0])
                        k = int(c)
                        xr = x if k > 0 else self.rinv(x)
                        p = (self.ppow(xr[0], abs(k)), self.ppow(xr[1], abs(k)))
                        extra = self.rmul(extra, self.rsimp(*p))
                        continue
                    if a is LN10 and c.denominator == 1 and abs(c) < 400:
                        extra = self.rmul(extra, ({(): Fraction(10) ** int(c)}, P1))
                        continue
                mt = self.mono_term(m)
                mono = mmul(mono, ((self.atom(tm._mk("fn", "exp", (mt,))), c),))
            return self.rmul(extra, ({mono: Fraction(1)}, P1))
        if name == "log":
            n, d = self.nf(t.a[0])
            if len(d) > 1:
                n, d = self.cancel(n, d)
            if len(d) == 1 and len(n) == 1:
                (m, c), = n.items()
                if c > 0:
                    acc = self.logc(c)
                    rest = ()
                    for a, e in m:
                        at = ATOM[a]
                        if at.op == "fn" and at.v == "exp":
                            acc = self.radd(acc, self.rmul(({(): Fraction(e)}, P1), self.nf(at.a[0])))
                        elif at.op == "fn" and at.v == "sqrt":
                            acc = self.radd(acc, self.rmul(
                                ({(): Fraction(e) / 2}, P1), self.nf(tm.log(at.a[0]))))
                        elif self.positive(at):
                            acc = self.radd(acc, ({((self.atom(tm._mk("fn", "log", (at,))), Fraction(1)),):
                                                   Fraction(e)}, P1))
                        else:
                            rest = mmul(rest, ((a, e),))
                    if rest:
                        acc = self.radd(acc, self.ratom(tm._mk("fn", "log", (self.mono_term(rest),))))
                    return acc
            if n:
                # log(c * x) = log c + log x (c > 0), log(n/d) = log n - log d (d > 0)
                cn, n = self.content(n)
                cd, d = self.content(d)
                acc = self.logc(cn / cd)
                if d == P1:
                    return self.radd(acc, self.logp(n))
                if self.pos_poly(d):
                    return self.radd(self.radd(acc, self.logp(n)), self.rmul(({(): Fraction(-1)}, P1), self.logp(d)))
                return self.radd(acc, self.ratom(tm.fn("log", self.to_term(n, d))))
            return self.ratom(tm.fn("log", self.to_term(n, d)))
        if name == "logistic":
            if self.mode == "B":
                e = tm.exp(tm.mul(const(-1), t.a[0]))
                return self.rinv(self.radd((P1, P1), self.nf(e)))
            x = self.nf(t.a[0])
            if len(x[1]) > 1:
                x = self.cancel(*x)
            n, d = x
            if not n:
                return ({(): Fraction(1, 2)}, P1)
            if n[min(n)] < 0:
                x = (pscale(n, -1), d)
                at = tm.fn("logistic", self.to_term(*x))
                return self.radd((P1, P1), ({((self.atom(at), Fraction(1)),): Fraction(-1)}, P1))
            return self.ratom(tm.fn("logistic", self.to_term(*x)))
        if name == "sqrt":
            n, d = self.nf(t.a[0])
            if len(d) > 1:
                n, d = self.cancel(n, d)
            if len(d) == 1 and len(n) == 1:
                (m, c), = n.items()
                sc = tm.fn("sqrt", const(c)) if c > 0 else None
                if sc is not None and sc.op == "const" and all(self.positive(ATOM[a]) for a, _ in m):
                    return ({tuple((a, _norme(Fraction(e) / 2)) for a, e in m): sc.v}, P1)
            r = tm.fn("sqrt", self.to_term(n, d))
            if r.op == "const":
                return self.nf(r)
            return self.ratom(r)
        if name == "rpow":
            # x ** y, x>0 : exp(y*log x)
            return self.nf(tm.exp(tm.mul(t.a[1], tm.log(t.a[0]))))
        return self.ratom(tm.fn(name, *[self.canon(x) for x in t.a]))

    # -- sums
    def nf_sum(self, t):
        lo, hi = self.canon(t.a[0]), self.canon(t.a[1])
        j = tm.fresh("_n")
        body = tm.body_at(t, j)
        ctx = self.ctx
        if ctx is not None:
            seg = self.split_sum(body, j, lo, hi)
            if seg is not None:
                acc = ({}, P1)
                for s in seg:
                    acc = self.radd(acc, self.nf(s))
                return acc
        sub = Norm(ctx.with_facts([tm.le(lo, j), tm.lt(j, hi)]) if ctx is not None else None, self.mode)
        n, d = sub.nf(body)
        if len(d) > 1:
            n, d = sub.cancel(n, d)
        if len(d) > 1:
            # pull j-independent content of the denominator out
            dt = self.to_term(d, P1)
            if j not in tm.free_vars(dt):
                r = self.sum_poly(n, j, lo, hi)
                return self.rmul(r, self.rinv((d, P1)))
            at = tm._mk("div", None, (ONE, dt))
            n = {mmul(m, ((self.atom(at), Fraction(1)),)): c for m, c in n.items()}
        return self.sum_poly(n, j, lo, hi)

    def sum_poly(self, n, j, lo, hi):
        acc = ({}, P1)
        for m, c in n.items():
            out, dep = (), ()
            for a, e in m:
                if j in tm.free_vars(ATOM[a]):
                    dep = mmul(dep, ((a, e),))
                else:
                    out = mmul(out, ((a, e),))
            s = self.sum_mono(self.mono_term(dep), j, lo, hi) if dep else \
                self.nf(tm.sub(hi, lo))
            acc = self.radd(acc, self.rmul(({out: c}, P1), s))
        return acc

    def sum_mono(self, body, j, lo, hi):
        # canonical index shift
        offs = []
        for x in tm.atoms_of(body, lambda x: x.op == "uf"):
            for y in x.a:
                if j in tm.free_vars(y):
                    d = self.nf(tm.sub(y, j))
                    if d[1] == P1 and (not d[0] or set(d[0]) == {()}):
                        offs.append(d[0].get((), Fraction(0)))
        sh = min(offs) if offs else Fraction(0)
        if sh:
            body = tm.subst(body, {j: tm.sub(j, const(sh))})
            body = self.canon(body)
            lo, hi = self.canon(tm.add(lo, const(sh))), self.canon(tm.add(hi, const(sh)))
        g = lambda k: self.nf(tm.subst(body, {j: k}))

        def upto(h):  # Sum_{0<=j<h}, signed convention
            n, d = self.nf(h)
            k = n.get((), Fraction(0)) if d == P1 else Fraction(0)
            base = self.canon(tm.sub(h, const(k)))
            if base is ZERO:
                acc = ({}, P1)
                if abs(k) > 64:
                    raise TooBig()
                for q in range(int(k)):
                    acc = self.radd(acc, g(const(q)))
                for q in range(int(k), 0):
                    acc = self.radd(acc, self.rmul(({(): Fraction(-1)}, P1), g(const(q))))
                return acc
            r = tm.Sum(ZERO, base, lambda i: tm.subst(body, {j: i}))
            acc = self.ratom(r) if r.op == "sum" else self.nf(r)
            if abs(k) > 64:
                raise TooBig()
            for q in range(int(k)):
                acc = self.radd(acc, g(tm.add(base, const(q))))
            for q in range(int(k), 0):
                acc = self.radd(acc, self.rmul(({(): Fraction(-1)}, P1), g(tm.add(base, const(q)))))
            return acc
        u = upto(hi)
        if lo is not ZERO:
            u = self.radd(u, self.rmul(({(): Fraction(-1)}, P1), upto(lo)))
        return u

    def split_sum(self, body, j, lo, hi):
        """split the range at a decided boundary of an if-condition on the index"""
        ctx = self.ctx.with_facts([tm.le(lo, j), tm.lt(j, hi)])
        b2 = ctx.simp_conds(body)
        conds = [c.a[0] for c in tm.atoms_of(b2, lambda x: x.op == "ite") if j in tm.free_vars(c.a[0])]
        leaves = []
        for c in conds:
            st = [c]
            while st:
                x = st.pop()
                if x.op in ("and", "or", "not"):
                    st.extend(x.a)
                elif x.op in ("lt", "eq") and j in tm.free_vars(x):
                    leaves.append(x)
        pts = []
        for c in leaves:
            # solve linear  a*j + r  with a=+-1, r independent of j
            d = tm.sub(c.a[1], c.a[0])
            n, dd = Norm(None).nf(d)
            if dd != P1:
                continue
            aj, rest, ok = Fraction(0), {}, True
            for m, co in n.items():
                if any(j in tm.free_vars(ATOM[a]) for a, _ in m):
                    if m == ((self.atom(j), Fraction(1)),):
                        aj = co
                    else:
                        ok = False
                else:
                    rest[m] = co
            if not ok or abs(aj) != 1:
                continue
            r = self.to_term(pscale(rest, -1 / aj), P1)  # j == r
            if c.op == "eq":
                pts.append((r, tm.add(r, 1)))
            elif aj > 0:   # 0 < j - r  : j > r
                pts.append((tm.add(r, 1),))
            else:          # 0 < r - j : j < r
                pts.append((r,))
        for ps in pts:
            ps = [self.canon(p) for p in ps]
            cuts = [lo]
            ok = True
            for p in ps:
                if self.ctx.decide(tm.le(p, cuts[-1])) is True:
                    continue
                if self.ctx.decide(tm.and_(tm.le(cuts[-1], p), tm.le(p, hi))) is True:
                    cuts.append(p)
                elif self.ctx.decide(tm.le(hi, p)) is True:
                    continue
                else:
                    ok = False
                    break
            if not ok or len(cuts) == 1:
                continue
            cuts.append(hi)
            out = []
            for a, b in zip(cuts, cuts[1:]):
                if self.ctx.decide(tm.eq(a, b)) is True:
                    continue
                c2 = self.ctx.with_facts([tm.le(a, j), tm.lt(j, b)])
                if self.ctx.decide(tm.eq(tm.add(a, 1), b)) is True:
                    bb = tm.subst(b2, {j: a})
                    out.append(self.ctx.simp_conds(bb))
                    continue
                bb = c2.simp_conds(b2)
                out.append(tm.Sum(a, b, lambda k, bb=bb: tm.subst(bb, {j: k})))
            if len(out) >= 1 and not (len(out) == 1 and out[0].op == "sum" and tm.body_at(out[0], j) is body):
                return out
        if b2 is not body:
            return [tm.Sum(lo, hi, lambda k: tm.subst(b2, {j: k}))]
        return None

    # -- back to terms
    def mono_term(self, m):
        fs = []
        for a, e in m:
            t = ATOM[a]
            e = Fraction(e)
            if e.denominator == 1:
                fs.append(tm.ipow(t, int(e)) if e > 0 else tm._mk("div", None, (ONE, tm.ipow(t, -int(e)))))
            elif t.op == "fn" and t.v == "exp":
                fs.append(tm._mk("fn", "exp", (tm.mul(const(e), t.a[0]),)))
            else:
                fs.append(tm._mk("fn", "rpow", (t, const(e))))
        return tm.mul(*fs) if fs else ONE

    def poly_term(self, p):
        return tm.add(*[tm.mul(const(c), self.mono_term(m)) for m, c in sorted(p.items())]) if p else ZERO

    def to_term(self, n, d):
        nt = self.poly_term(n)
        if d == P1:
            return nt
        return tm.div(nt, self.poly_term(d))

    def canon(self, t):
        r = self.cmemo.get(t)
        if r is None:
            r = self.canon1(t)
            self.cmemo[t] = r
        return r

    def canon1(self, t):
        op = t.op
        if op in ("const", "true", "false"):
            return t
        if op == "var":
            return t
        if op == "lt":
            n, d = self.nf(tm.sub(t.a[1], t.a[0]))
            if len(d) > 1:
                n, d = self.cancel(n, d)
            if not n:
                return tm.FALSE
            if d == P1:
                c = abs(n[min(n)])
                n = pscale(n, 1 / c)
                # strip a positive monomial content
                if len(n) == 1:
                    (m, c), = n.items()
                    keep = tuple((a, e) for a, e in m if not self.positive(ATOM[a]))
                    n = {keep: c}
                elif self.ctx is not None and self.ctx.generic and n[min(n)] < 0 and not _ints(t):
                    return tm.not_(tm.lt(ZERO, self.to_term(pscale(n, Fraction(-1)), d)))
            return tm.lt(ZERO, self.to_term(n, d))
        if op == "eq":
            n, d = self.nf(tm.sub(t.a[1], t.a[0]))
            if len(d) > 1:
                n, d = self.cancel(n, d)
            if not n:
                return tm.TRUE
            if self.ctx is not None and self.ctx.generic and len(n) > 1 and not _ints(t):
                return tm.FALSE
            c = n[min(n)]
            return tm.eq(ZERO, self.to_term(pscale(n, 1 / c), P1))
        if op == "lam":
            j = tm.fresh("_p")
            hi = self.canon(t.a[1])
            sub = Norm(self.ctx.with_facts([tm.le(ZERO, j), tm.lt(j, hi)]), self.mode) if self.ctx is not None else self
            b = tm.body_at(t, j)
            if self.ctx is not None:
                b = sub.ctx.simp_conds(b)
            b = sub.canon(b)
            return tm.Lam(hi, lambda k: tm.subst(b, {j: k}))
        if op in ("and", "or", "not", "eqb"):
            return tm.rebuild(t, [self.canon(x) for x in t.a])
        if op == "uf" and t.v[1] in ("bool", "key"):
            return tm.uf(t.v[0], *[self.canon(x) for x in t.a], sort=t.v[1])
        if op == "ite" and tm.sort_of(t) in ("key",):
            return tm.ite(*[self.canon(x) for x in t.a])
        n, d = self.nf(t)
        if len(d) > 1:
            n, d = self.cancel(n, d)
        return self.to_term(n, d)

    def is_zero(self, t):
        n, d = self.nf(t)
        return not n


def _ints(t):
    from .smt import is_int
    return all(is_int(x) for x in t.a)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def _norme(e):
    return e
