"""Hash-consed term language of the verification conditions.

Terms denote mathematical reals / integers / booleans.  Every constructor is
total and performs only equivalence-preserving local simplification; partiality
(division by zero, log of a non-positive number, ...) is handled by separate
definedness obligations (see vc.defined).

  const(Fraction)  var(name)  add  mul  div  ipow  fn:exp/log/logistic/sqrt/...
  uf(name, args)   ite(c,a,b)  sum(lo,hi,body; bound var)  prod(...)
  lt(a,b) eq(a,b) and or not true false
"""
from fractions import Fraction
import math

_TABLE = {}
BINDERS = ("sum", "prod", "lam")
_NEXT = [0]


class T:
    __slots__ = ("op", "v", "a", "id", "bd", "_fv")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    # operator sugar (reals)
    def __add__(self, o):
        return add(self, lift(o))

    __radd__ = __add__

    def __sub__(self, o):
        return add(self, mul(NEG1, lift(o)))

    def __rsub__(self, o):
        return add(lift(o), mul(NEG1, self))

    def __mul__(self, o):
        return mul(self, lift(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, lift(o))

    def __rtruediv__(self, o):
        return div(lift(o), self)

    def __neg__(self):
        return mul(NEG1, self)

    def __pow__(self, n):
        return ipow(self, int(n))


def _mk(op, v, a):
    key = (op, v, tuple(x.id for x in a))
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op, t.v, t.a = op, v, tuple(a)
        t.id = _NEXT[0]
        _NEXT[0] += 1
        t._fv = None
        t.bd = max([x.bd for x in a], default=0)  # bound-variable depth
        if op in BINDERS:
            t.bd += 1
        _TABLE[key] = t
    return t


def const(x):
    return _mk("const", Fraction(x), ())


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int) or isinstance(x, Fraction):
        return const(x)
    if isinstance(x, float):
        return snap(x)
    if isinstance(x, str):
        return const(Fraction(x))
    import numpy as np
    if isinstance(x, np.bool_):
        return TRUE if x else FALSE
    if isinstance(x, np.integer):
        return const(int(x))
    if isinstance(x, np.floating):
        return snap(float(x))
    raise TypeError(repr(x))


ZERO = const(0)
ONE = const(1)
NEG1 = const(-1)
TRUE = _mk("true", None, ())
FALSE = _mk("false", None, ())


def var(name, sort="real"):
    return _mk("var", (name, sort), ())


def ivar(name):
    return var(name, "int")


def uf(name, *args, sort="real"):
    return _mk("uf", (name, sort), tuple(lift(x) for x in args))


def is_const(t):
    return t.op == "const"


# ---------------------------------------------------------------- arithmetic

def _coef(t):
    """t = c * rest"""
    if t.op == "const":
        return t.v, ONE
    if t.op == "mul" and t.a[0].op == "const":
        rest = t.a[1:]
        return t.a[0].v, (rest[0] if len(rest) == 1 else _mk("mul", None, rest))
    return Fraction(1), t


def add(*args):
    acc = {}
    order = []
    stack = list(args)[::-1]
    while stack:
        t = lift(stack.pop())
        if t.op == "add":
            stack.extend(reversed(t.a))
            continue
        c, r = _coef(t)
        if r in acc:
            acc[r] += c
        else:
            acc[r] = c
            order.append(r)
    out = []
    for r in order:
        c = acc[r]
        if c == 0:
            continue
        out.append(const(c) if r is ONE else (r if c == 1 else mul(const(c), r)))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return _mk("add", None, out)


def sub(a, b):
    return add(a, mul(NEG1, b))


def mul(*args):
    c = Fraction(1)
    acc = {}
    order = []
    stack = list(args)[::-1]
    while stack:
        t = lift(stack.pop())
        if t.op == "mul":
            stack.extend(reversed(t.a))
        elif t.op == "const":
            c *= t.v
        else:
            b, e = (t.a[0], t.v) if t.op == "ipow" else (t, 1)
            if b in acc:
                acc[b] += e
            else:
                acc[b] = e
                order.append(b)
    if c == 0:
        return ZERO
    out = []
    for b in order:
        e = acc[b]
        if e == 0:
            continue
        out.append(b if e == 1 else ipow(b, e))
    if not out:
        return const(c)
    if len(out) == 1 and c == 1:
        return out[0]
    if len(out) == 1 and out[0].op == "add":  # distribute constants
        return add(*[mul(const(c), x) for x in out[0].a])
    out.sort(key=lambda t: t.id)
    if c != 1:
        out = [const(c)] + out
    return _mk("mul", None, out)


def div(a, b):
    a, b = lift(a), lift(b)
    if b.op == "const" and b.v != 0:
        return mul(const(1 / b.v), a)
    if a.op == "const" and a.v == 0:
        return ZERO  # definedness of b is checked separately
    if b.op == "add" and len(b.a) == 2 and ONE in b.a:
        e = b.a[1] if b.a[0] is ONE else b.a[0]
        if e.op == "fn" and e.v == "exp":
            return mul(a, fn("logistic", mul(const(-1), e.a[0])))   # 1/(1+exp u) = logistic(-u)
    return _mk("div", None, (a, b))


def ipow(a, n):
    a = lift(a)
    if n == 0:
        return ONE
    if n == 1:
        return a
    if n < 0:
        return div(ONE, ipow(a, -n))
    if a.op == "const":
        return const(a.v ** n)
    if a.op == "ipow":
        return ipow(a.a[0], a.v * n)
    return _mk("ipow", n, (a,))


LN10 = _mk("fn", "LN10", ())


def fn(name, *args):
    args = [lift(x) for x in args]
    if name == "exp":
        if args[0] is ZERO:
            return ONE
        if args[0].op == "fn" and args[0].v == "log":
            return args[0].a[0]
    elif name == "log":
        if args[0] is ONE:
            return ZERO
        if args[0].op == "const" and args[0].v > 0:
            return _logconst(args[0].v)
        if args[0].op == "fn" and args[0].v == "exp":
            return args[0].a[0]
    elif name == "sqrt":
        x = args[0]
        if x.op == "const" and x.v >= 0:
            p, q = math.isqrt(x.v.numerator), math.isqrt(x.v.denominator)
            if p * p == x.v.numerator and q * q == x.v.denominator:
                return const(Fraction(p, q))
    elif name == "logistic":
        if args[0] is ZERO:
            return const(Fraction(1, 2))
    return _mk("fn", name, tuple(args))


def _logconst(c):
    # log of a positive rational, powers of ten pulled out
    k = 0
    while c >= 10:
        c /= 10
        k += 1
    while c < 1:
        c *= 10
        k -= 1
    r = ZERO if c == 1 else _mk("fn", "log", (const(c),))
    return add(mul(const(k), LN10), r) if k else r


def exp(x):
    return fn("exp", x)


def log(x):
    return fn("log", x)


def log10(x):
    return div(fn("log", x), LN10)


def pow10(x):
    return fn("exp", mul(lift(x), LN10))


def sigma(x):
    return fn("logistic", x)


def sqrt(x):
    return fn("sqrt", x)


# ---------------------------------------------------------------- booleans

def _cmp_ite(a, b, f):
    """comparison of an if-then-else with literal branches against a literal"""
    for x, y, sw in ((a, b, False), (b, a, True)):
        if x.op == "ite" and y.op == "const" and x.a[1].op == "const" and x.a[2].op == "const":
            g = (lambda p: f(y, p)) if sw else (lambda p: f(p, y))
            p, q = g(x.a[1]), g(x.a[2])
            if p is q:
                return p
            return x.a[0] if p is TRUE else not_(x.a[0])
    return None


def lt(a, b):
    a, b = lift(a), lift(b)
    r = _cmp_ite(a, b, lt)
    if r is not None:
        return r
    if "inf" in (_infinite(a), _infinite(b)) or "-inf" in (_infinite(a), _infinite(b)):
        # every other term denotes a (finite) real number
        rank = {"-inf": -1, None: 0, "inf": 1}
        return TRUE if rank[_infinite(a)] < rank[_infinite(b)] else FALSE
    for x, y, f in ((a, b, lambda z: lt(z, b)), (b, a, lambda z: lt(a, z))):
        if x.op == "ite" and _inf_leaf(x):
            c, p, q = x.a
            p, q = f(p), f(q)
            return or_(and_(c, p), and_(not_(c), q))
    d = sub(lift(b), lift(a))
    if d.op == "const":
        return TRUE if d.v > 0 else FALSE
    return _mk("lt", None, (lift(a), lift(b)))


def _inf_leaf(t):
    if t.op == "ite":
        return _inf_leaf(t.a[1]) or _inf_leaf(t.a[2])
    return _infinite(t) is not None


def _infinite(t):
    if t.op == "var" and t.v[0] in ("INF", "NEGINF"):
        return "inf" if t.v[0] == "INF" else "-inf"
    return None


def le(a, b):
    return not_(lt(b, a))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return not_(lt(a, b))


def eq(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return TRUE
    if sort_of(a) == "bool" or sort_of(b) == "bool":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        if a.id > b.id:
            a, b = b, a
        return _mk("eqb", None, (a, b))
    r = _cmp_ite(a, b, eq)
    if r is not None:
        return r
    d = sub(a, b)
    if d.op == "const":
        return TRUE if d.v == 0 else FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk("eq", None, (a, b))


def not_(c):
    c = lift(c)
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.a[0]
    return _mk("not", None, (c,))


def and_(*cs):
    out = []
    for c in cs:
        c = lift(c)
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        for x in (c.a if c.op == "and" else (c,)):
            if x not in out:
                out.append(x)
    for x in out:
        if not_(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return _mk("and", None, out)


def or_(*cs):
    return not_(and_(*[not_(c) for c in cs]))


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    c, a, b = lift(c), lift(a), lift(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if sort_of(a) == "bool":
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "lt" and c.a[1].id < c.a[0].id:
        x, y = c.a
        # max and min do not depend on the order of their arguments
        if a is y and b is x:       # max(x, y)
            c, a, b = lt(y, x), x, y
        elif a is x and b is y:     # min(x, y)
            c, a, b = lt(y, x), y, x
        if c.op != "lt":
            return ite(c, a, b)
    return _mk("ite", None, (c, a, b))


def max_(a, b):
    return ite(lt(a, b), b, a)


def min_(a, b):
    return ite(lt(b, a), b, a)


def abs_(a):
    return ite(lt(a, ZERO), mul(NEG1, a), a)


def sort_of(t):
    if t.op in ("lt", "eq", "eqb", "and", "or", "not", "true", "false"):
        return "bool"
    if t.op == "var":
        return t.v[1]
    if t.op == "uf":
        return t.v[1]
    if t.op == "ite":
        return sort_of(t.a[1])
    return "num"


# ---------------------------------------------------------------- binders

_FRESH = [0]


def fresh(prefix="_f", sort="int"):
    _FRESH[0] += 1
    return var(f"{prefix}{_FRESH[0]}", sort)


def _binder(op, lo, hi, f):
    lo, hi = lift(lo), lift(hi)
    if op != "lam" and lo.op == "const" and hi.op == "const":
        n = hi.v - lo.v
        if n <= 0:
            return ZERO if op == "sum" else ONE
        if n <= 64:
            xs = [lift(f(const(lo.v + k))) for k in range(int(n))]
            return add(*xs) if op == "sum" else mul(*xs)
    j = fresh("_b")
    body = lift(f(j))
    d = body.bd
    bv = ivar(f"§{d}")
    body = subst(body, {j: bv})
    if op == "sum" and body is ZERO:
        return ZERO
    if op == "prod" and body is ONE:
        return ONE
    return _mk(op, d, (lo, hi, body))


def Sum(lo, hi, f):
    return _binder("sum", lo, hi, f)


def Prod(lo, hi, f):
    return _binder("prod", lo, hi, f)


def Lam(hi, f):
    """the array [f(0), ..., f(hi-1)] as a value (argument of opaque functions)"""
    return _binder("lam", ZERO, hi, f)


def body_at(t, j):
    """instantiate the body of a sum/prod at index j"""
    return subst(t.a[2], {ivar(f"§{t.v}"): lift(j)})


def rebuild(t, a):
    op = t.op
    if op == "add":
        return add(*a)
    if op == "mul":
        return mul(*a)
    if op == "div":
        return div(*a)
    if op == "ipow":
        return ipow(a[0], t.v)
    if op == "fn":
        return fn(t.v, *a)
    if op == "uf":
        return uf(t.v[0], *a, sort=t.v[1])
    if op == "ite":
        return ite(*a)
    if op == "lt":
        return lt(*a)
    if op == "eq":
        return eq(*a)
    if op == "eqb":
        return eq(*a)
    if op == "and":
        return and_(*a)
    if op == "or":
        return or_(*a)
    if op == "not":
        return not_(a[0])
    if op in BINDERS:
        bv = ivar(f"§{t.v}")
        return _binder(op, a[0], a[1], lambda j: subst(a[2], {bv: j}))
    raise ValueError(op)


def free_vars(t):
    if t._fv is None:
        s = set()
        if t.op == "var":
            s.add(t)
        for x in t.a:
            s |= free_vars(x)
        if t.op in BINDERS:
            s.discard(ivar(f"§{t.v}"))
        t._fv = frozenset(s)
    return t._fv


def subst(t, m, memo=None):
    """capture-safe substitution of variables (keys are var terms)."""
    if memo is None:
        memo = {}
    keys = frozenset(m)

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t in m:
            r = m[t]
        elif not t.a or not (free_vars(t) & keys):
            r = t
        elif t.op in BINDERS:
            bv = ivar(f"§{t.v}")
            j = fresh("_s")
            body = subst(t.a[2], {bv: j})
            a0, a1, b = go(t.a[0]), go(t.a[1]), go(body)
            r = _binder(t.op, a0, a1, lambda k, b=b, j=j: subst(b, {j: k}))
        else:
            a = [go(x) for x in t.a]
            r = rebuild(t, a)
        memo[t] = r
        return r

    import sys
    if sys.getrecursionlimit() < 100000:
        sys.setrecursionlimit(100000)
    return go(t)


def replace(t, m, memo=None):
    """replace arbitrary (closed wrt binders) subterms"""
    if memo is None:
        memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t in m:
            r = m[t]
        elif not t.a:
            r = t
        elif t.op in BINDERS:
            a0, a1, b = go(t.a[0]), go(t.a[1]), go(t.a[2])
            if a0 is t.a[0] and a1 is t.a[1] and b is t.a[2]:
                r = t
            else:
                bv = ivar(f"§{t.v}")
                r = _binder(t.op, a0, a1, lambda k, b=b, bv=bv: subst(b, {bv: k}))
        else:
            a = [go(x) for x in t.a]
            r = t if all(x is y for x, y in zip(a, t.a)) else rebuild(t, a)
        memo[t] = r
        return r
    return go(t)


def map_uf(t, m):
    """replace every application of the uninterpreted symbols in m by the given function"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if not t.a and t.op != "uf":
            r = t
        elif t.op in BINDERS:
            a0, a1 = go(t.a[0]), go(t.a[1])
            r = _binder(t.op, a0, a1, lambda k: go(body_at(t, k)))
        else:
            a = [go(x) for x in t.a]
            if t.op == "uf" and t.v[0] in m:
                r = lift(m[t.v[0]](*a))
            else:
                r = t if all(x is y for x, y in zip(a, t.a)) else rebuild(t, a)
        memo[t] = r
        return r
    return go(t)


# ---------------------------------------------------------------- literals

def snap(x):
    """Real number denoted by a float literal of the program.

    Floating-point literals are read as the nearest simple rational within
    one unit in the last place (decimal literals as written, p/q with small q),
    and the literals produced by jnp.log10 / pow(10,.) as LN10 and 1/LN10.
    """
    if x != x or x in (float("inf"), float("-inf")):
        return var("INF" if x > 0 else ("NAN" if x != x else "NEGINF"))
    if x == int(x) and abs(x) < 1e18:
        return const(int(x))
    if abs(x - 0.4342944819032518) < 1e-15 or abs(x - 0.43429448) < 2e-9:
        return div(ONE, LN10)
    if abs(x - 2.302585092994046) < 1e-14 or abs(x - 2.3025851) < 1e-8:
        return LN10
    x = float(x)
    s = repr(x)
    dec = Fraction(s)
    digits = len(s.replace("-", "").replace(".", "").split("e")[0].strip("0"))
    if digits <= 12:
        return const(dec)
    ulp = math.ulp(x)
    for dmax in (1000, 100000):
        r = Fraction(x).limit_denominator(dmax)
        if r != 0 and abs(float(r) - x) <= ulp:
            return const(r)
    # decimal with few digits, up to one ulp (e.g. 0.1+0.2)
    for nd in (6, 9, 11):
        r = Fraction(f"{x:.{nd}e}")
        if abs(float(r) - x) <= ulp:
            return const(r)
    return const(dec)


# ---------------------------------------------------------------- evaluation

class EvalError(Exception):
    pass


def ev(t, env, memo=None, M=math):
    """numeric evaluation. env: name -> number | callable(*idx) for ufs"""
    if memo is None:
        memo = {}

    def go(t):
        if t in memo:
            return memo[t]
        r = go1(t)
        memo[t] = r
        return r

    def go1(t):
        op = t.op
        if op == "const":
            return int(t.v) if t.v.denominator == 1 and abs(t.v) < 2**53 else (
                t.v.numerator / t.v.denominator)
        if op == "var":
            n = t.v[0]
            if n in env:
                return env[n]
            if n == "INF":
                return float("inf")
            if n == "NEGINF":
                return float("-inf")
            if n == "NAN":
                return float("nan")
            raise EvalError("unbound " + n)
        if op == "add":
            return sum(go(x) for x in t.a)
        if op == "mul":
            r = 1
            for x in t.a:
                r = r * go(x)
            return r
        if op == "div":
            a, b = go(t.a[0]), go(t.a[1])
            if b == 0:
                if a == 0 or a != a:
                    return float("nan")
                return float("inf") if a > 0 else float("-inf")
            return a / b
        if op == "ipow":
            return go(t.a[0]) ** t.v
        if op == "fn":
            if t.v == "LN10":
                return M.log(10)
            x = [go(y) for y in t.a]
            try:
                if t.v == "exp":
                    return M.exp(x[0])
                if t.v == "log":
                    if x[0] <= 0 or x[0] != x[0]:
                        return float("-inf") if x[0] == 0 else float("nan")
                    return M.log(x[0])
                if t.v == "sqrt":
                    return M.sqrt(x[0]) if x[0] >= 0 else float("nan")
                if t.v == "logistic":
                    y = x[0]
                    if y >= 0:
                        return 1 / (1 + M.exp(-y))
                    z = M.exp(y)
                    return z / (1 + z)
                if t.v == "erf_inv":
                    from scipy.special import erfinv
                    return float(erfinv(x[0]))
                if t.v == "floor":
                    return M.floor(x[0])
                if t.v == "tanh":
                    return M.tanh(x[0])
                if t.v == "rpow":
                    return x[0] ** x[1]
            except OverflowError:
                return float("inf")
            if t.v in env:
                return env[t.v](*x)
            raise EvalError(t.v)
        if op == "uf":
            f = env.get(t.v[0])
            if f is None:
                raise EvalError("uf " + t.v[0])
            return f(*[go(x) for x in t.a])
        if op == "ite":
            return go(t.a[1]) if go(t.a[0]) else go(t.a[2])
        if op == "lt":
            return go(t.a[0]) < go(t.a[1])
        if op == "eq":
            return go(t.a[0]) == go(t.a[1])
        if op == "eqb":
            return bool(go(t.a[0])) == bool(go(t.a[1]))
        if op == "and":
            return all(go(x) for x in t.a)
        if op == "or":
            return any(go(x) for x in t.a)
        if op == "not":
            return not go(t.a[0])
        if op == "true":
            return True
        if op == "false":
            return False
        if op in BINDERS:
            lo, hi = int(go(t.a[0])), int(go(t.a[1]))
            name = f"§{t.v}"
            acc = 0 if op == "sum" else 1
            if op == "lam":
                acc = []
            bv = ivar(name)
            for j in range(lo, hi):
                e2 = dict(env)
                e2[name] = j
                # share memo entries that do not depend on the bound variable
                v = ev(t.a[2], e2, {k: w for k, w in memo.items() if bv not in free_vars(k)}, M)
                if op == "lam":
                    acc.append(v)
                    continue
                acc = acc + v if op == "sum" else acc * v
            return tuple(acc) if op == "lam" else acc
        raise EvalError(op)

    return go(t)


# ---------------------------------------------------------------- printing

def show(t, depth=12):
    if depth <= 0:
        return "…"
    s = lambda x: show(x, depth - 1)
    op = t.op
    if op == "const":
        if t.v.denominator == 1 or t.v.denominator > 10**6:
            return str(t.v.numerator) if t.v.denominator == 1 else "%.12g" % float(t.v)
        return f"{t.v.numerator}/{t.v.denominator}"
    if op == "var":
        return t.v[0]
    if op == "add":
        return "(" + " + ".join(s(x) for x in t.a) + ")"
    if op == "mul":
        return "(" + "*".join(s(x) for x in t.a) + ")"
    if op == "div":
        return f"({s(t.a[0])}/{s(t.a[1])})"
    if op == "ipow":
        return f"{s(t.a[0])}^{t.v}"
    if op == "fn":
        return t.v if not t.a else f"{t.v}({', '.join(s(x) for x in t.a)})"
    if op == "uf":
        return t.v[0] + ("[" + ",".join(s(x) for x in t.a) + "]" if t.a else "")
    if op == "ite":
        return f"(if {s(t.a[0])} then {s(t.a[1])} else {s(t.a[2])})"
    if op == "lt":
        return f"{s(t.a[0])} < {s(t.a[1])}"
    if op in ("eq", "eqb"):
        return f"{s(t.a[0])} == {s(t.a[1])}"
    if op == "and":
        return "(" + " & ".join(s(x) for x in t.a) + ")"
    if op == "not":
        return "!(" + s(t.a[0]) + ")"
    if op in BINDERS:
        return f"{op}_{{{s(t.a[0])}<=§{t.v}<{s(t.a[1])}}} {s(t.a[2])}"
    return op


def size(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(x.a)
    return len(seen)


def atoms_of(t, pred):
    seen = set()
    out = []
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            out.append(x)
        st.extend(x.a)
    return out
