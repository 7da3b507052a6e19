"""symbolic differentiation of specification terms (piecewise, away from the switching points of conditionals)"""
from . import terms as tm
from .terms import ZERO, ONE
from .jaxvc import Unsupported


def diff(t, x, memo=None):
    """derivative of the real term t with respect to the variable (or atom) x;
    an uninterpreted function F has the partial derivatives d0:F, d1:F, ..."""
    memo = {} if memo is None else memo
    x = tm.lift(x)
    has = {}

    def dep(t):
        r = has.get(t)
        if r is None:
            r = has[t] = t is x or any(dep(a) for a in t.a)
        return r

    def go(t):
        if t is x:
            return ONE
        if not dep(t):
            return ZERO
        r = memo.get(t)
        if r is None:
            r = memo[t] = step(t)
        return r

    def step(t):
        op, a = t.op, t.a
        if op == "add":
            return tm.add(*[go(u) for u in a])
        if op == "mul":
            return tm.add(*[tm.mul(go(u), *[w for q, w in enumerate(a) if q != p]) for p, u in enumerate(a)])
        if op == "div":
            return tm.div(go(a[0]), a[1]) - tm.div(a[0] * go(a[1]), tm.ipow(a[1], 2))
        if op == "ipow":
            return tm.const(t.v) * tm.ipow(a[0], t.v - 1) * go(a[0])
        if op == "ite":
            return tm.ite(a[0], go(a[1]), go(a[2]))
        if op == "sum":
            if dep(a[0]) or dep(a[1]):
                raise Unsupported("derivative of a sum's bounds")
            return tm.Sum(a[0], a[1], lambda j: diff(tm.body_at(t, j), x))
        if op == "uf":
            return tm.add(*[tm.uf(f"d{p}:{t.v[0]}", *a) * go(u) for p, u in enumerate(a) if dep(u)])
        if op == "fn":
            u = a[0]
            if t.v == "exp":
                return t * go(u)
            if t.v == "log":
                return tm.div(go(u), u)
            if t.v == "sqrt":
                return tm.div(go(u), 2 * t)
            if t.v == "logistic":
                return t * (1 - t) * go(u)
        raise Unsupported("derivative of " + op + (":" + str(t.v) if op == "fn" else ""))
    return go(tm.lift(t))
