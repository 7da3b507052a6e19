"""Run recorder: obligations, bounded stand-ins, conformance cases, verdict."""
import hashlib
import json
import os
import re
import sys
import time
import traceback
from contextlib import contextmanager

import numpy as np

from . import terms as tm
from . import smt
from .smt import Ctx, Prover, Verdict
from .jaxvc import Machine, Unsupported, Arr

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VC_EVID") or os.path.join(HERE, "evidence")


class Violation(Exception):
    """raised by a conformance case: the real code broke the property"""


class Missing(Exception):
    """a private helper named by a contract is no longer there"""


class Case:
    """One family of concrete executions of the real code against the property.

    gen(rng) -> dict of JSON-able inputs ; run(inputs) raises Violation(msg).
    """

    def __init__(self, name, gen, run, n=20, n_deep=200, first=()):
        self.name, self.gen, self.run = name, gen, run
        self.n, self.n_deep = n, n_deep
        self.first = list(first)


class Run:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obl = []          # dicts name, status, backend, detail
        self.functions = {}    # function -> status
        self.assumptions = []
        self.standins = []
        self.notes = []
        self.cases = []
        self.hints = []
        self.failed = []
        self.evals = 0
        self.case_counts = {}
        self.concrete = []
        self.prover = Prover(budget=60.0, z3_timeout=8000)
        self.deadline = self.t0 + (700 if tier == "quick" else 3000)
        self.cur = None
        self.early = None      # failing concrete run found before the proofs
        self.skipped = []

    # ------------------------------------------------------------- contracts
    def fn(self, *names):
        for n in names:
            self.functions.setdefault(n, "contract")

    def assume(self, *txt):
        for t in txt:
            if t not in self.assumptions:
                self.assumptions.append(t)

    @contextmanager
    def section(self, name, *fns):
        """one group of obligations about one function of the code under test"""
        prev = self.cur
        self.cur = name
        n0 = len(self.obl)
        try:
            yield self
            for f in fns:
                self.functions[f] = "contract discharged" if all(
                    o["status"] == "proved" for o in self.obl[n0:]) else "contract failed"
            if len(self.obl) == n0:
                self.note(f"section {name} produced no obligation")
        except Unsupported as e:
            self.standin(name, "outside the VC generator: " + str(e)[:200], fns)
        except Missing as e:
            self.standin(name, "anchor missing: " + str(e)[:200], fns)
        except (smt.TooBig, RecursionError) as e:
            self.standin(name, "term growth: " + type(e).__name__, fns)
        except Exception as e:   # tracing the real code failed
            tb = traceback.format_exc().splitlines()
            self.standin(name, f"{type(e).__name__}: {str(e)[:300]}", fns)
            self.note("\n".join(tb[-12:]))
        finally:
            self.cur = prev

    def standin(self, name, why, fns=()):
        self.standins.append({"section": name, "reason": why})
        for f in fns:
            self.functions[f] = "bounded (concrete conformance only): " + why[:120]

    def note(self, s):
        self.notes.append(s)

    # ------------------------------------------------------------- obligations
    def _rec(self, name, v, dt):
        full = (self.cur + ": " if self.cur else "") + name
        o = {"name": full, "status": v.status, "backend": v.backend, "time": round(dt, 3)}
        if not v.ok:
            o["detail"] = v.detail[:2000]
            self.failed.append(dict(o, model={tm.show(k, 4): val for k, val in (v.model or {}).items()}))
            if v.model:
                h = {}
                for k, val in v.model.items():
                    if k.op == "var":
                        h[k.v[0]] = val
                if h:
                    self.hints.append(h)
        self.obl.append(o)
        if os.environ.get("VC_VERBOSE"):
            print(("  ok   " if v.ok else "  FAIL ") + full, v.backend, round(dt, 2),
                  "" if v.ok else v.detail[:700], flush=True)
        return v.ok

    def eq(self, name, ctx, a, b, budget=None):
        return self._go(name, lambda P: P.eq(ctx, tm.lift(a), tm.lift(b)), budget)

    def prove(self, name, ctx, goal, budget=None):
        return self._go(name, lambda P: P.prove(ctx, tm.lift(goal)), budget)

    def _go(self, name, f, budget=None):
        t = time.time()
        if self.early and t - self.t0 > 100:
            # the real code already failed a concrete run: the remaining obligations are not needed
            self.skipped.append((self.cur + ": " if self.cur else "") + name)
            return False
        small = bool(self.early) or len(self.failed) >= 3
        v = f(Prover(budget=min(budget or 40.0, 8.0 if small else 1e9), z3_timeout=2000 if small else 6000))
        if not v.ok and not small and time.time() - self.t0 < 300:
            v2 = f(Prover(budget=(budget or 40.0) * 2, z3_timeout=20000))
            if v2.ok or v2.model:
                v = v2
        return self._rec(name, v, time.time() - t)

    def must_fail(self, name, ctx, goal):
        """engine sanity: a false statement must not be provable"""
        v = Prover(budget=10.0, z3_timeout=3000).prove(ctx, tm.lift(goal))
        if v.ok:
            raise AssertionError("vacuous context or unsound engine: " + name)
        self.notes.append("vacuity guard ok: " + name)

    def prod_unit(self, name, ctx, P, hyp=lambda k: ()):
        """0 <= P <= 1 for a product over an index range: every factor is in [0, 1] (Finset.prod_nonneg, prod_le_one)"""
        if P.op != "prod":
            return self._rec(name, Verdict(False, "rule", "not a product"), 0.0)
        k = tm.fresh("_k")
        c = ctx.with_facts([tm.le(P.a[0], k), tm.lt(k, P.a[1])] + list(hyp(k)))
        b = tm.body_at(P, k)
        ok = self.prove(name + ": each factor >= 0", c, tm.le(tm.ZERO, b))
        ok &= self.prove(name + ": each factor <= 1", c, tm.le(b, tm.ONE))
        return ok

    def sum_range(self, name, ctx, S, body, hyp=lambda j: ()):
        """bounds of a sum over an index range from bounds body(j, term) on its generic term (Finset.sum_le_sum)"""
        if S.op != "sum":
            return self._rec(name, Verdict(False, "rule", "not a sum"), 0.0)
        j = tm.fresh("_j")
        c = ctx.with_facts([tm.le(S.a[0], j), tm.lt(j, S.a[1])] + list(hyp(j)))
        return body(j, c, tm.body_at(S, j))

    def loops(self, M, ctx=None):
        """discharge the inductive invariants generated for the scans of M"""
        ctx = ctx or M.ctx
        for k, (nm, a, b, facts) in enumerate(M.loop_obl):
            kind_b = tm.sort_of(a) == "bool"
            c = ctx.with_facts(facts)
            if kind_b:
                self.prove(f"{nm} #{k}", c, tm.eq(a, b))
            else:
                self.eq(f"{nm} #{k}", c, a, b)
        M.loop_obl = []

    def defined(self, name, ctx, *ts):
        """every division / log / sqrt in the terms has an argument in its domain"""
        seen = {}
        for t in ts:
            for facts, cond, what in side_conditions(t):
                seen.setdefault((tuple(f.id for f in facts), cond.id), (facts, cond, what))
        n = 0
        for facts, cond, what in seen.values():
            n += 1
            self.prove(f"{name}: {what}", ctx.with_facts(facts), cond)
        return n

    # ------------------------------------------------------------- conformance
    def case(self, *a, **k):
        self.cases.append(Case(*a, **k))

    def run_cases(self, first=False):
        only = os.environ.get("VC_CASE")
        deep = self.tier == "thorough" and not first
        need = bool(self.failed) or bool(self.standins)
        viol = None
        t_end = min(self.deadline, time.time() + (300 if (deep or need) else 150))
        for c in self.cases:
            if only and c.name != only:
                continue
            h = int(hashlib.sha256(f"{self.pid}/{c.name}".encode()).hexdigest()[:8], 16)
            rng = np.random.default_rng([self.seed, h] if first else [self.seed, h, 1])
            n = c.n_deep if (deep or need) else c.n
            k = 0
            tc = time.time()
            share = max(20.0, (t_end - tc) / max(1, len(self.cases)))
            queue = list(c.first)
            while k < n and time.time() < t_end and time.time() - tc < share * 3:
                hinted = False
                try:
                    if queue:
                        inp = queue.pop(0)
                    else:
                        inp = c.gen(rng)
                        if need and self.hints and k % 3 == 2:
                            hint = self.hints[(k // 3) % len(self.hints)]
                            inp, hinted = apply_hint(inp, hint), True
                except Exception:
                    self.note(f"generator of case {c.name} failed: {traceback.format_exc()[-500:]}")
                    raise
                k += 1
                self.evals += 1
                msg = self.run_one(c, inp, hinted)
                if msg:
                    viol = (c, inp, msg)
                    break
            self.case_counts[c.name] = self.case_counts.get(c.name, 0) + k
            if viol:
                break
        return viol

    def run_one(self, c, inp, hinted=False):
        try:
            c.run(inp)
        except Violation as e:
            return str(e)
        except Missing as e:
            self.note(f"case {c.name}: anchor missing {e}")
            return None
        except Exception as e:
            # an exception coming out of the code under test is a violation,
            # one coming out of the harness is an error of the check
            tb = traceback.extract_tb(e.__traceback__)
            files = [f.filename for f in tb]
            if hinted:
                # a counter-model value may fall outside what the case generates
                self.note(f"case {c.name}: input from a counter-model not usable: {type(e).__name__}")
                return None
            if any("/diffstar/" in f and "/verif/" not in f for f in files):
                return f"real code raised {type(e).__name__}: {str(e)[:300]}"
            if isinstance(e, (AttributeError, ImportError)) or (isinstance(e, TypeError) and SIGNATURE.search(str(e))):
                self.note(f"case {c.name}: anchor changed: {type(e).__name__}: {str(e)[:200]}")
                return None
            if isinstance(e, (IndexError, KeyError, TypeError, ValueError)):
                return f"the result does not have the stated structure: {type(e).__name__}: {str(e)[:300]}"
            raise
        return None

    # ------------------------------------------------------------- verdict
    def finish(self):
        proved = sum(o["status"] == "proved" for o in self.obl)
        viol = self.early
        if not viol and not only_first(self):
            viol = self.run_cases()
        out = 0
        lines = []
        if viol or self.failed:
            rp = os.path.join(EVID, f"replay_{self.pid}.json")
            os.makedirs(EVID, exist_ok=True)
            rep = {"property": self.pid, "failed_obligations": self.failed[:20]}
            if viol:
                c, inp, msg = viol
                rep.update(case=c.name, inputs=jsonable(inp), message=msg,
                           replay_cmd=f"./run_check.sh {self.pid} --replay {rp}")
            with open(rp, "w") as f:
                json.dump(rep, f, indent=1, default=str)
            out = 1
            lines.append(f"VIOLATION property={self.pid} replay={rp}"
                         + ("" if viol else " no-failing-input-found"))
            for o in self.failed[:8]:
                lines.append(f"  failed obligation: {o['name']} [{o['backend']}] {o.get('detail', '')[:300]}")
            if viol:
                lines.append(f"  failing input ({viol[0].name}): {viol[2][:600]}")
        elif not self.obl and not self.standins:
            raise AssertionError("no obligation generated")
        self.write(proved, 1 if out else 0)
        for l in lines:
            print(l)
        print(f"{self.pid}: {proved}/{len(self.obl)} obligations discharged, "
              f"{len(self.standins)} bounded stand-ins, {self.evals} concrete runs, "
              f"{time.time() - self.t0:.1f}s")
        for s in self.standins:
            print(f"  bounded stand-in: {s['section']}: {s['reason'][:300]}")
        if os.environ.get("VC_VERBOSE"):
            for s in self.notes:
                print("  note:", s)
        return out

    def write(self, proved, nviol):
        os.makedirs(EVID, exist_ok=True)
        backends = {}
        for o in self.obl:
            if o["status"] == "proved":
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
        st = smt.STATS
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "proof",
            "coverage": {
                "obligations": len(self.obl), "discharged": proved,
                "checker_cmd": f"./run_check.sh {self.pid}",
                "trusted_base": TRUSTED,
                "discharged_by": backends,
                "functions_under_contract": self.functions,
                "bounded_standins": self.standins,
                "not_attempted_after_a_concrete_violation": self.skipped,
                "solver": {"z3_queries": st["z3"], "z3_seconds": round(st["z3_time"], 2),
                           "cvc5_queries": st["cvc5"], "cvc5_seconds": round(st["cvc5_time"], 2),
                           "ring_queries": st["ring"], "ring_seconds": round(st["ring_time"], 2)},
                "obligation_list": [{k: o[k] for k in ("name", "status", "backend", "time")}
                                    for o in self.obl][:400],
                "concrete_conformance": {"runs": self.evals, "per_case": self.case_counts,
                                         "role": "bounded run-time check of the same contracts on the "
                                                 "real functions (64-bit); never counted as proved"},
                "notes": self.notes[:60],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": nviol,
        }
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)


TRUSTED = [
    "JAX tracing: jax.make_jaxpr of the function object imported from /repo is the program that runs",
    "vc/jaxvc.py: denotation of jaxpr primitives over the reals (cross-checked against the real outputs on every run)",
    "vc/norm.py rational normal form, vc/smt.py translation to z3; z3 4.x unsat answers",
    "axioms on exp, log, sqrt, logistic stated and proved in lean/Axioms.lean",
    "machine floating point treated as real arithmetic; literals read as the decimal/rational they were written as",
]


SIGNATURE = re.compile(r"positional argument|unexpected keyword|missing \d+ required")


def only_first(R):
    """no second round of concrete runs: everything was discharged and the tier is quick"""
    return R.tier == "quick" and not R.failed and not R.standins


def side_conditions(t):
    """[(path facts, condition, label)] for the partial operations of t"""
    out = []
    seen = set()

    def go(t, path):
        key = (t.id, path)
        if key in seen:
            return
        seen.add(key)
        if t.op == "div":
            out.append((path, tm.not_(tm.eq(t.a[1], tm.ZERO)), "denominator " + tm.show(t.a[1], 4)[:80]))
        elif t.op == "fn" and t.v == "log":
            out.append((path, tm.lt(tm.ZERO, t.a[0]), "log argument " + tm.show(t.a[0], 4)[:80]))
        elif t.op == "fn" and t.v == "sqrt":
            out.append((path, tm.le(tm.ZERO, t.a[0]), "sqrt argument " + tm.show(t.a[0], 4)[:80]))
        if t.op == "ite":
            go(t.a[0], path)
            go(t.a[1], path + (t.a[0],))
            go(t.a[2], path + (tm.not_(t.a[0]),))
        elif t.op in tm.BINDERS:
            go(t.a[0], path)
            go(t.a[1], path)
            j = tm.fresh("_d")
            go(tm.body_at(t, j), path + (tm.le(t.a[0], j), tm.lt(j, t.a[1])))
        else:
            for x in t.a:
                go(x, path)
    go(t, ())
    return out


def apply_hint(inp, hint):
    if not isinstance(inp, dict):
        return inp
    r = dict(inp)
    for k, v in hint.items():
        if k in r and isinstance(r[k], float):      # sizes, flags and identifiers stay as generated
            r[k] = float(v)
        for q in r:
            if isinstance(r[q], dict):
                r[q] = apply_hint(r[q], hint)
    return r


def jsonable(x):
    if isinstance(x, dict):
        return {k: jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    return x


# ----------------------------------------------------------------- helpers

def close(name, got, want, rtol=1e-8, atol=1e-12, extra=""):
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation(f"{name}: shape {got.shape}, expected {want.shape} {extra}")
    bad = ~(np.abs(got - want) <= atol + rtol * np.abs(want))
    both = (got == want)
    bad &= ~both
    if bad.any():
        i = np.unravel_index(int(np.argmax(bad)), bad.shape) if bad.ndim else ()
        raise Violation(f"{name}: got {got[i]!r}, expected {want[i]!r} at index {tuple(int(q) for q in i)} {extra}")


def must(cond, msg):
    if not bool(np.all(cond)):
        raise Violation(msg)


def attr(mod, name):
    x = getattr(mod, name, None)
    if x is None:
        raise Missing(f"{mod.__name__}.{name}")
    return x
