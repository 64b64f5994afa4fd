"""
Path exploration: a job's harness is re-executed once per feasible path; every
truth test on a symbolic condition is a decision settled by the solver.
"""

import time
import traceback
from . import ir, values
from .ir import Term, Assignment
from .solve import Solver, STATS
from .values import Steer, Unsupported, PathEnd, CUR


class Infeasible(PathEnd):
    pass


class Budget(Steer):
    pass


class Violation(Steer):
    """a check of this path failed and the path cannot continue"""


class Path:
    def __init__(self, ex, prefix, model, base=None):
        self.ex = ex
        self.prefix = prefix            # list of (value, forced)
        self.pos = 0
        self.constraints = []
        self.facts = {}
        self.bounds = {}                # linear form -> [lo, hi]
        self.model = model
        self.base = base if model is None else model
        self.memo = {}
        self.decisions = []
        self.names = {}
        self.observed = []
        self.prefer = []
        self.keccaks = []
        self.ticks = 0
        self.inputs = []
        self.notes = {}
        self.opaque = {}

    # -- facts ------------------------------------------------------------
    @staticmethod
    def _linear(p):
        """(key, sign, const): p = const + sign * key"""
        c, d = ir.topoly(p)
        items = sorted(d.items(), key=lambda mc: ir._key(mc[0]))
        s = 1 if items[0][1] > 0 else -1
        return tuple((m, v * s) for m, v in items), s, c

    def known(self, t):
        if t is True or t is False:
            return t
        v = self.facts.get(t)
        if v is not None:
            return v
        op = t.op
        if op == "not":
            v = self.known(t.args[0])
            return None if v is None else not v
        if op == "le":
            k, s, c = self._linear(t.args[0])
            b = self.bounds.get(k)
            if b is not None:
                lo, hi = b
                # 0 <= c + s*K
                if s > 0:
                    if lo is not None and c + lo >= 0:
                        return True
                    if hi is not None and c + hi < 0:
                        return False
                else:
                    if hi is not None and c - hi >= 0:
                        return True
                    if lo is not None and c - lo < 0:
                        return False
        elif op == "eq":
            k, s, c = self._linear(t.args[0])
            b = self.bounds.get(k)
            if b is not None:
                lo, hi = b
                v = -c * s          # K == v
                if lo is not None and v < lo or hi is not None and v > hi:
                    return False
                if lo is not None and lo == hi == v:
                    return True
        elif op == "band":
            vs = [self.known(x) for x in t.args]
            if any(v is False for v in vs):
                return False
            if all(v is True for v in vs):
                return True
        elif op == "bor":
            vs = [self.known(x) for x in t.args]
            if any(v is True for v in vs):
                return True
            if all(v is False for v in vs):
                return False
        return None

    def learn(self, t, v):
        """record that t has truth value v on this path"""
        if t is True or t is False:
            return
        if t.op == "not":
            return self.learn(t.args[0], not v)
        self.facts[t] = v
        if t.op == "le":
            n = ir.bnot(t)
            if isinstance(n, Term):
                self.facts[n] = not v
            k, s, c = self._linear(t.args[0])
            b = self.bounds.setdefault(k, [None, None])
            if v:       # s*K >= -c
                if s > 0:
                    b[0] = -c if b[0] is None else max(b[0], -c)
                else:
                    b[1] = c if b[1] is None else min(b[1], c)
            else:       # s*K <= -c-1
                if s > 0:
                    b[1] = -c - 1 if b[1] is None else min(b[1], -c - 1)
                else:
                    b[0] = c + 1 if b[0] is None else max(b[0], c + 1)
        elif t.op == "eq":
            k, s, c = self._linear(t.args[0])
            if v:
                b = self.bounds.setdefault(k, [None, None])
                x = -c * s
                b[0] = x if b[0] is None else max(b[0], x)
                b[1] = x if b[1] is None else min(b[1], x)
            else:
                b = self.bounds.get(k)
                x = -c * s
                if b:
                    if b[0] == x:
                        b[0] = x + 1
                    if b[1] == x:
                        b[1] = x - 1
        elif t.op == "band" and v:
            for x in t.args:
                self.learn(x, True)
        elif t.op == "bor" and not v:
            for x in t.args:
                self.learn(x, False)

    def factored(self, t, depth=5):
        """a cheap sufficient test that t holds on this path, for a polynomial (in)equality with products: v*q + r == 0 if q == 0 and r == 0,
        v*q + r >= 0 if v >= 0, q >= 0 and r >= 0"""
        v = self.known(t)
        if v is not None:
            return v
        if t.op == "not" and t.args[0].op == "eq":
            x = t.args[0].args[0]
            return self.factored(ir.le(1, x), depth) or self.factored(ir.le(x, -1), depth)
        if t.op not in ("eq", "le"):
            return False
        if self.model is not None and not ir.evaluate(t, self.model, self.memo):
            return False
        c, d = ir.topoly(t.args[0])
        count = {}
        for m in d:
            for a in set(m):
                if m.count(a) > 1:
                    count[a] = -10**6
                else:
                    count[a] = count.get(a, 0) + 1
        inside = {a for m in d if len(m) > 1 for a in m}
        cand = [a for a, n in count.items() if a in inside and n > 0]
        if t.op == "le":
            cand = [a for a in cand if a.lo is not None and a.lo >= 0]
        if not cand or depth == 0:
            if any(len(m) > 1 for m in d):
                return False
            return self.ex.solver.check(self.constraints, ir.bnot(t), rounds=12, bv=False, timeout=1000)[0] == "unsat"
        mk = (lambda x: ir.eq(x, 0)) if t.op == "eq" else (lambda x: ir.le(0, x))
        for v in sorted(cand, key=lambda a: (-count[a], a.tid))[:3]:
            q, r, k = {}, {}, 0
            for m, x in d.items():
                if v in m:
                    n = list(m)
                    n.remove(v)
                    if n:
                        q[tuple(n)] = x
                    else:
                        k = x
                else:
                    r[m] = x
            if self.factored(mk(ir._build(k, q)), depth - 1) and self.factored(mk(ir._build(c, r)), depth - 1):
                return True
        return False

    def products(self, t):
        if t.op == "not":
            t = t.args[0]
        return t.op in ("eq", "le") and any(len(m) > 1 for m in ir.topoly(t.args[0])[1])

    # -- decisions --------------------------------------------------------
    def _feasible(self, cond):
        return self.ex.solver.check(self.constraints, cond, rounds=5, bv=False,
                                    timeout=self.ex.branch_timeout)

    def add(self, cond):
        self.constraints.append(cond)

    def branch(self, t):
        v = self.known(t)
        if v is not None:
            return v
        if self.pos < len(self.prefix):
            v, forced = self.prefix[self.pos]
            if v == "c":
                raise RuntimeError("path replay out of step")
            self.pos += 1
            self.decisions.append((v, forced))
            if not forced:
                self.add(t if v else ir.bnot(t))
            self.learn(t, v)
            if self.pos == len(self.prefix) and self.model is None:
                self._need_model()
            return v
        if time.time() > self.ex.deadline:
            raise Budget("time")
        neg = ir.bnot(t)
        if self.model is not None:
            v = ir.evaluate(t, self.model, self.memo)
            other = neg if v else t
            here = t if v else neg
            if self.products(here) and self.factored(here):
                st = "unsat"
            else:
                st, m = self._feasible(other)
            if st == "unsat":
                self.decisions.append((v, True))
                self.learn(t, v)
                return v
            self.ex.schedule(self.decisions + [(not v, False)], m, self.base)
        else:
            for x, v in ((t, True), (neg, False)):
                if self.products(x) and self.factored(x):
                    self.decisions.append((v, True))
                    self.learn(t, v)
                    return v
            st, m = self._feasible(t)
            if st == "unsat":
                self.decisions.append((False, True))
                self.learn(t, False)
                return False
            st2, m2 = self._feasible(neg)
            if st2 == "unsat":
                self.decisions.append((True, True))
                self.learn(t, True)
                if st == "sat":
                    self._set_model(m)
                return True
            v = True
            self.ex.schedule(self.decisions + [(False, False)], m2, self.base)
            if st == "sat":
                self._set_model(m)
        self.decisions.append((v, False))
        self.add(t if v else neg)
        self.learn(t, v)
        return v

    def _set_model(self, m):
        self.model = m
        self.base = m
        self.memo = {}

    def _guess_model(self, tries=30):
        if self.constraints:
            m = ir.guess(self.constraints[:-1], self.constraints[-1], self.base or Assignment(), tries)
            if m is not None:
                self._set_model(m)

    def _need_model(self):
        st, m = self.ex.solver.check(self.constraints, None, rounds=8, bv=False,
                                     timeout=self.ex.branch_timeout)
        if st == "sat":
            self._set_model(m)
        elif st == "unsat":
            raise Infeasible()
        else:
            self._guess_model()

    def assume(self, t):
        v = self.known(t)
        if v is True:
            return
        if v is False:
            raise Infeasible()
        if self.pos < len(self.prefix):
            self.add(t)
            self.learn(t, True)
            return
        if self.model is not None and ir.evaluate(t, self.model, self.memo):
            self.add(t)
            self.learn(t, True)
            return
        st, m = self._feasible(t)
        if st == "unsat":
            raise Infeasible()
        self.add(t)
        self.learn(t, True)
        if st == "sat":
            self._set_model(m)
        else:
            self.model = None
            self._guess_model()

    def concretise(self, t, limit=300):
        if type(t) is int:
            return t
        k, s, c = self._linear(t)
        b = self.bounds.get(k)
        if b is not None and b[0] is not None and b[0] == b[1]:
            return c + s * b[0]
        tried = set()
        for _ in range(limit):
            if self.pos < len(self.prefix):
                tag, v = self.prefix[self.pos]
                if tag != "c":
                    raise RuntimeError("path replay out of step")
                self.pos += 1
            else:
                if self.model is None:
                    self._need_model()
                if self.model is not None:
                    v = ir.evaluate(t, self.model, self.memo)
                else:
                    v = ir.evaluate(t, self.base, {}) if self.base is not None else t.lo
                    if v is None or v in tried:
                        if t.lo is None or t.hi is None or t.hi - t.lo > limit:
                            raise Unsupported("no model to concretise " + repr(t)[:80])
                        v = next((x for x in range(t.lo, t.hi + 1) if x not in tried), None)
                        if v is None:
                            raise Infeasible()
            tried.add(v)
            self.decisions.append(("c", v))
            if self.branch(ir.eq(t, v)):
                return v
        raise Unsupported("more than %d values for %s" % (limit, repr(t)[:80]))

    def known_value(self, t):
        """the constant t is known to equal on this path, or None"""
        if type(t) is int:
            return t
        k, s, c = self._linear(t)
        b = self.bounds.get(k)
        if b is not None and b[0] is not None and b[0] == b[1]:
            return c + s * b[0]
        return None

    def nonneg(self, t):
        """t, known to be >= 0 on this path, with its interval narrowed"""
        n = ir.var("nn:%d" % t.tid, 0, t.hi)
        c = ir.eq(n, t)
        self.add(c)
        if self.model is not None:
            self.model.ints[n.args[0]] = ir.evaluate(t, self.model, self.memo)
        return n

    def tick(self):
        self.ticks += 1
        if self.ticks > self.ex.max_ticks:
            raise Unsupported("loop bound")

    def fresh(self, name, lo, hi):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return ir.var(name if n == 0 else f"{name}~{n}", lo, hi)

    # -- proofs -----------------------------------------------------------
    def entails(self, t):
        """does every value on this path satisfy t?  (True, None), (False,
        model) or (None, None)"""
        v = self.known(t)
        if v is not None:
            return v, None if v else self.model
        neg = ir.bnot(t)
        if self.model is not None and ir.evaluate(neg, self.model, self.memo):
            return False, self.model
        if isinstance(t, Term) and self.products(t):
            if self.factored(t):
                return True, None
            if t.op == "eq":
                for x in (t.args[0], ir.neg(t.args[0])):
                    x = ir.le(0, x)
                    if isinstance(x, Term) and self.known(x) is None and self.factored(x):
                        self.add(x)
                        self.learn(x, True)
        big = self.model is not None and isinstance(neg, Term) and any(i > 150 for i, _ in enumerate(ir.walk([neg])))
        if big:
            m = ir.guess(self.constraints, neg, self.model, 3)
            if m is not None:
                return False, m
        st, m = self.ex.solver.check(self.constraints, neg, rounds=25, bv=True)
        if st == "unsat":
            return True, None
        if st == "sat":
            return False, m
        if self.model is not None:
            m = ir.guess(self.constraints, neg, self.model, 40, 2)
            if m is not None:
                return False, m
        return None, None

    def buffers_equal(self, a, b):
        """equality of two buffers of equal symbolic length: decided when
        provable or refutable as a whole, otherwise unsupported"""
        i = self.fresh("eqi", 0, None)
        rng = ir.band_list([ir.le(0, i), ir.lt(i, a._len)])
        t = ir.eq(a._get(i), b._get(i))
        r, _ = self.entails(ir.bor_list([ir.bnot(rng), t]))
        if r:
            return True
        if self.ex.opaque_compare:
            return False
        raise Unsupported("comparing buffers of symbolic length")

    # -- hashing ----------------------------------------------------------
    def opaque(self, name, buf, lo, hi):
        pass


class Explorer:
    def __init__(self, max_paths=4000, seconds=120.0, timeout_ms=4000):
        self.solver = Solver(timeout_ms)
        self.branch_timeout = 1500
        self.max_paths = max_paths
        self.deadline = time.time() + seconds
        self.max_ticks = 2000
        self.opaque_compare = False
        self.work = []
        self.n_paths = 0
        self.n_infeasible = 0
        self.obligations = 0
        self.trivial = 0
        self.proved = 0
        self.inconclusive = []
        self.unsupported = []
        self.cexs = []
        self.labels = {}
        self.samples = []
        self.exceptions = []
        self.complete = True

    def schedule(self, decisions, model, base=None):
        self.work.append([decisions, model, base])

    def run(self, harness, make_cx, stop_on_violation=True, n_samples=2):
        self.work = [[[], None, None]]
        first = True
        while self.work:
            if self.n_paths >= self.max_paths or time.time() > self.deadline:
                self.complete = False
                break
            prefix, model, base = self.work.pop()
            p = Path(self, prefix, model, base)
            CUR.path = p
            if model is None and not prefix:
                p._set_model(Assignment())
            cx = make_cx(p)
            self.n_paths += 1
            try:
                harness(cx)
                if p.model is None:
                    p._need_model()
                if len(self.samples) < n_samples or (n_samples and self.n_paths % 7 == 0 and len(self.samples) < 2 * n_samples):
                    if p.model is not None and self._true_digests(p):
                        self.samples.append((Assignment(dict(p.model.ints), dict(p.model.bools), {k: dict(v) for k, v in p.model.arrays.items()}, dict(p.model.apps)),
                                             [(n, _ev(x, p)) for n, x in p.observed]))
            except (Infeasible,):
                self.n_infeasible += 1
            except Violation:
                pass
            except PathEnd:
                pass
            except Unsupported as e:
                self.unsupported.append(_where(e))
            except Budget:
                self.complete = False
                break
            except RecursionError as e:
                self.unsupported.append("recursion")
            except Steer:
                raise
            except Exception as e:
                self.on_exception(p, e)
            finally:
                CUR.path = None
            if stop_on_violation and self.cexs:
                break

    def _true_digests(self, p):
        """put the real hashes of symbolic-length buffers into the path's model; False if the path does not survive"""
        if not p.keccaks:
            return True
        m = Assignment(dict(p.model.ints), dict(p.model.bools), {k: dict(v) for k, v in p.model.arrays.items()}, dict(p.model.apps))
        for name, b, t in p.keccaks:
            memo = {}
            n = ir.evaluate(b._len, m, memo)
            if n > 4096 or t.op != "var":
                return False
            m.ints[t.args[0]] = ir.EVAL[name](*[ir.evaluate(b._get(i), m, memo) for i in range(n)])
        memo = {}
        if not all(ir.evaluate(c, m, memo) for c in p.constraints):
            return False
        p._set_model(m)
        return True

    def on_exception(self, p, e):
        """an exception no harness expected: a violation if a real input reaches it"""
        self.obligations += 1
        if p.model is None:
            try:
                p._need_model()
            except Infeasible:
                return
        CUR.path = p
        st, m = self.solver.check(p.constraints, None, rounds=25)
        if st == "unsat":
            return
        self.cexs.append({"label": "unexpected " + type(e).__name__, "model": m or p.model, "path": p,
                          "detail": _where(e), "exception": type(e).__name__})


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if "/sx/" not in f.filename]
    loc = f"{fr[-1].filename}:{fr[-1].lineno}" if fr else "?"
    return f"{type(e).__name__}: {str(e)[:200]} at {loc}"


def _ev(x, p):
    """concrete value of an observed structure under the path's model"""
    return observe_eval(x, p.model, p.memo)


def observe_eval(x, asg, memo):
    from .values import SInt, SBool, SymBytes, SByteArray
    if x is None or isinstance(x, (str, float)):
        return x
    if type(x) in (bool, int):
        return int(x)
    if type(x) is SInt:
        return ir.evaluate(x.t, asg, memo)
    if type(x) is SBool:
        return int(ir.evaluate(x.t, asg, memo))
    if type(x) is bytes:
        return "0x" + x.hex()
    if isinstance(x, SByteArray):
        x = x._b
    if isinstance(x, SymBytes):
        n = ir.evaluate(x._len, asg, memo)
        if n > 4096:
            return f"<{n} bytes>"
        return "0x" + bytes(ir.evaluate(x._get(i), asg, memo) for i in range(n)).hex()
    if hasattr(x, "_number"):
        return observe_eval(x._number, asg, memo)
    if isinstance(x, (list, tuple)):
        return [observe_eval(y, asg, memo) for y in x]
    if isinstance(x, type):
        return x.__name__
    return f"<{type(x).__name__}>"
