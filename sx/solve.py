"""
Deciding conjunctions of IR booleans with z3.

Level 1: linear/EUF abstraction over mathematical integers.  Non-linear
products, division by a symbolic divisor, bit operations, symbolic shifts,
bit lengths and the lazily interpreted applications (keccak, powmod ...) are
fresh constants constrained by sound lemmas.  `unsat` is therefore a proof.
A `sat` answer is evaluated with the true semantics (ir.evaluate); if it is
not a real model, lemmas that rule it out are added and the query repeats.
Level 2: exact bit-vector lowering with widths from the intervals.
A result is "unsat", "sat" (with a verified model) or "unknown".
"""

import os
import time
import z3
from . import ir
from .ir import Term, Assignment

STATS = {"queries": 0, "time": 0.0, "unsat": 0, "sat": 0, "unknown": 0,
         "refinements": 0, "bv": 0, "models_reused": 0}


class Lowering:
    """IR -> z3 Int."""

    def __init__(self):
        self.memo = {}
        self.atoms = {}      # z3 const name -> Term (abstracted atoms, variables)
        self.side = {}       # Term -> list of z3 lemmas valid for that term
        self.arr = {}
        self.fn = {}
        self.n = 0
        self.cuts = {}

    def lower(self, t):
        if type(t) is int:
            return z3.IntVal(t)
        if t is True or t is False:
            return z3.BoolVal(t)
        r = self.memo.get(t)
        if r is None:
            # iterative on depth: recursion limit is large, terms are shallow
            r = self._lower(t)
            self.memo[t] = r
        return r

    def _bounds(self, t, c):
        out = []
        if t.lo is not None:
            out.append(c >= t.lo)
        if t.hi is not None:
            out.append(c <= t.hi)
        return out

    def _fresh(self, t):
        self.n += 1
        return z3.Int(f"{t.op}!{self.n}")

    def _lower(self, t):
        L = self.lower
        op, a = t.op, t.args
        if op == "var":
            c = z3.Int("%s[%s,%s]" % a)
            self.side[t] = self._bounds(t, c)
            return c
        if op == "bvar":
            return z3.Bool(a[0])
        if op == "poly":
            parts = []
            for m, k in a[1]:
                if len(m) == 1:
                    x = L(m[0])
                else:
                    x = self.mono(m)
                parts.append(x if k == 1 else k * x)
            if a[0]:
                parts.append(z3.IntVal(a[0]))
            return z3.Sum(parts) if len(parts) > 1 else parts[0]
        if op == "wrap":
            return L(a[0])
        if op == "ext":
            hi = None
            r = self.cut(a[0], a[1])
            if a[2] is not None:
                r = r - (1 << a[2]) * self.cut(a[0], a[1] + a[2])
            return r
        if op in ("div", "mod") and type(a[1]) is int:
            x = L(a[0])
            return x / z3.IntVal(a[1]) if op == "div" else x % z3.IntVal(a[1])
        if op == "pick":
            items, idx = a
            i = L(idx)
            r = L(items[-1])
            for k in range(len(items) - 2, -1, -1):
                r = z3.If(i == k, L(items[k]), r)
            return r
        if op == "sel":
            f = self.arr.get(a[0])
            if f is None:
                f = self.arr[a[0]] = z3.Function("arr_" + a[0], z3.IntSort(), z3.IntSort())
            r = f(L(a[1]))
            self.side[t] = self._bounds(t, r)
            return r
        if op == "app":
            args = [L(x) if isinstance(x, Term) or type(x) is int else x for x in a[1:]]
            key = (a[0], len(args))
            if not args:
                c = self._fresh(t)
                self.side[t] = self._bounds(t, c)
                return c
            f = self.fn.get(key)
            if f is None:
                f = self.fn[key] = z3.Function(f"{a[0]}_{len(args)}", *([z3.IntSort()] * (len(args) + 1)))
            r = f(*args)
            self.side[t] = self._bounds(t, r)
            return r
        if op == "ite":
            return z3.If(L(a[0]), L(a[1]), L(a[2]))
        if op == "b2i":
            return z3.If(L(a[0]), z3.IntVal(1), z3.IntVal(0))
        if op == "le":
            return L(a[0]) >= 0
        if op == "eq":
            return L(a[0]) == 0
        if op == "not":
            return z3.Not(L(a[0]))
        if op == "band":
            return z3.And([L(x) for x in a])
        if op == "bor":
            return z3.Or([L(x) for x in a])
        if op == "iff":
            return L(a[0]) == L(a[1])
        # abstracted operations
        c = self._fresh(t)
        side = self._bounds(t, c)
        x = [L(y) if isinstance(y, Term) or type(y) is int else y for y in a]
        if op == "and":
            side += [c <= x[0], c <= x[1]]
        elif op == "or":
            side += [c >= x[0], c >= x[1], c <= x[0] + x[1]]
        elif op == "xor":
            side += [c <= x[0] + x[1], c >= x[0] - x[1], c >= x[1] - x[0]]
        elif op == "shl":
            if ir._lo(a[0]) is not None and ir._lo(a[0]) >= 0:
                side += [c >= x[0], z3.Implies(x[1] == 0, c == x[0]), (c == 0) == (x[0] == 0),
                         z3.Implies(x[1] >= 1, c >= 2 * x[0])]
        elif op == "shr":
            if ir._lo(a[0]) is not None and ir._lo(a[0]) >= 0:
                side += [c <= x[0], z3.Implies(x[1] == 0, c == x[0]),
                         z3.Implies(x[1] >= 1, 2 * c <= x[0])]
        elif op == "div":
            if ir._lo(a[0]) is not None and ir._lo(a[0]) >= 0 and ir._lo(a[1]) >= 0:
                side += [z3.Implies(x[1] >= 1, z3.And(c <= x[0], c >= 0)),
                         z3.Implies(x[1] == 1, c == x[0]),
                         z3.Implies(z3.And(x[1] > x[0]), c == 0),
                         z3.Implies(z3.And(x[1] <= x[0], x[1] >= 1), c >= 1),
                         z3.Implies(x[1] >= 2, 2 * c <= x[0])]
                if type(a[0]) is not int and a[0].op == "poly":
                    k, d = ir.topoly(a[0])
                    m, v = next(iter(d.items()))
                    if k == 0 and v == 1 and len(d) == 1 and len(m) == 2 and all(ir._lo(f) is not None and ir._lo(f) >= 0 for f in m):
                        # f*g // y against f
                        for f, g in (m, m[::-1]):
                            f, g = L(f), L(g)
                            side += [z3.Implies(z3.And(x[1] >= 1, g <= x[1]), c <= f), z3.Implies(z3.And(x[1] >= 1, g >= x[1]), c >= f)]
        elif op == "mod":
            side += [z3.Implies(x[1] >= 1, z3.And(c >= 0, c < x[1]))]
            if ir._lo(a[0]) is not None and ir._lo(a[0]) >= 0:
                side += [z3.Implies(x[1] >= 1, c <= x[0]),
                         z3.Implies(x[1] > x[0], c == x[0]),
                         z3.Implies(x[1] == 1, c == 0)]
        self.side[t] = side
        self.atoms[c.decl().name()] = t
        return c

    def cut(self, x, k):
        """floor(x / 2^k), linear: consecutive cuts of x are chained"""
        if k == 0:
            return self.lower(x)
        key = ("cut", x, k)
        r = self.memo.get(key)
        if r is not None:
            return r
        self.n += 1
        r = z3.Int(f"cut!{self.n}")
        self.memo[key] = r
        cuts = self.cuts.setdefault(x, [])
        lows = [c for c in cuts if c < k]
        highs = [c for c in cuts if c > k]
        p = max(lows) if lows else 0
        side = []

        def link(a, ka, b, kb):
            d = 1 << (kb - ka)
            side.extend([a - d * b >= 0, a - d * b < d])
        link(self.cut(x, p), p, r, k)
        if p:
            link(self.lower(x), 0, r, k)
        if highs:
            h = min(highs)
            link(r, k, self.cut(x, h), h)
        if x.lo is not None:
            side.append(r >= (x.lo >> k))
        if x.hi is not None:
            side.append(r <= (x.hi >> k))
        cuts.append(k)
        self.side[key] = side
        return r

    def mono(self, m):
        r = self.memo.get(m)
        if r is not None:
            return r
        # the product of all but the last, times the last
        self.n += 1
        c = z3.Int(f"mono!{self.n}")
        a = self.mono(m[:-1]) if len(m) > 2 else self.lower(m[0])
        b = self.lower(m[-1])
        lo, hi = ir._poly_interval(0, [(m, 1)])
        side = []
        if lo is not None:
            side.append(c >= lo)
        if hi is not None:
            side.append(c <= hi)
        side += [z3.Implies(a == 0, c == 0), z3.Implies(b == 0, c == 0),
                 z3.Implies(a == 1, c == b), z3.Implies(b == 1, c == a)]
        nn = all(x.lo is not None and x.lo >= 0 for x in m)
        if nn:
            side += [z3.Implies(b >= 1, c >= a), z3.Implies(a >= 1, c >= b)]
            for x in m:
                pass
            la = 1
            for x in m[:-1]:
                la *= x.lo
            side += [c >= la * b, c >= m[-1].lo * a]
            ha = 1
            for x in m[:-1]:
                ha = None if ha is None or x.hi is None else ha * x.hi
            if ha is not None:
                side.append(c <= ha * b)
            if m[-1].hi is not None:
                side.append(c <= m[-1].hi * a)
        self.side[m] = side
        self.memo[m] = c
        return c

    def deps(self, t):
        """terms/monomials under t whose side lemmas must be asserted"""
        seen = set()
        stack = [t]
        out = []
        while stack:
            x = stack.pop()
            if type(x) is tuple and x[0] == "cut":
                if x in seen:
                    continue
                seen.add(x)
                out.append(x)
                # every cut of the same term linked with this one
                stack.append(x[1])
                for k in self.cuts.get(x[1], ()):
                    stack.append(("cut", x[1], k))
                continue
            if type(x) is tuple:
                if x in seen:
                    continue
                seen.add(x)
                out.append(x)
                if len(x) > 2:
                    stack.append(x[:-1])
                stack.extend(x)
                continue
            if not isinstance(x, Term) or x in seen:
                continue
            seen.add(x)
            if x in self.side:
                out.append(x)
            if x.op == "ext":
                for k in (x.args[1], None if x.args[2] is None else x.args[1] + x.args[2]):
                    if k:
                        stack.append(("cut", x.args[0], k))
            if x.op == "poly":
                for m, _ in x.args[1]:
                    if len(m) > 1:
                        stack.append(m)
                    else:
                        stack.append(m[0])
            else:
                stack.extend(ir.children(x))
        return out


def _iroot_bounds(v):
    return v


class BVLowering:
    """exact lowering to bit vectors; raises NotImplementedError when out of
    reach."""

    MAXW = 1100

    def __init__(self):
        self.memo = {}
        self.side = []
        self.vars = {}
        self.arr = {}

    def width(self, t):
        lo, hi = ir._lo(t), ir._hi(t)
        if lo is None or hi is None:
            raise NotImplementedError("unbounded")
        # two's complement signed width
        w = max(hi.bit_length(), (-lo - 1).bit_length() if lo < 0 else 0) + 1
        if w > self.MAXW:
            raise NotImplementedError("too wide")
        return w

    def to(self, v, w, w2):
        if w2 == w:
            return v
        if w2 < w:
            return z3.Extract(w2 - 1, 0, v)
        return z3.SignExt(w2 - w, v)

    def low(self, t, w):
        """bit-vector of t modulo 2^w"""
        if type(t) is int:
            return z3.BitVecVal(t & ((1 << w) - 1), w)
        key = (t, w)
        r = self.memo.get(key)
        if r is not None:
            return r
        if t.op == "poly":
            acc = z3.BitVecVal(t.args[0] & ((1 << w) - 1), w)
            for m, c in t.args[1]:
                p = self.low(m[0], w)
                for x in m[1:]:
                    p = p * self.low(x, w)
                if c != 1:
                    p = p * z3.BitVecVal(c & ((1 << w) - 1), w)
                acc = acc + p
            r = acc
        elif t.op == "wrap":
            r = self.low(t.args[0], w)
        elif t.op == "shl" and w < 600:
            a, s = t.args
            sw = max(self.width(s), w)
            sv = self.full(s, sw)
            av = self.to(self.low(a, w), w, w)
            ww = max(w, sw)
            r = self.to(z3.If(z3.UGE(sv, z3.BitVecVal(w, sw)), z3.BitVecVal(0, ww),
                              self.to(av, w, ww) << self.to(sv, sw, ww)), ww, w)
        elif t.op == "ext" and t.args[2] is not None and t.args[1] == 0 and w <= t.args[2]:
            r = self.low(t.args[0], w)
        else:
            wt = self.width(t)
            r = self.to(self.full(t, wt), wt, w)
        self.memo[key] = r
        return r

    def full(self, t, w):
        """exact value as signed bv of width w (>= width(t))"""
        if type(t) is int:
            return z3.BitVecVal(t & ((1 << w) - 1), w)
        wt = self.width(t)
        key = ("f", t)
        r = self.memo.get(key)
        if r is None:
            r = self._full(t, wt)
            self.memo[key] = r
        return self.to(r, wt, w)

    def _full(self, t, w):
        op, a = t.op, t.args
        if op == "var":
            v = z3.BitVec("v_" + a[0], w)
            self.vars[t] = v
            self.side += [v >= z3.BitVecVal(t.lo, w), v <= z3.BitVecVal(t.hi, w)]
            return v
        if op in ("poly", "wrap"):
            return self.low(t, w)
        if op == "ext":
            x, lo, n = a
            if n is None:
                wx = self.width(x)
                v = self.full(x, wx)
                return self.to(v >> lo if lo < wx else v >> (wx - 1), wx, w)
            v = self.low(x, lo + n)
            e = z3.Extract(lo + n - 1, lo, v)
            return z3.ZeroExt(w - n, e) if w > n else self.to(e, n, w)
        if op in ("div", "mod"):
            x, y = a
            ww = max(self.width(x), self.width(y)) + 1
            xv, yv = self.full(x, ww), self.full(y, ww)
            if ir._lo(x) >= 0 and ir._lo(y) >= 0:
                r = z3.UDiv(xv, yv) if op == "div" else z3.URem(xv, yv)
            else:
                q, m = xv / yv, z3.SRem(xv, yv)
                adj = z3.And(m != 0, (m < 0) != (yv < 0))
                r = z3.If(adj, q - 1, q) if op == "div" else z3.If(adj, m + yv, m)
            r = z3.If(yv == 0, z3.BitVecVal(0, ww), r)
            return self.to(r, ww, w)
        if op in ("and", "or", "xor"):
            ww = max(self.width(a[0]), self.width(a[1]), w)
            x, y = self.full(a[0], ww), self.full(a[1], ww)
            r = x & y if op == "and" else x | y if op == "or" else x ^ y
            return self.to(r, ww, w)
        if op == "shl":
            return self.low(t, w)
        if op == "shr":
            x, s = a
            ww = max(self.width(x), self.width(s))
            xv, sv = self.full(x, ww), self.full(s, ww)
            return self.to(xv >> sv, ww, w)
        if op == "bitlen":
            wx = self.width(a[0])
            v = self.full(a[0], wx)
            r = z3.BitVecVal(0, w)
            for k in range(wx - 1):
                r = z3.If(z3.Extract(k, k, v) == 1, z3.BitVecVal(k + 1, w), r)
            return r
        if op == "pick":
            items, idx = a
            wi = self.width(idx)
            i = self.full(idx, wi)
            r = self.full(items[-1], w)
            for k in range(len(items) - 2, -1, -1):
                if k.bit_length() < wi:
                    r = z3.If(i == z3.BitVecVal(k, wi), self.full(items[k], w), r)
            return r
        if op == "sel":
            f = self.arr.get(a[0])
            if f is None:
                f = self.arr[a[0]] = z3.Function("arr_" + a[0], z3.BitVecSort(300), z3.BitVecSort(8))
            return z3.ZeroExt(w - 8, f(self.full(a[1], 300)))
        if op == "ite":
            return z3.If(self.boolean(a[0]), self.full(a[1], w), self.full(a[2], w))
        if op == "b2i":
            return z3.If(self.boolean(a[0]), z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if op == "app" and a[0] not in ir.EVAL:
            args = [self.full(x, 400) for x in a[1:]]
            if any(isinstance(x, Term) and self.width(x) > 400 for x in a[1:]):
                raise NotImplementedError("wide app arg")
            key = ("app", a[0], len(args), w)
            f = self.arr.get(key)
            if f is None:
                f = self.arr[key] = z3.Function(f"{a[0]}_{len(args)}_{w}", *([z3.BitVecSort(400)] * len(args) + [z3.BitVecSort(w)]))
            r = f(*args)
            self.side += [r >= z3.BitVecVal(t.lo, w), r <= z3.BitVecVal(t.hi, w)]
            return r
        if op == "app" and a[0] == "powmod" and type(a[3]) is int and (a[3] & (a[3] - 1)) == 0 and isinstance(a[2], Term):
            # square and multiply over the bits of the exponent (small only)
            we = self.width(a[2])
            if we > 20:
                raise NotImplementedError("powmod")
            n = a[3].bit_length() - 1
            e = self.full(a[2], we)
            b = self.low(a[1], n)
            acc = z3.BitVecVal(1, n)
            for k in range(we - 1):
                acc = z3.If(z3.Extract(k, k, e) == 1, acc * b, acc)
                b = b * b
            return z3.ZeroExt(w - n, acc)
        raise NotImplementedError(op)

    def boolean(self, t):
        if t is True or t is False:
            return z3.BoolVal(t)
        key = ("b", t)
        r = self.memo.get(key)
        if r is not None:
            return r
        op, a = t.op, t.args
        if op == "bvar":
            r = z3.Bool(a[0])
        elif op in ("le", "eq"):
            w = self.width(a[0])
            v = self.full(a[0], w)
            r = v >= 0 if op == "le" else v == 0
        elif op == "not":
            r = z3.Not(self.boolean(a[0]))
        elif op == "band":
            r = z3.And([self.boolean(x) for x in a])
        elif op == "bor":
            r = z3.Or([self.boolean(x) for x in a])
        elif op == "iff":
            r = self.boolean(a[0]) == self.boolean(a[1])
        else:
            raise NotImplementedError(op)
        self.memo[key] = r
        return r


def _zint(m, c):
    return m.eval(c, model_completion=True).as_long()


FIRST = 1000
SLOW = os.environ.get("SX_SLOW")      # developer aid: where to note slow queries


class Solver:
    def __init__(self, timeout_ms=4000):
        self.low = Lowering()
        self.stack = []        # terms asserted, one push each
        self.asserted = []     # list (per level) of deps asserted
        self.active = {}       # dep -> level
        self.z = z3.Solver()
        self.z.set("timeout", timeout_ms)
        self.timeout = timeout_ms
        self.extra = {}        # dep -> learnt lemmas (sound for that dep)

    # -- stack management -------------------------------------------------
    def _assert_term(self, t):
        e = self.low.lower(t)
        lvl = self.asserted[-1] if self.asserted else None
        for d in self.low.deps(t):
            if d not in self.active:
                self.active[d] = len(self.asserted)
                lvl.append(d)
                for s in self.low.side.get(d, ()):
                    self.z.add(s)
                for s in self.extra.get(d, ()):
                    self.z.add(s)
        self.z.add(e)

    def push(self, t):
        self.z.push()
        self.asserted.append([])
        self.stack.append(t)
        self._assert_term(t)

    def pop(self, n=1):
        for _ in range(n):
            self.z.pop()
            for d in self.asserted.pop():
                del self.active[d]
            self.stack.pop()

    def sync(self, terms):
        """make the asserted stack equal to `terms`"""
        k = 0
        while k < len(self.stack) and k < len(terms) and self.stack[k] is terms[k]:
            k += 1
        if len(self.stack) > k:
            self.pop(len(self.stack) - k)
        for t in terms[k:]:
            self.push(t)

    # -- queries ----------------------------------------------------------
    def _learn(self, dep, lemma):
        l = self.extra.setdefault(dep, [])
        for x in l:
            if x.eq(lemma):
                return False
        l.append(lemma)
        self.z.add(lemma)
        return True

    def model(self, m, terms):
        asg = Assignment()
        for t in ir.walk(terms):
            if t.op == "var":
                asg.ints[t.args[0]] = _zint(m, self.low.lower(t))
            elif t.op == "bvar":
                asg.bools[t.args[0]] = z3.is_true(m.eval(self.low.lower(t), model_completion=True))
        # arrays / uninterpreted applications: by model value of the index,
        # corrected by the true evaluation order (indices are evaluated first)
        memo = {}
        pend = [t for t in ir.walk(terms) if t.op in ("sel", "app")]
        pend.sort(key=lambda t: t.tid)
        for t in pend:
            if t.op == "sel":
                i = ir.evaluate(t.args[1], asg, memo)
                d = asg.arrays.setdefault(t.args[0], {})
                if i not in d:
                    d[i] = _zint(m, self.low.lower(t))
            elif t.args[0] not in ir.EVAL:
                args = tuple(ir.evaluate(x, asg, memo) if isinstance(x, Term) else x for x in t.args[1:])
                k = (t.args[0],) + args
                if k not in asg.apps:
                    asg.apps[k] = _zint(m, self.low.lower(t))
            memo.pop(t, None)
        return asg

    def refine(self, m, terms, asg):
        """add lemmas for the atoms whose model value is wrong"""
        L = self.low
        n = 0
        deps = []
        seen = set()
        for t in terms:
            for d in L.deps(t):
                if d not in seen:
                    seen.add(d)
                    deps.append(d)

        def mv(x):
            return x if type(x) is int else _zint(m, L.lower(x))
        deps = [d for d in deps if isinstance(d, Term) or d[0] != "cut"]
        deps.sort(key=lambda d: d.tid if isinstance(d, Term) else d[-1].tid)
        n += self._pair_products(m, [d for d in deps if type(d) is tuple])
        for d in deps:
            if n >= 6:
                break
            if type(d) is tuple:
                a = L.mono(d[:-1]) if len(d) > 2 else L.lower(d[0])
                b = L.lower(d[-1])
                c = L.memo[d]
                av, bv, cv = _zint(m, a), _zint(m, b), _zint(m, c)
                if av * bv != cv:
                    n += self._learn(d, z3.Implies(a == av, c == av * b))
                    n += self._learn(d, z3.Implies(b == bv, c == bv * a))
                    if a.eq(b):
                        self._learn(d, c >= 2 * av * a - av * av)
                        self._learn(d, z3.Or(z3.And(a <= av, c <= av * a if av >= 0 else c >= 0), a >= av))
                    else:
                        if cv < av * bv:
                            self._learn(d, z3.Or(z3.And(a >= av, b >= bv), z3.And(a <= av, b <= bv)) ==
                                        z3.Or(c >= av * b + bv * a - av * bv) if False else
                                        z3.Implies(z3.Or(z3.And(a >= av, b >= bv), z3.And(a <= av, b <= bv)),
                                                   c >= av * b + bv * a - av * bv))
                        else:
                            self._learn(d, z3.Implies(z3.Or(z3.And(a >= av, b <= bv), z3.And(a <= av, b >= bv)),
                                                      c <= av * b + bv * a - av * bv))
                continue
            op, a = d.op, d.args
            if op == "var":
                continue
            c = L.lower(d)
            cv = _zint(m, c)
            if op == "sel":
                continue
            if op == "app":
                f = ir.EVAL.get(a[0])
                if f is None:
                    continue
                xs = [mv(x) if isinstance(x, Term) else x for x in a[1:]]
                tv = f(*xs)
                if tv != cv:
                    cond = [L.lower(x) == v for x, v in zip(a[1:], xs) if isinstance(x, Term)]
                    n += self._learn(d, z3.Implies(z3.And(cond), c == tv))
                continue
            xs = [mv(x) for x in a]
            if op == "div":
                tv = xs[0] // xs[1] if xs[1] else cv
                if tv != cv:
                    x, y = L.lower(a[0]), L.lower(a[1])
                    k = xs[1]
                    n += self._learn(d, z3.Implies(y == k, c == x / z3.IntVal(k) if k > 0 else c == (-x) / z3.IntVal(-k)))
                    if ir._lo(a[0]) is not None and ir._lo(a[0]) >= 0 and ir._lo(a[1]) >= 0 and tv >= 0:
                        # x//y <= q  iff  x < (q+1) y ;  linear for fixed q
                        self._learn(d, z3.Implies(y >= 1, (c <= tv) == (x < (tv + 1) * y)))
                        self._learn(d, z3.Implies(y >= 1, (c >= tv) == (x >= tv * y)))
            elif op == "mod":
                tv = xs[0] % xs[1] if xs[1] else cv
                if tv != cv:
                    x, y = L.lower(a[0]), L.lower(a[1])
                    k = xs[1]
                    n += self._learn(d, z3.Implies(y == k, c == x % z3.IntVal(k) if k > 0 else c == -((-x) % z3.IntVal(-k))))
                    if k > 0:
                        q = xs[0] // k
                        self._learn(d, z3.Implies(z3.And(y >= 1, x >= q * y, x < (q + 1) * y), c == x - q * y))
            elif op in ("and", "or", "xor"):
                tv = xs[0] & xs[1] if op == "and" else xs[0] | xs[1] if op == "or" else xs[0] ^ xs[1]
                if tv != cv:
                    x, y = L.lower(a[0]), L.lower(a[1])
                    # bit-level: fix the wrong bits
                    diff = tv ^ cv if cv >= 0 else 1
                    for k in self._bits_of(diff)[:4]:
                        bit = lambda z: (z / z3.IntVal(1 << k)) % 2
                        if op == "and":
                            n += self._learn(d, (bit(c) == 1) == z3.And(bit(x) == 1, bit(y) == 1))
                        elif op == "or":
                            n += self._learn(d, (bit(c) == 1) == z3.Or(bit(x) == 1, bit(y) == 1))
                        else:
                            n += self._learn(d, (bit(c) == 1) == (bit(x) != bit(y)))
                    self._learn(d, z3.Implies(z3.And(x == xs[0], y == xs[1]), c == tv))
            elif op == "shl":
                tv = xs[0] << xs[1] if xs[1] < 5000 else None
                if tv is not None and tv != cv:
                    n += self._learn(d, z3.Implies(L.lower(a[1]) == xs[1], c == L.lower(a[0]) * (1 << xs[1])))
            elif op == "shr":
                tv = xs[0] >> xs[1]
                if tv != cv:
                    if xs[1] < 5000:
                        n += self._learn(d, z3.Implies(L.lower(a[1]) == xs[1], c == L.lower(a[0]) / z3.IntVal(1 << xs[1])))
                    else:
                        n += self._learn(d, z3.Implies(L.lower(a[1]) >= xs[1], c == (0 if xs[0] >= 0 else -1)) if ir._lo(a[0]) is not None and ir._lo(a[0]) >= 0 else z3.Implies(z3.And(L.lower(a[1]) == xs[1], L.lower(a[0]) == xs[0]), c == tv))
            elif op == "bitlen":
                tv = xs[0].bit_length()
                if tv != cv:
                    x = L.lower(a[0])
                    if tv == 0:
                        n += self._learn(d, (x == 0) == (c == 0))
                    else:
                        n += self._learn(d, (c >= tv) == (x >= (1 << (tv - 1))))
                        n += self._learn(d, (c <= tv) == (x < (1 << tv)))
                    if 0 <= cv < 2000:
                        self._learn(d, (c >= cv) == (x >= ((1 << (cv - 1)) if cv else 0)))
                        self._learn(d, (c <= cv) == (x < (1 << cv)))
        STATS["refinements"] += n
        return n

    def _pair_products(self, m, prods):
        """relate wrong products to products of nearby factors:
        a = a'+i and b = b'+j  imply  ab = a'b' + ib' + ja' + ij"""
        if len(prods) < 2 or len(prods) > 60:
            return 0
        L = self.low
        rows = []
        for d in prods:
            a = L.mono(d[:-1]) if len(d) > 2 else L.lower(d[0])
            b, c = L.lower(d[-1]), L.memo[d]
            rows.append((d, a, b, c, _zint(m, a), _zint(m, b), _zint(m, c)))
        n = 0
        for (d, a, b, c, av, bv, cv) in rows:
            if av * bv == cv:
                continue
            best = mono = None
            for (d2, a2, b2, c2, av2, bv2, cv2) in rows:
                if d2 is d:
                    continue
                for (x, y, xv, yv) in ((a2, b2, av2, bv2), (b2, a2, bv2, av2)):
                    i, j = av - xv, bv - yv
                    if cv == cv2 + i * yv + j * xv + i * j:
                        continue
                    if min(av, bv, xv, yv) >= 0:
                        w = abs(i) + abs(j)
                        if mono is None or w < mono[0]:
                            if cv > av * bv:       # too large
                                for p, q in ((max(i, 0), max(j, 0)), (i, j)):
                                    if cv > cv2 + p * yv + q * xv + p * q:
                                        mono = (w, x, y, c2, p, q, True)
                                        break
                            else:
                                for p, q in ((min(i, 0), min(j, 0)), (i, j)):
                                    if cv < cv2 + p * yv + q * xv + p * q:
                                        mono = (w, x, y, c2, p, q, False)
                                        break
                    w = abs(i) + abs(j)
                    if w <= 4096 and (best is None or w < best[0]):
                        best = (w, x, y, c2, i, j)
            if mono is not None:
                w, x, y, c2, i, j, up = mono
                nn = [a >= 0, b >= 0, x + i >= 0, y + j >= 0]
                rhs = c2 + i * y + j * x + i * j
                if up:
                    l = z3.Implies(z3.And(a <= x + i, b <= y + j, *nn), c <= rhs)
                else:
                    l = z3.Implies(z3.And(a >= x + i, b >= y + j, *nn), c >= rhs)
                if self._learn(d, l):
                    n += 1
            if best is not None:
                w, x, y, c2, i, j = best
                if self._learn(d, z3.Implies(z3.And(a == x + i, b == y + j), c == c2 + i * y + j * x + i * j)):
                    n += 1
            if n >= 4:
                break
        return n

    @staticmethod
    def _bits_of(n):
        out = []
        k = 0
        while n and len(out) < 8:
            if n & 1:
                out.append(k)
            n >>= 1
            k += 1
        return out

    def _rounds(self, allterms, rounds):
        self.gaveup = False
        for r in range(rounds):
            s = self.z.check()
            if s == z3.unsat:
                return "unsat", None
            if s == z3.unknown:
                self.gaveup = True
                break
            m = self.z.model()
            a = self.model(m, allterms)
            if self.is_model(allterms, a):
                return "sat", a
            if not self.refine(m, allterms, a):
                break
        return "unknown", None

    def fresh(self, terms, rounds, timeout):
        """ask again, with the variables the constraints pin replaced by their value"""
        pinned, ts = {}, terms
        while True:
            m = {}
            for t in ts:
                if t.op in ("le", "eq"):
                    _, d = ir.topoly(t.args[0])
                    if len(d) == 1:
                        (k,) = d
                        if len(k) == 1 and k[0].op == "var":
                            lo, hi = self._range(k[0], ts)
                            if lo is not None and lo == hi:
                                m[k[0]] = lo
            if not m:
                break
            pinned.update((v.args[0], x) for v, x in m.items())
            memo = {}
            ts = [ir.substitute(t, m, memo) for t in ts]
            if any(t is False for t in ts):
                return "unsat", None
            ts = [t for t in ts if t is not True]
        if not pinned and not self.gaveup:
            return "unknown", None
        f = Solver(timeout)
        if not pinned:
            f.low = self.low
        f.sync(ts)
        res, a = f._rounds(ts, rounds)
        if a is not None:
            a.ints.update(pinned)
            if not self.is_model(terms, a):
                return "unknown", None
        return res, a

    def check(self, terms, extra=None, rounds=12, bv=True, timeout=None, again=True):
        """satisfiability of stack `terms` plus optional `extra`.
        returns (status, Assignment|None)"""
        t0 = time.time()
        STATS["queries"] += 1
        self.sync(terms)
        allterms = list(terms)
        if extra is not None:
            if extra is False:
                STATS["unsat"] += 1
                return "unsat", None
            self.push(extra)
            allterms.append(extra)
        full = timeout or self.timeout
        # the incremental solver answers almost everything at once; where it
        # does not, its accumulated state is more often the reason than the
        # query is, so it only gets part of the time before a fresh one is tried
        self.z.set("timeout", min(full, FIRST) if again else full)
        res, asg = "unknown", None
        try:
            res, asg = self._rounds(allterms, rounds)
            if res == "unknown" and again:
                STATS["fresh"] = STATS.get("fresh", 0) + 1
                res, asg = self.fresh(allterms, rounds, full)
            if res == "unknown" and bv:
                res, asg = self.split(allterms)
            if res == "unknown" and bv:
                res, asg = self.bv(allterms)
            if res == "unknown" and bv:
                res, asg = self.native(allterms)
        finally:
            if extra is not None:
                self.pop()
            STATS["time"] += time.time() - t0
            if SLOW and time.time() - t0 > 2:
                with open(SLOW, "a") as fh:
                    fh.write("SLOW %.1f %s bv=%s timeout=%s\n" % (time.time() - t0, res, bv, timeout)
                             + "".join("    %s\n" % ir.show(t, 8)[:500] for t in allterms))
        STATS[res] += 1
        return res, asg

    @staticmethod
    def _range(v, terms):
        """interval of variable v from its bounds and the unit constraints"""
        lo, hi = v.lo, v.hi
        for t in terms:
            if t.op == "le":
                c, d = ir.topoly(t.args[0])
                if len(d) == 1 and (v,) in d:
                    k = d[(v,)]
                    if k > 0:
                        b = -(c // k)
                        lo = b if lo is None else max(lo, b)
                    else:
                        b = c // -k
                        hi = b if hi is None else min(hi, b)
        return lo, hi

    def split(self, terms, limit=260):
        """case split on a shift count of few values"""
        cand = None
        for t in ir.walk(terms):
            if t.op in ("shl", "shr") and isinstance(t.args[1], Term):
                for v in ir.walk([t.args[1]]):
                    if v.op == "var":
                        lo, hi = self._range(v, terms)
                        if lo is not None and hi is not None and hi - lo < limit and (cand is None or hi - lo < cand[2] - cand[1]):
                            cand = (v, lo, hi)
        if cand is None:
            return "unknown", None
        v, lo, hi = cand
        STATS["splits"] = STATS.get("splits", 0) + 1
        for k in range(lo, hi + 1):
            m, memo = {v: k}, {}
            ts = [ir.substitute(t, m, memo) for t in terms]
            if any(t is False for t in ts):
                continue
            ts = [t for t in ts if t is not True]
            r, a = Solver(self.timeout).check(ts, again=False)
            if r == "unsat":
                continue
            if r == "sat":
                a.ints[v.args[0]] = k
                if self.is_model(terms, a):
                    return "sat", a
            return "unknown", None
        return "unsat", None

    @staticmethod
    def is_model(terms, a):
        memo = {}
        return all(ir.evaluate(t, a, memo) is True for t in terms)

    def bv(self, terms, timeout=20000):
        STATS["bv"] += 1
        B = BVLowering()
        try:
            cs = [B.boolean(t) for t in terms]
        except NotImplementedError:
            return "unknown", None
        s = z3.SolverFor("QF_AUFBV") if B.arr else z3.SolverFor("QF_BV")
        s.set("timeout", timeout)
        for c in cs:
            s.add(c)
        for c in B.side:
            s.add(c)
        r = s.check()
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat:
            m = s.model()
            asg = Assignment()
            for t, v in B.vars.items():
                asg.ints[t.args[0]] = m.eval(v, model_completion=True).as_signed_long()
            for t in ir.walk(terms):
                if t.op == "bvar":
                    asg.bools[t.args[0]] = z3.is_true(m.eval(z3.Bool(t.args[0]), model_completion=True))
            memo = {}
            for t in sorted((t for t in ir.walk(terms) if t.op in ("sel", "app")), key=lambda t: t.tid):
                if t.op == "sel":
                    i = ir.evaluate(t.args[1], asg, memo)
                    v = m.eval(B.memo[("f", t)], model_completion=True).as_long()
                    asg.arrays.setdefault(t.args[0], {}).setdefault(i, v)
                elif t.args[0] not in ir.EVAL:
                    args = tuple(ir.evaluate(x, asg, memo) if isinstance(x, Term) else x for x in t.args[1:])
                    asg.apps.setdefault((t.args[0],) + args, m.eval(B.memo[("f", t)], model_completion=True).as_signed_long())
                memo.pop(t, None)
            if self.is_model(terms, asg):
                return "sat", asg
        return "unknown", None

    def native(self, terms, timeout=8000):
        """non-linear integer arithmetic with exact definitions of the products"""
        L = self.low
        s = z3.Solver()
        s.set("timeout", timeout)
        seen = set()
        for t in terms:
            s.add(L.lower(t))
            for d in L.deps(t):
                if d in seen:
                    continue
                seen.add(d)
                for x in L.side.get(d, ()):
                    s.add(x)
                for x in self.extra.get(d, ()):
                    s.add(x)
                if type(d) is tuple and d[0] == "cut":
                    continue
                if type(d) is tuple:
                    a = L.mono(d[:-1]) if len(d) > 2 else L.lower(d[0])
                    s.add(L.memo[d] == a * L.lower(d[-1]))
                elif d.op in ("div", "mod"):
                    x, y, c = L.lower(d.args[0]), L.lower(d.args[1]), L.lower(d)
                    other = ir._table.get(("mod" if d.op == "div" else "div", d.args))
                    if d.op == "div":
                        s.add(z3.Implies(y > 0, z3.And(c * y <= x, x < c * y + y)))
                        s.add(z3.Implies(y < 0, z3.And(c * y >= x, x > c * y + y)))
                    else:
                        q = z3.FreshInt("q")
                        s.add(z3.Implies(y != 0, x == q * y + c))
        r = s.check()
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat:
            a = self.model(s.model(), terms)
            if self.is_model(terms, a):
                return "sat", a
        return "unknown", None
