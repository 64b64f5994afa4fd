"""
Term language of the symbolic executor.

Integer terms are *mathematical* integers (the semantics of Python's int),
hash-consed, kept in polynomial normal form over atoms, with a static interval.
Python ints are used for constants; a `Term` of sort Int is never constant.
Boolean terms are Python True/False or a `Term` of sort Bool.
"""

from math import gcd
import sys

sys.setrecursionlimit(100000)

_table = {}
_counter = [0]


class Term:
    __slots__ = ("op", "args", "lo", "hi", "tid", "sort", "precise", "poly", "_vars", "_shl")

    def __repr__(self):
        return show(self)


def _mk(op, args, sort, lo=None, hi=None):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.lo = lo
        t.hi = hi
        t.sort = sort
        t.poly = None
        t._vars = None
        t._shl = None
        _counter[0] += 1
        t.tid = _counter[0]
        _table[key] = t
    else:
        if op in ("app", "sel") and (t.lo != lo or t.hi != hi):
            if lo is not None and (t.lo is None or lo > t.lo):
                t.lo = lo
            if hi is not None and (t.hi is None or hi < t.hi):
                t.hi = hi
    return t


def reset():
    """Forget every term. Only between independent jobs."""
    _table.clear()


def show(t, depth=6):
    if not isinstance(t, Term):
        return repr(t)
    if depth == 0:
        return "..."
    if t.op in ("var", "bvar"):
        return t.args[0]
    if t.op == "poly":
        const, monos = t.args
        parts = []
        for mono, c in monos:
            m = "*".join(show(a, depth - 1) for a in mono)
            parts.append(f"{c}*{m}" if c != 1 else m)
        if const:
            parts.append(str(const))
        return "(" + " + ".join(parts) + ")"
    return t.op + "(" + ", ".join(show(a, depth - 1) if isinstance(a, Term) else str(a)[:80] for a in t.args) + ")"


# --------------------------------------------------------------------------
# intervals

def _lo(x):
    return x if type(x) is int else x.lo


def _hi(x):
    return x if type(x) is int else x.hi


def _imul(alo, ahi, blo, bhi):
    if None in (alo, ahi, blo, bhi):
        if alo is not None and alo >= 0 and blo is not None and blo >= 0:
            hi = None
            if ahi is not None and bhi is not None:
                hi = ahi * bhi
            return alo * blo, hi
        return None, None
    c = (alo * blo, alo * bhi, ahi * blo, ahi * bhi)
    return min(c), max(c)


# --------------------------------------------------------------------------
# polynomials: (const, {mono: coef}), mono = tuple of atoms sorted by tid

def topoly(x):
    if type(x) is int:
        return x, {}
    if x.op == "poly":
        return x.args[0], dict(x.args[1])
    return 0, {(x,): 1}


def _poly_interval(const, monos):
    lo = hi = const
    for mono, c in monos:
        mlo, mhi = 1, 1
        if len(mono) == 2 and mono[0] is mono[1]:
            a = mono[0]
            mlo, mhi = _imul(a.lo, a.hi, a.lo, a.hi)
            if mlo is None or mlo < 0:
                mlo = 0
        else:
            for a in mono:
                mlo, mhi = _imul(mlo, mhi, a.lo, a.hi)
        if c > 0:
            l = None if mlo is None else c * mlo
            h = None if mhi is None else c * mhi
        else:
            l = None if mhi is None else c * mhi
            h = None if mlo is None else c * mlo
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
    return lo, hi


def _key(mono):
    return tuple(a.tid for a in mono)


def frompoly(const, d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return const
    # bool-ints and ext merging
    if len(d) > 1:
        if _merge_ext(d) or _cancel_ext(d):
            const, d = _renorm(const, d)
            if not d:
                return const
    if len(d) == 1 and const == 0:
        (m, c), = d.items()
        if c == 1 and len(m) == 1:
            return m[0]
    monos = tuple(sorted(d.items(), key=lambda mc: _key(mc[0])))
    key = ("poly", (const, monos))
    t = _table.get(key)
    if t is None:
        lo, hi = _poly_interval(const, monos)
        t = _mk("poly", (const, monos), "I", lo, hi)
        if lo is not None and lo == hi:
            pass
    return t


def _renorm(const, d):
    # atoms created by rewriting may themselves be polynomials: re-add
    acc_c = const
    acc = {}
    for m, c in d.items():
        if len(m) == 1 and m[0].op == "poly":
            pc, pd = topoly(m[0])
            acc_c += c * pc
            for k, v in pd.items():
                acc[k] = acc.get(k, 0) + c * v
        else:
            acc[m] = acc.get(m, 0) + c
    return acc_c, {m: c for m, c in acc.items() if c}


def _merge_ext(d):
    """c*ext(x,lo,w) + c*2^w*ext(x,lo+w,w2) -> c*ext(x,lo,w+w2)."""
    exts = {}
    for m, c in d.items():
        if len(m) == 1 and m[0].op == "ext":
            x, lo, w = m[0].args
            exts[(x, lo)] = (m, c, w)
    if len(exts) < 2:
        return False
    changed = False
    for (x, lo) in sorted(exts, key=lambda k: (k[0].tid, k[1])):
        if (x, lo) not in exts:
            continue
        m, c, w = exts[(x, lo)]
        while w is not None:
            nxt = exts.get((x, lo + w))
            if nxt is None or nxt[1] != c << w:
                break
            m2, c2, w2 = nxt
            del d[m]
            del d[m2]
            del exts[(x, lo + w)]
            w = None if w2 is None else w + w2
            merged = ext(x, lo, w)
            if type(merged) is int:
                raise AssertionError("constant ext")
            m = (merged,)
            d[m] = d.get(m, 0) + c
            exts[(x, lo)] = (m, c, w)
            changed = True
            if merged.op != "ext":
                break
    return changed


def _cancel_ext(d):
    """c*y - c*ext(y,0,k) -> c*2^k*ext(y,k)."""
    changed = False
    for m in list(d):
        c = d.get(m)
        if not c or len(m) != 1 or m[0].op != "ext" or m[0].args[1] != 0:
            continue
        y, _, k = m[0].args
        if k is None:
            continue
        yc, yd = topoly(y)
        # need every monomial of y present with coefficient -c * coef
        if yd and all(d.get(ym) == -c * yv for ym, yv in yd.items()):
            del d[m]
            for ym in yd:
                del d[ym]
            # sum was  -c*(y - yc) + c*ext = -c*(y-ext) + c*yc
            q = ext(y, k, None)
            qc, qd = topoly(q)
            f = -c * (1 << k)
            for qm, qv in qd.items():
                d[qm] = d.get(qm, 0) + f * qv
                if not d[qm]:
                    del d[qm]
            const = f * qc + c * yc
            if const:
                _pending_const.append(const)
            changed = True
            break
    return changed


_pending_const = []


def add(a, b):
    if type(a) is int and type(b) is int:
        return a + b
    if type(b) is int:
        if b == 0:
            return a
    elif type(a) is int and a == 0:
        return b
    ac, ad = topoly(a)
    bc, bd = topoly(b)
    for m, c in bd.items():
        ad[m] = ad.get(m, 0) + c
    return _build(ac + bc, ad)


def _build(const, d):
    r = frompoly(const, d)
    while _pending_const:
        k = _pending_const.pop()
        r = add(r, k)
    return r


def scale(a, k):
    if k == 0:
        return 0
    if type(a) is int:
        return a * k
    if k == 1:
        return a
    c, d = topoly(a)
    return _build(c * k, {m: v * k for m, v in d.items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    if type(b) is int:
        return add(a, -b)
    if a is b:
        return 0
    return add(a, scale(b, -1))


def mul(a, b):
    if type(a) is int:
        return scale(b, a) if type(b) is not int else a * b
    if type(b) is int:
        return scale(a, b)
    # ite(c,0,x)*y style products are left as monomials
    ac, ad = topoly(a)
    bc, bd = topoly(b)
    if (len(ad) + 1) * (len(bd) + 1) > 80:
        # keep as a product of two opaque atoms
        x = _mk("wrap", (a,), "I", a.lo, a.hi) if a.op == "poly" else a
        y = _mk("wrap", (b,), "I", b.lo, b.hi) if b.op == "poly" else b
        m = tuple(sorted((x, y), key=lambda t: t.tid))
        return _build(0, {m: 1})
    out = {}
    for m, c in ad.items():
        if bc:
            out[m] = out.get(m, 0) + c * bc
        for m2, c2 in bd.items():
            mm = tuple(sorted(m + m2, key=lambda t: t.tid))
            out[mm] = out.get(mm, 0) + c * c2
    if ac:
        for m2, c2 in bd.items():
            out[m2] = out.get(m2, 0) + ac * c2
    return _build(ac * bc, out)


# --------------------------------------------------------------------------
# variables, applications

def var(name, lo, hi):
    # the range is part of the identity: paths may use a name with different ranges
    return _mk("var", (name, lo, hi), "I", lo, hi)


def bvar(name):
    return _mk("bvar", (name,), "B")


def app(name, args, lo, hi):
    """Uninterpreted (or, with an evaluator registered in EVAL, lazily
    interpreted) application."""
    return _mk("app", (name,) + tuple(args), "I", lo, hi)


def sel(arr, idx, hi=255):
    return _mk("sel", (arr, idx), "I", 0, hi)


# --------------------------------------------------------------------------
# division, modulo, bit operations

def _log2(n):
    return n.bit_length() - 1 if n > 0 and n & (n - 1) == 0 else None


def _split_coeffs(x, c):
    """x = c*A + B with the multiples of c moved to A."""
    xc, xd = topoly(x)
    ad, bd = {}, {}
    for m, v in xd.items():
        q, r = divmod(v, c)
        # keep the remainder small in magnitude
        if r and r > c // 2 and v < 0:
            q, r = q + 1, r - c
        if r == 0:
            ad[m] = q
        elif q and v >= 0:
            ad[m] = q
            bd[m] = r
        elif v < 0 and -v >= c:
            q2, r2 = -((-v) // c), -((-v) % c)
            ad[m] = q2
            bd[m] = r2
        else:
            bd[m] = v
    qc, rc = divmod(xc, c)
    return (qc, ad), (rc, bd)


def ext(x, lo, w):
    """floor(x / 2^lo) mod 2^w  (w None: no reduction)."""
    if w == 0:
        return 0
    if type(x) is int:
        r = x >> lo
        return r if w is None else r & ((1 << w) - 1)
    while True:
        if x.op == "ext":
            y, l2, w2 = x.args
            if w2 is None:
                lo, x = lo + l2, y
                continue
            if lo >= w2:
                return 0
            nw = w2 - lo if w is None else min(w, w2 - lo)
            lo, w, x = lo + l2, nw, y
            continue
        break
    if x.lo is not None and x.lo >= 0 and x.hi is not None:
        bits = x.hi.bit_length()
        if lo >= bits:
            return 0
        if w is not None and lo + w >= bits:
            w = None
        if w is None and lo == 0:
            return x
    elif w is None and lo == 0:
        return x
    if x.op in _BITS and (w == 1 or (w is None and x.hi is not None and x.hi >> lo == 1)):
        r = _bit(x, lo)
        if r is not None:
            return r
    if w is not None and lo == 0 and x.op in ("xor", "or"):
        # truncating a combination whose one side is already that narrow
        a, b = x.args
        na, nb = _bits(a), _bits(b)
        if na is not None and nb is not None and min(na, nb) <= w < max(na, nb):
            return (bxor if x.op == "xor" else bor)(ext(a, 0, w), ext(b, 0, w))
    if x.op == "poly":
        if w is not None:
            m = 1 << (lo + w)
            c, d = topoly(x)
            nd = {}
            changed = False
            for k, v in d.items():
                r = v % m
                if r > m // 2:
                    r -= m
                if r != v:
                    changed = True
                if r:
                    nd[k] = r
            rc = c % m
            if rc > m // 2 and rc - m == c:
                rc = c
            if rc != c:
                changed = True
            if changed:
                return ext(_build(rc, nd), lo, w)
            # mod-2^n congruence: drop inner ext with enough bits
            nd2 = None
            for k, v in d.items():
                if len(k) == 1 and k[0].op == "ext" and k[0].args[1] == 0 and k[0].args[2] is not None:
                    wi = k[0].args[2]
                    tz = (v & -v).bit_length() - 1
                    if wi + tz >= lo + w:
                        if nd2 is None:
                            nd2 = dict(d)
                        del nd2[k]
                        yc, yd = topoly(k[0].args[0])
                        acc = _build(c, nd2)
                        return ext(add(acc, scale(k[0].args[0], v)), lo, w)
        if lo > 0:
            (qc, ad), (rc, bd) = _split_coeffs(x, 1 << lo)
            if ad or qc:
                rest = _build(rc, bd)
                q = ext(rest, lo, None)
                rlo, rhi = _lo(rest), _hi(rest)
                if type(q) is int or not bd or True:
                    whole = add(_build(qc, ad), q)
                    if w is None:
                        return whole
                    # avoid loops: only if something moved
                    return ext(whole, 0, w)
    if w is not None:
        return _mk("ext", (x, lo, w), "I", 0, (1 << w) - 1)
    l = None if x.lo is None else x.lo >> lo
    h = None if x.hi is None else x.hi >> lo
    if l is not None and l == h:
        return l
    return _mk("ext", (x, lo, None), "I", l, h)


_BITS = frozenset(("or", "and", "xor", "shl", "ite"))
_BITMEMO = {}


def _bit(x, j):
    """bit j of a non-negative bitwise combination, as a 0/1 term (None: no simpler form)"""
    if x.lo is None or x.lo < 0:
        return None
    if x.op == "shl":
        return b2i(eq(x.args[1], j)) if x.args[0] == 1 else None
    if x.op == "ite" and not any(type(a) is not int and a.op in ("or", "xor", "shl") for a in x.args[1:]):
        return None
    key = (x.tid, j)
    if key not in _BITMEMO:
        if len(_BITMEMO) > 100000:
            _BITMEMO.clear()
        if x.op == "ite":
            c, a, b = x.args
            r = ite(c, ext(a, j, 1), ext(b, j, 1))
        else:
            a, b = eq(ext(x.args[0], j, 1), 1), eq(ext(x.args[1], j, 1), 1)
            if x.op == "or":
                r = b2i(bor_list([a, b]))
            elif x.op == "and":
                r = b2i(band_list([a, b]))
            else:
                r = b2i(bor_list([band_list([a, bnot(b)]), band_list([bnot(a), b])]))
        _BITMEMO[key] = (x, r)
    return _BITMEMO[key][1]


class DivByZero(Exception):
    pass


def div(x, y):
    """floor division; y must be non-zero (the caller forks on that)."""
    if type(y) is int:
        if type(x) is int:
            return x // y
        if y < 0:
            return div(neg(x), -y)
        if y == 1:
            return x
        if x.hi is not None and x.hi <= 0 and x.op == "poly":
            return neg(div(sub(y - 1, x), y))
        k = _log2(y)
        if k is not None:
            return ext(x, k, None)
        if x.lo is not None and x.hi is not None:
            l, h = x.lo // y, x.hi // y
            if l == h:
                return l
        if x.op == "div" and type(x.args[1]) is int:
            return div(x.args[0], x.args[1] * y)
        if x.op == "poly":
            (qc, ad), (rc, bd) = _split_coeffs(x, y)
            if ad or qc:
                rest = _build(rc, bd)
                return add(_build(qc, ad), div(rest, y))
            c, d = topoly(x)
            g = y
            for v in d.values():
                g = gcd(g, v)
            if g > 1:
                # floor((g*A + c)/y) = floor((A + floor(c/g))/(y/g))
                return div(_build(c // g, {m: v // g for m, v in d.items()}), y // g)
        l = None if x.lo is None else x.lo // y
        h = None if x.hi is None else x.hi // y
        return _mk("div", (x, y), "I", l, h)
    if type(x) is int and x == 0:
        return 0
    if x is y:
        return 1
    if y.op == "shl" and y.args[0] == 1:
        return shr(x, y.args[1])
    if type(x) is not int:
        if x.op == "div" and y.lo is not None and y.lo >= 1:
            return div(x.args[0], mul(x.args[1], y))
        if y.op == "poly":
            c, d = topoly(y)
            g = abs(c)
            for v in d.values():
                g = gcd(g, v)
            if g > 1:
                # floor(x/(g*B)) = floor(floor(x/B)/g)
                return div(div(x, _build(c // g, {m: v // g for m, v in d.items()})), g)
    xl, xh, yl, yh = _lo(x), _hi(x), y.lo, y.hi
    l = h = None
    if xl is not None and xl >= 0 and yl is not None and yl >= 0:
        l = 0
        h = None if xh is None else xh // max(yl, 1)
        if xh is not None and xh < yl:
            return 0
    elif xl is not None and xh is not None:
        m = max(abs(xl), abs(xh))
        l, h = -m, m
    return _mk("div", (x, y), "I", l, h)


def mod(x, y):
    """Python modulo; y must be non-zero."""
    if type(y) is int:
        if type(x) is int:
            return x % y
        if y < 0:
            return neg(mod(neg(x), -y))
        if y == 1:
            return 0
        k = _log2(y)
        if k is not None:
            return ext(x, 0, k)
        if x.lo is not None and x.hi is not None and x.lo // y == x.hi // y:
            return add(x, -y * (x.lo // y))
        if x.op == "mod" and type(x.args[1]) is int and x.args[1] % y == 0:
            return mod(x.args[0], y)
        if x.op == "poly":
            c, d = topoly(x)
            nd, ch = {}, False
            for m, v in d.items():
                r = v % y
                if r > y // 2:
                    r -= y
                if r != v:
                    ch = True
                if len(m) == 1 and m[0].op == "mod" and m[0].args[1] == y:
                    p = scale(m[0].args[0], r)
                    rest = dict(d)
                    del rest[m]
                    return mod(add(_build(c, rest), p), y)
                if r:
                    nd[m] = r
            rc = c % y
            if rc != c:
                ch = True
            if ch:
                return mod(_build(rc, nd), y)
        return _mk("mod", (x, y), "I", 0, y - 1)
    if type(x) is int and x == 0:
        return 0
    if x is y:
        return 0
    if isinstance(x, Term) and x.op == "mod" and x.args[1] is y:
        return x
    if isinstance(x, Term):
        # congruence: (u mod y) may stand for u anywhere in a sum of products taken modulo y, and multiples of y vanish
        c, d = topoly(x)
        for m, v in d.items():
            i = next((i for i, a in enumerate(m) if a is y or (len(m) == 1 and a.op == "mod" and a.args[1] is y)), None)
            if i is None:
                continue
            rest = dict(d)
            del rest[m]
            p = _build(c, rest)
            if m[i] is not y:
                p = add(p, scale(m[i].args[0], v))
            return mod(p, y)
    xl, xh, yl, yh = _lo(x), _hi(x), y.lo, y.hi
    l = h = None
    if yl is not None and yl >= 0:
        if xh is not None and xl is not None and xl >= 0 and xh < yl:
            return x
        l = 0
        if yh is not None:
            h = yh - 1
        if xl is not None and xl >= 0 and xh is not None:
            h = xh if h is None else min(h, xh)
    elif yl is not None and yh is not None:
        m = max(abs(yl), abs(yh))
        l, h = -m, m
    return _mk("mod", (x, y), "I", l, h)


def _bits(x):
    """upper bound on bit length of a non-negative term, or None."""
    h = _hi(x)
    l = _lo(x)
    if h is None or l is None or l < 0:
        return None
    return h.bit_length()


def _tz(x):
    if type(x) is int:
        return 10**6 if x == 0 else (x & -x).bit_length() - 1
    if x.op == "poly":
        g = x.args[0]
        for m, v in x.args[1]:
            g = gcd(g, v)
        return (g & -g).bit_length() - 1
    return 0


def band(a, b):
    if type(a) is int and type(b) is int:
        return a & b
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b < 0:
            # x & b = x - (x & ~b)
            if _log2(~b + 1) is not None or ~b > 0:
                return sub(a, band(a, ~b))
            return a  # b == -1
        # contiguous mask?
        tz = (b & -b).bit_length() - 1
        k = _log2((b >> tz) + 1)
        if k is not None:
            return scale(ext(a, tz, k), 1 << tz)
        n = _bits(a)
        if n is None:
            a = ext(a, 0, b.bit_length())
            if type(a) is int:
                return a & b
        else:
            m = (1 << n) - 1
            if b & m != b:
                return band(a, b & m)
            if b == m:
                return a
        return _mk("and", (a, b), "I", 0, b)
    if a is b:
        return a
    if a.tid > b.tid:
        a, b = b, a
    na, nb = _bits(a), _bits(b)
    if na is None and nb is None:
        raise NotImplementedError("and of unbounded terms")
    if na is None:
        a = ext(a, 0, nb)
        return band(a, b)
    if nb is None:
        return band(a, ext(b, 0, na))
    if _tz(a) >= nb or _tz(b) >= na:
        return 0
    return _mk("and", (a, b), "I", 0, min(a.hi, b.hi))


def bor(a, b):
    if type(a) is int and type(b) is int:
        return a | b
    if type(a) is int:
        a, b = b, a
    if type(b) is int and b == 0:
        return a
    if a is b:
        return a
    na, nb = _bits(a), _bits(b)
    if na is None or nb is None:
        raise NotImplementedError("or of unbounded/negative terms")
    if _tz(a) >= nb or _tz(b) >= na:
        return add(a, b)
    if type(b) is int and b == (1 << nb) - 1 and na <= nb:
        return b
    if type(b) is not int and a.tid > b.tid:
        a, b = b, a
    n = max(na, nb)
    return _mk("or", (a, b), "I", max(_lo(a), _lo(b)), (1 << n) - 1)


def bxor(a, b):
    if type(a) is int and type(b) is int:
        return a ^ b
    if type(a) is int:
        a, b = b, a
    if type(b) is int and b == 0:
        return a
    if a is b:
        return 0
    na, nb = _bits(a), _bits(b)
    if na is None or nb is None:
        raise NotImplementedError("xor of unbounded/negative terms")
    if type(b) is int and b == (1 << nb) - 1 and na <= nb:
        return sub(b, a)
    if _tz(a) >= nb or _tz(b) >= na:
        return add(a, b)
    if type(b) is not int and a.tid > b.tid:
        a, b = b, a
    n = max(na, nb)
    return _mk("xor", (a, b), "I", 0, (1 << n) - 1)


def shl(a, s):
    """a * 2^s for s >= 0 (the caller has excluded negative counts)"""
    if type(s) is int:
        return scale(a, 1 << s)
    if type(a) is int and a == 0:
        return 0
    # 2^(s+k) = 2^k 2^s
    if s.op == "poly":
        c, d = topoly(s)
        if 0 < c < 4096 and (_lo(s) is None or _lo(s) >= c):
            return scale(shl(a, _build(0, d)), 1 << c)
    sl = max(s.lo or 0, 0)
    sh = s.hi
    if sh is not None and sh < 4096:
        p = _mk("shl", (1, s), "I", 1 << sl, 1 << max(sh, 0))
    else:
        p = _mk("shl", (1, s), "I", 1, None)
    return mul(a, p)


def shr(a, s):
    """floor(a / 2^s) for s >= 0 (the caller has excluded negative counts)"""
    if type(s) is int:
        return ext(a, s, None)
    if type(a) is int and (a == 0 or a == -1):
        return a
    al, ah = _lo(a), _hi(a)
    if ah is not None and ah < 0:
        return sub(-1, shr(sub(-1, a), s))
    smin = max(s.lo or 0, 0)
    if al is not None and al >= 0:
        return _mk("shr", (a, s), "I", 0, None if ah is None else ah >> smin)
    return _mk("shr", (a, s), "I", None if al is None else al >> smin if al < 0 else 0, None if ah is None else ah >> smin)


def bitlen(a):
    if type(a) is int:
        return a.bit_length()
    h = _hi(a)
    l = _lo(a)
    if l is not None and l >= 0:
        return _mk("bitlen", (a,), "I", l.bit_length(), None if h is None else h.bit_length())
    raise NotImplementedError("bit_length of possibly negative term")


def pick(items, idx):
    """items[idx] for 0 <= idx < len(items)."""
    if type(idx) is int:
        return items[idx]
    items = tuple(items)
    if all(i is items[0] or (type(i) is int and i == items[0]) for i in items):
        return items[0]
    lo = min((_lo(i) for i in items))
    hi = max((_hi(i) for i in items))
    return _mk("pick", (items, idx), "I", lo, hi)


# --------------------------------------------------------------------------
# booleans

def bnot(a):
    if a is True:
        return False
    if a is False:
        return True
    if a.op == "not":
        return a.args[0]
    if a.op == "le":  # 0 <= p   ->  p <= -1  -> 0 <= -p-1
        return _le0(sub(-1, a.args[0]))
    return _mk("not", (a,), "B")


def _norm_sign(p):
    return p


def _le0(p):
    """0 <= p"""
    if type(p) is int:
        return p >= 0
    if p.lo is not None and p.lo >= 0:
        return True
    if p.hi is not None and p.hi < 0:
        return False
    c, d = topoly(p)
    g = 0
    for v in d.values():
        g = gcd(g, v)
    if g > 1:
        p = _build(c // g, {m: v // g for m, v in d.items()})
        if type(p) is int:
            return p >= 0
        if p.lo is not None and p.lo >= 0:
            return True
        if p.hi is not None and p.hi < 0:
            return False
        c, d = topoly(p)
    if len(d) == 1:
        (m, v), = d.items()
        if len(m) == 1 and v in (1, -1):
            a = m[0]
            if a.op == "bitlen":
                if v == 1:          # bitlen(x) >= -c
                    return le(1 << (-c - 1), a.args[0])
                if c < 100000:      # bitlen(x) <= c
                    return lt(a.args[0], 1 << c)
            elif a.lo == 0 and a.hi == 1:
                z = eq(a, 0)
                return bnot(z) if v == 1 else z
            elif a.op == "ext" and a.args[2] is not None and (
                    (v == 1 and -c == 1 << (a.args[2] - 1)) or (v == -1 and c + 1 == 1 << (a.args[2] - 1))):
                z = eq(ext(a.args[0], a.args[1] + a.args[2] - 1, 1), 0)
                return bnot(z) if v == 1 else z
            elif (a.op == "ext" and a.args[2] is None) or (a.op == "div" and type(a.args[1]) is int):
                k = 1 << a.args[1] if a.op == "ext" else a.args[1]
                if v == 1:          # floor(x/k) >= -c
                    return le(-c * k, a.args[0])
                return lt(a.args[0], (c + 1) * k)
    return _mk("le", (p,), "B")


def le(a, b):
    return _le0(sub(b, a))


def lt(a, b):
    return _le0(sub(sub(b, a), 1))


def eq(a, b):
    if a is b:
        return True
    p = sub(a, b)
    if type(p) is int:
        return p == 0
    if p.lo is not None and p.lo > 0:
        return False
    if p.hi is not None and p.hi < 0:
        return False
    c, d = topoly(p)
    g = 0
    for v in d.values():
        g = gcd(g, v)
    if g > 1:
        if c % g:
            return False
        p = _build(c // g, {m: v // g for m, v in d.items()})
        if type(p) is int:
            return p == 0
        c, d = topoly(p)
    # sign normalisation
    lead = min(d, key=_key)
    if d[lead] < 0:
        p = neg(p)
    if len(d) == 1:
        # a product is zero iff a factor is; keep simple atoms only
        (m, v), = d.items()
        if len(m) == 1 and m[0].op == "b2i" and c in (0, -v, v):
            b = m[0].args[0]
            if c == 0:
                return bnot(b)
            if c == -v:
                return b
        if len(m) == 1 and m[0].op == "ite" and abs(v) == 1:
            # eq(ite(c,a,b), k) with constant branches
            k = -c * v
            cc, x, y = m[0].args
            if type(x) is int and type(y) is int:
                if x == k and y == k:
                    return True
                if x == k:
                    return cc
                if y == k:
                    return bnot(cc)
                return False
        if len(m) == 1 and abs(v) == 1:
            k = -c * v
            a = m[0]
            if k == 1 and a.lo == 0 and a.hi == 1:
                return bnot(eq(a, 0))
            if a.op == "bitlen" and k < 100000:
                if k == 0:
                    return eq(a.args[0], 0)
                return band_list([le(1 << (k - 1), a.args[0]), lt(a.args[0], 1 << k)])
            if (a.op == "ext" and a.args[2] is None) or (a.op == "div" and type(a.args[1]) is int):
                y = 1 << a.args[1] if a.op == "ext" else a.args[1]
                return band_list([le(k * y, a.args[0]), lt(a.args[0], (k + 1) * y)])
        if c == 0 and len(m) > 1:
            return bor_list([eq(a, 0) for a in set(m)])
    return _mk("eq", (p,), "B")


def _blist(op, unit, items):
    out = []
    seen = set()
    for i in items:
        if i is unit:
            continue
        if i is (not unit):
            return not unit
        if isinstance(i, Term) and i.op == op:
            subs = i.args
        else:
            subs = (i,)
        for s in subs:
            if s.tid not in seen:
                seen.add(s.tid)
                out.append(s)
    if not out:
        return unit
    for s in out:
        n = bnot(s)
        if isinstance(n, Term) and n.tid in seen:
            return not unit
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.tid)
    return _mk(op, tuple(out), "B")


def band_list(items):
    return _blist("band", True, items)


def bor_list(items):
    return _blist("bor", False, items)


def beq(a, b):
    """equivalence of booleans"""
    if a is b:
        return True
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return bnot(b)
    if b is False:
        return bnot(a)
    if bnot(a) is b:
        return False
    if a.tid > b.tid:
        a, b = b, a
    return _mk("iff", (a, b), "B")


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if type(a) is int and type(b) is int:
        if a == b:
            return a
        return add(b, scale(b2i(c), a - b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    lo = None if _lo(a) is None or _lo(b) is None else min(_lo(a), _lo(b))
    hi = None if _hi(a) is None or _hi(b) is None else max(_hi(a), _hi(b))
    return _mk("ite", (c, a, b), "I", lo, hi)


def b2i(c):
    if c is True:
        return 1
    if c is False:
        return 0
    if c.op == "not":
        return sub(1, b2i(c.args[0]))
    return _mk("b2i", (c,), "I", 0, 1)


# --------------------------------------------------------------------------
# concrete evaluation

EVAL = {}       # app name -> function(args...) -> int   (true semantics)


class Assignment:
    def __init__(self, ints=None, bools=None, arrays=None, apps=None):
        self.ints = ints or {}
        self.bools = bools or {}
        self.arrays = arrays or {}
        self.apps = apps or {}

    def to_json(self):
        return {
            "ints": {k: str(v) for k, v in self.ints.items()},
            "bools": self.bools,
            "arrays": {k: {str(i): v for i, v in a.items()} for k, a in self.arrays.items()},
            "apps": [[[x if isinstance(x, str) else str(x) for x in k], str(v)] for k, v in self.apps.items()],
        }

    @staticmethod
    def from_json(j):
        return Assignment(
            {k: int(v) for k, v in j["ints"].items()},
            dict(j["bools"]),
            {k: {int(i): v for i, v in a.items()} for k, a in j["arrays"].items()},
            {(k[0],) + tuple(int(x) for x in k[1:]): int(v) for k, v in j.get("apps", [])},
        )


class Guess(Assignment):
    """opaque functions take pseudo-random values, recorded as they are used"""

    def __init__(self, rnd, **k):
        super().__init__(**k)
        self.rnd = rnd

    def app(self, key, t):
        if key not in self.apps:
            lo = 0 if t.lo is None else t.lo
            self.apps[key] = self.rnd.randint(lo, t.hi if t.hi is not None else lo + 2**64)
        return self.apps[key]


def _clip(lo, hi):
    v = 0
    if lo is not None and v < lo:
        v = lo
    if hi is not None and v > hi:
        v = hi
    return v


def evaluate(t, asg, memo):
    if not isinstance(t, Term):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = _evaluate(t, asg, memo)
    memo[t] = r
    return r


def _evaluate(t, asg, memo):
    op = t.op
    a = t.args
    ev = lambda x: evaluate(x, asg, memo)
    if op == "var":
        v = asg.ints.get(a[0])
        if v is None or (a[1] is not None and v < a[1]) or (a[2] is not None and v > a[2]):
            return _clip(t.lo, t.hi)
        return v
    if op == "bvar":
        return asg.bools.get(a[0], False)
    if op == "poly":
        s = a[0]
        for m, c in a[1]:
            p = c
            for x in m:
                p *= ev(x)
                if p == 0:
                    break
            s += p
        return s
    if op == "wrap":
        return ev(a[0])
    if op == "ext":
        r = ev(a[0]) >> a[1]
        return r if a[2] is None else r & ((1 << a[2]) - 1)
    if op == "div":
        d = ev(a[1])
        return ev(a[0]) // d if d else 0
    if op == "mod":
        d = ev(a[1])
        return ev(a[0]) % d if d else 0
    if op == "and":
        return ev(a[0]) & ev(a[1])
    if op == "or":
        return ev(a[0]) | ev(a[1])
    if op == "xor":
        return ev(a[0]) ^ ev(a[1])
    if op == "shl":
        s = ev(a[1])
        return ev(a[0]) << s if 0 <= s < 100000 else 0
    if op == "shr":
        s = ev(a[1])
        return ev(a[0]) >> s if s >= 0 else 0
    if op == "bitlen":
        return ev(a[0]).bit_length()
    if op == "pick":
        i = ev(a[1])
        return ev(a[0][i]) if 0 <= i < len(a[0]) else 0
    if op == "sel":
        arr = asg.arrays.get(a[0], {})
        return arr.get(ev(a[1]), 0)
    if op == "app":
        f = EVAL.get(a[0])
        args = tuple(ev(x) if isinstance(x, Term) else x for x in a[1:])
        if f is not None:
            return f(*args)
        if type(asg) is Guess:
            return asg.app((a[0],) + args, t)
        return asg.apps.get((a[0],) + args, _clip(t.lo, t.hi))
    if op == "ite":
        return ev(a[1]) if ev(a[0]) else ev(a[2])
    if op == "b2i":
        return 1 if ev(a[0]) else 0
    if op == "le":
        return ev(a[0]) >= 0
    if op == "eq":
        return ev(a[0]) == 0
    if op == "not":
        return not ev(a[0])
    if op == "band":
        return all(ev(x) for x in a)
    if op == "bor":
        return any(ev(x) for x in a)
    if op == "iff":
        return ev(a[0]) == ev(a[1])
    raise NotImplementedError(op)


def children(t):
    op, a = t.op, t.args
    if op in ("var", "bvar"):
        return ()
    if op == "poly":
        return tuple(x for m, c in a[1] for x in m)
    if op == "ext":
        return (a[0],)
    if op == "pick":
        return tuple(x for x in a[0] if isinstance(x, Term)) + ((a[1],) if isinstance(a[1], Term) else ())
    return tuple(x for x in a if isinstance(x, Term))


def walk(terms):
    seen = set()
    stack = [t for t in terms if isinstance(t, Term)]
    while stack:
        t = stack.pop()
        if t.tid in seen:
            continue
        seen.add(t.tid)
        yield t
        stack.extend(children(t))


def has_shl(t):
    """does a power of two with a symbolic exponent occur in t?"""
    if not isinstance(t, Term):
        return False
    if t._shl is not None:
        return t._shl
    stack = [t]
    while stack:
        x = stack[-1]
        if x._shl is not None:
            stack.pop()
            continue
        kids = [k for k in children(x) if isinstance(k, Term)]
        todo = [k for k in kids if k._shl is None]
        if todo:
            stack.extend(todo)
            continue
        x._shl = (x.op == "shl" and isinstance(x.args[1], Term)) or any(k._shl for k in kids)
        stack.pop()
    return t._shl


def guess(constraints, goal, base, tries, seed=1):
    """an assignment satisfying all of `constraints` and `goal`, found by trying values near `base`; None when none is
    found (which proves nothing)"""
    import random
    rnd = random.Random(seed)
    held = {v for t in walk(constraints) if t.op in ("var", "bvar") for v in (t,)}
    free = [t for t in walk([goal]) if t.op in ("var", "bvar") and t not in held]
    held = list(held)
    arrays = {t.args[0] for t in walk([goal]) if t.op == "sel"}
    for k in range(tries):
        g = Guess(rnd, ints=dict(base.ints), bools=dict(base.bools), arrays={n: dict(v) for n, v in base.arrays.items()})
        for v in free + (rnd.sample(held, min(len(held), k % 3)) if held else []):
            if v.op == "bvar":
                g.bools[v.args[0]] = rnd.random() < 0.5
                continue
            lo, hi = v.lo, v.hi
            lo = lo if lo is not None else (hi - 2**32 if hi is not None else 0)
            hi = hi if hi is not None else lo + 2**32
            how = rnd.random()
            if how < 0.15:
                x = lo
            elif how < 0.3:
                x = hi
            elif how < 0.45:
                x = min(hi, max(lo, rnd.randint(0, 300)))
            else:
                x = rnd.randint(lo, hi)
            g.ints[v.args[0]] = x
        memo = {}
        try:
            if evaluate(goal, g, memo) and all(evaluate(t, g, memo) for t in constraints):
                return Assignment(g.ints, g.bools, g.arrays, g.apps)
        except (ValueError, OverflowError, MemoryError):
            continue
    return None


def substitute(t, m, memo):
    """rebuild `t` with the terms in `m` replaced (through the simplifier)"""
    if not isinstance(t, Term):
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    r = _substitute(t, m, memo)
    memo[t] = r
    return r


def _substitute(t, m, memo):
    op, a = t.op, t.args
    S = lambda x: substitute(x, m, memo)
    if op in ("var", "bvar"):
        return t
    if op == "poly":
        r = a[0]
        for mon, c in a[1]:
            p = c
            for x in mon:
                p = mul(p, S(x))
            r = add(r, p)
        return r
    if op == "wrap":
        return S(a[0])
    if op == "ext":
        return ext(S(a[0]), a[1], a[2])
    if op in ("div", "mod"):
        y = S(a[1])
        if type(y) is int and y == 0:
            return 0
        return (div if op == "div" else mod)(S(a[0]), y)
    if op in ("and", "or", "xor"):
        return {"and": band, "or": bor, "xor": bxor}[op](S(a[0]), S(a[1]))
    if op in ("shl", "shr"):
        k = S(a[1])
        if type(k) is int and (k < 0 or k > 100000):
            return 0
        return (shl if op == "shl" else shr)(S(a[0]), k)
    if op == "bitlen":
        return bitlen(S(a[0]))
    if op == "pick":
        i = S(a[1])
        items = [S(x) for x in a[0]]
        if type(i) is int:
            return items[i] if 0 <= i < len(items) else 0
        return pick(items, i)
    if op == "sel":
        return sel(a[0], S(a[1]), t.hi)
    if op == "app":
        args = [S(x) for x in a[1:]]
        if a[0] in EVAL and all(not isinstance(x, Term) for x in args):
            return EVAL[a[0]](*args)
        return app(a[0], args, t.lo, t.hi)
    if op == "ite":
        return ite(S(a[0]), S(a[1]), S(a[2]))
    if op == "b2i":
        return b2i(S(a[0]))
    if op == "le":
        return le(0, S(a[0]))
    if op == "eq":
        return eq(S(a[0]), 0)
    if op == "not":
        return bnot(S(a[0]))
    if op == "band":
        return band_list([S(x) for x in a])
    if op == "bor":
        return bor_list([S(x) for x in a])
    if op == "iff":
        return beq(S(a[0]), S(a[1]))
    raise NotImplementedError(op)


def pow_mod(b, e, m):
    if type(b) is int and type(e) is int:
        return pow(b, e, m)
    if type(e) is int and e <= 4:
        r = 1
        for _ in range(e):
            r = mod(mul(r, b), m)
        return mod(r, m)
    if type(b) is not int:
        b = mod(b, m) if _lo(b) is not None and _lo(b) >= 0 and not (_hi(b) is not None and _hi(b) < m) else b
    return app("powmod", (b, e, m), 0, m - 1)


def _eval_powmod(b, e, m):
    try:
        return pow(b, e, m)
    except ValueError:
        return 0


EVAL["powmod"] = _eval_powmod
