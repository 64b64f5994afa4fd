"""
Symbolic proxies standing in for int, bool, bytes, bytearray, dict and set in
the instrumented modules.
"""

import builtins
import numbers
import collections.abc
from . import ir
from .ir import Term


class Steer(BaseException):
    """Path-steering exceptions: never caught by the code under test."""


class Unsupported(Steer):
    pass


class PathEnd(Steer):
    pass


# the current path (set by the engine)
class _Cur:
    path = None


CUR = _Cur()

_int, _bytes, _bytearray, _dict, _set, _len = int, bytes, bytearray, dict, set, len
_isinstance = builtins.isinstance


def branch(t):
    if t is True or t is False:
        return t
    return CUR.path.branch(t)


def known(t):
    """value of t if settled by what the path already decided, else None"""
    if t is True or t is False:
        return t
    return CUR.path.known(t)


def concretise(t):
    if type(t) is _int:
        return t
    return CUR.path.concretise(t)


# --------------------------------------------------------------------------
# integers and booleans

def term(x):
    """IR term of an int-like value, or None"""
    tx = type(x)
    if tx is _int:
        return x
    if tx is SInt:
        return x.t
    if tx is SBool:
        return ir.b2i(x.t)
    if tx is bool:
        return 1 if x else 0
    if _isinstance(x, _int):
        return _int(x)
    return None


def _ixterm(x):
    """term of anything usable as an index"""
    t = term(x)
    if t is None:
        n = getattr(x, "_number", None)
        t = term(n) if n is not None else term(x.__index__())
    return t


def mkint(t):
    return t if type(t) is _int else SInt(t)


def mkbool(t):
    return t if t is True or t is False else SBool(t)


def bterm(x):
    """IR boolean of a truth-like value"""
    if x is True or x is False:
        return x
    if type(x) is SBool:
        return x.t
    if type(x) is SInt:
        return ir.bnot(ir.eq(x.t, 0))
    return True if x else False


class SBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return branch(self.t)

    def __eq__(self, o):
        if type(o) in (SBool, bool):
            return mkbool(ir.beq(self.t, bterm(o)))
        t = term(o)
        if t is None:
            return NotImplemented
        return mkbool(ir.eq(ir.b2i(self.t), t))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __hash__(self):
        return hash(branch(self.t))

    def __and__(self, o):
        if type(o) in (SBool, bool):
            return mkbool(ir.band_list([self.t, bterm(o)]))
        return SInt(ir.b2i(self.t)) & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) in (SBool, bool):
            return mkbool(ir.bor_list([self.t, bterm(o)]))
        return SInt(ir.b2i(self.t)) | o

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) in (SBool, bool):
            return mkbool(ir.bnot(ir.beq(self.t, bterm(o))))
        return SInt(ir.b2i(self.t)) ^ o

    __rxor__ = __xor__

    def __int__(self):
        return mkint(ir.b2i(self.t))

    def __index__(self):
        return 1 if branch(self.t) else 0

    def _i(self):
        return SInt(ir.b2i(self.t))

    def __repr__(self):
        return "<?bool>"

    def __format__(self, spec):
        return "<?bool>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _fwd(name):
    def f(self, *a):
        return getattr(self._i(), name)(*a)
    f.__name__ = name
    return f


for _n in ("add radd sub rsub mul rmul floordiv rfloordiv mod rmod pow rpow lshift rlshift rshift rrshift "
           "lt le gt ge neg pos abs invert").split():
    setattr(SBool, f"__{_n}__", _fwd(f"__{_n}__"))


def snot(x):
    return mkbool(ir.bnot(bterm(x)))


def sand(*xs):
    return mkbool(ir.band_list([bterm(x) for x in xs]))


def sor(*xs):
    return mkbool(ir.bor_list([bterm(x) for x in xs]))


def _bin(f):
    def op(self, o):
        t = term(o)
        if t is None:
            return NotImplemented
        try:
            return mkint(f(self.t, t))
        except NotImplementedError as e:
            raise Unsupported(str(e))
    return op


def _rbin(f):
    def op(self, o):
        t = term(o)
        if t is None:
            return NotImplemented
        try:
            return mkint(f(t, self.t))
        except NotImplementedError as e:
            raise Unsupported(str(e))
    return op


def _div(a, b):
    if branch(ir.eq(b, 0)):
        raise ZeroDivisionError("integer division or modulo by zero")
    return ir.div(a, b)


def _mod(a, b):
    if branch(ir.eq(b, 0)):
        raise ZeroDivisionError("integer division or modulo by zero")
    return ir.mod(a, b)


def _shl(a, s):
    if type(s) is not _int and (s.lo is None or s.lo < 0):
        if branch(ir.lt(s, 0)):
            raise ValueError("negative shift count")
    if type(s) is _int and s < 0:
        raise ValueError("negative shift count")
    return ir.shl(a, s)


def _shr(a, s):
    if type(s) is not _int and (s.lo is None or s.lo < 0):
        if branch(ir.lt(s, 0)):
            raise ValueError("negative shift count")
    if type(s) is _int and s < 0:
        raise ValueError("negative shift count")
    return ir.shr(a, s)


def _shifts(t):
    """powers of two with a symbolic exponent inside t"""
    if type(t) is _int or not ir.has_shl(t):
        return []
    return [x for x in ir.walk([t]) if x.op == "shl" and type(x.args[1]) is not _int]


def _low_mask(t):
    """the power of two p when t is p - 1"""
    if type(t) is _int or t.op != "poly":
        return None
    c, d = ir.topoly(t)
    if c == -1 and len(d) == 1:
        (m, v), = d.items()
        if v == 1 and len(m) == 1 and m[0].op == "shl":
            return m[0]
    return None


def _bitop(op, a, b):
    f = {"and": ir.band, "or": ir.bor, "xor": ir.bxor}[op]
    if op == "and":
        for x, y in ((a, b), (b, a)):
            p = _low_mask(y)
            if p is not None:
                return ir.mod(x, p)
    try:
        r = f(a, b)
        if type(r) is _int or r.op != op or r.hi < 1 << 64:
            return r
    except NotImplementedError:
        r = None
    ps = {x.tid: x for t in (a, b) for x in _shifts(t)}
    if ps:
        # the bits of a mask of symbolic width: settle the width first
        m = {x: 1 << concretise(x.args[1]) for x in ps.values()}
        return _bitop(op, ir.substitute(a, m, {}), ir.substitute(b, m, {}))
    return _signed_bitop(op, a, b) if r is None else r


def _and_signed(a, b):
    return _bitop("and", a, b)


def _or_signed(a, b):
    return _bitop("or", a, b)


def _xor_signed(a, b):
    return _bitop("xor", a, b)


def _signed_bitop(op, a, b):
    """two's complement bit operations on possibly negative bounded terms"""
    lo = min(ir._lo(a) if ir._lo(a) is not None else -10**999, ir._lo(b) if ir._lo(b) is not None else -10**999)
    hi = max(ir._hi(a) if ir._hi(a) is not None else 10**999, ir._hi(b) if ir._hi(b) is not None else 10**999)
    if lo == -10**999 or hi == 10**999:
        raise NotImplementedError("bit operation on unbounded negative terms")
    n = max(lo.bit_length(), hi.bit_length()) + 1
    f = {"and": ir.band, "or": ir.bor, "xor": ir.bxor}[op]
    r = f(ir.ext(a, 0, n), ir.ext(b, 0, n))
    # sign extend from n bits
    s = ir.ext(r, n - 1, 1)
    return ir.sub(r, ir.scale(s, 1 << n))


class Root:
    """the float square root of an integer below 2^52, of which only the integral part is exact enough to be used"""

    def __init__(self, t):
        p = CUR.path
        r = p.fresh("isqrt", 0, 2**26)
        p.assume(ir.band_list([ir.le(ir.mul(r, r), t), ir.lt(t, ir.mul(ir.add(r, 1), ir.add(r, 1)))]))
        self.r = mkint(r)

    def __int__(self):
        return self.r

    __floor__ = __trunc__ = __int__


def spow(b, e, m=None):
    if m is None:
        tb, te = term(b), term(e)
        if e == 0.5 and type(e) is float and type(tb) is not _int and tb is not None and tb.lo is not None and tb.lo >= 0 \
                and tb.hi is not None and tb.hi < 2**52:
            return Root(tb)
        if tb is None or te is None:
            return NotImplemented
        if type(te) is _int:
            if te < 0:
                raise Unsupported("negative exponent")
            if type(tb) is _int:
                return tb ** te
            if te > 64:
                raise Unsupported("large constant power of a symbolic base")
            r = 1
            for _ in range(te):
                r = ir.mul(r, tb)
            return mkint(r)
        if type(tb) is _int and tb > 0 and tb & (tb - 1) == 0:
            k = tb.bit_length() - 1
            return mkint(_shl(1, ir.scale(te, k)))
        e = concretise(te)
        return spow(b, e)
    tb, te, tm = term(b), term(e), term(m)
    if tb is None or te is None or tm is None:
        return NotImplemented
    if branch(ir.eq(tm, 0)):
        raise ValueError("pow() 3rd argument cannot be 0")
    if type(te) is _int and te < 0:
        if type(tb) is _int and type(tm) is _int:
            return pow(tb, te, tm)
        raise Unsupported("modular inverse of a symbolic value")
    if type(te) is not _int and (te.lo is None or te.lo < 0):
        raise Unsupported("exponent of unknown sign")
    if type(tm) is not _int:
        r = ir.app("powmod", (tb, te, tm), 0, None if tm.hi is None else max(tm.hi - 1, 0))
        return mkint(r)
    if tm < 0:
        raise Unsupported("negative modulus")
    return mkint(ir.pow_mod(tb, te, tm))


class SInt:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    __add__ = _bin(ir.add)
    __radd__ = _rbin(ir.add)
    __sub__ = _bin(ir.sub)
    __rsub__ = _rbin(ir.sub)
    __mul__ = _bin(ir.mul)
    __rmul__ = _rbin(ir.mul)
    __floordiv__ = _bin(_div)
    __rfloordiv__ = _rbin(_div)
    __mod__ = _bin(_mod)
    __rmod__ = _rbin(_mod)
    __and__ = _bin(_and_signed)
    __rand__ = _rbin(_and_signed)
    __or__ = _bin(_or_signed)
    __ror__ = _rbin(_or_signed)
    __xor__ = _bin(_xor_signed)
    __rxor__ = _rbin(_xor_signed)
    __lshift__ = _bin(_shl)
    __rlshift__ = _rbin(_shl)
    __rshift__ = _bin(_shr)
    __rrshift__ = _rbin(_shr)

    def __rmul__(self, o):
        t = term(o)
        if t is None:
            if _isinstance(o, (list, tuple, str)):
                return o * concretise(self.t)
            return NotImplemented
        return mkint(ir.mul(t, self.t))

    def __divmod__(self, o):
        t = term(o)
        if t is None:
            return NotImplemented
        q = _div(self.t, t)
        return mkint(q), mkint(ir.mod(self.t, t))

    def __rdivmod__(self, o):
        t = term(o)
        if t is None:
            return NotImplemented
        q = _div(t, self.t)
        return mkint(q), mkint(ir.mod(t, self.t))

    def __truediv__(self, o):
        raise Unsupported("true division")

    __rtruediv__ = __truediv__

    def __float__(self):
        return float(concretise(self.t))

    def __pow__(self, e, m=None):
        return spow(self, e, m)

    def __rpow__(self, b, m=None):
        return spow(b, self, m)

    def __neg__(self):
        return mkint(ir.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        if branch(ir.lt(self.t, 0)):
            return mkint(ir.neg(self.t))
        return self

    def __invert__(self):
        return mkint(ir.sub(-1, self.t))

    def __eq__(self, o):
        t = term(o)
        if t is None:
            if _isinstance(o, float):
                if o != _int(o):
                    return False
                return mkbool(ir.eq(self.t, _int(o)))
            return NotImplemented
        return mkbool(ir.eq(self.t, t))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __lt__(self, o):
        t = term(o)
        return NotImplemented if t is None else mkbool(ir.lt(self.t, t))

    def __le__(self, o):
        t = term(o)
        return NotImplemented if t is None else mkbool(ir.le(self.t, t))

    def __gt__(self, o):
        t = term(o)
        return NotImplemented if t is None else mkbool(ir.lt(t, self.t))

    def __ge__(self, o):
        t = term(o)
        return NotImplemented if t is None else mkbool(ir.le(t, self.t))

    def __bool__(self):
        return not branch(ir.eq(self.t, 0))

    def __hash__(self):
        return hash(concretise(self.t))

    def __index__(self):
        return concretise(self.t)

    def __int__(self):
        return self

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    def bit_length(self):
        t = self.t
        if t.lo is None or t.lo < 0:
            if branch(ir.lt(t, 0)):
                return SInt(ir.neg(t)).bit_length()
            if t.lo is None or t.lo < 0:
                # decided non-negative on this path: clamp by a definition
                t = CUR.path.nonneg(t)
        return mkint(ir.bitlen(t))

    def bit_count(self):
        raise Unsupported("bit_count")

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if signed:
            raise Unsupported("signed to_bytes")
        lt = term(length)
        if lt is None:
            lt = _ixterm(length)
        n = concretise(lt)
        t = self.t
        if (t.lo is None or t.lo < 0) and branch(ir.lt(t, 0)):
            raise OverflowError("can't convert negative int to unsigned")
        if (t.hi is None or t.hi >= 1 << (8 * n)) and branch(ir.le(1 << (8 * n), t)):
            raise OverflowError("int too big to convert")
        items = [ir.ext(t, 8 * i, 8) for i in range(n)]
        if byteorder == "big":
            items.reverse()
        return mkbytes(items)

    def __repr__(self):
        return "<?int>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<?int>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


numbers.Integral.register(SInt)


def as_sint(x):
    """a SInt wrapper usable for explicit dunder calls, also on constants"""
    return SInt(term(x))


class _ConstInt(SInt):
    __slots__ = ()


class _IntMeta(type):
    def __instancecheck__(cls, o):
        if cls is Int:
            return _isinstance(o, (_int, SInt, SBool))
        return type.__instancecheck__(cls, o)

    def __subclasscheck__(cls, c):
        if cls is Int:
            return c is Int or c is SInt or c is SBool or builtins.issubclass(c, _int) or type.__subclasscheck__(cls, c)
        return type.__subclasscheck__(cls, c)

    def __eq__(cls, o):
        return o is cls or (cls is Int and o in (_int, SInt))

    def __hash__(cls):
        return hash(_int)

    def __getattr__(cls, name):
        # int.__invert__(x), int.bit_length(x) ...
        f = getattr(_int, name)

        def call(x, *a, **k):
            if type(x) in (SInt, SBool) or any(type(y) in (SInt, SBool) for y in a):
                return getattr(as_sint(x), name)(*a, **k)
            return f(x, *a, **k)
        return call


class Int(metaclass=_IntMeta):
    def __new__(cls, x=0, base=None):
        if type(x) in (SymStr, HexInt):
            return x._int(10 if base is None else base)
        if base is not None:
            if _isinstance(x, SymBytes):
                x = x._concrete()
            return _int(x, base)
        tx = type(x)
        if tx is _int or tx is SInt:
            return x
        if tx is SBool:
            return mkint(ir.b2i(x.t))
        if _isinstance(x, (str, float, _bytes)):
            return _int(x)
        if _isinstance(x, SymBytes):
            return _int(x._concrete())
        m = getattr(x, "__int__", None) or getattr(x, "__index__", None)
        if m is None:
            return _int(x)
        return m()

    @staticmethod
    def from_bytes(b, byteorder="big", *, signed=False):
        if signed:
            b = SymBytes(b)
            n = concretise(b._len)
            u = Int.from_bytes(b, byteorder)
            if n == 0:
                return 0
            if u >= (1 << (8 * n - 1)):
                return u - (1 << (8 * n))
            return u
        if _isinstance(b, SByteArray):
            b = b._b
        if not _isinstance(b, SymBytes):
            b = SymBytes(b)
        return mkint(b._as_int(byteorder))

    @staticmethod
    def to_bytes(x, *a, **k):
        return sto_bytes(x, *a, **k)


def sto_bytes(x, *a, **k):
    if type(x) in (_int, bool):
        if a and type(a[0]) is not _int:
            a = (concretise(term(a[0]) if term(a[0]) is not None else _ixterm(a[0])),) + tuple(a[1:])
        if "length" in k and type(k["length"]) is not _int:
            k["length"] = concretise(_ixterm(k["length"]))
        return mkbytes(_int.to_bytes(x, *a, **k))
    return x.to_bytes(*a, **k)


# --------------------------------------------------------------------------
# bytes

MATERIALISE = 4096


class _BytesMeta(type):
    def __instancecheck__(cls, o):
        if cls is SymBytes:
            return type.__instancecheck__(cls, o) or _isinstance(o, _bytes)
        return type.__instancecheck__(cls, o)

    def __subclasscheck__(cls, c):
        if cls is SymBytes and c is _bytes:
            return True
        return type.__subclasscheck__(cls, c)

    def __eq__(cls, o):
        return o is cls or (cls is SymBytes and o is _bytes)

    def __hash__(cls):
        return id(cls)


def _raw(cls, items=None, length=None, at=None):
    b = object.__new__(cls)
    if items is not None:
        b._items = items if type(items) is tuple or type(items) is _bytes else tuple(items)
        b._len = _len(b._items)
        b._at = None
    else:
        if type(length) is _int and length <= MATERIALISE:
            b._items = tuple([at(i) for i in range(length)])
            b._len = length
            b._at = at          # kept: cheaper than a selection among the items
        else:
            b._items = None
            b._len = length
            b._at = at
    b._n = None
    return b


class SymBytes(metaclass=_BytesMeta):
    """immutable byte sequence; concrete length with a tuple of byte terms, or
    symbolic length with an index function"""

    __slots__ = ("_items", "_len", "_at", "_n")

    def __new__(cls, src=b"", *a, **k):
        if a or k:
            return _raw(cls, _bytes(src, *a, **k))
        if type(src) is _bytes:
            return _raw(cls, src)
        if _isinstance(src, SymBytes) and type(src) is not _bytes:
            if type(src) is cls:
                return src
            b = object.__new__(cls)
            b._items, b._len, b._at, b._n = src._items, src._len, src._at, src._n
            return b
        if _isinstance(src, SByteArray):
            return cls.__new__(cls, src._b) if not _isinstance(src, _bytearray) else _raw(cls, _bytes(src))
        if _isinstance(src, (_bytes, _bytearray, memoryview)):
            return _raw(cls, _bytes(src))
        if _isinstance(src, str):
            raise TypeError("string argument without an encoding")
        t = term(src)
        if t is None and hasattr(src, "__index__"):
            t = _ixterm(src)
        if t is not None:
            if branch(ir.lt(t, 0)):
                raise ValueError("negative count")
            if type(t) is _int:
                return _raw(cls, _bytes(t))
            return _raw(cls, None, t, lambda i: 0)
        if hasattr(src, "__bytes__"):
            return cls.__new__(cls, src.__bytes__())
        items = []
        for x in src:
            items.append(_byte(x))
        return _raw(cls, items)

    def __init__(self, *a, **k):
        pass

    def __init_subclass__(cls, **k):
        super().__init_subclass__(**k)

    # -- access -----------------------------------------------------------
    def _get(self, i):
        """byte term at index term i, assumed in range"""
        if self._items is not None:
            if type(i) is _int:
                return self._items[i] if 0 <= i < _len(self._items) else 0
            if not self._items:
                return 0
            if self._at is not None and _len(self._items) > 32:
                return self._at(i)
            return ir.pick(self._items, i)
        return self._at(i)

    def _fix(self):
        """materialise when the path has fixed the length"""
        return self

    def _as_int(self, order="big"):
        if order == "big" and self._n is not None:
            return self._n
        s = self._seq()
        if type(s) is _bytes:
            return _int.from_bytes(s, order)
        it = s if order == "big" else tuple(reversed(s))
        n = _len(it)
        acc = {}
        const = 0
        for k, x in enumerate(it):
            w = 1 << (8 * (n - 1 - k))
            if type(x) is _int:
                const += x * w
            else:
                c, d = ir.topoly(x)
                const += c * w
                for m, v in d.items():
                    acc[m] = acc.get(m, 0) + v * w
        r = ir._build(const, acc)
        if order == "big":
            self._n = r
        return r

    def _seq(self):
        """items with a concrete length (forks on the length if needed)"""
        if self._items is None:
            n = concretise(self._len)
            if n > 1 << 16:
                raise Unsupported("materialising a long buffer")
            self._items = tuple([self._at(i) for i in range(n)])
            self._len = n
        return self._items

    def _is_concrete(self):
        s = self._items
        if s is None:
            return False
        if type(s) is _bytes:
            return True
        for x in s:
            if type(x) is not _int:
                return False
        self._items = _bytes(s)
        return True

    def _concrete(self):
        s = self._seq()
        if type(s) is _bytes:
            return s
        return _bytes([concretise(x) for x in s])

    def __bytes__(self):
        return self._concrete()

    def __len__(self):
        return concretise(self._len)

    def __bool__(self):
        return branch(ir.lt(0, self._len))

    def __iter__(self):
        if self._items is not None:
            for x in self._items:
                yield mkint(x)
            return
        i = 0
        while branch(ir.lt(i, self._len)):
            yield mkint(self._get(i))
            i += 1
            CUR.path.tick()

    def __getitem__(self, i):
        if type(i) is slice:
            return self._slice(i)
        t = term(i)
        if t is None:
            t = _ixterm(i)
        n = self._len
        if type(t) is _int and t < 0:
            t = ir.add(n, t)
            if branch(ir.lt(t, 0)):
                raise IndexError("index out of range")
        elif type(t) is not _int and (t.lo is None or t.lo < 0):
            if branch(ir.lt(t, 0)):
                t = ir.add(n, t)
                if branch(ir.lt(t, 0)):
                    raise IndexError("index out of range")
        if branch(ir.le(n, t)):
            raise IndexError("index out of range")
        return mkint(self._get(t))

    def _slice(self, sl):
        a, b, st = sl.start, sl.stop, sl.step
        if st is not None and st != 1:
            if st == -1 and a is None and b is None:
                return _raw(SymBytes, tuple(reversed(self._seq())))
            s = self._seq()
            return _raw(SymBytes, s[a:b:st])
        n = self._len
        ta, tb = _bounds(n, a, 0), _bounds(n, b, n)
        return self._cut(ta, tb)

    def _cut(self, a, b):
        """self[a:b] with 0 <= a,b <= len"""
        if type(a) is _int and type(b) is _int:
            if self._items is not None:
                return _raw(SymBytes, self._items[a:b] if b > a else b"")
        size = ir.sub(b, a)
        if type(size) is _int and size <= 0:
            return _raw(SymBytes, b"")
        if not (type(a) is _int and a == 0 and type(size) is not _int) and known(ir.le(0, size)) is not True:
            if branch(ir.le(size, 0)):
                return _raw(SymBytes, b"")
        if type(a) is _int and a == 0 and b is self._len:
            return SymBytes(self) if type(self) is not SymBytes else self
        at = self._get
        return _raw(SymBytes, None, size, lambda i: at(ir.add(a, i)))

    # -- operators --------------------------------------------------------
    def __add__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return _concat(self, o)

    def __radd__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return _concat(o, self)

    def __mul__(self, k):
        t = term(k)
        if t is None:
            if not hasattr(k, "__index__"):
                return NotImplemented
            t = _ixterm(k)
        if type(t) is _int and self._items is not None:
            return _raw(SymBytes, self._items * t)
        if branch(ir.le(t, 0)):
            return _raw(SymBytes, b"")
        if self._items is None:
            raise Unsupported("repeating a symbolic-length buffer")
        n = self._len
        if n == 0:
            return _raw(SymBytes, b"")
        it = self._items
        if n == 1:
            x = it[0]
            return _raw(SymBytes, None, t, lambda i: x)
        return _raw(SymBytes, None, ir.scale(t, n), lambda i: ir.pick(it, ir.mod(i, n)))

    __rmul__ = __mul__

    def __eq__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return mkbool(_eq(self, o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def _cmp(self, o):
        a, b = self._seq(), o._seq()
        n = min(_len(a), _len(b))
        # compare the common prefix as integers
        pa = _raw(SymBytes, a[:n])._as_int() if n else 0
        pb = _raw(SymBytes, b[:n])._as_int() if n else 0
        return pa, pb, _len(a), _len(b)

    def __lt__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        pa, pb, la, lb = self._cmp(o)
        return mkbool(ir.le(pa, pb) if la < lb else ir.lt(pa, pb))

    def __le__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        pa, pb, la, lb = self._cmp(o)
        return mkbool(ir.le(pa, pb) if la <= lb else ir.lt(pa, pb))

    def __gt__(self, o):
        o = _coerce(o)
        return NotImplemented if o is None else o.__lt__(self)

    def __ge__(self, o):
        o = _coerce(o)
        return NotImplemented if o is None else o.__le__(self)

    def __hash__(self):
        return hash(self._concrete())

    def __contains__(self, x):
        if _isinstance(x, (SymBytes, SByteArray)):
            x = _coerce(x)
            n = concretise(x._len)
            s = self._seq()
            for i in range(_len(s) - n + 1):
                if branch(_eq(_raw(SymBytes, s[i:i + n]), x)):
                    return True
            return False
        t = _byte(x)
        for y in self:
            if branch(ir.eq(term(y), t)):
                return True
        return False

    # -- methods ----------------------------------------------------------
    def startswith(self, p):
        if _isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        p = _coerce(p)
        n = concretise(p._len)
        if branch(ir.lt(self._len, n)):
            return False
        return mkbool(_eq(self._cut(0, n), p))

    def endswith(self, p):
        p = _coerce(p)
        n = concretise(p._len)
        if branch(ir.lt(self._len, n)):
            return False
        return mkbool(_eq(self._cut(ir.sub(self._len, n), self._len), p))

    def ljust(self, width, fill=b" "):
        w = _idx(width)
        f = _coerce(fill)._seq()[0]
        if branch(ir.le(w, self._len)):
            return SymBytes(self)
        return _concat(self, _raw(SymBytes, None, ir.sub(w, self._len), lambda i: f))

    def rjust(self, width, fill=b" "):
        w = _idx(width)
        f = _coerce(fill)._seq()[0]
        if branch(ir.le(w, self._len)):
            return SymBytes(self)
        return _concat(_raw(SymBytes, None, ir.sub(w, self._len), lambda i: f), self)

    def lstrip(self, chars=b" \t\n\r\x0b\x0c"):
        cs = _coerce(chars)._concrete()
        s = self._seq()
        i = 0
        while i < _len(s) and branch(ir.bor_list([ir.eq(s[i], c) for c in cs])):
            i += 1
        return _raw(SymBytes, s[i:])

    def rstrip(self, chars=b" \t\n\r\x0b\x0c"):
        cs = _coerce(chars)._concrete()
        s = self._seq()
        i = _len(s)
        while i > 0 and branch(ir.bor_list([ir.eq(s[i - 1], c) for c in cs])):
            i -= 1
        return _raw(SymBytes, s[:i])

    def strip(self, chars=b" \t\n\r\x0b\x0c"):
        return self.lstrip(chars).rstrip(chars)

    def removeprefix(self, p):
        if self.startswith(p):
            return self._cut(_coerce(p)._len, self._len)
        return self

    def count(self, sub, *a):
        if a:
            raise Unsupported("bytes.count with bounds")
        if _isinstance(sub, (SymBytes, SByteArray)):
            s = _coerce(sub)._seq()
            if _len(s) != 1:
                return self._concrete().count(_coerce(sub)._concrete())
            c = s[0]
        else:
            c = _byte(sub)
        r = 0
        for x in self._seq():
            r = ir.add(r, ir.b2i(ir.eq(x, c)))
        return mkint(r)

    def find(self, sub, start=0):
        s = self._seq()
        sub = _coerce(sub) if _isinstance(sub, (SymBytes, SByteArray)) else _raw(SymBytes, (_byte(sub),))
        n = _len(sub._seq())
        for i in range(start, _len(s) - n + 1):
            if branch(_eq(_raw(SymBytes, s[i:i + n]), sub)):
                return i
        return -1

    def index(self, sub, start=0):
        r = self.find(sub, start)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def join(self, parts):
        out = _raw(SymBytes, b"")
        first = True
        for p in parts:
            c = _coerce(p)
            if c is None:
                raise TypeError("sequence item: expected a bytes-like object")
            if not first and self._len != 0:
                out = _concat(out, self)
            out = _concat(out, c)
            first = False
        return out

    def hex(self, *a):
        if self._is_concrete():
            return self._items.hex(*a)
        if self._items is None:
            return "<?hex>"
        return SymStr.of(self)

    @classmethod
    def fromhex(cls, s):
        if type(s) in (SymStr, HexInt):
            return cls(mkbytes(s._bytes()))
        return cls(_bytes.fromhex(s))

    def decode(self, *a):
        return self._concrete().decode(*a)

    def split(self, *a):
        return [mkbytes(x) for x in self._concrete().split(*[_coerce(y)._concrete() for y in a])]

    def tobytes(self):
        return self

    def __repr__(self):
        if self._is_concrete():
            return repr(self._items)
        return "<?bytes>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling symbolic bytes")


collections.abc.Sequence.register(SymBytes)


_HEXDIGITS = "0123456789abcdefABCDEF"
_str = str


class SymStr(str):
    """text of known length: every character is a concrete one or a hexadecimal
    digit of symbolic value (`up`: rendered in upper case)"""

    def __new__(cls, cs, up=False):
        if all(type(c) is _str for c in cs):
            return "".join(cs)
        s = str.__new__(cls, "<?text>")
        s.cs = tuple(cs)
        s.up = up
        return s

    @staticmethod
    def of(b, up=False):
        out = []
        for x in b._seq():
            for n in (ir.shr(x, 4), ir.mod(x, 16)):
                out.append("0123456789abcdef"[n] if type(n) is _int else n)
        return SymStr(out, up)

    def _cut(self, cs):
        return SymStr(cs, self.up)

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return True

    def __iter__(self):
        return iter([SymStr((c,), self.up) for c in self.cs])

    def __getitem__(self, i):
        if isinstance(i, slice):
            f = lambda v: v if v is None else concretise(_ixterm(v))  # noqa: E731
            return self._cut(self.cs[slice(f(i.start), f(i.stop), f(i.step))])
        return self._cut((self.cs[concretise(_ixterm(i))],))

    def _eqs(self, cs, other_up):
        if len(cs) != len(self.cs):
            return False
        out = []
        for a, b in zip(self.cs, cs):
            if type(a) is _str and type(b) is _str:
                if a != b:
                    return False
                continue
            if type(a) is not _str and type(b) is not _str:
                e = ir.eq(a, b)
                if self.up != other_up:
                    e = ir.band_list([e, ir.lt(a, 10)])
            else:
                ch, t, up = (a, b, other_up) if type(a) is _str else (b, a, self.up)
                if ch not in _HEXDIGITS or (ch.isalpha() and ch.isupper() != up):
                    return False
                e = ir.eq(t, int(ch, 16))
            out.append(e)
        return ir.band_list(out)

    def __eq__(self, o):
        if type(o) is SymStr:
            return mkbool(self._eqs(o.cs, o.up))
        if isinstance(o, _str):
            if type(o) is HexInt:
                raise Unsupported("comparing text of unknown length")
            return mkbool(self._eqs(o, False))
        return False

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __hash__(self):
        raise Unsupported("hash of symbolic text")

    def __contains__(self, x):
        if type(x) is _str and x and not any(c in _HEXDIGITS for c in x):
            return x in "".join(c if type(c) is _str else "0" for c in self.cs)
        raise Unsupported("searching symbolic text")

    def startswith(self, p, *a):
        if a or isinstance(p, tuple):
            raise Unsupported("startswith")
        if len(p) > len(self.cs):
            return False
        return self[:len(p)] == p

    def endswith(self, p):
        if len(p) > len(self.cs):
            return False
        return len(p) == 0 or self[-len(p):] == p

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:-len(p)] if p and self.endswith(p) else self

    def rjust(self, n, fill=" "):
        n = concretise(_ixterm(n))
        return self._cut((fill,) * max(0, n - len(self.cs)) + self.cs)

    def ljust(self, n, fill=" "):
        n = concretise(_ixterm(n))
        return self._cut(self.cs + (fill,) * max(0, n - len(self.cs)))

    def zfill(self, n):
        if self.cs and self.cs[0] in ("+", "-"):
            raise Unsupported("zfill")
        return self.rjust(n, "0")

    def _strip(self, chars, left, right):
        chars = " \t\n\r\x0b\x0c" if chars is None else chars
        cs = list(self.cs)

        def drop(c):
            return c in chars if type(c) is _str else any(branch(ir.eq(c, int(h, 16))) for h in chars if h in _HEXDIGITS and (
                h.isdigit() or h.isupper() == self.up))
        while left and cs and drop(cs[0]):
            cs.pop(0)
        while right and cs and drop(cs[-1]):
            cs.pop()
        return self._cut(cs)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lower(self):
        return SymStr([c.lower() if type(c) is _str else c for c in self.cs], False)

    casefold = lower

    def upper(self):
        return SymStr([c.upper() if type(c) is _str else c for c in self.cs], True)

    def __add__(self, o):
        if type(o) is SymStr:
            if o.up != self.up:
                raise Unsupported("text of mixed case")
            return self._cut(self.cs + o.cs)
        if type(o) is not _str:
            return NotImplemented
        return self._cut(self.cs + tuple(o))

    def __radd__(self, o):
        if type(o) is not _str:
            return NotImplemented
        return self._cut(tuple(o) + self.cs)

    def encode(self, *a):
        return mkbytes([ord(c) if type(c) is _str else ir.ite(ir.lt(c, 10), ir.add(c, 48), ir.add(c, 55 if self.up else 87)) for c in self.cs])

    def _nibble(self, c):
        if type(c) is not _str:
            return c
        if c not in _HEXDIGITS:
            raise ValueError("invalid hexadecimal digit")
        return int(c, 16)

    def _int(self, base):
        cs = list(self.cs)
        if any(type(c) is _str and (c in "_+-" or c.isspace()) for c in cs):
            raise Unsupported("number format")
        if base == 16 and len(cs) > 1 and cs[0] == "0" and cs[1] in ("x", "X"):
            cs = cs[2:]
        ns = [self._nibble(c) for c in cs]
        if not ns:
            raise ValueError("invalid literal for int()")
        if base == 10:
            for n in ns:
                if not branch(ir.lt(n, 10)):
                    raise ValueError("invalid literal for int() with base 10")
            v = 0
            for n in ns:
                v = ir.add(ir.scale(v, 10), n)
            return mkint(v)
        if base != 16:
            raise Unsupported("number base")
        v = 0
        for n in ns:
            v = ir.add(ir.scale(v, 16), n)
        return mkint(v)

    def _bytes(self):
        if any(type(c) is _str and c.isspace() for c in self.cs):
            raise Unsupported("spaces in hexadecimal text")
        ns = [self._nibble(c) for c in self.cs]
        if len(ns) % 2:
            raise ValueError("non-hexadecimal number found in fromhex()")
        return [ir.add(ir.scale(ns[i], 16), ns[i + 1]) for i in range(0, len(ns), 2)]

    def __str__(self):
        return self

    def __repr__(self):
        return "<?text>"

    def __format__(self, spec):
        return "<?text>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class HexInt(str):
    """hex(x) of a symbolic integer"""

    def __new__(cls, t, prefix=True):
        s = str.__new__(cls, "<?hex>")
        s.t = t
        s.prefix = prefix
        return s

    def __eq__(self, o):
        if type(o) is HexInt:
            return mkbool(ir.eq(self.t, o.t)) if self.prefix == o.prefix else False
        if type(o) is _str:
            try:
                v = int(o, 16)
            except ValueError:
                return False
            return mkbool(ir.eq(self.t, v)) if (hex(v) if self.prefix else hex(v)[2:]) == o else False
        if type(o) is SymStr:
            raise Unsupported("comparing text of unknown length")
        return False

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __hash__(self):
        raise Unsupported("hash of symbolic text")

    def __bool__(self):
        return True

    def startswith(self, p, *a):
        if p == "0x" and not a:
            return self.prefix
        return self._digits().startswith(p, *a)

    def removeprefix(self, p):
        if p == "0x":
            return HexInt(self.t, False) if self.prefix else self
        return self._digits().removeprefix(p)

    def __getitem__(self, i):
        if self.prefix and isinstance(i, slice) and i.step is None:
            if i.start == 2 and i.stop is None:
                return HexInt(self.t, False)
            if i.start in (None, 0) and i.stop == 2:
                return "0x"
        return self._digits()[i]

    def _digits(self):
        """the same text with its length decided (one path per number of digits)"""
        n = 1
        while not branch(ir.lt(self.t, 1 << 4 * n)):
            n += 1
            if n > 64:
                raise Unsupported("text of unknown length")
        cs = tuple(ir.mod(ir.shr(self.t, 4 * k), 16) for k in range(n - 1, -1, -1))
        cs = tuple("0123456789abcdef"[c] if type(c) is _int else c for c in cs)
        return SymStr((("0", "x") if self.prefix else ()) + cs)

    def __len__(self):
        return len(self._digits())

    def __iter__(self):
        return iter(self._digits())

    def __add__(self, o):
        return self._digits() + o

    def __radd__(self, o):
        if o == "0x" and not self.prefix:
            return HexInt(self.t, True)
        return o + self._digits()

    def _int(self, base):
        if base != 16 and not (base == 0 and self.prefix):
            raise Unsupported("number base")
        return mkint(self.t)

    def _bytes(self):
        d = self._digits()
        return list(builtins.bytes.fromhex(d)) if type(d) is _str else d._bytes()

    def __repr__(self):
        return "<?hex>"

    def __format__(self, spec):
        return "<?hex>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _no(name):
    def f(self, *a, **k):
        raise Unsupported("symbolic text: " + name)
    return f


def _via_digits(name):
    def f(self, *a, **k):
        return getattr(self._digits(), name)(*a, **k)
    return f


for _n in ("zfill", "rjust", "ljust", "lstrip", "rstrip", "strip", "lower", "upper", "endswith", "removesuffix", "encode"):
    setattr(HexInt, _n, _via_digits(_n))


for _c in (SymStr, HexInt):
    for _n in dir(str):
        if _n in _c.__dict__ or _n in ("__class__", "__new__", "__init__", "__getattribute__", "__setattr__", "__delattr__", "__doc__", "__dir__",
                                      "__subclasshook__", "__init_subclass__", "__reduce__", "__reduce_ex__", "__getstate__", "__str__",
                                      "__getnewargs__", "__sizeof__"):
            continue
        setattr(_c, _n, _no(_n))


def mkbytes(items):
    return _raw(SymBytes, items)


def mkbuf(length, at):
    return _raw(SymBytes, None, length, at)


def _byte(x):
    t = term(x)
    if t is None:
        if not hasattr(x, "__index__"):
            raise TypeError("an integer is required")
        t = _ixterm(x)
    lo, hi = ir._lo(t), ir._hi(t)
    if lo is None or lo < 0 or hi is None or hi > 255:
        if branch(ir.bor_list([ir.lt(t, 0), ir.lt(255, t)])):
            raise ValueError("bytes must be in range(0, 256)")
    return t


def _idx(x):
    t = term(x)
    if t is None:
        t = _ixterm(x)
    return t


def _bounds(n, x, default):
    if x is None:
        return default
    t = _idx(x)
    if type(t) is _int and t < 0:
        t = ir.add(n, t)
        if branch(ir.lt(t, 0)):
            return 0
    elif type(t) is not _int and (t.lo is None or t.lo < 0):
        if branch(ir.lt(t, 0)):
            t = ir.add(n, t)
            if branch(ir.lt(t, 0)):
                return 0
    if branch(ir.lt(n, t)):
        return n
    return t


def _coerce(o):
    """SymBytes view of a bytes-like value, or None"""
    if _isinstance(o, SymBytes):
        return o if type(o) is not _bytes else mkbytes(o)
    if type(o) is SByteArray or _isinstance(o, SByteArray) and not _isinstance(o, _bytearray):
        return o._b
    if _isinstance(o, (_bytearray, memoryview)):
        return mkbytes(_bytes(o))
    return None


def _concat(a, b):
    if a._items is not None and b._items is not None:
        x, y = a._items, b._items
        if type(x) is type(y):
            return _raw(SymBytes, x + y)
        return _raw(SymBytes, tuple(x) + tuple(y))
    if type(b._len) is _int and b._len == 0:
        return SymBytes(a)
    if type(a._len) is _int and a._len == 0:
        return SymBytes(b)
    n = a._len
    ga, gb = a._get, b._get

    def at(i):
        c = ir.lt(i, n)
        k = known(c)
        if k is True:
            return ga(i)
        if k is False:
            return gb(ir.sub(i, n))
        return ir.ite(c, ga(i), gb(ir.sub(i, n)))
    return _raw(SymBytes, None, ir.add(n, b._len), at)


def _eq(a, b):
    """IR boolean: a == b"""
    if a is b:
        return True
    la, lb = a._len, b._len
    if type(la) is _int and type(lb) is _int:
        if la != lb:
            return False
        return ir.eq(a._as_int(), b._as_int()) if la else True
    if not branch(ir.eq(la, lb)):
        return False
    if type(la) is _int or type(lb) is _int:
        n = la if type(la) is _int else lb
        if n <= MATERIALISE:
            if n == 0:
                return True
            x = a if type(la) is _int else _raw(SymBytes, None, n, a._at)
            y = b if type(lb) is _int else _raw(SymBytes, None, n, b._at)
            return ir.eq(x._as_int(), y._as_int())
    return CUR.path.buffers_equal(a, b)


class SByteArray:
    """mutable byte sequence"""

    def __init__(self, src=b"", *a, **k):
        if _isinstance(src, SByteArray) and not _isinstance(src, _bytearray):
            self._b = src._b
        else:
            b = SymBytes(src, *a, **k)
            self._b = b if type(b) is SymBytes else SymBytes(b)
            if type(self._b) is not SymBytes:
                self._b = mkbytes(src)

    @property
    def _len(self):
        return self._b._len

    def __len__(self):
        return concretise(self._b._len)

    def __bool__(self):
        return bool(self._b)

    def __iter__(self):
        return iter(self._b)

    def __getitem__(self, i):
        r = self._b[i]
        if type(i) is slice:
            return SByteArray(r)
        return r

    def __setitem__(self, i, v):
        b = self._b
        if type(i) is slice:
            if i.step is not None and i.step != 1:
                raise Unsupported("extended slice assignment")
            v = _coerce(v)
            if v is None:
                raise TypeError("can assign only bytes-like values")
            n = b._len
            ta, tb = _bounds(n, i.start, 0), _bounds(n, i.stop, n)
            if branch(ir.lt(tb, ta)):
                tb = ta
            # in-place overwrite of equal size keeps a flat index function
            if b._items is not None and v._items is not None and type(ta) is _int and type(tb) is _int:
                self._b = _concat(_concat(b._cut(0, ta), v), b._cut(tb, n))
            else:
                self._b = _splice(b, ta, tb, v, n)
            return
        t = _idx(i)
        v = _byte(v)
        n = b._len
        if type(t) is _int and t < 0:
            t = ir.add(n, t)
        if branch(ir.bor_list([ir.le(n, t), ir.lt(t, 0)])):
            raise IndexError("bytearray index out of range")
        if b._items is not None and type(t) is _int:
            s = tuple(b._items)
            self._b = mkbytes(s[:t] + (v,) + s[t + 1:])
        else:
            at = b._get
            self._b = mkbuf(n, lambda j: ir.ite(ir.eq(j, t), v, at(j)))

    def __delitem__(self, i):
        if type(i) is slice:
            n = self._b._len
            ta, tb = _bounds(n, i.start, 0), _bounds(n, i.stop, n)
            if branch(ir.lt(tb, ta)):
                tb = ta
            self._b = _concat(self._b._cut(0, ta), self._b._cut(tb, n))
            return
        t = concretise(_idx(i))
        s = list(self._b._seq())
        del s[t]
        self._b = mkbytes(s)

    def __iadd__(self, o):
        c = _coerce(o)
        if c is None:
            c = SymBytes(o)
        self._b = _concat(self._b, c)
        return self

    def extend(self, o):
        c = _coerce(o)
        if c is None:
            c = SymBytes(list(o))
        self._b = _concat(self._b, c)

    def append(self, x):
        self._b = _concat(self._b, mkbytes((_byte(x),)))

    def pop(self, i=-1):
        s = list(self._b._seq())
        x = s.pop(i)
        self._b = mkbytes(s)
        return mkint(x)

    def insert(self, i, x):
        s = list(self._b._seq())
        s.insert(i, _byte(x))
        self._b = mkbytes(s)

    def reverse(self):
        self._b = mkbytes(tuple(reversed(self._b._seq())))

    def clear(self):
        self._b = mkbytes(b"")

    def copy(self):
        r = SByteArray()
        r._b = self._b
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __add__(self, o):
        r = self.copy()
        c = _coerce(o)
        if c is None:
            return NotImplemented
        r._b = _concat(r._b, c)
        return r

    def __radd__(self, o):
        c = _coerce(o)
        if c is None:
            return NotImplemented
        return _concat(c, self._b)

    def __mul__(self, k):
        r = SByteArray()
        r._b = self._b * k
        return r

    __rmul__ = __mul__

    def __imul__(self, k):
        self._b = self._b * k
        return self

    def __eq__(self, o):
        return self._b.__eq__(o)

    def __ne__(self, o):
        return self._b.__ne__(o)

    def __lt__(self, o):
        return self._b.__lt__(o)

    def __contains__(self, x):
        return x in self._b

    __hash__ = None

    def __bytes__(self):
        return self._b._concrete()

    def __getattr__(self, name):
        if name.startswith("__") or name == "_b":
            raise AttributeError(name)
        return getattr(self._b, name)

    @staticmethod
    def fromhex(s):
        return SByteArray(SymBytes.fromhex(s))

    def __repr__(self):
        return "bytearray(" + repr(self._b) + ")"

    def __format__(self, spec):
        return repr(self)


collections.abc.MutableSequence.register(SByteArray)


class _BAMeta(type):
    def __instancecheck__(cls, o):
        if cls is ByteArrayShim:
            return _isinstance(o, (SByteArray, _bytearray))
        return type.__instancecheck__(cls, o)


ByteArrayShim = SByteArray


def _splice(b, ta, tb, v, n):
    """b[:ta] + v + b[tb:]"""
    gb, gv = b._get, v._get
    lv = v._len
    end = ir.add(ta, lv)
    size = ir.add(end, ir.sub(n, tb))
    shift = ir.sub(tb, end)

    def at(i):
        c1 = ir.lt(i, ta)
        c2 = ir.lt(i, end)
        k1 = known(c1)
        if k1 is True:
            return gb(i)
        k2 = known(c2)
        if k1 is False and k2 is True:
            return gv(ir.sub(i, ta))
        if k2 is False:
            return gb(ir.add(i, shift))
        hi = ir.ite(c2, gv(ir.sub(i, ta)), gb(ir.add(i, shift))) if k2 is None else gv(ir.sub(i, ta))
        if k1 is False:
            return hi
        return ir.ite(c1, gb(i), hi)
    return mkbuf(size, at)


# --------------------------------------------------------------------------
# dict and set

_ATOM = (str, type(None), bool, type, float)


def skey(k):
    """syntactic identity of a key: (concrete?, hashable)"""
    tk = type(k)
    if tk is _int:
        return True, k
    if tk is SInt:
        return False, ("i", k.t.tid)
    if tk is SBool:
        return False, ("b", k.t.tid)
    if _isinstance(k, SymBytes):
        if tk is _bytes:
            return True, ("y", k)
        if k._is_concrete():
            return True, ("y", k._items)
        if k._items is not None:
            return False, ("y", tuple([x if type(x) is _int else ("t", x.tid) for x in k._items]))
        return False, ("lb", id(k))
    if tk is SymStr:
        return False, ("hs", k.up, tuple([x if type(x) is _str else ("t", x.tid) for x in k.cs]))
    if _isinstance(k, _ATOM):
        return True, ("a", k)
    num = getattr(k, "_number", None)
    if num is not None:
        c, s = skey(num)
        return c, ("n", tk.__name__, s)
    if tk is tuple:
        c = True
        out = []
        for x in k:
            cx, sx = skey(x)
            c = c and cx
            out.append(sx)
        return c, ("tu",) + tuple(out)
    if _isinstance(k, tuple):
        return True, ("o", k)
    try:
        hash(k)
    except Steer:
        raise
    return True, ("o", k)


class _DictMeta(type):
    def __instancecheck__(cls, o):
        if cls is SDict:
            return type.__instancecheck__(cls, o) or _isinstance(o, _dict)
        return type.__instancecheck__(cls, o)


_MISSING = object()


class SDict(metaclass=_DictMeta):
    """insertion-ordered mapping with symbolic keys.  Invariant: keys are
    pairwise distinct on the current path."""

    def __init__(self, *a, **k):
        self._e = {}          # skey -> [key, value, concrete]
        self._nsym = 0
        if a:
            src = a[0]
            if hasattr(src, "keys"):
                for x in src.keys():
                    self[x] = src[x]
            else:
                for x, y in src:
                    self[x] = y
        for x, y in k.items():
            self[x] = y

    def _find(self, k):
        c, s = skey(k)
        e = self._e.get(s)
        if e is not None:
            return s
        if c and not self._nsym:
            return None
        for s2, e in self._e.items():
            if c and e[2]:
                continue
            if type(e[0]) is not type(k) and not _comparable(e[0], k):
                continue
            if e[0] == k:
                return s2
        return None

    def __getitem__(self, k):
        s = self._find(k)
        if s is None:
            m = getattr(type(self), "__missing__", None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        return self._e[s][1]

    def __setitem__(self, k, v):
        s = self._find(k)
        if s is not None:
            self._e[s][1] = v
            return
        c, s = skey(k)
        self._e[s] = [k, v, c]
        if not c:
            self._nsym += 1

    def __delitem__(self, k):
        s = self._find(k)
        if s is None:
            raise KeyError(k)
        if not self._e[s][2]:
            self._nsym -= 1
        del self._e[s]

    def __contains__(self, k):
        return self._find(k) is not None

    def get(self, k, d=None):
        s = self._find(k)
        return d if s is None else self._e[s][1]

    def setdefault(self, k, d=None):
        s = self._find(k)
        if s is None:
            self[k] = d
            return d
        return self._e[s][1]

    def pop(self, k, *d):
        s = self._find(k)
        if s is None:
            if d:
                return d[0]
            raise KeyError(k)
        e = self._e.pop(s)
        if not e[2]:
            self._nsym -= 1
        return e[1]

    def popitem(self):
        s, e = self._e.popitem()
        if not e[2]:
            self._nsym -= 1
        return e[0], e[1]

    def keys(self):
        return _View(self, 0)

    def values(self):
        return _View(self, 1)

    def items(self):
        return _View(self, 2)

    def __iter__(self):
        return iter([e[0] for e in self._e.values()])

    def __reversed__(self):
        return reversed([e[0] for e in self._e.values()])

    def __len__(self):
        return _len(self._e)

    def __bool__(self):
        return bool(self._e)

    def update(self, *a, **k):
        o = SDict(*a, **k) if not (a and _isinstance(a[0], SDict) and type(a[0]) is not _dict and not k) else a[0]
        for x in o:
            self[x] = o[x]

    def copy(self):
        r = type(self).__new__(type(self))
        r._e = {s: list(e) for s, e in self._e.items()}
        r._nsym = self._nsym
        for a, v in self.__dict__.items():
            if a not in ("_e", "_nsym"):
                r.__dict__[a] = v
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy as _c
        r = type(self).__new__(type(self))
        r._e = {s: [e[0], _c.deepcopy(e[1], memo), e[2]] for s, e in self._e.items()}
        r._nsym = self._nsym
        return r

    def clear(self):
        self._e = {}
        self._nsym = 0

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not _isinstance(o, (SDict, _dict)):
            return NotImplemented
        if _len(self) != _len(o):
            return False
        for e in list(self._e.values()):
            v = o.get(e[0], _MISSING)
            if v is _MISSING or not (v == e[1]):
                return False
        return True

    __hash__ = None

    @classmethod
    def fromkeys(cls, ks, v=None):
        r = cls()
        for k in ks:
            r[k] = v
        return r

    def __class_getitem__(cls, x):
        return cls

    def __repr__(self):
        return "{" + ", ".join(f"{e[0]!r}: {e[1]!r}" for e in self._e.values()) + "}"


collections.abc.MutableMapping.register(SDict)


def _comparable(a, b):
    ba, bb = _isinstance(a, SymBytes), _isinstance(b, SymBytes)
    if ba or bb:
        return ba and bb
    ia = type(a) in (_int, SInt, SBool, bool) or hasattr(a, "_number")
    ib = type(b) in (_int, SInt, SBool, bool) or hasattr(b, "_number")
    return ia and ib


class _View:
    def __init__(self, d, k):
        self.d = d
        self.k = k

    def _list(self):
        if self.k == 0:
            return [e[0] for e in self.d._e.values()]
        if self.k == 1:
            return [e[1] for e in self.d._e.values()]
        return [(e[0], e[1]) for e in self.d._e.values()]

    def __iter__(self):
        return iter(self._list())

    def __len__(self):
        return _len(self.d._e)

    def __contains__(self, x):
        if self.k == 0:
            return x in self.d
        for y in self._list():
            if y == x:
                return True
        return False

    def __reversed__(self):
        return reversed(self._list())

    def _set(self):
        return SSet(self._list())

    def __and__(self, o):
        return self._set() & o

    def __or__(self, o):
        return self._set() | o

    def __sub__(self, o):
        return self._set() - o

    def __eq__(self, o):
        return self._set() == SSet(o)


class _SetMeta(type):
    def __instancecheck__(cls, o):
        if cls is SSet:
            return type.__instancecheck__(cls, o) or _isinstance(o, (_set,))
        return type.__instancecheck__(cls, o)


class SSet(metaclass=_SetMeta):
    def __init__(self, src=()):
        self._d = SDict()
        for x in src:
            self.add(x)

    def add(self, x):
        self._d[x] = None

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        del self._d[x]

    def pop(self):
        return self._d.popitem()[0]

    def clear(self):
        self._d.clear()

    def copy(self):
        r = type(self).__new__(type(self))
        r._d = self._d.copy()
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __contains__(self, x):
        return x in self._d

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return _len(self._d)

    def __bool__(self):
        return bool(self._d)

    def update(self, *srcs):
        for s in srcs:
            for x in s:
                self.add(x)

    def union(self, *srcs):
        r = self.copy()
        r.update(*srcs)
        return r

    def intersection(self, *srcs):
        return SSet([x for x in self if all(x in s for s in srcs)])

    def difference(self, *srcs):
        return SSet([x for x in self if not any(x in s for s in srcs)])

    def symmetric_difference(self, o):
        return (self - o) | (SSet(o) - self)

    def difference_update(self, *srcs):
        for s in srcs:
            for x in s:
                self.discard(x)

    def intersection_update(self, *srcs):
        self._d = self.intersection(*srcs)._d

    def issubset(self, o):
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o)

    def __sub__(self, o):
        return self.difference(o)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __eq__(self, o):
        if not _isinstance(o, (SSet, _set, frozenset)):
            return NotImplemented
        return _len(self) == _len(o) and self.issubset(o)

    __hash__ = None

    def __class_getitem__(cls, x):
        return cls

    def __repr__(self):
        return "{" + ", ".join(repr(x) for x in self) + "}"


collections.abc.MutableSet.register(SSet)


# --------------------------------------------------------------------------
# builtins of the instrumented modules

def slen(x):
    if _isinstance(x, (SymBytes, SByteArray)) and type(x) is not _bytes and type(x) is not _bytearray:
        return mkint(x._len)
    return _len(x)


def srange(*a):
    ts = [term(x) if term(x) is not None else _ixterm(x) for x in a]
    if all(type(t) is _int for t in ts):
        return range(*ts)
    start, stop, step = 0, ts[0], 1
    if _len(ts) > 1:
        start, stop = ts[0], ts[1]
    if _len(ts) > 2:
        step = concretise(ts[2])
    return _SRange(start, stop, step)


class _SRange:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def __iter__(self):
        i = self.a
        while branch(ir.lt(i, self.b) if self.s > 0 else ir.lt(self.b, i)):
            yield mkint(i)
            i = ir.add(i, self.s)
            CUR.path.tick()

    def __len__(self):
        return _len(self._range())

    def _range(self):
        return range(concretise(self.a), concretise(self.b), self.s)

    def __reversed__(self):
        return reversed(self._range())

    def __getitem__(self, i):
        return self._range()[i]

    def __contains__(self, x):
        t = term(x)
        if self.s != 1:
            return x in self._range()
        return bool(mkbool(ir.band_list([ir.le(self.a, t), ir.lt(t, self.b)])))


def spow_builtin(b, e, m=None):
    if term(b) is not None and term(e) is not None and (m is None or term(m) is not None):
        if all(type(x) is _int for x in (b, e)) and (m is None or type(m) is _int):
            return pow(b, e, m) if m is not None else pow(b, e)
        return spow(b, e, m)
    return pow(b, e, m) if m is not None else pow(b, e)


def smemoryview(x):
    c = _coerce(x)
    return c if c is not None else memoryview(x)


def dunder(obj, name, args, kwargs):
    if type(obj) in (_int, bool) and any(type(a) in (SInt, SBool) for a in args):
        r = getattr(SInt(obj), name)(*args, **kwargs)
        return r
    return getattr(obj, name)(*args, **kwargs)


def B(x):
    return mkbytes(x)


def mkdict(pairs):
    """dict display; pairs: (key, value) or (None, mapping) for ** (flag)"""
    d = SDict()
    for flag, k, v in pairs:
        if flag:
            d.update(v)
        else:
            d[k] = v
    return d


def shex(x):
    t = term(getattr(x, "_number", x))
    if t is not None and type(t) is not _int:
        if (ir._lo(t) is None or ir._lo(t) < 0) and not branch(ir.le(0, t)):
            return "<?hex>"
        return HexInt(t)
    return hex(x if t is None else t)


def sstr(*a):
    if a and type(a[0]) in (SInt, SBool):
        return "<?>"
    return str(*a)
