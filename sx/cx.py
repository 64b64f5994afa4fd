"""
The context handed to a harness.  `SymCx` builds symbolic inputs and turns
checks into solver obligations; `ConcreteCx` rebuilds the same inputs from a
model and runs the same harness on the real, unmodified modules.
"""

import importlib
import dataclasses


class CheckFailed(Exception):
    pass


class ReplayEnd(BaseException):
    pass


class Stub:
    """replace attributes of modules for the duration of a path"""

    def __init__(self):
        self.saved = []

    def set(self, obj, name, value):
        self.saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def undo(self):
        for obj, name, value in reversed(self.saved):
            setattr(obj, name, value)
        self.saved = []


class BaseCx:
    def __init__(self):
        self.stubs = Stub()
        self.ext = {}
        self._loaded = {}

    def load(self, name):
        return importlib.import_module(name)

    def stub(self, obj, name, value):
        self.stubs.set(obj, name, value)

    def num(self):
        return self.load("ethereum_types.numeric")

    def u256(self, name, lo=0, hi=2**256 - 1):
        return self.num().U256(self.int(name, lo, hi))

    def u64(self, name, lo=0, hi=2**64 - 1):
        return self.num().U64(self.int(name, lo, hi))

    def uint(self, name, hi=2**256 - 1, lo=0):
        return self.num().Uint(self.int(name, lo, hi))

    def address(self, name, lo=0, hi=2**160 - 1):
        return self.load("ethereum_types.bytes").Bytes20(self.int(name, lo, hi).to_bytes(20, "big"))

    def bytes32(self, name):
        return self.load("ethereum_types.bytes").Bytes32(self.int(name, 0, 2**256 - 1).to_bytes(32, "big"))

    def bytesn(self, name, n):
        if n == 0:
            return self.B(b"")
        return self.int(name, 0, (1 << (8 * n)) - 1).to_bytes(n, "big")

    def hextext(self, name, digits, prefix="0x", upper=False):
        """hexadecimal text of `digits` free digits; also the number it denotes"""
        if digits == 0:
            return prefix, 0
        v = self.int(name, 0, 16 ** digits - 1)
        return self.text_of(v, digits, prefix, upper), v

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        for k in range(len(options) - 1):
            if i == k:
                return options[k]
        return options[-1]

    def flag(self, name):
        return bool(self.bool(name))

    def attempt(self, fn, *a, **k):
        """('ok', value) or ('exc', exception)"""
        try:
            return "ok", fn(*a, **k)
        except Exception as e:  # noqa: BLE001
            return "exc", e

    def external(self, name, *args):
        f = self.ext.get(name)
        if f is None:
            raise NotImplementedError(name)
        return f(*args)


# --------------------------------------------------------------------------

class SymCx(BaseCx):
    symbolic = True

    def __init__(self, path, ex):
        super().__init__()
        from . import ir, values
        self.ir, self.V = ir, values
        self.p = path
        self.ex = ex
        path.cx = self

    # inputs
    def int(self, name, lo, hi):
        assert lo is None or hi is None or lo <= hi, name
        t = self.p.fresh(name, lo, hi)
        if t.lo == t.hi and t.lo is not None:
            return t.lo
        return self.V.mkint(t)

    def bool(self, name):
        n = self.p.names.get("?" + name, 0)
        self.p.names["?" + name] = n + 1
        return self.V.mkbool(self.ir.bvar(name if n == 0 else f"{name}~{n}"))

    def buf(self, name, maxlen=2**32, minlen=0, unit=1):
        """byte string of symbolic length (a multiple of `unit`)"""
        n = self.p.fresh(name + ".len", minlen // unit, maxlen // unit)
        ir = self.ir
        if type(n) is int:
            raise AssertionError("buffer of fixed length: use bytesn")
        self.p.prefer.append(n)
        arr = n.args[0]
        n = ir.scale(n, unit)
        return self.V.mkbuf(n, lambda i: ir.sel(arr, i))

    def bytes_of(self, n, f):
        """n bytes, byte i being f(i) (f must not fork)"""
        V = self.V
        return V.mkbuf(V.term(getattr(n, "_number", n)), lambda i: V.term(f(V.mkint(i))))

    def prefer_small(self, x):
        t = self.V.term(getattr(x, "_number", x))
        if isinstance(t, self.ir.Term):
            self.p.prefer.append(t)

    def B(self, b):
        return self.V.mkbytes(b)

    def text_of(self, v, digits, prefix="0x", upper=False):
        V, ir = self.V, self.ir
        t = V.term(v)
        ds = [ir.ext(t, 4 * i, 4) for i in reversed(range(digits))]
        return V.SymStr(tuple(prefix) + tuple(("0123456789ABCDEF" if upper else "0123456789abcdef")[d] if type(d) is int else d for d in ds), upper)

    def opaque(self, name, size, *key):
        """an uninterpreted function value of `key` (ints/bytes), `size` bytes"""
        args = []
        for k in key:
            args.extend(self._flat(k))
        t = self.ir.app("opq_" + name, tuple(args), 0, (1 << (8 * size)) - 1)
        r = self.V.mkbytes([self.ir.ext(t, 8 * i, 8) for i in reversed(range(size))])
        r._n = t
        return r

    def _flat(self, k):
        V = self.V
        if isinstance(k, V.SymBytes) or isinstance(k, V.SByteArray):
            b = V._coerce(k)
            s = b._seq()
            return [len(s), b._as_int()]
        t = V.term(getattr(k, "_number", k))
        if t is None:
            raise V.Unsupported("opaque key " + type(k).__name__)
        return [t]

    # logic
    def and_(self, *xs):
        return self.V.sand(*xs)

    def or_(self, *xs):
        return self.V.sor(*xs)

    def not_(self, x):
        return self.V.snot(x)

    def ite(self, c, a, b):
        V = self.V
        return V.mkint(self.ir.ite(V.bterm(c), V.term(a), V.term(b)))

    def at0(self, b, i):
        """byte i of b, zero outside it; no forking"""
        V, ir = self.V, self.ir
        b = V._coerce(b)
        i = V.term(getattr(i, "_number", i))
        ln = V.term(V.slen(b))
        if type(i) is int and type(ln) is int:
            return V.mkint(b._get(i)) if 0 <= i < ln else 0
        c = ir.band_list([ir.le(0, i), ir.lt(i, ln)])
        k = self.p.known(c)
        if k is False:
            return 0
        if b._items is not None:
            if not b._items:
                return 0
            v = b._get(i)
        else:
            v = b._at(i)
        return V.mkint(v if k is True else ir.ite(c, v, 0))

    def assume(self, c):
        self.p.assume(self.V.bterm(c))

    def reject(self):
        from .engine import Infeasible
        raise Infeasible()

    def keccak(self, b):
        from . import fakes
        return self.load("ethereum_types.bytes").Bytes32(fakes.digest("keccak256", b))

    def hash(self, name, b):
        from . import fakes
        return fakes.digest(name, b)

    def observe(self, name, value):
        self.p.observed.append((name, value))

    # equality as one boolean term (no forking on scalars)
    def eq(self, a, b):
        V = self.V
        if a is b:
            return True
        if a is None or b is None:
            return False
        na, nb = getattr(a, "_number", a), getattr(b, "_number", b)
        ta, tb = V.term(na), V.term(nb)
        if ta is not None and tb is not None:
            return V.mkbool(self.ir.eq(ta, tb))
        if ta is not None or tb is not None:
            return False
        ca, cb = V._coerce(a), V._coerce(b)
        if ca is not None and cb is not None:
            return self._bytes_eq(ca, cb)
        if ca is not None or cb is not None:
            return False
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return self.and_(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, (V.SSet, V.SDict)):
            return bool(a == b)
        if dataclasses.is_dataclass(a) and dataclasses.is_dataclass(b):
            if type(a) is not type(b):
                return False
            return self.and_(*[self.eq(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(a)])
        return bool(a == b)

    def _bytes_eq(self, a, b):
        V, ir = self.V, self.ir
        kl = self.p.known_value
        la, lb = a._len, b._len
        if type(la) is int and type(lb) is int:
            return V.mkbool(V._eq(a, b))
        e = ir.eq(la, lb)
        # skolem index: equality for every index is refuted by one index
        i = self.p.fresh("idx", 0, None)
        inr = ir.lt(i, la)
        body = ir.eq(a._get(i), b._get(i))
        return V.mkbool(ir.band_list([e, ir.bor_list([ir.bnot(inr), body])]))

    def check(self, label, cond, detail=None):
        V, ir, ex, p = self.V, self.ir, self.ex, self.p
        t = V.bterm(cond)
        ex.obligations += 1
        st = ex.labels.setdefault(label, [0, 0, 0, 0])   # total, by normal form, by solver, inconclusive
        st[0] += 1
        if t is True or p.known(t) is True:
            ex.trivial += 1
            st[1] += 1
            return
        r, m = p.entails(t) if t is not False else (False, p.model)
        if r is False and m is None:
            s2, m = ex.solver.check(p.constraints, None, rounds=25)
            if s2 == "unsat":
                from .engine import Infeasible
                raise Infeasible()
            if s2 == "unknown":
                r = None
        if r is True:
            ex.proved += 1
            st[2] += 1
            p.learn(t, True)
            return
        if r is None:
            st[3] += 1
            ex.inconclusive.append(f"{label}: {ir.show(t, 4)[:200]}")
            return
        ex.cexs.append({"label": label, "model": m, "path": p, "neg": None if t is False else ir.bnot(t),
                        "detail": str(detail)[:300] if detail else ir.show(t, 5)[:4000]})
        from .engine import Violation
        raise Violation()

    def check_eq(self, label, a, b):
        self.check(label, self.eq(a, b))

    def check_eq_each(self, label, a, b):
        self.check_eq(label, a, b)

    def done(self):
        pass


# --------------------------------------------------------------------------

class ConcreteCx(BaseCx):
    symbolic = False

    def __init__(self, asg):
        super().__init__()
        self.asg = asg
        self.names = {}
        self.failed = []
        self.observed = []

    def _fresh(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f"{name}~{n}"

    def int(self, name, lo, hi):
        n = self._fresh(name)
        v = self.asg.ints.get(n)
        if v is None or (lo is not None and v < lo) or (hi is not None and v > hi):
            v = 0
            if lo is not None and v < lo:
                v = lo
            if hi is not None and v > hi:
                v = hi
        return v

    def bool(self, name):
        n = self.names.get("?" + name, 0)
        self.names["?" + name] = n + 1
        return bool(self.asg.bools.get(name if n == 0 else f"{name}~{n}", False))

    def buf(self, name, maxlen=2**32, minlen=0, unit=1):
        n = self._fresh(name + ".len")
        ln = self.asg.ints.get(n, minlen // unit)
        if not minlen // unit <= ln <= maxlen // unit:
            ln = minlen // unit
        ln *= unit
        if ln > 1 << 26:
            raise ReplayEnd("buffer of %d bytes" % ln)
        d = self.asg.arrays.get(n, {})
        b = bytearray(ln)
        for i, v in d.items():
            if 0 <= i < ln:
                b[i] = v
        return bytes(b)

    def bytes_of(self, n, f):
        n = int(n)
        if n > 1 << 26:
            raise ReplayEnd("buffer of %d bytes" % n)
        return bytes(f(i) for i in range(n))

    def at0(self, b, i):
        i = int(i)
        return b[i] if 0 <= i < len(b) else 0

    def prefer_small(self, x):
        pass

    def B(self, b):
        return bytes(b)

    def text_of(self, v, digits, prefix="0x", upper=False):
        return prefix + format(int(v), "0%d%s" % (digits, "X" if upper else "x"))

    def opaque(self, name, size, *key):
        import hashlib
        args = []
        for k in key:
            if isinstance(k, (bytes, bytearray)):
                args += [len(k), int.from_bytes(k, "big")]
            else:
                args.append(int(k))
        v = self.asg.apps.get(("opq_" + name,) + tuple(args))
        if v is None:
            v = 0
        return v.to_bytes(size, "big")

    def and_(self, *xs):
        return all(xs)

    def or_(self, *xs):
        return any(xs)

    def not_(self, x):
        return not x

    def ite(self, c, a, b):
        return a if c else b

    def assume(self, c):
        if not c:
            raise ReplayEnd("assumption does not hold")

    def reject(self):
        raise ReplayEnd("rejected")

    def keccak(self, b):
        from Crypto.Hash import keccak
        k = keccak.new(digest_bits=256)
        k.update(bytes(b))
        return self.load("ethereum_types.bytes").Bytes32(k.digest())

    def hash(self, name, b):
        import hashlib
        if name.startswith("keccak"):
            from Crypto.Hash import keccak
            k = keccak.new(digest_bits=int(name[6:]))
            k.update(bytes(b))
            return k.digest()
        return hashlib.new(name, bytes(b)).digest()

    def observe(self, name, value):
        self.observed.append((name, value))

    def eq(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, (bytes, bytearray)) != isinstance(b, (bytes, bytearray)):
            return False
        if isinstance(a, (bytes, bytearray)):
            return bytes(a) == bytes(b)
        na, nb = getattr(a, "_number", a), getattr(b, "_number", b)
        if isinstance(na, int) != isinstance(nb, int):
            return False
        return na == nb

    def check(self, label, cond, detail=None):
        if not cond:
            self.failed.append(label)
            raise CheckFailed(label)

    def check_eq(self, label, a, b):
        if not self.eq(a, b):
            self.failed.append(label)
            raise CheckFailed(f"{label}: {a!r} != {b!r}"[:600])


def observe_concrete(x):
    if x is None or isinstance(x, (str, float)):
        return x
    if isinstance(x, (bool, int)) and not hasattr(x, "_number"):
        return int(x)
    if isinstance(x, (bytes, bytearray)):
        if len(x) > 4096:
            return f"<{len(x)} bytes>"
        return "0x" + bytes(x).hex()
    if hasattr(x, "_number"):
        return x._number
    if isinstance(x, (list, tuple)):
        return [observe_concrete(y) for y in x]
    if isinstance(x, type):
        return x.__name__
    return f"<{type(x).__name__}>"
