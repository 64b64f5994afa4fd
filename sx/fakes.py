"""
Stand-ins for the third-party cryptographic libraries inside the instrumented
modules: real results on concrete data, opaque (congruent) values otherwise.
"""

import functools as _functools
import hashlib as _hashlib
import importlib
import types

from . import ir
from . import values as V


def _real_keccak(bits, data):
    from Crypto.Hash import keccak
    k = keccak.new(digest_bits=bits)
    k.update(data)
    return k.digest()


def _real(name, data):
    if name == "keccak256":
        return _real_keccak(256, data)
    if name == "keccak512":
        return _real_keccak(512, data)
    if name == "sha256":
        return _hashlib.sha256(data).digest()
    if name == "ripemd160":
        try:
            return _hashlib.new("ripemd160", data).digest()
        except ValueError:
            from Crypto.Hash import RIPEMD160
            return RIPEMD160.new(data).digest()
    raise KeyError(name)


SIZES = {"keccak256": 32, "keccak512": 64, "sha256": 32, "ripemd160": 20}


@_functools.lru_cache(maxsize=4096)
def _cached(name, data):
    return int.from_bytes(_real(name, data), "big")


def _make_eval(name):
    return lambda *items: _cached(name, bytes(items))


for _n in SIZES:
    ir.EVAL[_n] = _make_eval(_n)


def digest(name, data):
    """digest of a (possibly symbolic) byte sequence as SymBytes"""
    b = V._coerce(data)
    if b is None:
        raise TypeError("object supporting the buffer API required")
    n = SIZES[name]
    if b._is_concrete():
        return V.mkbytes(_real(name, b._items))
    if b._items is None:
        c = V.CUR.path.known_value(b._len)
        if c is not None and c <= V.MATERIALISE:
            b = V._raw(V.SymBytes, None, c, b._at)
            if b._is_concrete():
                return V.mkbytes(_real(name, b._items))
    if b._items is not None:
        t = ir.app(name, b._items, 0, (1 << (8 * n)) - 1)
    else:
        t = None
        for nm, other, var in V.CUR.path.keccaks:
            if nm == name and same_buffer(other, b):
                t = var
                break
        if t is None:
            t = V.CUR.path.fresh(f"{name}!buf", 0, (1 << (8 * n)) - 1)
            V.CUR.path.keccaks.append((name, b, t))
    r = V.mkbytes([ir.ext(t, 8 * i, 8) for i in reversed(range(n))])
    r._n = t
    return r


def same_buffer(a, b):
    """provably equal on this path (no decision is made)"""
    p = V.CUR.path
    if a is b:
        return True
    if p.entails(ir.eq(a._len, b._len))[0] is not True:
        return False
    i = p.fresh("keq", 0, None)
    r, _ = p.entails(ir.bor_list([ir.le(a._len, i), ir.eq(a._get(i), b._get(i))]))
    return r is True


class _Hash:
    def __init__(self, name, data=None):
        self._name = name
        self._data = V.mkbytes(b"")
        self.digest_size = SIZES[name]
        if data is not None:
            self.update(data)

    def update(self, d):
        self._data = self._data + d
        return self

    def digest(self):
        return digest(self._name, self._data)

    def hexdigest(self):
        return self.digest().hex()

    def copy(self):
        return _Hash(self._name, self._data)


def _keccak_new(data=None, digest_bits=None, digest_bytes=None, update_after_digest=False):
    bits = digest_bits if digest_bits is not None else digest_bytes * 8
    bits = V.concretise(V.term(bits))
    return _Hash(f"keccak{bits}", data)


def _mod(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    return m


def _hash_new(name, data=None, **k):
    return _Hash(name, data)


_keccak = _mod("Crypto.Hash.keccak", new=_keccak_new)
_ripemd = _mod("Crypto.Hash.RIPEMD160", new=lambda data=None: _Hash("ripemd160", data))
_sha = _mod("Crypto.Hash.SHA256", new=lambda data=None: _Hash("sha256", data))
_chash = _mod("Crypto.Hash", keccak=_keccak, RIPEMD160=_ripemd, SHA256=_sha)


class _PublicKey:
    @staticmethod
    def from_signature_and_message(sig, msg, hasher=None, **k):
        return V.CUR.path.cx.external("coincurve.recover", sig, msg)


import struct as _struct


def _layout(fmt):
    if isinstance(fmt, V.SymBytes):
        fmt = fmt._concrete()
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    sizes = {"B": 1, "H": 2, "I": 4, "L": 4, "Q": 8}
    order = {"<": "little", ">": "big", "!": "big"}.get(fmt[:1])
    n, todo = "", []
    for c in fmt[1:]:
        if c.isdigit():
            n += c
            continue
        if order is None or c not in sizes:
            raise V.Unsupported("struct format " + fmt)
        todo += [sizes[c]] * (int(n) if n else 1)
        n = ""
    return fmt, order, todo


def _pack(fmt, *args):
    """struct.pack of unsigned integer formats with explicit byte order"""
    args = [getattr(a, "_number", a) for a in args]
    if all(type(a) in (int, float, bool) for a in args):
        return V.mkbytes(_struct.pack(str(fmt), *args))
    fmt, order, todo = _layout(fmt)
    if len(todo) != len(args):
        raise _struct.error("pack expected %d items for packing (got %d)" % (len(todo), len(args)))
    out = V.mkbytes(b"")
    for w, a in zip(todo, args):
        try:
            out = out + V.Int.to_bytes(a, w, order)
        except OverflowError as e:
            raise _struct.error(str(e))
    return out


def _unpack(fmt, data):
    b = V._coerce(data)
    fmt, order, todo = _layout(fmt)
    if len(b) != sum(todo):
        raise _struct.error("unpack requires a buffer of %d bytes" % sum(todo))
    out, i = [], 0
    for w in todo:
        out.append(V.Int.from_bytes(b[i:i + w], order))
        i += w
    return tuple(out)


def _lru(maxsize=None, typed=False):
    if callable(maxsize):
        return maxsize
    return lambda f: f


_ft = _mod("functools", **{k: getattr(_functools, k) for k in dir(_functools) if not k.startswith("__")})
_ft.lru_cache = _lru
_ft.cache = lambda f: f

TABLE = {
    "Crypto": _mod("Crypto", Hash=_chash),
    "Crypto.Hash": _chash,
    "Crypto.Hash.keccak": _keccak,
    "Crypto.Hash.RIPEMD160": _ripemd,
    "Crypto.Hash.SHA256": _sha,
    "hashlib": _mod("hashlib", sha256=lambda d=None, **k: _Hash("sha256", d), new=_hash_new),
    "coincurve": _mod("coincurve", PublicKey=_PublicKey),
    "functools": _ft,
    "struct": _mod("struct", pack=_pack, unpack=_unpack, calcsize=_struct.calcsize, error=_struct.error),
}
MODULES = {"Crypto", "hashlib", "coincurve", "functools", "struct"}


def get(name):
    return TABLE.get(name)
