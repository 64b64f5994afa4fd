"""Merkle-Patricia trees from the yellow paper (appendix D), over keys that are tuples of nibbles (possibly symbolic: comparisons fork)."""

from oracle import rlp

EMPTY = bytes.fromhex("56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421")


def nibbles(key):
    out = []
    for b in key:
        out += [b // 16, b % 16]
    return out


def pack(high, low):
    return (high * 16 + low).to_bytes(1, "big")


def hp(ns, leaf):
    """hex prefix"""
    f = 2 if leaf else 0
    ns = list(ns)
    if len(ns) % 2:
        out, rest = pack(f + 1, ns[0]), ns[1:]
    else:
        out, rest = pack(f, 0), ns
    for i in range(0, len(rest), 2):
        out = out + pack(rest[i], rest[i + 1])
    return out


def small_string(b):
    """hex-prefixed keys have a first byte below 0x80"""
    return b if len(b) == 1 else rlp.string(b)


def item(v):
    if len(v) == 1:
        return v if v[0] < 0x80 else b"\x81" + v
    return rlp.string(v)


def node(cx, items, i):
    """encoding of the node of these (nibbles, value) pairs that agree on the first i nibbles"""
    if not items:
        return b"\x80"
    if len(items) == 1:
        return rlp.seq([small_string(hp(items[0][0][i:], True)), item(items[0][1])])
    j = i
    while all(len(k) > j for k, _ in items) and all(k[j] == items[0][0][j] for k, _ in items):
        j += 1
    if j > i:
        return rlp.seq([small_string(hp(items[0][0][i:j], False)), ref(cx, items, j)])
    v = b""
    rest = []
    for k, x in items:
        if len(k) == i:
            v = x
        else:
            rest.append((k, x))
    kids = []
    for d in range(16):
        kids.append(ref(cx, [(k, x) for k, x in rest if k[i] == d], i + 1))
    return rlp.seq(kids + [item(v)])


def ref(cx, items, i):
    e = node(cx, items, i)
    return e if len(e) < 32 else rlp.string(cx.keccak(e))


def root(cx, pairs):
    """pairs: (key bytes, value bytes), keys distinct"""
    return cx.keccak(node(cx, [(nibbles(k), v) for k, v in pairs], 0))
