"""RLP from its definition, for small structures with symbolic leaves (lengths concrete)."""


def length_bytes(n):
    out = []
    while n > 0:
        out.insert(0, n % 256)
        n //= 256
    return bytes(out)


def string(b):
    """b: bytes of concrete length >= 2 or empty, or one concrete byte"""
    n = len(b)
    if n == 1 and b[0] < 0x80:
        return b
    if n < 56:
        return bytes([0x80 + n]) + b
    l = length_bytes(n)
    return bytes([0xB7 + len(l)]) + l + b


def seq(items):
    """items: already encoded"""
    body = b"".join(items)
    n = len(body)
    if n < 56:
        return bytes([0xC0 + n]) + body
    l = length_bytes(n)
    return bytes([0xF7 + len(l)]) + l + body


def uint(x):
    """integer; forks on its byte length"""
    if x == 0:
        return b"\x80"
    n = 1
    while x >= 256 ** n:
        n += 1
    b = x.to_bytes(n, "big")
    return string(b)
