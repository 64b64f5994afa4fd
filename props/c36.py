"""C36: addresses and utility encodings."""

ENCODED = ["utils.address: to_address_masked, compute_contract_address, compute_create2_contract_address", "rlp encoding of (address, nonce) (ethereum_rlp)",
           "ethereum.utils.numeric: get_sign, ceil32, le_bytes_to_uint32_sequence, le_uint32_sequence_to_bytes, le_uint32_sequence_to_uint",
           "ethereum.utils.byte: left_pad_zero_bytes, right_pad_zero_bytes"]
BOUNDS = ("every sender, salt and 256-bit word; nonces below 2^64; init code of 0 to 2^32 bytes; integers between -2^300 and 2^300; padding: byte strings of 0, 1, 5, 31, 32, 33 "
          "and 40 bytes (thorough 0 to 64) to every length of 0 to 70 and byte strings of symbolic length up to 2^32 to 32; little-endian words: 0 to 4, 16 and 32 of them")
ASSUMPTIONS = ["keccak256 is an opaque function on symbolic input; hexadecimal text is C40's"]


def jobs(tier):
    from oracle.forks import FORKS, ge
    q = tier == "quick"
    z = {"fork": "frontier"}
    out = []
    for f in FORKS:
        out.append({"harness": "h_masked", "params": {"fork": f}})
        out.append({"harness": "h_create", "params": {"fork": f}})
        if ge(f, "constantinople"):
            out.append({"harness": "h_create2", "params": {"fork": f}})
    out.append({"harness": "h_numeric", "params": dict(z)})
    for n in (0, 1, 5, 31, 32, 33, 40) if q else range(65):
        out.append({"harness": "h_pad", "params": dict(z, size=n)})
    out.append({"harness": "h_pad_any", "params": dict(z)})
    for n in (0, 1, 2, 3, 4, 16, 32):
        out.append({"harness": "h_words", "params": dict(z, n=n)})
    return out


def h_masked(cx, fork):
    m = cx.load("ethereum.%s.utils.address" % fork)
    n = cx.load("ethereum_types.numeric")
    x = cx.u256("x")
    want = (int(x) % 2**160).to_bytes(20, "big")
    cx.check_eq("of a word", m.to_address_masked(x), want)
    cx.check_eq("of an integer", m.to_address_masked(n.Uint(int(x))), want)
    cx.check("an address", len(m.to_address_masked(x)) == 20)
    cx.observe("address", m.to_address_masked(x))


def h_create(cx, fork):
    from oracle import rlp
    m = cx.load("ethereum.%s.utils.address" % fork)
    a, n = cx.address("sender"), cx.uint("nonce", 2**64 - 1)
    got = m.compute_contract_address(a, n)
    want = cx.keccak(rlp.seq([rlp.string(a), rlp.uint(int(n))]))[12:]
    cx.check_eq("created address", got, want)
    cx.observe("address", got)


def h_create2(cx, fork):
    m = cx.load("ethereum.%s.utils.address" % fork)
    a, salt, code = cx.address("sender"), cx.bytes32("salt"), cx.buf("code", 2**32)
    got = m.compute_create2_contract_address(a, salt, code)
    want = cx.keccak(cx.B(b"\xff") + a + salt + cx.keccak(code))[12:]
    cx.check_eq("salted address", got, want)


def h_numeric(cx, fork):
    m = cx.load("ethereum.utils.numeric")
    n = cx.load("ethereum_types.numeric")
    x = cx.int("x", -2**300, 2**300)
    s = m.get_sign(x)
    cx.check("sign", s == cx.ite(x < 0, -1, cx.ite(x == 0, 0, 1)))
    cx.observe("sign", s)
    y = cx.int("y", 0, 2**300)
    c = int(m.ceil32(n.Uint(y)))
    cx.check("a multiple of 32", c % 32 == 0)
    cx.check("the closest one", cx.and_(c >= y, c < y + 32))
    cx.observe("ceil32", c)


def h_pad(cx, fork, size):
    m = cx.load("ethereum.utils.byte")
    n = cx.load("ethereum_types.numeric")
    b = cx.bytesn("b", size)
    for to in range(71):
        z = cx.B(bytes(max(0, to - size)))
        t = (to, n.Uint(to), n.U256(to))[to % 3]
        cx.check_eq("padded on the left", m.left_pad_zero_bytes(b, t), z + b)
        cx.check_eq("padded on the right", m.right_pad_zero_bytes(b, t), b + z)
    cx.observe("padded", m.left_pad_zero_bytes(b, 70))


def h_pad_any(cx, fork):
    m = cx.load("ethereum.utils.byte")
    n = cx.load("ethereum_types.numeric")
    b = cx.buf("b", 2**32)
    size = cx.V.slen(b) if cx.symbolic else len(b)
    for side, f in (("left", m.left_pad_zero_bytes), ("right", m.right_pad_zero_bytes)):
        got = f(b, n.Uint(32))
        gs = cx.V.slen(got) if cx.symbolic else len(got)
        cx.check(side + ": length", gs == cx.ite(size < 32, 32, size))
        if size >= 32:
            cx.check_eq(side + ": kept", got, b)
            continue
        i = cx.int("i", 0, 31)
        at = i - (32 - size) if side == "left" else i
        cx.check(side + ": bytes", cx.at0(got, i) == cx.ite(cx.and_(at >= 0, at < size), cx.at0(b, at), 0))


def h_words(cx, fork, n):
    m = cx.load("ethereum.utils.numeric")
    U32 = cx.load("ethereum_types.numeric").U32
    b = cx.bytesn("b", 4 * n) if n else cx.B(b"")
    x = cx.int("x", 0, 2**(32 * n) - 1) if n else 0
    seq = m.le_bytes_to_uint32_sequence(x.to_bytes(4 * n, "little"))
    cx.check("as many words", len(seq) == n)
    for i, w in enumerate(seq):
        cx.check("word", int(w) == x // 2**(32 * i) % 2**32)
    cx.check_eq("bytes and back", m.le_uint32_sequence_to_bytes(m.le_bytes_to_uint32_sequence(b)), b)
    ws = [cx.int("w", 0, 2**32 - 1) for i in range(n)]
    cx.check("number", int(m.le_uint32_sequence_to_uint([U32(w) for w in ws])) == sum(w * 2**(32 * i) for i, w in enumerate(ws)))
