"""C31: the logs bloom."""

ENCODED = ["bloom.logs_bloom", "bloom.add_to_bloom"]
BOUNDS = ("log lists of the listed shapes (0 to 3 logs, 0 to 4 topics, at most 3 entries together per harness, thorough 6), every address and topic, every "
          "value of the hash of each (the hash is an opaque function of the entry), every bit position of the result")
ASSUMPTIONS = ["keccak256 is an opaque function of the entry in h_bits, itself (on concrete data) in h_real"]


def jobs(tier):
    from oracle.forks import FORKS
    out = []
    shapes = [[], [0], [1], [2], [0, 1], [0, 0, 0]] + ([] if tier == "quick" else [[3], [4], [2, 2], [1, 0, 2], [0, 0, 4]])
    for f in FORKS:
        for s in shapes:
            out.append({"harness": "h_bits", "params": {"fork": f, "topics": s}, "weight": 1 + sum(s) + len(s)})
        out.append({"harness": "h_real", "params": {"fork": f}})
    return out


def logs_of(cx, k, topics):
    logs, entries = [], []
    for i, n in enumerate(topics):
        a = cx.address("address%d" % i)
        ts = [cx.bytes32("topic%d_%d" % (i, j)) for j in range(n)]
        logs.append(k.m("blocks").Log(address=k.addr_of(a) if hasattr(k, "addr_of") else k.types.Address(a), topics=tuple(k.m("fork_types").Hash32(t)
                    if hasattr(k.m("fork_types"), "Hash32") else t for t in ts), data=cx.bytesn("data%d" % i, 3)))
        entries += [a] + ts
    return tuple(logs), entries


def h_bits(cx, fork, topics):
    from oracle.kit import Kit
    k = Kit(cx, fork)
    m = k.m("bloom")

    def hashed(b):
        return k.by.Bytes32(cx.opaque("keccak", 32, b))
    if hasattr(m, "keccak256"):
        cx.stub(m, "keccak256", hashed)
    else:
        hashed = cx.keccak
    logs, entries = logs_of(cx, k, topics)
    out = k.run(m.logs_bloom, logs)
    cx.check("computed", out == "ok", out)
    bloom = k.ret
    cx.check("256 bytes", len(bloom) == 256)
    j = cx.choice("low", list(range(8)))
    q = 8 * cx.int("byte", 0, 255) + j
    want = False
    for e in entries:
        h = hashed(e)
        for i in (0, 2, 4):
            want = cx.or_(want, cx.eq((h[i] * 256 + h[i + 1]) % 2048, q))
    got = cx.at0(bloom, 255 - q // 8)
    cx.check("bit set exactly when an entry selects it", cx.eq(got // 2**j % 2, cx.ite(want, 1, 0)))
    cx.observe("byte", got)


def h_real(cx, fork):
    """the hash is keccak256 of the entry"""
    from oracle.kit import Kit
    k = Kit(cx, fork)
    m = k.m("bloom")
    a = [0x1234567890, 2**160 - 1, 7][cx.choice("address", [0, 1, 2])]
    n = cx.choice("topics", [0, 1, 4])
    ts = [(2**248 + i * 7).to_bytes(32, "big") for i in range(n)]
    logs = (k.m("blocks").Log(address=k.addr(a), topics=tuple(k.by.Bytes32(t) for t in ts), data=cx.bytesn("data", 5)),)
    want = 0
    for e in [a.to_bytes(20, "big")] + ts:
        h = cx.keccak(e)
        for i in (0, 2, 4):
            want |= 1 << ((h[i] * 256 + h[i + 1]) % 2048)
    cx.check_eq("bloom", m.logs_bloom(logs), want.to_bytes(256, "big"))
