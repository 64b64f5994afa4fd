"""C32: ethash and the proof-of-work check."""

ENCODED = ["ethash.epoch/cache_size/dataset_size/generate_seed/generate_cache/fnv/fnv_hash/generate_dataset_item/generate_dataset/hashimoto/"
           "hashimoto_light", "utils.numeric.is_prime/le_* conversions", "fork.validate_proof_of_work/generate_header_hash_for_pow"]
BOUNDS = ("epoch, sizes: every block number below 2^36 with the prime within the first 5 (thorough 12) candidates, primality an opaque predicate; is_prime: "
          "every number below 300 (thorough 3000); seed: every block of the first 4 epochs; cache: 3 rows and 1 round, 2 rows and 2 rounds (thorough 3), every hash value; fnv: "
          "every a below 2^64 and b below 2^32; dataset item: every index below 2^32, 262139 cache rows of any content, all 256 parents; hashimoto: "
          "every header hash, nonce, dataset content and size below 2^39, all 64 accesses; proof of work: every result, difficulty and header "
          "field (integers one at a time below 2^64)")
ASSUMPTIONS = ["keccak512 and keccak256 are opaque functions of their input; the float square root inside is_prime has the exact integral part (true below 2^52)"]


def jobs(tier):
    from oracle.forks import FORKS
    from oracle.headers import pow_fork
    q = tier == "quick"
    z = {"fork": "frontier"}
    out = [{"harness": h, "params": dict(z), "weight": w} for h, w in
           (("h_epoch", 1), ("h_seed", 1), ("h_fnv", 1), ("h_item", 9), ("h_hashimoto", 9), ("h_dataset", 1))]
    for what in ("cache", "dataset"):
        out.append({"harness": "h_size", "params": dict(z, what=what, tries=5 if q else 12)})
    out.append({"harness": "h_prime", "params": dict(z, below=300 if q else 3000), "weight": 5})
    for rows, rounds in [(3, 1), (2, 2), (1, 3)] + ([] if q else [(2, 3), (3, 2), (5, 1)]):
        out.append({"harness": "h_cache", "params": dict(z, rows=rows, rounds=rounds), "weight": 5})
    for f in FORKS:
        if pow_fork(f):
            out.append({"harness": "h_valid", "params": {"fork": f}})
            out.append({"harness": "h_powhash", "params": {"fork": f}, "weight": 2})
    return out


def setup(cx):
    m = cx.load("ethereum.ethash")
    n = cx.load("ethereum_types.numeric")
    return m, n.Uint, n.U32


def hashes(cx, m):
    by = cx.load("ethereum_types.bytes")

    def k512(b):
        return by.Bytes64(cx.opaque("keccak512", 64, b))

    def k256(b):
        return by.Bytes32(cx.opaque("keccak256", 32, b))
    for name, f in (("keccak512", k512), ("keccak256", k256)):
        if hasattr(m, name):
            cx.stub(m, name, f)
    return k512, k256


def word(b, i):
    return b[i] + b[i + 1] * 256 + b[i + 2] * 65536 + b[i + 3] * 16777216


def words(b):
    return [word(b, i) for i in range(0, len(b), 4)]


def unwords(ws):
    out = b""
    for w in ws:
        out = out + w.to_bytes(4, "little")
    return out


def fnv(a, b):
    return (a * 0x01000193 % 2**32) ^ b


def same(cx, label, got, want):
    cx.check(label + ": length", len(got) == len(want))
    cx.check(label, cx.and_(*[cx.eq(int(a), b) for a, b in zip(got, want)]))


def h_epoch(cx, fork):
    m, Uint, U32 = setup(cx)
    n = cx.uint("number", 2**64)
    e = m.epoch(n)
    cx.check("epoch", cx.and_(int(e) * 30000 <= int(n), int(n) < int(e) * 30000 + 30000))
    cx.observe("epoch", e)


def h_size(cx, fork, what, tries):
    m, Uint, U32 = setup(cx)
    asked = []

    def prime(n):
        asked.append(int(n))
        return cx.eq(cx.opaque("prime", 1, int(n))[0] % 2, 1)
    if hasattr(m, "is_prime"):
        cx.stub(m, "is_prime", prime)
    else:
        prime = cx.load("ethereum.utils.numeric").is_prime
    num = cx.uint("number", 2**36)
    e = int(num) // 30000
    base, grow, unit = (2**24, 2**17, 64) if what == "cache" else (2**30, 2**23, 128)
    top = (base + grow * e - unit) // unit
    hit = None
    for i in range(tries):
        if prime(top - 2 * i):
            hit = i
            break
    if hit is None:
        cx.reject()
    out = cx.attempt(m.cache_size if what == "cache" else m.dataset_size, num)
    cx.check("computed", out[0] == "ok", out[1])
    cx.check_eq("the largest prime number of rows below linear growth", int(out[1]), base + grow * e - unit - 2 * hit * unit)
    cx.observe("size", out[1])


def h_prime(cx, fork, below):
    n = cx.int("number", 0, below - 1)
    got = cx.load("ethereum.utils.numeric").is_prime(cx.load("ethereum_types.numeric").Uint(n))
    small = [p for p in range(2, int(below**0.5) + 1) if all(p % d for d in range(2, p))]
    want = cx.and_(n > 1, *[cx.or_(cx.eq(n, p), cx.not_(cx.eq(n % p, 0))) for p in small])
    cx.check("primality", cx.eq(cx.ite(got, 1, 0), cx.ite(want, 1, 0)))


def h_seed(cx, fork):
    m, Uint, U32 = setup(cx)
    num = cx.uint("number", 4 * 30000 - 1)
    want = bytes(32)
    for e in range(4):
        if int(num) < 30000 * (e + 1):
            break
        want = cx.keccak(want)
    out = cx.attempt(m.generate_seed, num)
    cx.check("computed", out[0] == "ok", out[1])
    cx.check_eq("seed", out[1], want)


def h_cache(cx, fork, rows, rounds):
    m, Uint, U32 = setup(cx)
    k512, k256 = hashes(cx, m)
    if rounds != 3 and hasattr(m, "CACHE_ROUNDS"):
        cx.check_eq("rounds", int(m.CACHE_ROUNDS), 3)
        cx.stub(m, "CACHE_ROUNDS", rounds)
    cx.stub(m, "cache_size", lambda n: Uint(64 * rows))
    seed = cx.bytes32("seed")
    cx.stub(m, "generate_seed", lambda n: seed)
    out = cx.attempt(m.generate_cache, Uint(5))
    cx.check("computed", out[0] == "ok", out[1])
    o = [k512(seed)]
    for i in range(1, rows):
        o.append(k512(o[-1]))
    for _ in range(rounds):
        for i in range(rows):
            v = word(o[i], 0) % rows
            j = 0
            while not cx.eq(v, j):
                j += 1
            a, b = o[(i - 1 + rows) % rows], o[j]
            x = b""
            for p in range(64):
                x = x + (a[p] ^ b[p]).to_bytes(1, "big")
            o[i] = k512(x)
    cx.check("rows", len(out[1]) == rows)
    for i in range(rows):
        same(cx, "row", out[1][i], words(o[i]))


def h_fnv(cx, fork):
    m, Uint, U32 = setup(cx)
    b = cx.int("b", 0, 2**32 - 1)
    if cx.flag("wide"):
        a = cx.int("a", 0, 2**64 - 1)
        got = m.fnv(Uint(a), Uint(b) if cx.flag("wideb") else U32(b))
    else:
        a = cx.int("a", 0, 2**32 - 1)
        got = m.fnv(U32(a), U32(b))
    cx.check_eq("fnv", int(got), (a * 0x01000193 % 2**32) ^ b)
    cx.check("32 bits", type(got).__name__ == "U32")
    n = cx.choice("n", [0, 1, 2, 16, 32])
    xs = [cx.int("x%d" % i, 0, 2**32 - 1) for i in range(n)]
    ys = [cx.int("y%d" % i, 0, 2**32 - 1) for i in range(n)]
    same(cx, "fnv_hash", m.fnv_hash(tuple(map(U32, xs)), tuple(map(U32, ys))), [fnv(x, y) for x, y in zip(xs, ys)])
    cx.observe("fnv", got)


class Rows:
    """a cache of n rows of arbitrary words"""

    def __init__(self, cx, U32, n, log):
        self.cx, self.U32, self.n, self.log = cx, U32, n, log

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        i = int(i)
        self.log.append(i)
        return tuple(self.U32(x) for x in row(self.cx, i))


def row(cx, i):
    return [word(cx.opaque("row", 4, i, w), 0) for w in range(16)]


def h_item(cx, fork):
    m, Uint, U32 = setup(cx)
    k512, k256 = hashes(cx, m)
    n = 262139
    index = cx.int("index", 0, 2**32 - 1)
    log = []
    out = cx.attempt(m.generate_dataset_item, Rows(cx, U32, n, log), Uint(index))
    cx.check("computed", out[0] == "ok", out[1])
    r = unwords(row(cx, index % n))
    x = (int.from_bytes(r, "little") ^ index).to_bytes(64, "little")
    mix = words(k512(x))
    for j in range(256):
        p = fnv(index ^ j, mix[j % 16]) % n
        mix = [fnv(a, b) for a, b in zip(mix, row(cx, p))]
    cx.check("rows exist", cx.and_(*[cx.and_(0 <= i, i < n) for i in log]))
    cx.check_eq("item", out[1], k512(unwords(mix)))


def item(cx, i):
    return cx.opaque("item", 64, i)


def mixing(cx, header_hash, nonce, size, k512, k256):
    seed = k512(header_hash + nonce[::-1])
    head = word(seed, 0)
    rows = size // 128
    mix = words(seed) * 2
    for i in range(64):
        p = fnv(head ^ i, mix[i % 32]) % rows
        new = words(item(cx, 2 * p)) + words(item(cx, 2 * p + 1))
        mix = [fnv(a, b) for a, b in zip(mix, new)]
    small = [fnv(fnv(fnv(mix[i], mix[i + 1]), mix[i + 2]), mix[i + 3]) for i in range(0, 32, 4)]
    digest = unwords(small)
    return digest, k256(seed + digest)


def h_hashimoto(cx, fork):
    m, Uint, U32 = setup(cx)
    by = cx.load("ethereum_types.bytes")
    k512, k256 = hashes(cx, m)
    hh, nonce = cx.bytes32("header"), by.Bytes8(cx.bytesn("nonce", 8))
    size = 128 * cx.int("rows", 1, 2**32 - 1)
    if cx.flag("light"):
        cache = ("the cache",)

        def one(c, i):
            cx.check("the given cache", c is cache)
            return by.Bytes64(item(cx, int(i)))
        cx.stub(m, "generate_dataset_item", one)
        out = cx.attempt(m.hashimoto_light, hh, nonce, cache, Uint(size))
    else:
        out = cx.attempt(m.hashimoto, hh, nonce, Uint(size), lambda i: tuple(U32(w) for w in words(item(cx, int(i)))))
    cx.check("computed", out[0] == "ok", out[1])
    digest, result = mixing(cx, hh, nonce, size, k512, k256)
    cx.check_eq("mix digest", out[1][0], digest)
    cx.check_eq("result", out[1][1], result)


def h_dataset(cx, fork):
    m, Uint, U32 = setup(cx)
    by = cx.load("ethereum_types.bytes")
    num = cx.uint("number", 2**36)
    n = cx.choice("items", [2, 6])
    cache = ("cache",)

    def sized(x):
        cx.check_eq("size of the block's epoch", x, num)
        return Uint(64 * n)

    def cached(x):
        cx.check_eq("cache of the block's epoch", x, num)
        return cache
    cx.stub(m, "dataset_size", sized)
    cx.stub(m, "generate_cache", cached)
    cx.stub(m, "generate_dataset_item", lambda c, i: by.Bytes64(cx.opaque("item", 64, int(i), int(c is cache))))
    out = m.generate_dataset(num)
    cx.check("length", len(out) == n)
    for i in range(n):
        cx.check_eq("item", out[i], cx.opaque("item", 64, i, 1))


def h_valid(cx, fork):
    """acceptance of a header's proof of work"""
    from oracle.kit import Kit
    from oracle import headers
    k = Kit(cx, fork)
    m = k.m("fork")
    num, d = cx.uint("number", 2**36), cx.uint("difficulty", 2**256 - 1, 1)
    hh, digest, result = cx.bytes32("hash"), cx.bytes32("digest"), cx.bytes32("result")
    h = headers.header(cx, k, fork, number=num, difficulty=d, mix_digest=cx.bytes32("claimed"), nonce=k.by.Bytes8(cx.bytesn("nonce", 8)))
    size = k.Uint(cx.int("size", 128, 2**39))
    cache = ("cache",)

    def light(*a, **kw):
        args = list(a) + list(kw.values())
        cx.check("cache", args[2] is cache)
        cx.check_eq("arguments", [args[0], args[1], args[3]], [hh, h.nonce, size])
        return digest, result

    def sized(n):
        cx.check_eq("dataset of the block", n, num)
        return size

    def cached(n):
        cx.check_eq("cache of the block", n, num)
        return cache
    cx.stub(m, "generate_header_hash_for_pow", lambda x: hh)
    cx.stub(m, "generate_cache", cached)
    cx.stub(m, "dataset_size", sized)
    cx.stub(m, "hashimoto_light", light)
    out, exc = cx.attempt(m.validate_proof_of_work, h)
    good = cx.and_(cx.eq(h.mix_digest, digest), int.from_bytes(result, "big") <= 2**256 // int(d))
    if out == "ok":
        cx.check("only good work is accepted", good)
    else:
        cx.check("rejected as an invalid block", type(exc).__name__ == "InvalidBlock", exc)
        cx.check("good work is accepted", cx.not_(good))
    cx.observe("accepted", out)


def h_powhash(cx, fork):
    """the hash the work is done on: every header field but the work itself"""
    from oracle.kit import Kit
    from oracle.forks import ge
    from oracle import headers, rlp
    k = Kit(cx, fork)
    which = cx.choice("field", ["fixed", "difficulty", "number", "gas_limit", "gas_used", "timestamp", "extra_data", "base_fee_per_gas"])
    kw = {}
    if which == "fixed":
        B = cx.bytes32
        kw = dict(parent_hash=B("a"), ommers_hash=B("b"), coinbase=cx.address("c"), state_root=B("d"), transactions_root=B("e"), receipt_root=B("f"),
                  bloom=k.by.Bytes256(cx.bytesn("g", 256)), mix_digest=B("h"), nonce=k.by.Bytes8(cx.bytesn("n", 8)))
    elif which == "extra_data":
        kw = dict(extra_data=cx.bytesn("x", cx.choice("size", [0, 2, 32])))
    elif which == "timestamp":
        kw = dict(timestamp=cx.u256("t", 0, 2**64 - 1))
    elif which != "base_fee_per_gas" or ge(fork, "london"):
        kw = {which: cx.uint("v", 2**64 - 1)}
    h = headers.header(cx, k, fork, **kw)
    out = k.run(k.m("fork").generate_header_hash_for_pow, h)
    cx.check("computed", out == "ok", out)
    items = [rlp.string(x) for x in (h.parent_hash, h.ommers_hash, h.coinbase, h.state_root, h.transactions_root, h.receipt_root, h.bloom)]
    items += [rlp.uint(int(x)) for x in (h.difficulty, h.number, h.gas_limit, h.gas_used, h.timestamp)] + [rlp.string(h.extra_data)]
    if ge(fork, "london"):
        items.append(rlp.uint(int(h.base_fee_per_gas)))
    cx.check_eq("hash", k.ret, cx.keccak(rlp.seq(items)))
