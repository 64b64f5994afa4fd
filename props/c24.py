"""C24: header validity."""

ENCODED = ["fork.validate_header", "fork.check_gas_limit", "fork.calculate_base_fee_per_gas", "fork.calculate_block_difficulty",
           "vm.gas.calculate_excess_blob_gas", "rlp encoding of headers (ethereum_rlp)"]
BOUNDS = ("h_header: chains of 1 to 3 blocks with fixed parents; every number, gas limit, gas used, timestamp, difficulty, base fee, parent hash, "
          "nonce, ommers hash and excess blob gas of the header, extra data of 0, 31, 32, 33 and 300 bytes (DAO: the marker, 13 free bytes, a prefix "
          "and an extension of the marker), parents with and without ommers; h_parent: every value of one parent field at a time "
          "(numbers within one bomb period, base fees below 2^63, gas limits below 2^34, timestamps up to 2^64, difficulties below 2^128, "
          "8 leading and 8 trailing bytes of the bloom; thorough: gas limits below 2^63, timestamps up to 2^256 - 20, all of the bloom)")
ASSUMPTIONS = ["proof of work accepts (C32); in h_header the RLP encoding of a header is replaced by an injective stand-in (the real one: h_parent)"]

MARK = b"dao-hard-fork"


def jobs(tier):
    from oracle.forks import FORKS
    from oracle import headers
    out = []
    for f in FORKS:
        firsts = [headers.number(f)]
        if f == "dao_fork":
            firsts = [headers.START[f] - 2, headers.START[f], headers.START[f] + 7]
        for first in firsts:
            for n in ((1, 3) if tier == "quick" else (1, 2, 3, 5)):
                out.append({"harness": "h_header", "params": {"fork": f, "first": first, "blocks": n}, "weight": 2})
        for field in fields(f):
            out.append({"harness": "h_parent", "params": {"fork": f, "field": field, "wide": tier != "quick"}})
        out.append({"harness": "h_genesis", "params": {"fork": f}})
    return out


def fields(fork):
    from oracle.forks import ge
    out = ["parent_hash", "ommers_hash", "coinbase", "state_root", "transactions_root", "receipt_root", "bloom", "difficulty", "number",
           "gas_limit", "gas_used", "timestamp", "extra_data", "mix", "nonce"]
    if ge(fork, "london"):
        out.append("base_fee_per_gas")
    if ge(fork, "shanghai"):
        out.append("withdrawals_root")
    if ge(fork, "cancun"):
        out += ["blob_gas_used", "excess_blob_gas", "parent_beacon_block_root"]
    if ge(fork, "prague"):
        out.append("requests_hash")
    return out


def marked(fork, num):
    from oracle import headers
    s = headers.START["dao_fork"]
    return fork == "dao_fork" and s <= num < s + 10


def h_header(cx, fork, first, blocks):
    from oracle.kit import Kit
    from oracle.forks import ge
    from oracle import headers, txs
    k = Kit(cx, fork)
    U = k.Uint
    hashes = headers.Hashes(cx)
    work = []
    headers.no_work(cx, k, work)
    pow_ = headers.pow_fork(fork)
    uncles = cx.flag("uncles") if ge(fork, "byzantium") and pow_ else False
    bs = []
    for i in range(blocks):
        om = k.Bytes32(b"\x99" * 32) if uncles else k.Bytes32(headers.EMPTY_OMMERS)
        h = headers.header(cx, k, fork, number=U(first + i), timestamp=k.U256(10**9 + 1000 * i), gas_limit=U(10**7 + 1000 * i),
                           gas_used=U(5 * 10**6 - 10**5 * i), difficulty=U((10**13 + 10**9 * i) if pow_ else 0), base_fee_per_gas=U(10**9 + i * 10**6),
                           ommers_hash=om, excess_blob_gas=k.U64(131072 * (5 + i)), blob_gas_used=k.U64(131072 * 6))
        bs.append(headers.block(cx, k, fork, h))
        hashes.hash(h)
    num = cx.uint("number", 2**64 - 1)
    ts = cx.u256("timestamp")
    size = cx.choice("extra", [0, 31, 32, 33, 300])
    extra = bytes(size)
    if fork == "dao_fork":
        how = cx.choice("mark", ["marker", "free", "prefix", "extension", "other"])
        extra = {"marker": MARK, "prefix": MARK[:-1], "extension": MARK + b"\x00", "other": extra}.get(how)
        if how == "free":
            extra = cx.bytesn("mark", 13)
    limit, used, fee = cx.uint("limit", 2**63 - 1), cx.uint("used", 2**63 - 1), cx.uint("fee", 2**128 - 1)
    diff = cx.uint("difficulty", 2**200)
    nonce = k.by.Bytes8(cx.bytesn("nonce", 8))
    ommers = cx.bytes32("ommers")
    parent_hash = cx.bytes32("parenthash")
    excess = cx.u64("excess")
    h = headers.header(cx, k, fork, number=num, timestamp=ts, extra_data=extra, gas_limit=limit, gas_used=used, base_fee_per_gas=fee,
                       difficulty=diff, nonce=nonce, ommers_hash=ommers, parent_hash=parent_hash, excess_blob_gas=excess)
    ch = headers.chain(k, bs)
    out = k.run(k.m("fork").validate_header, ch, h)
    cx.observe("outcome", out == "ok")

    def no():
        cx.check("rejected", txs.rejected(cx, out, k.exc), out)
    # the parent
    parent = None
    for b in (bs if pow_ else bs[-1:]):
        if int(num) - 1 == int(b.header.number):
            parent = b.header
    if parent is None:
        return no()
    pn = int(parent.number)
    p = {x: int(getattr(parent, x)) for x in ("timestamp", "gas_limit", "gas_used", "difficulty")}
    ok = [int(used) <= int(limit), int(ts) > p["timestamp"], headers.gas_limit_ok(cx, int(limit), p["gas_limit"]), len(extra) <= 32,
          cx.eq(parent_hash, hashes.hash(parent))]
    if ge(fork, "london"):
        ok.append(int(fee) == headers.base_fee(cx, p["gas_limit"], p["gas_used"], int(parent.base_fee_per_gas)))
    if marked(fork, pn + 1):
        ok.append(cx.eq(extra, MARK))
    if ge(fork, "cancun"):
        from props.c26 import excess as rule
        ok.append(int(excess) == rule(fork, int(parent.excess_blob_gas), int(parent.blob_gas_used), int(parent.base_fee_per_gas)))
    if not pow_:
        ok += [int(diff) == 0, cx.eq(nonce, bytes(8)), cx.eq(ommers, headers.EMPTY_OMMERS)]
    if not cx.and_(*ok):
        return no()
    if pow_ and int(diff) != headers.difficulty(cx, fork, headers.bomb(fork, pn + 1), int(ts), p["timestamp"], p["difficulty"], uncles):
        return no()
    cx.check("accepted", out == "ok", out)
    if pow_:
        cx.check("its work is checked", len(work) == 1 and work[0] is h)


def h_genesis(cx, fork):
    """a block number of zero never extends a chain"""
    from oracle.kit import Kit
    from oracle import headers, txs
    k = Kit(cx, fork)
    headers.Hashes(cx)
    headers.no_work(cx, k)
    p = headers.header(cx, k, fork, number=cx.uint("parent", 2**64 - 1), timestamp=k.U256(5))
    h = headers.header(cx, k, fork, number=k.Uint(0), timestamp=cx.u256("ts"))
    out = k.run(k.m("fork").validate_header, headers.chain(k, [headers.block(cx, k, fork, p)]), h)
    cx.check("rejected", txs.rejected(cx, out, k.exc), out)


def encoding(fork, h):
    from oracle.forks import ge
    from oracle import rlp

    def u(n):
        return rlp.uint(int(getattr(h, n)))

    def b(n):
        return rlp.string(getattr(h, n))
    out = [b("parent_hash"), b("ommers_hash"), b("coinbase"), b("state_root"), b("transactions_root"), b("receipt_root"), b("bloom"),
           u("difficulty"), u("number"), u("gas_limit"), u("gas_used"), u("timestamp"), b("extra_data"),
           b("prev_randao" if ge(fork, "paris") else "mix_digest"), b("nonce")]
    if ge(fork, "london"):
        out.append(u("base_fee_per_gas"))
    if ge(fork, "shanghai"):
        out.append(b("withdrawals_root"))
    if ge(fork, "cancun"):
        out += [u("blob_gas_used"), u("excess_blob_gas"), b("parent_beacon_block_root")]
    if ge(fork, "prague"):
        out.append(b("requests_hash"))
    return rlp.seq(out)


def h_parent(cx, fork, field, wide):
    from oracle.kit import Kit
    from oracle.forks import ge
    from oracle import headers, txs
    k = Kit(cx, fork)
    U = k.Uint
    headers.no_work(cx, k)
    pow_ = headers.pow_fork(fork)
    n0 = headers.number(fork)
    d = dict(number=U(n0), timestamp=k.U256(1000), gas_limit=U(10**7), gas_used=U(5 * 10**6), base_fee_per_gas=U(77),
             difficulty=U(10**13 if pow_ else 0), excess_blob_gas=k.U64(131072), blob_gas_used=k.U64(131072))
    if field == "number":
        d[field] = U(cx.int("n", n0 - 50, n0 + 9000))
    elif field == "difficulty":
        d[field] = cx.uint("n", 2**128 - 1)
    elif field == "timestamp":
        d[field] = cx.u256("n", 0, 2**256 - 20 if wide else 2**64)
    elif field == "gas_limit":
        half = cx.int("n", 5 * 10**6, 2**62 if wide else 2**33)
        d[field], d["gas_used"] = U(2 * half), U(half)
    elif field == "gas_used":
        d[field] = cx.uint("n", 10**7)
    elif field == "base_fee_per_gas":
        d[field] = cx.uint("n", 2**63 - 1)
    elif field == "excess_blob_gas":
        d[field] = cx.u64("n", 0, 2**20)
    elif field == "blob_gas_used":
        d[field] = cx.u64("n", 0, 2**20)
    elif field == "coinbase":
        d[field] = cx.address("c")
    elif field == "bloom":
        d[field] = k.by.Bytes256(cx.bytesn("b", 256) if wide else cx.bytesn("b", 8) + bytes(240) + cx.bytesn("e", 8))
    elif field == "nonce":
        d[field] = k.by.Bytes8(cx.bytesn("b", 8))
    elif field == "extra_data":
        d[field] = cx.bytesn("b", cx.choice("size", [0, 1, 2, 31, 32]))
    elif field == "mix":
        d["prev_randao"] = d["mix_digest"] = cx.bytes32("b")
    elif field == "ommers_hash":
        if pow_:
            d[field] = cx.bytes32("b")
    else:
        d[field] = cx.bytes32("b")
    p = headers.header(cx, k, fork, **d)
    right = cx.keccak(encoding(fork, p))
    kw = dict(number=U(int(p.number) + 1), timestamp=k.U256(int(p.timestamp) + 11), gas_limit=p.gas_limit, parent_hash=right)
    if ge(fork, "london"):
        kw["base_fee_per_gas"] = U(headers.base_fee(cx, int(p.gas_limit), int(p.gas_used), int(p.base_fee_per_gas)))
    if ge(fork, "cancun"):
        from props.c26 import excess as rule
        kw["excess_blob_gas"] = k.U64(rule(fork, int(p.excess_blob_gas), int(p.blob_gas_used), int(p.base_fee_per_gas)))
    if pow_:
        uncles = not cx.eq(p.ommers_hash, headers.EMPTY_OMMERS)
        kw["difficulty"] = U(headers.difficulty(cx, fork, headers.bomb(fork, n0 + 1), 11, 0, int(p.difficulty), uncles))
    run = k.m("fork").validate_header
    ch = headers.chain(k, [headers.block(cx, k, fork, p)])
    out = k.run(run, ch, headers.header(cx, k, fork, **kw))
    cx.check("accepted with the hash of the parent", out == "ok", out)
    kw["parent_hash"] = cx.bytes32("other")
    out = k.run(run, ch, headers.header(cx, k, fork, **kw))
    if not cx.eq(kw["parent_hash"], right):
        cx.check("rejected with another", txs.rejected(cx, out, k.exc), out)
    cx.observe("hash", right)
