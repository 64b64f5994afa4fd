"""C35: a block joins the chain exactly when its header commits to its execution."""

ENCODED = ["fork.state_transition", "fork.get_last_256_block_hashes", "fork.validate_header (h_tip)", "h_whole: all of block execution"]
BOUNDS = ("h_accept: every value of the header's gas used, roots, bloom, withdrawals root, blob gas used and requests hash and of the executed ones, "
          "chains of 1, 3, 254, 255 and 256 blocks, any parent hashes, any chain id and environment fields, encoded block sizes below 2^32; h_tip: chains of 4 blocks, every block number; "
          "h_whole: one block with a withdrawal or an ommer-free reward, every value of one commitment at a time")
ASSUMPTIONS = ["h_accept: the execution of the body (C17-C22, C27-C31), header and ommer validity (C24, C25) and the root, bloom and requests hash functions are replaced "
               "by opaque values; headers are encoded by an injective stand-in"]

COMMIT = ["gas_used", "transactions_root", "state_root", "receipt_root", "bloom"]


def commitments(fork):
    from oracle.forks import ge
    return (COMMIT + (["withdrawals_root"] if ge(fork, "shanghai") else []) + (["blob_gas_used"] if ge(fork, "cancun") else [])
            + (["requests_hash"] if ge(fork, "prague") else []))


def jobs(tier):
    from oracle.forks import FORKS, ge
    q = tier == "quick"
    out = []
    for f in FORKS:
        for n in (1, 3, 254, 255, 256) if q else (1, 2, 3, 5, 100, 253, 254, 255, 256, 257, 300):
            out.append({"harness": "h_accept", "params": {"fork": f, "blocks": n}})
        for n in (0, 1, 2, 255, 256) if q else (0, 1, 2, 3, 4, 5, 254, 255, 256, 257, 258, 300):
            out.append({"harness": "h_hashes", "params": {"fork": f, "blocks": n}})
        out.append({"harness": "h_invalid", "params": {"fork": f}})
        out.append({"harness": "h_tip", "params": {"fork": f}})
        for c in commitments(f):
            out.append({"harness": "h_whole", "params": {"fork": f, "field": c}})
        if ge(f, "osaka"):
            out.append({"harness": "h_size", "params": {"fork": f}})
    return out


def ancestors(cx, k, fork, n, first=None):
    from oracle import headers
    first = headers.number(fork) if first is None else first
    out = []
    for i in range(n):
        h = headers.header(cx, k, fork, number=k.Uint(first + i), parent_hash=cx.bytes32("parent%d" % i), timestamp=k.U256(10**9 + i))
        out.append(headers.block(cx, k, fork, h))
    return out


def kept(cx, ch, blocks):
    cx.check("chain unchanged", len(ch.blocks) == len(blocks) and all(a is b for a, b in zip(ch.blocks, blocks)))


def h_hashes(cx, fork, blocks):
    from oracle.kit import Kit
    from oracle import headers
    k = Kit(cx, fork)
    H = headers.Hashes(cx)
    bs = ancestors(cx, k, fork, blocks)
    got = k.m("fork").get_last_256_block_hashes(headers.chain(k, bs))
    want = [b.header.parent_hash for b in bs[-255:]] + ([H.hash(bs[-1].header)] if bs else [])
    cx.check("as many", len(got) == len(want))
    for g, w in zip(got, want):
        cx.check_eq("hash", g, w)


def setup(cx, k, fork, header_bad=False, ommers_bad=False):
    """everything but the acceptance itself replaced; .done tells what happened"""
    from oracle.forks import ge
    m = k.m("fork")
    bad = cx.load("ethereum.exceptions").InvalidBlock

    class W:
        seen = []
        executed = False
    w = W()
    w.seen = []

    def check_header(chain, header):
        w.seen.append(("header", chain, header))
        if header_bad:
            raise bad("header")
    cx.stub(m, "validate_header", check_header)
    if hasattr(m, "validate_ommers"):
        def check_ommers(ommers, header, chain):
            w.seen.append(("ommers", ommers, header, chain))
            if ommers_bad:
                raise bad("ommers")
        cx.stub(m, "validate_ommers", check_ommers)
    o = k.vm.BlockOutput()
    w.out = o
    o.block_gas_used = cx.uint("used")
    vals = {c: cx.bytes32("x_" + c) for c in ("transactions_root", "state_root", "receipt_root", "withdrawals_root", "requests_hash")}
    vals["bloom"] = k.by.Bytes256(cx.bytesn("x_bloom", 256))
    o.block_logs = (object(),)
    if hasattr(o, "blob_gas_used"):
        o.blob_gas_used = cx.u64("blobs")
        vals["blob_gas_used"] = o.blob_gas_used
    if hasattr(o, "requests"):
        o.requests = [b"request"]
    vals["gas_used"] = o.block_gas_used
    w.vals = vals
    tries = {"transactions_root": o.transactions_trie, "receipt_root": o.receipts_trie}
    if hasattr(o, "withdrawals_trie"):
        tries["withdrawals_root"] = o.withdrawals_trie

    def body(*a, **kw):
        cx.check("executed once, after the checks", not w.executed and [s[0] for s in w.seen] == w.order)
        w.executed = True
        w.args = kw
        w.pos = a
        return o
    w.order = ["header"] + (["ommers"] if hasattr(m, "validate_ommers") else [])
    cx.stub(m, "apply_body", body)

    def root(t, *a):
        assert w.executed
        for n, x in tries.items():
            if x is t:
                return vals[n]
        raise AssertionError("root of something else")
    cx.stub(m, "root", root)

    def state_root(st):
        assert w.executed and st is w.state
        return vals["state_root"]
    cx.stub(m, "state_root", state_root)

    def bloom(logs):
        assert logs is o.block_logs
        return vals["bloom"]
    cx.stub(m, "logs_bloom", bloom)
    if hasattr(m, "compute_requests_hash"):
        def req(r):
            assert r is o.requests
            return vals["requests_hash"]
        cx.stub(m, "compute_requests_hash", req)
    return w


def h_accept(cx, fork, blocks):
    from oracle.kit import Kit
    from oracle.forks import ge
    from oracle import headers, txs
    k = Kit(cx, fork)
    H = headers.Hashes(cx)
    w = setup(cx, k, fork)
    bs = ancestors(cx, k, fork, blocks)
    tip = int(bs[-1].header.number)
    hv = {c: cx.bytes32("h_" + c) for c in commitments(fork) if c.endswith("root") or c.endswith("hash")}
    hv["bloom"] = k.by.Bytes256(cx.bytesn("h_bloom", 256))
    hv["gas_used"] = cx.uint("h_used")
    hv["blob_gas_used"] = cx.u64("h_blobs")
    env = dict(coinbase=cx.address("coinbase"), gas_limit=cx.uint("limit"), timestamp=cx.u256("time"), difficulty=cx.uint("difficulty"),
               base_fee_per_gas=cx.uint("fee"), excess_blob_gas=cx.u64("excess"), parent_beacon_block_root=cx.bytes32("beacon"))
    rand = cx.bytes32("random")
    h = headers.header(cx, k, fork, number=k.Uint(tip + 1), mix_digest=rand, prev_randao=rand, **env, **hv)
    b = headers.block(cx, k, fork, h)
    cid = cx.u64("chain")
    st = k.state()
    w.state = st
    ch = headers.chain(k, bs, st, cid)
    m = k.m("fork")
    if ge(fork, "osaka"):
        fixed_size(cx, m, b, 1000)
    want = m.get_last_256_block_hashes(ch)
    out = k.run(m.state_transition, ch, b)
    cx.observe("outcome", out == "ok")
    cx.check("header checked", w.seen and w.seen[0][1] is ch and w.seen[0][2] is h)
    if len(w.seen) > 1:
        cx.check("ommers checked", w.seen[1][1] is b.ommers and w.seen[1][2] is h and w.seen[1][3] is ch)
    cx.check("executed", w.executed)
    e = w.args.get("block_env", w.pos[0] if w.pos else None)
    cx.check("environment", cx.and_(e.state is st, cx.eq(int(e.chain_id), int(cid)), cx.eq(int(e.block_gas_limit), int(env["gas_limit"])), cx.eq(e.coinbase, env["coinbase"]),
                                    cx.eq(int(e.number), tip + 1), cx.eq(int(e.time), int(env["timestamp"])), cx.eq(e.block_hashes, want)))
    if ge(fork, "london"):
        cx.check("base fee given", cx.eq(int(e.base_fee_per_gas), int(env["base_fee_per_gas"])))
    if ge(fork, "paris"):
        cx.check_eq("randomness given", e.prev_randao, rand)
    else:
        cx.check("difficulty given", cx.eq(int(e.difficulty), int(env["difficulty"])))
    if ge(fork, "cancun"):
        cx.check("blob fields given", cx.and_(cx.eq(int(e.excess_blob_gas), int(env["excess_blob_gas"])), cx.eq(e.parent_beacon_block_root, env["parent_beacon_block_root"])))
    rest = list(w.args.values()) + list(w.pos)
    cx.check("body given", any(x is b.transactions for x in rest) and (not ge(fork, "shanghai") or any(x is b.withdrawals for x in rest)))
    good = cx.and_(*[cx.eq(int(hv[c]), int(w.vals[c])) if c.endswith("gas_used") else cx.eq(hv[c], w.vals[c]) for c in commitments(fork)])
    if good:
        cx.check("accepted", out == "ok", out)
        # the latest 255 blocks stay
        now = (bs + [b])[-255:]
        cx.check("joined the chain", len(ch.blocks) == len(now) and all(x is y for x, y in zip(ch.blocks, now)))
    else:
        cx.check("rejected", txs.rejected(cx, out, k.exc), out)
        kept(cx, ch, bs)


def h_invalid(cx, fork):
    """an invalid header, or invalid ommers, keep the block out whatever it commits to"""
    from oracle.kit import Kit
    from oracle.forks import ge
    from oracle import headers, txs
    k = Kit(cx, fork)
    headers.Hashes(cx)
    pow_ = headers.pow_fork(fork)
    hb = cx.flag("badheader")
    ob = cx.flag("badommers")
    if not hb and not ob:
        cx.reject()
    w = setup(cx, k, fork, hb, ob and pow_)
    bs = ancestors(cx, k, fork, 2)
    commit = {c: w.vals[c] for c in commitments(fork)}
    h = headers.header(cx, k, fork, number=bs[-1].header.number + k.Uint(1), **commit)
    kw = {}
    if ob and not pow_:
        kw["ommers"] = (headers.header(cx, k, fork, number=cx.uint("ommer"), timestamp=cx.u256("ommertime"), coinbase=cx.address("ommercoinbase")),)
    b = headers.block(cx, k, fork, h, **kw)
    ch = headers.chain(k, bs)
    w.state = ch.state
    m = k.m("fork")
    if ge(fork, "osaka"):
        fixed_size(cx, m, b, 1000)
    out = k.run(m.state_transition, ch, b)
    cx.check("rejected", txs.rejected(cx, out, k.exc), out)
    cx.check("not executed", not w.executed)
    kept(cx, ch, bs)


def fixed_size(cx, m, b, size):
    r = cx.load("ethereum_rlp.rlp")
    real = r.encode
    enc = cx.B(bytes(size)) if isinstance(size, int) and not hasattr(size, "t") else size

    def encode(x):
        return enc if x is b else real(x)
    cx.stub(r, "encode", encode)
    p = cx.load("ethereum_rlp")
    if hasattr(p, "encode"):
        cx.stub(p, "encode", encode)


def h_size(cx, fork):
    from oracle.kit import Kit
    from oracle import headers, txs
    k = Kit(cx, fork)
    headers.Hashes(cx)
    w = setup(cx, k, fork)
    bs = ancestors(cx, k, fork, 2)
    h = headers.header(cx, k, fork, number=bs[-1].header.number + k.Uint(1), **{c: w.vals[c] for c in commitments(fork)})
    b = headers.block(cx, k, fork, h)
    ch = headers.chain(k, bs)
    w.state = ch.state
    m = k.m("fork")
    enc = cx.buf("encoding", 2**32)
    fixed_size(cx, m, b, enc)
    out = k.run(m.state_transition, ch, b)
    if len_(cx, enc) > 10 * 2**20 - 2 * 2**20:
        cx.check("too large", txs.rejected(cx, out, k.exc), out)
        kept(cx, ch, bs)
    else:
        cx.check("accepted", out == "ok", out)


def h_tip(cx, fork):
    """only a child of the latest block extends the chain"""
    from oracle.kit import Kit
    from oracle.forks import ge
    from oracle import headers, txs
    k = Kit(cx, fork)
    H = headers.Hashes(cx)
    headers.no_work(cx, k)
    m = k.m("fork")
    real = m.validate_header
    w = setup(cx, k, fork)
    cx.stub(m, "validate_header", lambda c, h: (w.seen.append(("header", c, h)), real(c, h))[1])
    pow_ = headers.pow_fork(fork)
    first = headers.number(fork) + 20
    bs, prev = [], k.Bytes32(b"\x11" * 32)
    for i in range(4):
        h = valid_child(cx, k, fork, bs[-1].header if bs else None, prev, first)
        b = headers.block(cx, k, fork, h)
        bs.append(b)
        prev = k.Bytes32(H.hash(h))
    ch = headers.chain(k, bs)
    w.state = ch.state
    on = cx.choice("on", [0, 1, 2, 3])
    h = valid_child(cx, k, fork, bs[on].header, k.Bytes32(H.hash(bs[on].header)), first, number=cx.uint("number", 2**64 - 1),
                    **{c: w.vals[c] for c in commitments(fork) if c != "blob_gas_used"})
    cx.assume(int(w.vals["gas_used"]) <= 10**7)
    if "blob_gas_used" in w.vals:
        cx.assume(int(w.vals["blob_gas_used"]) == int(h.blob_gas_used))
    b = headers.block(cx, k, fork, h)
    if ge(fork, "osaka"):
        fixed_size(cx, m, b, 1000)
    out = k.run(m.state_transition, ch, b)
    cx.observe("outcome", out == "ok")
    if on == 3 and int(h.number) == first + 4:
        cx.check("accepted", out == "ok", out)
    else:
        cx.check("rejected", txs.rejected(cx, out, k.exc), out)
        kept(cx, ch, bs)


def valid_child(cx, k, fork, parent, parent_hash, first, **kw):
    """a header that follows `parent` (10 s apart, half full, so fees and limits stand still)"""
    from oracle.forks import ge
    from oracle import headers
    pow_ = headers.pow_fork(fork)
    U = k.Uint
    d = dict(number=U(first), timestamp=k.U256(10**9), gas_limit=U(10**7), gas_used=U(5 * 10**6), base_fee_per_gas=U(1000),
             difficulty=U(10**13 if pow_ else 0), parent_hash=parent_hash, blob_gas_used=k.U64(0))
    if parent is not None:
        num = int(parent.number) + 1
        ts = int(parent.timestamp) + 10
        d["number"], d["timestamp"] = U(num), k.U256(ts)
        if pow_:
            d["difficulty"] = U(headers.difficulty(cx, fork, headers.bomb(fork, num), ts, int(parent.timestamp), int(parent.difficulty), False))
    d.update(kw)
    return headers.header(cx, k, fork, **d)


def h_whole(cx, fork, field):
    """nothing replaced but the proof of work: an empty block (with a withdrawal where there are any)"""
    from oracle.kit import Kit
    from oracle.forks import ge
    from oracle import headers, txs
    k = Kit(cx, fork)
    headers.no_work(cx, k)
    m = k.m("fork")
    R = cx.load("ethereum_rlp.rlp")
    parent = valid_child(cx, k, fork, None, k.Bytes32(b"\x11" * 32), headers.number(fork) + 20)
    ph = k.Bytes32(cx.keccak(R.encode(parent)))
    wd = ()
    if ge(fork, "shanghai"):
        wd = (cx.load("ethereum." + fork + ".blocks").Withdrawal(index=k.U64(7), validator_index=k.U64(8), address=k.addr(0xD0), amount=k.U256(3)),)

    def world():
        st = k.state()
        k.state_mod.set_account(st, k.addr(0xE1), k.account(5, 10**18, b"\x00"))
        if ge(fork, "cancun"):
            system(k, st, fork)
        return st
    # what execution yields, from a run of its own
    h0 = valid_child(cx, k, fork, parent, ph, 0, gas_used=k.Uint(0), blob_gas_used=k.U64(0))
    st = world()
    env = dict(state=st, block_hashes=[ph], coinbase=h0.coinbase, number=h0.number, block_gas_limit=h0.gas_limit, time=h0.timestamp)
    for n in ("base_fee_per_gas", "prev_randao", "difficulty", "excess_blob_gas", "parent_beacon_block_root"):
        if hasattr(h0, n):
            env[n] = getattr(h0, n)
    kw = {"withdrawals": wd} if ge(fork, "shanghai") else {}
    if hasattr(headers.block(cx, k, fork, h0), "ommers") and headers.pow_fork(fork):
        kw["ommers"] = ()
    o = m.apply_body(block_env=k.block_env(**env), transactions=(), **kw)
    vals = {"gas_used": k.Uint(0), "blob_gas_used": k.U64(0), "bloom": k.by.Bytes256(bytes(256)), "state_root": m.state_root(st),
            "transactions_root": m.root(o.transactions_trie), "receipt_root": m.root(o.receipts_trie)}
    if ge(fork, "shanghai"):
        vals["withdrawals_root"] = m.root(o.withdrawals_trie)
    if ge(fork, "prague"):
        vals["requests_hash"] = m.compute_requests_hash(o.requests)
    vals = {c: vals[c] for c in commitments(fork)}
    if field == "gas_used":
        x = cx.uint("x", 10**8)
    elif field == "blob_gas_used":
        x = cx.u64("x")
    elif field == "bloom":
        x = k.by.Bytes256(cx.bytesn("x", 256))
    else:
        x = cx.bytes32("x")
    right = cx.eq(int(x), int(vals[field])) if field.endswith("gas_used") else cx.eq(x, vals[field])
    b = headers.block(cx, k, fork, valid_child(cx, k, fork, parent, ph, 0, **{**vals, field: x}), withdrawals=wd)
    pb = headers.block(cx, k, fork, parent)
    ch = headers.chain(k, [pb], world())
    out = k.run(m.state_transition, ch, b)
    cx.observe("outcome", out == "ok")
    if right:
        cx.check("accepted", out == "ok", out)
        cx.check("joined the chain", len(ch.blocks) == 2 and ch.blocks[0] is pb and ch.blocks[1] is b)
    else:
        cx.check("rejected", txs.rejected(cx, out, k.exc), out)
        kept(cx, ch, [pb])


def system(k, st, fork):
    """the contracts block processing calls, doing nothing"""
    from oracle.forks import ge
    for a in ("000F3df6D732807Ef1319fB7B8bB8522d0Beac02", "0000F90827F1C53a10cb7A02335B175320002935", "00000961Ef480Eb55e80D19ad83579A64c007002",
              "0000BBdDc7CE488642fb579F8B00f3a590007251"):
        k.state_mod.set_account(st, k.Bytes20(bytes.fromhex(a)), k.account(1, 0, b"\x00"))


def len_(cx, b):
    if cx.symbolic:
        return cx.V.slen(b)
    return len(b)
