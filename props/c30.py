"""C30: the trie."""

ENCODED = ["trie.trie_set/trie_get/copy_trie", "trie.root/_prepare_trie/patricialize/encode_internal_node/nibble_list_to_compact/"
           "bytes_to_nibble_list/common_prefix_length", "trie.encode_node", "fork_types.encode_account", "state.state_root/storage_root",
           "rlp encoding of nodes (ethereum_rlp)"]
BOUNDS = ("h_root: 1 to 3 keys of 1 to 3 bytes whose nibbles range over a window of 2 values (two keys: 3 values), every value content, value lengths on both "
          "sides of the 32-byte inlining boundary, two insertion orders, overwriting and deleting; h_map: up to 4 operations on symbolic keys; h_deep: two or three "
          "keys of 8 and 32 bytes with chosen lengths of common prefix; h_state: 1 to 3 accounts at fixed addresses with any value of one account field, and any value in "
          "one of up to two storage slots; h_compact: every nibble list of up to 9 nibbles and of 31, 32, 62 to 65 and 128; thorough: 4 keys, wider windows")
ASSUMPTIONS = ["keccak is an injective-by-congruence opaque function of its input, evaluated for real on concrete data"]


def jobs(tier):
    from oracle.forks import FORKS
    out = []
    q = tier == "quick"
    for f in FORKS:
        shapes = [((1,), 2), ((2,), 40), ((1, 1), 2), ((1, 2), 2), ((2, 2), 29), ((2, 1), 33), ((1, 1, 2), 2)]
        if not q:
            shapes += [((2, 2, 2), 2), ((1, 1, 1, 1), 2), ((1, 2, 2, 1), 30), ((3, 2), 27), ((3, 3), 26), ((1, 1), 60), ((2, 2, 1), 1)]
        for i, (lens, size) in enumerate(shapes):
            for base in ((0, 13) if q else (0, 5, 13)):
                if q and (i + (base > 0) + len(f)) % 2 and len(lens) > 1:
                    continue
                out.append({"harness": "h_root", "params": {"fork": f, "lens": list(lens), "size": size, "base": base,
                            "span": (2 if len(lens) > 2 or sum(lens) > 3 else 3) if q else 3},
                            "weight": 4, "max_paths": 4000 if q else 40000})
        out.append({"harness": "h_map", "params": {"fork": f, "ops": 3 if q else 5}, "weight": 2})
        out.append({"harness": "h_deep", "params": {"fork": f}})
        out.append({"harness": "h_state", "params": {"fork": f}, "weight": 2})
        out.append({"harness": "h_compact", "params": {"fork": f}})
        out.append({"harness": "h_kinds", "params": {"fork": f}})
    return out


def key(cx, name, n, base, span):
    """n bytes, every nibble in [base, base + span)"""
    out = b""
    for i in range(n):
        h, l = cx.int("%s_%dh" % (name, i), base, base + span - 1), cx.int("%s_%dl" % (name, i), base, base + span - 1)
        out = out + (h * 16 + l).to_bytes(1, "big")
    return out


def h_root(cx, fork, lens, size, base, span):
    from oracle.kit import Kit
    from oracle import mpt
    k = Kit(cx, fork)
    m = k.m("trie")
    keys = [key(cx, "k%d" % i, n, base, span) for i, n in enumerate(lens)]
    for i in range(len(keys)):
        for j in range(i):
            if len(keys[i]) == len(keys[j]):
                cx.assume(cx.not_(cx.eq(keys[i], keys[j])))
    values = [cx.bytesn("v%d" % i, size if i else max(2, size)) for i in range(len(keys))]
    t = m.Trie(secured=False, default=b"")
    how = cx.choice("order", ["forward", "backward", "overwrite", "delete"])
    order = list(range(len(keys)))
    if how == "backward":
        order = order[::-1]
    if how == "overwrite":
        m.trie_set(t, keys[-1], b"\x99" * 40)
    for i in order:
        m.trie_set(t, keys[i], values[i])
    pairs = list(zip(keys, values))
    if how == "delete":
        m.trie_set(t, keys[0], b"")
        pairs = pairs[1:]
    out = k.run(m.root, t)
    cx.check("computed", out == "ok", out)
    cx.check_eq("root", k.ret, mpt.root(cx, pairs))
    cx.observe("root", k.ret)


def h_map(cx, fork, ops):
    from oracle.kit import Kit
    k = Kit(cx, fork)
    m = k.m("trie")
    default = cx.choice("default", [b"", b"\x01\x02"])
    t = m.Trie(secured=cx.flag("secured"), default=default)
    log, other = [], None
    for i in range(ops):
        kk = cx.bytesn("k%d" % i, 2)
        v = cx.bytesn("v%d" % i, 2) if cx.flag("value%d" % i) else default
        m.trie_set(t, kk, v)
        log.append((kk, v))
        if i == 0:
            other = m.copy_trie(t)

    def reads(t, log, q):
        want = default
        for kk, v in log:
            if cx.eq(kk, q):
                want = v
        cx.check_eq("read", m.trie_get(t, q), want)
        return want
    q = cx.bytesn("query", 2)
    w = reads(t, log, q)
    reads(other, log[:1], q)
    present = any(cx.eq(x, q) if len(x) == 2 else False for x in list(t._data))
    cx.check("the default is not stored", present != cx.eq(w, default))
    cx.observe("read", m.trie_get(t, q))


def h_deep(cx, fork):
    from oracle.kit import Kit
    from oracle import mpt
    k = Kit(cx, fork)
    m = k.m("trie")
    n = cx.choice("bytes", [8, 32])
    split = cx.choice("shared", [0, 1, 2, 7, 8, 2 * n - 1])     # nibbles
    pre = [cx.int("p%d" % i, 0, 14 if split < 3 else 3) for i in range(min(split, 3))] + [7] * max(0, split - 3)
    tails = []
    for j, d in ((0, 3), (1, 12)):
        rest = 2 * n - split - 1
        tails.append([d] + [cx.int("t%d_%d" % (j, i), 0, 15) for i in range(min(rest, 3))] + [5] * max(0, rest - 3))
    lists = [pre + tl for tl in tails]
    if split:       # a third key which leaves the others' path earlier
        at = cx.choice("third", sorted({0, split // 2, split - 1}) + [None])
        if at is not None:
            lists.append(pre[:at] + [13 if split >= 3 else 15] + [9] * (2 * n - at - 1))
    keys = []
    for ns in lists:
        b = b""
        for i in range(0, len(ns), 2):
            b = b + (ns[i] * 16 + ns[i + 1]).to_bytes(1, "big")
        keys.append(b)
    vals = [cx.bytesn("v0", 2), cx.bytesn("v1", cx.choice("size", [2, 33])), b"third"]
    t = m.Trie(secured=False, default=b"")
    for a, b in zip(keys, vals):
        m.trie_set(t, a, b)
    out = k.run(m.root, t)
    cx.check("computed", out == "ok", out)
    cx.check_eq("root", k.ret, mpt.root(cx, list(zip(keys, vals))))


def h_state(cx, fork):
    from oracle.kit import Kit
    from oracle import mpt, rlp
    k = Kit(cx, fork)
    sm = k.state_mod
    st = k.state()
    n = cx.choice("accounts", [1, 2, 3])
    field = cx.choice("field", ["nonce", "balance", "code", "slot"])
    pairs = []
    for i in range(n):
        a = k.addr(0x1111 * (i + 1))
        nonce, bal, code, slots = 3 + i, 10**18, b"", {}
        if i == 0:
            if field == "nonce":
                nonce = cx.int("nonce", 0, 2**64 - 1)
            elif field == "balance":
                bal = cx.int("balance", 0, 2**256 - 1)
            elif field == "code":
                code = cx.bytesn("code", cx.choice("codesize", [0, 1, 40]))
            else:
                slots = {1: cx.int("slot", 0, 2**256 - 1), 5: 77}
        if i == 2:
            slots = {2: 0x80, 3: 2**255}
        sm.set_account(st, a, k.types.Account(nonce=k.Uint(nonce), balance=k.U256(bal), code=code))
        entries = []
        for s, v in slots.items():
            key = k.Bytes32(s.to_bytes(32, "big"))
            sm.set_storage(st, a, key, k.U256(v))
            if v != 0:
                entries.append((cx.keccak(key), rlp.uint(v)))
        sr = mpt.root(cx, entries)
        cx.check_eq("storage root", sm.storage_root(st, a), sr)
        enc = rlp.seq([rlp.uint(nonce), rlp.uint(bal), rlp.string(sr), rlp.string(cx.keccak(code))])
        pairs.append((cx.keccak(a), enc))
    out = k.run(sm.state_root, st)
    cx.check("computed", out == "ok", out)
    cx.check_eq("state root", k.ret, mpt.root(cx, pairs))
    cx.observe("root", k.ret)


def h_compact(cx, fork):
    from oracle.kit import Kit
    from oracle import mpt
    k = Kit(cx, fork)
    m = k.m("trie")
    n = cx.choice("nibbles", list(range(10)) + [31, 32, 62, 63, 64, 65, 128])
    ns = [cx.int("n%d" % i, 0, 15) for i in range(n)]
    x = b""
    for v in ns:
        x = x + v.to_bytes(1, "big")
    leaf = cx.flag("leaf")
    cx.check_eq("compact", m.nibble_list_to_compact(x, leaf), mpt.hp(ns, leaf))
    b = cx.bytesn("b", n)
    got = m.bytes_to_nibble_list(b)
    cx.check("twice as many", len(got) == 2 * n)
    for i in range(n):
        cx.check_eq("nibbles", got[2 * i] * 16 + got[2 * i + 1], b[i])
        cx.check("small", cx.and_(got[2 * i] <= 15, got[2 * i + 1] <= 15))


def h_kinds(cx, fork):
    """roots over the other things stored in tries, and of the empty trie"""
    from oracle.kit import Kit, fill
    from oracle.forks import ge
    from oracle import mpt, rlp, txs
    k = Kit(cx, fork)
    m = k.m("trie")
    cx.check_eq("empty", m.root(m.Trie(secured=cx.flag("secured"), default=None)), mpt.EMPTY)
    tx = txs.make(k, "legacy", value=k.U256(cx.int("value", 0, 2**24)))
    b = k.m("blocks")
    state = cx.bytes32("state")
    rc = fill(b.Receipt, post_state=state, succeeded=True, cumulative_gas_used=k.Uint(5), bloom=k.by.Bytes256(bytes(256)), logs=())
    what = cx.choice("what", ["transaction", "receipt", "bytes", "word"] + (["withdrawal"] if ge(fork, "shanghai") else []))
    v = {"transaction": tx, "receipt": rc, "bytes": cx.bytesn("raw", 5), "word": k.U256(cx.int("word", 1, 2**256 - 1))}.get(what)
    wd = None
    if what == "withdrawal":
        v = wd = fill(b.Withdrawal, index=k.U64(1), validator_index=k.U64(2), address=cx.address("to"), amount=k.U256(3))
    if what == "transaction":
        enc = rlp.seq([rlp.uint(int(x)) if not isinstance(x, (bytes, bytearray)) else rlp.string(x)
                       for x in (tx.nonce, tx.gas_price, tx.gas)] + [rlp.string(tx.to), rlp.uint(int(tx.value)), rlp.string(tx.data)]
                      + [rlp.uint(int(x)) for x in (tx.v, tx.r, tx.s)])
    elif what == "receipt":
        enc = rlp.seq([rlp.string(state) if not ge(fork, "byzantium") else rlp.uint(1), rlp.uint(5), rlp.string(bytes(256)), rlp.seq([])])
    elif what == "withdrawal":
        enc = rlp.seq([rlp.uint(1), rlp.uint(2), rlp.string(wd.address), rlp.uint(3)])
    elif what == "word":
        enc = rlp.uint(int(v))
    else:
        enc = v
    t = m.Trie(secured=False, default=None)
    m.trie_set(t, b"\x80", v)
    out = k.run(m.root, t)
    cx.check("computed", out == "ok", out)
    cx.check_eq("root", k.ret, mpt.root(cx, [(b"\x80", enc)]))
