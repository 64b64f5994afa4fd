"""C41: genesis blocks."""

ENCODED = ["ethereum.genesis: add_genesis_block, get_genesis_configuration, hex_or_base_10_str_to_u256", "ethereum.utils.hexadecimal", "ethereum.utils.has_field",
           "state.set_account/set_storage/state_root, trie.root of every fork"]
BOUNDS = ("allocations of 0, 1 or 2 accounts at any (equal or distinct) addresses with any balance (64 hexadecimal digits, or 1 to 5 decimal ones), any one-digit nonce, code of 0, 1 or 33 "
          "bytes and 0 to 2 storage entries of any key and value; every value of the configured difficulty, gas limit, timestamp, nonce, extra data (0, 5, 32 bytes) and chain id; h_file: every digit of "
          "every configured number")
ASSUMPTIONS = ["h_block: the state root is an opaque value computed from the state at the time it is asked for (C30); h_file: the asset and its JSON are replaced by a symbolic document"]


SHAPES = [
    [], [("hex", None, 0, None)], [(65536, "17", 0, None)], [("hex", "0", 33, 2)], [(0, None, 0, 0), (7, None, 0, None)],
    [("hex", "1", 1, 1), ("hex", None, 0, 1)], [(10**30, None, 0, None), ("hex", "3", 0, None)],
]


def jobs(tier):
    from oracle.forks import FORKS
    out = []
    for f in FORKS:
        out.append({"harness": "h_block", "params": {"fork": f}})
        for i in range(len(SHAPES)):
            out.append({"harness": "h_alloc", "params": {"fork": f, "shape": i}})
        out.append({"harness": "h_root", "params": {"fork": f}})
    out.append({"harness": "h_file", "params": {"fork": "frontier"}})
    for n in (1, 2, 3, 5, 20):
        out.append({"harness": "h_timestamp", "params": {"fork": "frontier", "digits": n}})
    return out


def setup(cx, fork):
    from oracle.kit import Kit
    k = Kit(cx, fork)
    g = cx.load("ethereum.genesis")
    b = k.m("blocks")
    t = k.types
    tr = k.m("trie")
    hf = g.GenesisFork(Address=t.Address, Account=t.Account, Trie=tr.Trie, Bloom=t.Bloom, Header=b.Header, Block=b.Block,
                       hex_to_address=k.m("utils.hexadecimal").hex_to_address, set_account=k.state_mod.set_account,
                       set_storage=k.state_mod.set_storage, state_root=k.state_mod.state_root, root=tr.root)
    return k, g, hf


def config(cx, k, g, accounts=None, **kw):
    d = dict(chain_id=k.U64(1), difficulty=k.Uint(17), extra_data=b"", gas_limit=k.Uint(5000), nonce=k.by.Bytes8(bytes(8)),
             timestamp=k.U256(0), initial_accounts=accounts if accounts is not None else {})
    d.update(kw)
    return g.GenesisConfiguration(**d)


def h_block(cx, fork):
    import dataclasses
    from oracle import headers, mpt
    k, g, hf = setup(cx, fork)
    ch = headers.chain(k, [], chain_id=k.U64(77))
    root = cx.bytes32("root")
    states = []

    def state_root(st):
        states.append((st, len(st._main_trie._data)))
        return root
    hf = dataclasses.replace(hf, state_root=state_root)
    conf = config(cx, k, g, {"0x" + "11" * 20: {"balance": "0x5"}}, chain_id=cx.u64("chain"), difficulty=cx.uint("difficulty"), extra_data=cx.bytesn("extra", cx.choice("size", [0, 5, 32])),
                  gas_limit=cx.uint("limit"), nonce=k.by.Bytes8(cx.bytesn("nonce", 8)), timestamp=cx.u256("time"))
    g.add_genesis_block(hf, ch, conf)
    cx.check("one block", len(ch.blocks) == 1)
    cx.check_eq("chain id", int(ch.chain_id), int(conf.chain_id))
    cx.check("root of the state with its accounts", len(states) == 1 and states[0][0] is ch.state and states[0][1] == 1)
    blk = ch.blocks[0]
    cx.check("block type", isinstance(blk, k.m("blocks").Block))
    empty = cx.keccak(cx.B(b"\x80"))
    want = {"parent_hash": bytes(32), "ommers_hash": headers.EMPTY_OMMERS, "coinbase": bytes(20), "state_root": root, "transactions_root": empty,
            "receipt_root": empty, "bloom": bytes(256), "difficulty": int(conf.difficulty), "number": 0, "gas_limit": int(conf.gas_limit), "gas_used": 0,
            "timestamp": int(conf.timestamp), "extra_data": conf.extra_data, "nonce": conf.nonce, "mix_digest": bytes(32), "prev_randao": bytes(32),
            "base_fee_per_gas": 10**9, "withdrawals_root": empty, "blob_gas_used": 0, "excess_blob_gas": 0, "parent_beacon_block_root": bytes(32),
            "requests_hash": bytes(32)}
    for f in dataclasses.fields(blk.header):
        v = getattr(blk.header, f.name)
        cx.check("field known: " + f.name, f.name in want)
        cx.check_eq(f.name, int(v) if hasattr(v, "_number") else v, want[f.name])
    for f in dataclasses.fields(blk):
        if f.name != "header":
            cx.check("empty " + f.name, getattr(blk, f.name) == ())
    cx.observe("number", blk.header.number)


def h_alloc(cx, fork, shape):
    from oracle import headers
    import dataclasses
    k, g, hf = setup(cx, fork)
    hf = dataclasses.replace(hf, state_root=lambda st: k.Bytes32(bytes(32)))
    sm = k.state_mod
    ch = headers.chain(k, [])
    alloc, expect = {}, []
    # per account: form of the balance, nonce, bytes of code, storage entries
    for i, (form, nonce, size, slots) in enumerate(SHAPES[shape]):
        text, a = cx.hextext("address%d" % i, 40 - i)
        j, n, b, code, store = {}, 0, 0, b"", []
        if form == "hex":
            j["balance"], b = cx.hextext("balance%d" % i, 64)
        else:
            b = form
            j["balance"] = str(b)
        if nonce is not None:
            j["nonce"], n = nonce, int(nonce)
        if size:
            j["code"], code = cx.hextext("code%d" % i, 2 * size)
            code = code.to_bytes(size, "big")
        if slots is not None:
            j["storage"] = {}
            for s in range(slots):
                kt, key = cx.hextext("key%d%d" % (i, s), 64 - s)
                j["storage"][kt], val = cx.hextext("value%d%d" % (i, s), 64 if s else 5)
                store.append((key, val))
        alloc[text] = j
        expect.append((a, n, b, code, store))
    g.add_genesis_block(hf, ch, config(cx, k, g, alloc))
    st = ch.state
    final, slots = [], []
    for a, n, b, code, store in expect:
        final = [x for x in final if not bool(x[0] == a)] + [(a, n, b, code)]
        for key, val in store:
            slots = [x for x in slots if not bool(cx.and_(x[0] == a, x[1] == key))] + [(a, key, val)]
    for a, n, b, code in final:
        acc = sm.get_account_optional(st, k.Bytes20(a.to_bytes(20, "big")))
        cx.check("account there", acc is not None)
        cx.check_eq("nonce", int(acc.nonce), n)
        cx.check_eq("balance", int(acc.balance), b)
        cx.check_eq("code", acc.code, code)
    for a, key, val in slots:
        cx.check_eq("slot", int(sm.get_storage(st, k.Bytes20(a.to_bytes(20, "big")), k.Bytes32(key.to_bytes(32, "big")))), val)
    cx.check("no other account", len(st._main_trie._data) == len(final))
    cx.check("no other slot", sum(len(t._data) for t in st._storage_tries.values()) == sum(1 for x in slots if not bool(x[2] == 0)))
    cx.check("no open transaction", not st._snapshots)


def h_root(cx, fork):
    """the state root of the block is the root of the allocation"""
    from oracle import headers, mpt, rlp
    k, g, hf = setup(cx, fork)
    ch = headers.chain(k, [])
    t, b = cx.hextext("balance", 64)
    cx.assume(b > 0)
    addr = bytes(range(20))
    g.add_genesis_block(hf, ch, config(cx, k, g, {addr.hex(): {"balance": t}}))
    leaf = rlp.seq([rlp.uint(0), rlp.uint(b), rlp.string(cx.keccak(cx.B(b"\x80"))), rlp.string(cx.keccak(cx.B(b"")))])
    key = cx.keccak(cx.B(addr))
    node = rlp.seq([rlp.string(cx.B(b"\x20") + key), rlp.string(leaf)])
    cx.check_eq("state root", ch.blocks[0].header.state_root, cx.keccak(node))


class Doc:
    """a byte string whose JSON text is the document"""

    def __init__(self, data):
        self.data = data

    def decode(self, *a):
        return self


def h_file(cx, fork):
    import types
    g = cx.load("ethereum.genesis")
    asked = []
    chain = cx.int("chain", 0, 2**64 - 1)
    d, e, l, n = cx.hextext("difficulty", 20), cx.hextext("extra", 64), cx.hextext("limit", 16), cx.hextext("nonce", 16)
    s = cx.hextext("time", 16)
    alloc = {"11" * 20: {"balance": "1"}}
    doc = {"config": {"chainId": chain}, "difficulty": d[0], "extraData": e[0], "gasLimit": l[0], "nonce": n[0], "timestamp": s[0], "alloc": alloc,
           "number": "0x7", "gasUsed": "0x9", "mixHash": "0x11", "coinbase": "0x22"}
    there = cx.flag("there")

    def get_data(package, path):
        asked.append((package, path))
        return Doc(doc) if there else None
    cx.stub(g, "pkgutil", types.SimpleNamespace(get_data=get_data))
    cx.stub(g, "json", types.SimpleNamespace(loads=lambda x, **k: x.data))
    how, c = cx.attempt(g.get_genesis_configuration, "some.json")
    cx.check("asset", asked == [("ethereum", "assets/some.json")])
    cx.check("found", (how == "ok") == there)
    if not there:
        return
    cx.check_eq("chain id", int(c.chain_id), chain)
    cx.check_eq("difficulty", int(c.difficulty), d[1])
    cx.check_eq("extra data", c.extra_data, e[1].to_bytes(32, "big"))
    cx.check_eq("gas limit", int(c.gas_limit), l[1])
    cx.check_eq("nonce", c.nonce, n[1].to_bytes(8, "big"))
    cx.check_eq("timestamp", int(c.timestamp), s[1])
    cx.check("accounts", c.initial_accounts is alloc)


def h_timestamp(cx, fork, digits):
    g = cx.load("ethereum.genesis")
    t, v = cx.hextext("digits", digits)
    cx.check_eq("hexadecimal", int(g.hex_or_base_10_str_to_u256(t)), v)
    t, v = cx.hextext("decimal", digits, "")
    ds = [(v // 16**i) % 16 for i in range(digits)]
    good = cx.and_(*[x < 10 for x in ds])
    how, got = cx.attempt(g.hex_or_base_10_str_to_u256, t)
    good = bool(good)
    cx.check("decimal digits", (how == "ok") == good)
    if good:
        cx.check_eq("decimal", int(got), sum(x * 10**i for i, x in enumerate(ds)))

