"""C39: the transition tool."""

ENCODED = ["evm_tools.t8n.T8N: __init__, run, run_blockchain_test, _run_blockchain_test, run_state_test, pay_block_rewards, block_environment, backup_state, restore_state",
           "evm_tools.t8n.env.Env: every reader", "evm_tools.t8n.t8n_types: Alloc, Txs, Result", "evm_tools.utils.get_module_name",
           "evm_tools.loaders: fixture, fork and transaction loaders", "fork.apply_body, fork.pay_rewards of every fork (as the reference)",
           "vm.gas.calculate_excess_blob_gas (as the reference)"]
BOUNDS = ("h_block: 0 to 3 transactions of the fork's types of which any may be rejected, any amounts they move and gas they use, 0 to 2 ommers of any age from 1 to 7 at any "
          "(equal or distinct) addresses, default, given (any below 2^64) or disabled reward, 0 or 2 withdrawals; h_env: every value of the environment fields and of "
          "the parent fields they are derived from (blob gas below 2^40), block numbers 0, 1, 3, 255 to 257 and 300 with any subset of three known hashes; h_alloc: two accounts of any nonce, "
          "balance, code up to 33 bytes and up to two slots; h_result: every gas, blob gas, excess and root; h_sign: each type, any key and signature; h_rejected: each "
          "place of a malformed transaction among three; h_names: every supported fork name and block number")
ASSUMPTIONS = ["transactions, system calls, withdrawals and requests are recorded stand-ins with symbolic effects, given to the tool and to fork.apply_body alike (decided by C20, C28); "
               "difficulty, base fee and blob price formulas are opaque (C23, C25, C26)", "documents come in and go out as JSON values: parsing and printing JSON and "
               "deleting files are replaced by recorders", "the transactions root of a block with rejected transactions is not claimed"]


def jobs(tier):
    from oracle.forks import FORKS, ge
    from oracle import txs
    out = []
    for f in FORKS:
        for n in (0, 1, 3):
            few = f not in ("frontier", "spurious_dragon", "gray_glacier") and tier == "quick"
            for r in (("default", "given", "none") if not ge(f, "paris") and not few else ("default",)):
                out.append({"harness": "h_block", "params": {"fork": f, "n": n, "reward": r}, "weight": 1 + n})
        out.append({"harness": "h_env", "params": {"fork": f}})
        out.append({"harness": "h_alloc", "params": {"fork": f}})
        out.append({"harness": "h_result", "params": {"fork": f}})
        out.append({"harness": "h_state_test", "params": {"fork": f}})
        out.append({"harness": "h_rejected", "params": {"fork": f}})
        if ge(f, "cancun"):
            for have in ("excess", "parent", "nothing"):
                out.append({"harness": "h_excess", "params": {"fork": f, "have": have}})
        if ge(f, "london"):
            out.append({"harness": "h_fee", "params": {"fork": f}})
        if not ge(f, "paris"):
            out.append({"harness": "h_difficulty", "params": {"fork": f}})
        for n in (0, 1, 3, 255, 256, 257, 300):
            out.append({"harness": "h_hashes", "params": {"fork": f, "number": n}})
        out.append({"harness": "h_many", "params": {"fork": f}})
        out.append({"harness": "h_signed", "params": {"fork": f}})
        if ge(f, "prague"):
            out.append({"harness": "h_block_error", "params": {"fork": f}})
        for kind in txs.kinds(f):
            out.append({"harness": "h_sign", "params": {"fork": f, "kind": kind}})
    out.append({"harness": "h_names", "params": {"fork": "frontier"}})
    out.append({"harness": "h_files", "params": {"fork": "frontier"}})
    return out


PURSE = 0x9A


def no_roots(k):
    k.cx.stub(k.m("trie"), "root", lambda t, *a: k.Bytes32(b"\x0f" * 32))
    k.cx.stub(k.state_mod, "state_root", lambda st: k.Bytes32(b"\x0e" * 32))


class World:
    """stand-ins with the same symbolic effects for the tool and for the specification"""

    def __init__(self, cx, fork, n):
        from oracle.kit import Kit
        from oracle import txs
        self.cx, self.k, self.n = cx, Kit(cx, fork), n
        k = self.k
        self.fm, self.sm = k.m("fork"), k.state_mod
        self.amount = [cx.int("amount%d" % i, 0, 2**64) for i in range(n)]
        self.gas = [cx.int("gas%d" % i, 0, 2**32) for i in range(n)]
        self.reject = [cx.flag("rejected%d" % i) for i in range(n)]
        self.events = []
        self.envs = []
        self.bad = cx.load("ethereum.exceptions").InvalidTransaction
        no_roots(k)
        cx.stub(self.fm, "process_transaction", self.transaction)
        for name in ("process_unchecked_system_transaction", "process_withdrawals", "process_general_purpose_requests"):
            if hasattr(self.fm, name):
                cx.stub(self.fm, name, getattr(self, name))

    def note(self, env, *what):
        st = env.state
        self.envs.append(env)
        self.events.append(what + (int(self.sm.get_account(st, self.k.addr(PURSE)).balance), int(self.sm.get_account(st, env.coinbase).balance)))

    def effect(self, st, slot, amount):
        k = self.k
        self.sm.set_account_balance(st, k.addr(PURSE), self.sm.get_account(st, k.addr(PURSE)).balance + k.U256(amount))
        self.sm.set_storage(st, k.addr(PURSE), k.Bytes32(slot.to_bytes(32, "big")), k.U256(amount))

    def transaction(self, block_env, block_output, tx, index):
        i = int(tx.nonce) - 10
        self.note(block_env, "tx", i)
        self.index = index
        self.indices.append((i, int(index)))
        self.effect(block_env.state, i, self.amount[i])
        if self.reject[i]:
            raise self.bad("no")
        block_output.block_gas_used = block_output.block_gas_used + self.k.Uint(self.gas[i])

    def process_unchecked_system_transaction(self, block_env, target_address, data):
        self.note(block_env, "system", bytes(target_address), data)
        self.effect(block_env.state, 100 + len(self.events), 1)

    def process_withdrawals(self, block_env, block_output, withdrawals):
        self.note(block_env, "withdrawals", tuple(withdrawals))
        self.effect(block_env.state, 200, 3)

    def process_general_purpose_requests(self, block_env, block_output):
        self.note(block_env, "requests", int(block_output.block_gas_used))
        self.effect(block_env.state, 300, 5)

    def start(self):
        self.events, self.envs, self.indices = [], [], []


def parse(cx, x):
    """the number a printed value denotes"""
    return cx.load("ethereum.utils.hexadecimal").hex_to_uint(x)._number


def h_block(cx, fork, n, reward):
    from oracle import tool, txs, headers
    from oracle.forks import ge
    w = World(cx, fork, n)
    k, sm = w.k, w.sm
    kinds = txs.kinds(fork)
    docs = [tool.tx(kinds[(i + 1) % len(kinds)] if n > 1 else kinds[-1], nonce=hex(10 + i)) for i in range(n)]
    money = cx.int("before", 0, 2**128)
    alloc = {"0x" + "00" * 19 + "9a": {"balance": cx.text_of(money, 40), "nonce": "0x1"}}
    number = 0x64
    kw = {}
    ommers = []
    if not ge(fork, "paris"):
        for i in range(cx.choice("ommers", [0, 1, 2]) if n == 1 else 0):
            age = cx.int("age%d" % i, 1, 7)
            t, a = cx.hextext("ommer%d" % i, 40)
            ommers.append((age, a, t))
        kw["ommers"] = [{"delta": age, "address": t} for age, a, t in ommers]
    coin_t, coin = cx.hextext("coinbase", 40) if n == 1 else ("0x" + "c0" * 20, int("c0" * 20, 16))
    kw["currentCoinbase"] = coin_t
    wds = []
    if ge(fork, "shanghai"):
        wds = [{"index": hex(i), "validatorIndex": "0x5", "address": "0x" + "77" * 20, "amount": hex(i + 1)} for i in range(2 if n else 0)]
        kw["withdrawals"] = wds
    opts = {}
    given = None
    if reward == "given":
        given = opts["state_reward"] = cx.int("reward", 0, 2**64 - 1)
    elif reward == "none":
        opts["state_reward"] = -1
    w.start()
    run = tool.Run(cx, fork, {"env": tool.env(cx, fork, **kw), "alloc": alloc, "txs": docs}, **opts)
    out = run.run()
    cx.check("finished", run.code == 0 and out is not None)
    got, got_envs, got_index = w.events, w.envs, w.indices

    # the specification on the same block, without the rejected transactions
    w.start()
    st = k.state()
    me = k.addr(PURSE)
    sm.set_account(st, me, k.account(1, money))
    b20 = lambda x: k.Bytes20(x.to_bytes(20, "big"))  # noqa: E731
    h32 = k.Bytes32(b"\xaa" * 32)
    be = k.block_env(st, coinbase=b20(coin), number=k.Uint(number), time=k.U256(1000), block_hashes=[None] * 99 + [h32 if ge(fork, "prague") else None],
                     block_gas_limit=k.Uint(30_000_000), base_fee_per_gas=k.Uint(7), prev_randao=k.Bytes32(b"\x5a" * 32), difficulty=k.Uint(0x20000),
                     excess_blob_gas=k.U64(0), parent_beacon_block_root=k.Bytes32(b"\xb7" * 32))
    enc = getattr(k.m("transactions"), "encode_transaction", lambda x: x)
    kept = [i for i in range(n) if not w.reject[i]]
    sent = []
    for i in kept:
        sent.append(enc(run.tool.txs.transactions[i]))
    if given is not None:
        cx.stub(w.fm, "BLOCK_REWARD", k.U256(given))
    elif reward == "none":
        cx.stub(w.fm, "pay_rewards", lambda *a, **kk: None)
    args = [be, tuple(sent)]
    if ge(fork, "shanghai"):
        args.append(tuple(run.tool.json_to_withdrawals(x) for x in wds))
    elif not ge(fork, "paris"):
        args.append(tuple(headers.header(cx, k, fork, number=k.Uint(number - age), coinbase=b20(a)) for age, a, t in ommers))
    w.fm.apply_body(*args)
    want = w.events
    # events of rejected transactions are the tool's only extra
    seen = [e for e in got if e[0] != "tx" or not w.reject[e[1]]]
    cx.check("every transaction tried once in order", [e[1] for e in got if e[0] == "tx"] == list(range(n)))
    cx.check("place in the list", got_index == [(i, i) for i in range(n)])
    cx.check("as much happens", len(seen) == len(want))
    for a, b in zip(seen, want):
        cx.check("same order", a[0] == b[0] and len(a) == len(b))
        for x, y in zip(a[1:], b[1:]):
            if isinstance(x, tuple):
                cx.check("same withdrawals", len(x) == len(y) and all(type(p) is type(q) and p == q for p, q in zip(x, y)))
            else:
                cx.check_eq("same arguments and state", x, y)
    for e in got_envs:
        compare_env(cx, e, be)
    # the state printed is the state of the specification
    final = out["alloc"]
    accounts = st._main_trie._data
    cx.check("as many accounts", len(final) == len(accounts))
    for a, acc in accounts.items():
        j = final.get("0x" + bytes(a).hex()) if not cx.symbolic else final.get("0x" + a.hex())
        cx.check("account printed", j is not None)
        cx.check_eq("printed balance", parse(cx, j.get("balance", "0x0")), int(acc.balance))
        cx.check_eq("printed nonce", parse(cx, j.get("nonce", "0x0")), int(acc.nonce))
        slots = st._storage_tries[a]._data if a in st._storage_tries else {}
        printed = j.get("storage", {})
        cx.check("as many slots", len(slots) == len(printed))
        for s, v in slots.items():
            cx.check_eq("printed slot", parse(cx, printed["0x" + s.hex()]), int(v))
    res = out["result"]
    cx.check_eq("gas used", parse(cx, res["gasUsed"]), sum([w.gas[i] for i in kept]))
    cx.check("rejected ones listed", [int(x["index"]) for x in res["rejected"]] == [i for i in range(n) if w.reject[i]])
    cx.check("no block error", "blockException" not in res)
    cx.observe("money", int(sm.get_account(st, me).balance))


def compare_env(cx, got, want):
    import dataclasses
    for f in dataclasses.fields(want):
        a, b = getattr(got, f.name), getattr(want, f.name)
        if f.name == "state":
            continue
        if isinstance(b, (list, tuple)):
            cx.check("as many " + f.name, len(a) == len(b))
            for x, y in zip(a, b):
                cx.check_eq(f.name, x, y) if y is not None else cx.check(f.name, x is None)
        else:
            cx.check_eq("environment " + f.name, a, b)


def h_env(cx, fork):
    """every value the document gives reaches the block environment"""
    from oracle import tool
    from oracle.kit import Kit
    from oracle.forks import ge
    k = Kit(cx, fork)
    kw, want = {}, {}
    kw["currentCoinbase"], v = cx.hextext("coinbase", 40)
    want["coinbase"] = v.to_bytes(20, "big")
    as_text = cx.flag("text")
    for key, field, digits, hi in (("currentGasLimit", "block_gas_limit", 16, 2**64 - 1), ("currentTimestamp", "time", 64, 2**256 - 1)):
        if as_text:
            kw[key], want[field] = cx.hextext(key, digits)
        else:
            kw[key] = want[field] = cx.int(key, 0, hi)
    if ge(fork, "paris"):
        kw["currentRandom"], v = cx.hextext("random", cx.choice("digits", [1, 2, 63, 64]), cx.choice("prefix", ["0x", ""]))
        want["prev_randao"] = v.to_bytes(32, "big")
    else:
        kw["currentDifficulty"], want["difficulty"] = cx.hextext("difficulty", 20)
    if ge(fork, "london"):
        kw["currentBaseFee"], want["base_fee_per_gas"] = cx.hextext("fee", 20)
    if ge(fork, "cancun"):
        kw["parentBeaconBlockRoot"], v = cx.hextext("root", 64)
        want["parent_beacon_block_root"] = v.to_bytes(32, "big")
        kw["currentExcessBlobGas"], want["excess_blob_gas"] = cx.hextext("excess", 16)
    chain = cx.int("chain", 0, 2**64 - 1)
    want["chain_id"] = chain
    want["number"] = 0x64
    run = tool.Run(cx, fork, {"env": tool.env(cx, fork, **kw), "alloc": {}, "txs": []}, state_chainid=chain)
    env = run.tool.block_environment()
    import dataclasses
    for f in dataclasses.fields(env):
        if f.name in ("state", "block_hashes"):
            continue
        v = getattr(env, f.name)
        cx.check("field known: " + f.name, f.name in want)
        cx.check_eq(f.name, int(v) if hasattr(v, "_number") else v, want[f.name])
    for f, t in (("number", k.Uint), ("time", k.U256), ("block_gas_limit", k.Uint), ("chain_id", k.U64)):
        cx.check("type of " + f, isinstance(getattr(env, f), t))
    cx.check("the loaded state", env.state is run.tool.alloc.state)
    cx.observe("time", env.time)


def h_hashes(cx, fork, number):
    from oracle import tool
    hashes, known = {}, {}
    for at, style in ((number - 1, "0x%x"), (number - 256, "0x%04x"), (number - 2, "%x"), (number, "0x%x"), (number - 257, "0x%x")):
        if at >= 0 and at not in known and cx.flag("known%d" % (number - at)):
            t, v = cx.hextext("hash%d" % (number - at), 64)
            hashes[style % at] = t
            known[at] = v.to_bytes(32, "big")
    run = tool.Run(cx, fork, {"env": tool.env(cx, fork, currentNumber=hex(number), blockHashes=hashes), "alloc": {}, "txs": []})
    got = run.tool.block_environment().block_hashes
    lo = max(0, number - 256)
    cx.check("as many hashes as ancestors, 256 at most", len(got) == number - lo)
    for i, h in enumerate(got):
        w = known.get(lo + i)
        if w is None:
            cx.check("unknown hash", h is None)
        else:
            cx.check_eq("hash", h, w)


def h_excess(cx, fork, have):
    """the excess derived from the parent is the one the fork's header rule gives"""
    from oracle import tool, headers
    from oracle.kit import Kit
    k = Kit(cx, fork)
    cap = 2**40
    before, used, fee = cx.int("before", 0, cap), cx.int("used", 0, cap), cx.int("fee", 0, 2**64)
    g = k.m("vm.gas")
    cx.stub(g, "calculate_blob_gas_price", lambda e: k.Uint(from_bytes(cx.opaque("price", 32, int(e)))))
    kw = {"currentExcessBlobGas": None, "parentBaseFee": cx.text_of(fee, 17)}
    if have == "excess":
        kw["currentExcessBlobGas"] = cx.text_of(before, 11)
    if have != "nothing":
        kw["parentExcessBlobGas"] = cx.text_of(before, 11)
        kw["parentBlobGasUsed"] = cx.text_of(used, 11)
    run = tool.Run(cx, fork, {"env": tool.env(cx, fork, **kw), "alloc": {}, "txs": []})
    got = run.tool.block_environment().excess_blob_gas
    if have == "excess":
        cx.check_eq("given", int(got), before)
        return
    if have == "nothing":
        before = used = 0
    h = headers.header(cx, k, fork, excess_blob_gas=k.U64(before), blob_gas_used=k.U64(used), base_fee_per_gas=k.Uint(fee))
    want = g.calculate_excess_blob_gas(h)
    cx.check_eq("derived", int(got), int(want))
    cx.observe("excess", got)


def from_bytes(b):
    return int.from_bytes(b, "big")


def h_fee(cx, fork):
    from oracle import tool
    from oracle.kit import Kit
    k = Kit(cx, fork)
    fm = k.m("fork")
    calls = []

    def fee(*a, **kw):
        calls.append((a, kw))
        return k.Uint(99)
    real = fm.calculate_base_fee_per_gas
    import inspect
    names = list(inspect.signature(real).parameters)
    cx.stub(fm, "calculate_base_fee_per_gas", fee)
    vals = {}
    kw = {"currentBaseFee": None}
    for key in ("currentGasLimit", "parentGasLimit", "parentGasUsed", "parentBaseFee"):
        kw[key], vals[key] = cx.hextext(key, 16)
    run = tool.Run(cx, fork, {"env": tool.env(cx, fork, **kw), "alloc": {}, "txs": []})
    cx.check_eq("the fork's fee", int(run.tool.block_environment().base_fee_per_gas), 99)
    cx.check("asked once", len(calls) == 1)
    got = dict(zip(names, calls[0][0]))
    got.update(calls[0][1])
    for name, key in (("block_gas_limit", "currentGasLimit"), ("parent_gas_limit", "parentGasLimit"), ("parent_gas_used", "parentGasUsed"),
                      ("parent_base_fee_per_gas", "parentBaseFee")):
        cx.check_eq(name, int(got[name]), vals[key])
    cx.observe("limit", vals["parentGasLimit"])


def h_difficulty(cx, fork):
    from oracle import tool, headers
    from oracle.kit import Kit
    from oracle.forks import ge
    k = Kit(cx, fork)
    fm = k.m("fork")
    calls = []

    def difficulty(*a, **kw):
        calls.append((a, kw))
        return k.Uint(99)
    import inspect
    names = list(inspect.signature(fm.calculate_block_difficulty).parameters)
    cx.stub(fm, "calculate_block_difficulty", difficulty)
    vals = {}
    kw = {"currentDifficulty": None}
    for key, n in (("currentTimestamp", 20), ("parentTimestamp", 20), ("parentDifficulty", 30)):
        kw[key], vals[key] = cx.hextext(key, n)
    uncles = None
    if cx.flag("uncle hash"):
        kw["parentUncleHash"], uncles = cx.hextext("uncles", 64)
    run = tool.Run(cx, fork, {"env": tool.env(cx, fork, **kw), "alloc": {}, "txs": []})
    cx.check_eq("the fork's difficulty", int(run.tool.block_environment().difficulty), 99)
    cx.check("asked once", len(calls) == 1)
    got = dict(zip(names, calls[0][0]))
    got.update(calls[0][1])
    cx.check_eq("number", int(got["block_number"]), 0x64)
    for name, key in (("block_timestamp", "currentTimestamp"), ("parent_timestamp", "parentTimestamp"), ("parent_difficulty", "parentDifficulty")):
        cx.check_eq(name, int(got[name]), vals[key])
    if ge(fork, "byzantium"):
        has = False if uncles is None else bool(uncles != int.from_bytes(headers.EMPTY_OMMERS, "big"))
        cx.check("uncles", got["parent_has_ommers"] == has)
    cx.observe("difficulty", vals["parentDifficulty"])


def h_alloc(cx, fork):
    """what is loaded is what is printed"""
    from oracle import tool
    from oracle.forks import ge
    from oracle.kit import Kit
    no_roots(Kit(cx, fork))
    t0, a0 = "0x" + "00" * 19 + "01", 1
    t1, a1 = cx.hextext("address", 40)
    if fork == "dao_fork":
        cx.stub(cx.load("ethereum.dao_fork.dao"), "apply_dao", lambda st: None)
    cx.assume(a1 != a0)
    size = cx.choice("code size", [0, 1, 33])
    ct, c = cx.hextext("code", 2 * size)
    n_t, n = cx.hextext("nonce", 16)
    b_t, b = cx.hextext("balance", 64)
    kt, key = cx.hextext("key", 64)
    vt, val = cx.hextext("value", 64)
    k2t, k2 = "0x7", 7
    doc = {t0: {"balance": "0x1"}, t1: {"nonce": n_t, "balance": b_t, "code": ct, "storage": {kt: vt}}}
    second = cx.flag("second slot")
    cx.assume(key != k2)
    if second:
        doc[t1]["storage"][k2t] = "0x5"
    if ge(fork, "paris"):
        cx.assume(cx.or_(n > 0, b > 0, size > 0))
    run = tool.Run(cx, fork, {"env": tool.env(cx, fork), "alloc": doc, "txs": []}, state_reward=-1, state_test=True)
    out = run.run()["alloc"]
    cx.check("both accounts", len(out) == 2)
    j = out.get(cx.text_of(a1, 40))
    cx.check("printed under its address", j is not None)
    cx.check("fields", all(x in ("balance", "nonce", "code", "storage") for x in j))
    cx.check_eq("balance", parse(cx, j.get("balance", "0x0")), b)
    cx.check_eq("nonce", parse(cx, j.get("nonce", "0x0")), n)
    cx.check_eq("code", cx.load("ethereum.utils.hexadecimal").hex_to_bytes(j.get("code", "0x")), c.to_bytes(size, "big") if size else b"")
    slots = j.get("storage", {})
    zero = bool(val == 0)
    cx.check("slots", len(slots) == (0 if zero else 1) + (1 if second else 0))
    if not zero:
        v = slots.get(cx.text_of(key, 64))
        cx.check("slot printed", v is not None)
        cx.check_eq("slot", parse(cx, v), val)
    if second:
        cx.check_eq("second slot", parse(cx, slots["0x" + "00" * 31 + "07"]), 5)
    one = out[t0]
    cx.check("first account", parse(cx, one["balance"]) == 1 and "code" not in one and "nonce" not in one)


def h_result(cx, fork):
    from oracle import tool, txs
    from oracle.kit import Kit, fill
    from oracle.forks import ge
    k = Kit(cx, fork)
    fm, tr, bl = k.m("fork"), k.m("trie"), k.m("blocks")
    kind = txs.kinds(fork)[-1]
    cum = cx.int("cumulative", 0, 2**64 - 1)
    blobs = cx.int("blobs", 0, 2**40)
    failed = cx.flag("failed")
    bloom = cx.bytesn("bloom", 256)
    proot = cx.bytes32("post")
    req = [cx.bytesn("request", 5)] if cx.flag("requests") else []
    names = {}
    roots = {n: cx.bytes32("root " + n) for n in ("tx", "receipts", "withdrawals", "state")}
    outs = []

    def transaction(block_env, block_output, tx, index):
        bo = block_output
        outs.append(bo)
        from oracle import rlp
        enc = k.m("transactions").encode_transaction(tx) if ge(fork, "berlin") else tx
        tr.trie_set(bo.transactions_trie, rlp.uint(0), enc)
        r = fill(bl.Receipt, succeeded=not failed, post_state=proot, cumulative_gas_used=k.Uint(cum), bloom=k.types.Bloom(bloom), logs=())
        tr.trie_set(bo.receipts_trie, rlp.uint(0), bl.encode_receipt(tx, r) if ge(fork, "berlin") else r)
        bo.receipt_keys = bo.receipt_keys + (rlp.uint(0),)
        bo.block_gas_used = k.Uint(cum)
        bo.block_logs = (fill(bl.Log, address=k.addr(5), topics=(), data=b"z"),)
        if hasattr(bo, "blob_gas_used"):
            bo.blob_gas_used = k.U64(blobs)
        if hasattr(bo, "requests"):
            bo.requests = list(req)
    cx.stub(fm, "process_transaction", transaction)
    for n in ("process_unchecked_system_transaction", "process_withdrawals", "process_general_purpose_requests"):
        if hasattr(fm, n):
            cx.stub(fm, n, lambda *a, **kw: None)

    def root(t, *a):
        bo = outs[0]
        return roots["tx"] if t is bo.transactions_trie else roots["receipts"] if t is bo.receipts_trie else roots["withdrawals"] if t is bo.withdrawals_trie else None
    cx.stub(tr, "root", root)
    cx.stub(k.state_mod, "state_root", lambda st: roots["state"])
    blo = cx.bytesn("block bloom", 256)
    seen = []

    def logs_bloom(logs):
        seen.append(logs)
        return k.types.Bloom(blo)
    cx.stub(k.m("bloom"), "logs_bloom", logs_bloom)
    kw = {}
    if ge(fork, "cancun"):
        kw["currentExcessBlobGas"], excess = cx.hextext("excess", 10)
    if ge(fork, "london"):
        kw["currentBaseFee"], fee = cx.hextext("fee", 16)
    if not ge(fork, "paris"):
        kw["currentDifficulty"], diff = cx.hextext("difficulty", 16)
    run = tool.Run(cx, fork, {"env": tool.env(cx, fork, **kw), "alloc": {}, "txs": [tool.tx(kind)]}, state_reward=-1)
    out = run.run()
    cx.check("ran", run.code == 0 and len(outs) == 1)
    r = out["result"]
    hb = cx.load("ethereum.utils.hexadecimal").hex_to_bytes
    cx.check_eq("state root", hb(r["stateRoot"]), roots["state"])
    cx.check_eq("transactions root", hb(r["txRoot"]), roots["tx"])
    cx.check_eq("receipts root", hb(r["receiptsRoot"]), roots["receipts"])
    cx.check_eq("gas used", parse(cx, r["gasUsed"]), cum)
    cx.check_eq("bloom", hb(r["logsBloom"]), blo)
    cx.check("bloom of the block's logs", len(seen) == 1 and seen[0] is outs[0].block_logs)
    R = cx.load("ethereum_rlp").rlp
    cx.check_eq("logs hash", hb(r["logsHash"]), cx.keccak(R.encode(outs[0].block_logs)))
    if ge(fork, "shanghai"):
        cx.check_eq("withdrawals root", hb(r["withdrawalsRoot"]), roots["withdrawals"])
    if ge(fork, "cancun"):
        cx.check_eq("excess blob gas", parse(cx, r["currentExcessBlobGas"]), excess)
        cx.check("blob gas used reported", r.get("blobGasUsed") is not None)
        cx.check_eq("blob gas used", parse(cx, r["blobGasUsed"]), blobs)
    if ge(fork, "london"):
        got = r["currentBaseFee"]
        cx.check_eq("base fee", 0 if got is None else parse(cx, got), fee)
    if not ge(fork, "paris"):
        got = r["currentDifficulty"]
        cx.check_eq("difficulty", 0 if got is None else parse(cx, got), diff)
    if ge(fork, "prague"):
        cx.check("requests", len(r["requests"]) == len(req))
        for a, b in zip(r["requests"], req):
            cx.check_eq("request", hb(a), b)
        cx.check_eq("requests hash", hb(r["requestsHash"]), k.m("requests").compute_requests_hash(req))
    cx.check("one receipt", len(r["receipts"]) == 1)
    j = r["receipts"][0]
    cx.check_eq("receipt gas", parse(cx, j["gasUsed"]), cum)
    cx.check_eq("receipt bloom", hb(j["bloom"]), bloom)
    if ge(fork, "byzantium"):
        cx.check("receipt status", bool(j["succeeded"]) == (not failed))
    else:
        cx.check_eq("receipt state", hb(j["post_state"]), proot)
    tx = run.tool.txs.transactions[0]
    cx.check_eq("receipt of the transaction", hb(j["transactionHash"]), cx.keccak(txs.network(kind, tx)))
    cx.check("nothing rejected", len(r["rejected"]) == 0)


def h_state_test(cx, fork):
    """only the first transaction and nothing of the system runs"""
    from oracle import tool, txs
    w = World(cx, fork, 2)
    kind = txs.kinds(fork)[-1]
    w.start()
    n = cx.choice("transactions", [0, 1, 2])
    alloc = {"0x" + "00" * 19 + "9a": {"balance": "0x7"}}
    run = tool.Run(cx, fork, {"env": tool.env(cx, fork), "alloc": alloc, "txs": [tool.tx(kind, nonce=hex(10 + i)) for i in range(n)]}, state_test=True)
    out = run.run()
    cx.check("one transaction", [e[:2] for e in w.events] == ([("tx", 0)] if n else []))
    cx.check("index", w.indices == ([(0, 0)] if n else []))
    j = out["alloc"]
    ran = n and not w.reject[0]
    cx.check("accounts", len(j) == 1)
    me = j["0x" + "00" * 19 + "9a"]
    cx.check_eq("effect", parse(cx, me["balance"]), 7 + (w.amount[0] if ran else 0))
    cx.check("slots", len(me.get("storage", {})) == (0 if not ran or bool(w.amount[0] == 0) else 1))
    cx.check("rejected", len(out["result"]["rejected"]) == (1 if n and w.reject[0] else 0))
    cx.check_eq("gas used", parse(cx, out["result"]["gasUsed"]), w.gas[0] if ran else 0)


def h_rejected(cx, fork):
    """a transaction that cannot be read is listed and the others run with their own places"""
    from oracle import tool, txs
    w = World(cx, fork, 3)
    w.reject = [False] * 3
    w.amount = [5, 6, 7]
    kinds = txs.kinds(fork)
    at = cx.choice("place", [0, 1, 2])
    how = cx.choice("how", ["digit", "missing", "type", "odd"])
    docs = [tool.tx(kinds[i % len(kinds)], nonce=hex(10 + i)) for i in range(3)]
    if how == "digit":
        docs[at]["value"] = "0xzz"
    elif how == "missing":
        docs[at].pop("gas")
    elif how == "type":
        docs[at]["type"] = "0x5"
    else:
        docs[at]["input"] = "0x123"
    w.start()
    run = tool.Run(cx, fork, {"env": tool.env(cx, fork), "alloc": {"0x" + "00" * 19 + "9a": {"balance": "0x1"}}, "txs": docs})
    out = run.run()
    rest = [i for i in range(3) if i != at]
    cx.check("the others run", [e[1] for e in w.events if e[0] == "tx"] == rest)
    cx.check("in their places", w.indices == [(i, i) for i in rest])
    cx.check("listed", [int(x["index"]) for x in out["result"]["rejected"]] == [at])
    cx.check_eq("gas", parse(cx, out["result"]["gasUsed"]), sum(w.gas[i] for i in rest))


def h_sign(cx, fork, kind):
    """an unsigned transaction is signed over its own signing hash"""
    from oracle import tool, txs, rlp
    from oracle.forks import ge
    w = World(cx, fork, 1)
    w.reject = [False]
    tt = cx.load("ethereum_spec_tools.evm_tools.t8n.t8n_types")
    kt, key = cx.hextext("key", 64)
    r, s = cx.int("r", 2**248, 2**256 - 1), cx.int("s", 2**248, 2**256 - 1)
    y = cx.choice("y", [0, 1])
    asked = []
    k = w.k

    def sign(h, secret):
        asked.append((h, secret))
        return k.U256(r), k.U256(s), k.U256(y)
    cx.stub(tt, "secp256k1_sign", sign)
    got = []

    def transaction(block_env, block_output, tx, index):
        got.append(tx)
    cx.stub(w.fm, "process_transaction", transaction)
    vt, value = cx.hextext("value", 4)
    doc = tool.tx(kind, nonce="0xa", secretKey=kt, value=vt, v="0x0", r="0x0", s="0x0")
    zero = cx.choice("unsigned as", ["zero", "none", "absent"])
    if zero == "none":
        doc.update(v=None, r=None, s=None)
    elif zero == "absent":
        for x in ("v", "r", "s"):
            doc.pop(x)
    protected = True
    if kind == "legacy" and ge(fork, "spurious_dragon") and cx.flag("says protected"):
        protected = doc["protected"] = cx.flag("protected")
    run = tool.Run(cx, fork, {"env": tool.env(cx, fork), "alloc": {}, "txs": [doc]}, output_body=None)
    run.run()
    cx.check("executed", len(got) == 1)
    tx = got[0]
    cx.check("signed once", len(asked) == 1)
    cx.check_eq("with its key", asked[0][1], key)
    eip155 = kind == "legacy" and ge(fork, "spurious_dragon") and protected
    body = txs.body(kind, tx) + ([rlp.uint(1), rlp.uint(0), rlp.uint(0)] if eip155 else [])
    cx.check_eq("over its signing hash", asked[0][0], cx.keccak(txs.prefix(kind) + rlp.seq(body)))
    cx.check_eq("value", int(tx.value), value)
    cx.check_eq("r", int(tx.r), r)
    cx.check_eq("s", int(tx.s), s)
    v = int(tx.v if kind == "legacy" else tx.y_parity)
    cx.check_eq("v", v, y + (37 if eip155 else 27 if kind == "legacy" else 0))


def h_signed(cx, fork):
    """a transaction that already carries a signature keeps it"""
    from oracle import tool, txs
    w = World(cx, fork, 1)
    tt = cx.load("ethereum_spec_tools.evm_tools.t8n.t8n_types")
    asked, got = [], []

    def sign(h, secret):
        asked.append(secret)
        return w.k.U256(3), w.k.U256(5), w.k.U256(0)
    cx.stub(tt, "secp256k1_sign", sign)
    cx.stub(w.fm, "process_transaction", lambda block_env, block_output, tx, index: got.append(tx))
    kind = txs.kinds(fork)[-1]
    rt, r = cx.hextext("r", 2)
    st, s = cx.hextext("s", 2)
    vt, v = cx.hextext("v", 1)
    doc = tool.tx(kind, secretKey="0x" + "11" * 32, r=rt, s=st, v=vt)
    tool.Run(cx, fork, {"env": tool.env(cx, fork), "alloc": {}, "txs": [doc]}, output_body=None).run()
    unsigned = bool(cx.and_(r == 0, s == 0, v == 0))
    cx.check("signed when unsigned", len(asked) == (1 if unsigned else 0))
    cx.check("executed", len(got) == 1)
    t = got[0]
    cx.check_eq("r", int(t.r), 3 if unsigned else r)
    cx.check_eq("s", int(t.s), 5 if unsigned else s)
    if not unsigned:
        cx.check_eq("v", int(t.v if kind == "legacy" else t.y_parity), v)


def h_many(cx, fork):
    """receipts in the order of the transactions, all transactions in the body, and the body read back"""
    from oracle import tool, txs, rlp
    from oracle.kit import Kit, fill
    from oracle.forks import ge
    k = Kit(cx, fork)
    fm, tr, bl = k.m("fork"), k.m("trie"), k.m("blocks")
    no_roots(k)
    kinds = txs.kinds(fork)
    n = 4
    values = [cx.hextext("value%d" % i, 2) for i in range(2)]
    docs = [tool.tx(kinds[(i + 1) % len(kinds)], nonce=hex(10 + i), gas=hex(21000 + 7 * i), **({"value": values[i][0]} if i < 2 else {})) for i in range(n)]
    seen = []

    def transaction(block_env, block_output, tx, index):
        bo = block_output
        i = int(index)
        seen.append(tx)
        enc = k.m("transactions").encode_transaction(tx) if ge(fork, "berlin") else tx
        tr.trie_set(bo.transactions_trie, rlp.uint(i), enc)
        r = fill(bl.Receipt, succeeded=True, post_state=k.Bytes32(bytes(32)), cumulative_gas_used=k.Uint(100 * (i + 1)), bloom=k.types.Bloom(bytes(256)), logs=())
        tr.trie_set(bo.receipts_trie, rlp.uint(i), bl.encode_receipt(tx, r) if ge(fork, "berlin") else r)
        bo.receipt_keys = bo.receipt_keys + (rlp.uint(i),)
    cx.stub(fm, "process_transaction", transaction)
    for name in ("process_unchecked_system_transaction", "process_withdrawals", "process_general_purpose_requests"):
        if hasattr(fm, name):
            cx.stub(fm, name, lambda *a, **kw: None)
    run = tool.Run(cx, fork, {"env": tool.env(cx, fork), "alloc": {}, "txs": docs}, state_reward=-1)
    out = run.run()
    cx.check("all ran", len(seen) == n)
    got = out["result"]["receipts"]
    cx.check("a receipt each", len(got) == n)
    body = []
    for i in range(n):
        kind = kinds[(i + 1) % len(kinds)]
        net = txs.network(kind, seen[i])
        cx.check_eq("receipt gas", parse(cx, got[i]["gasUsed"]), 100 * (i + 1))
        cx.check_eq("receipt of transaction", cx.load("ethereum.utils.hexadecimal").hex_to_bytes(got[i]["transactionHash"]), cx.keccak(net))
        cx.check_eq("nonce", int(seen[i].nonce), 10 + i)
        if i < 2:
            cx.check_eq("value", int(seen[i].value), values[i][1])
        body.append(net if kind == "legacy" else rlp.string(net))
    text = out["body"]
    cx.check_eq("body", cx.load("ethereum.utils.hexadecimal").hex_to_bytes(text), rlp.seq(body))
    # the body is itself an input
    first, seen = list(seen), []
    again = tool.Run(cx, fork, {"env": tool.env(cx, fork), "alloc": {}, "txs": text}, state_reward=-1)
    out = again.run()
    cx.check("all ran again", len(seen) == n and not out["result"]["rejected"])
    for i, (a, b) in enumerate(zip(first, seen)):
        kind = kinds[(i + 1) % len(kinds)]
        cx.check("same type", type(a) is type(b))
        cx.check_eq("same transaction", txs.network(kind, a), txs.network(kind, b))


def h_block_error(cx, fork):
    """a block that turns out invalid is reported, with what had been done"""
    from oracle import tool, txs
    w = World(cx, fork, 1)
    w.reject = [False]
    bad = cx.load("ethereum.exceptions").InvalidBlock
    where = cx.choice("where", ["process_withdrawals", "process_general_purpose_requests", "process_unchecked_system_transaction"])

    def fails(*a, **kw):
        raise bad("broken")
    cx.stub(w.fm, where, fails)
    w.start()
    run = tool.Run(cx, fork, {"env": tool.env(cx, fork), "alloc": {"0x" + "00" * 19 + "9a": {"balance": "0x1"}}, "txs": [tool.tx(txs.kinds(fork)[-1], nonce="0xa")]})
    out = run.run()
    cx.check("finished", run.code == 0)
    cx.check("reported", out["result"].get("blockException") is not None)
    early = where == "process_unchecked_system_transaction"
    cx.check("went as far", len([e for e in w.events if e[0] == "tx"]) == (0 if early else 1))
    cx.check_eq("gas", parse(cx, out["result"]["gasUsed"]), 0 if early else w.gas[0])


def h_names(cx, fork):
    import types
    from oracle.forks import FORKS
    u = cx.load("ethereum_spec_tools.evm_tools.utils")
    forks = cx.load("ethereum_spec_tools.forks").Hardfork.discover()
    cx.check("forks in order", [f.name for f in forks] == ["ethereum." + f for f in FORKS])
    number = cx.int("number", 0, 2**64 - 1)
    switch = {"FrontierToHomesteadAt5": ("frontier", "homestead"), "HomesteadToDaoAt5": ("homestead", "dao_fork"), "HomesteadToEIP150At5": ("homestead", "tangerine_whistle"),
              "EIP158ToByzantiumAt5": ("spurious_dragon", "byzantium"), "ByzantiumToConstantinopleAt5": ("byzantium", "constantinople"),
              "ConstantinopleToIstanbulAt5": ("constantinople", "istanbul"), "BerlinToLondonAt5": ("berlin", "london")}
    fixed = {"EIP150": "tangerine_whistle", "EIP158": "spurious_dragon", "Merge": "paris", "ConstantinopleFix": "constantinople"}
    plain = {"".join(x.title() for x in f.split("_")): f for f in FORKS if f != "constantinople"}
    for name in list(switch) + list(fixed) + list(plain):
        o = types.SimpleNamespace(state_fork=name, input_env="stdin")
        mod, at = u.get_module_name(forks, o, {"env": {"currentNumber": number}})
        if name in switch:
            late = bool(number >= 5)
            cx.check("fork of " + name, mod == switch[name][1 if late else 0])
            cx.check("block", int(at) == (5 if late else 0))
        else:
            cx.check("fork of " + name, mod == (fixed.get(name) or plain[name]))
            cx.check("from the start", int(at) == 0)
    F = cx.load("ethereum_spec_tools.evm_tools.loaders.fork_loader")
    for i, f in enumerate(FORKS):
        ld = F.ForkLoad(f)
        cx.check("order of forks", all(ld.is_after_fork("ethereum." + g) == (FORKS.index(g) <= i) for g in FORKS))
        cx.check("consensus", ld.proof_of_stake == (i >= FORKS.index("paris")))


def h_files(cx, fork):
    """only the tool's own earlier output is removed"""
    from oracle import tool
    names = ["result.json", "alloc.json", "body.rlp", "trace-0-0x11.jsonl", "trace-.jsonl", "trace.jsonl", "txs.json", "keep", "xtrace-1.jsonl", "trace-1.json"]
    groups = [names[:1], names[1:2], names[2:3], names[3:5], names[5:]]
    there = [x for i, g in enumerate(groups) if cx.flag("there%d" % i) for x in g]
    run = tool.Run(cx, fork, {"env": tool.env(cx, fork), "alloc": {}, "txs": []}, listdir=there, output_basedir="/nowhere")
    o = run.options
    o.output_result, o.output_alloc, o.output_body = "result.json", "alloc.json", "body.rlp"
    import io
    import builtins
    written = []

    class F(io.StringIO):
        pass

    def fake_open(path, mode="r", **kw):
        written.append((path, mode))
        return F()
    run.T.open = fake_open
    run.dump = None
    cx.stub(run.T.json, "dump", lambda d, f, **kw: None)
    try:
        run.tool.run()
    finally:
        del run.T.open
    mine = ["result.json", "alloc.json", "body.rlp", "trace-0-0x11.jsonl", "trace-.jsonl"]
    cx.check("removed", sorted(run.removed) == sorted("/nowhere/" + x for x in there if x in mine))
    cx.check("written", sorted(written) == [("/nowhere/alloc.json", "w"), ("/nowhere/body.rlp", "w"), ("/nowhere/result.json", "w")])
