"""C28: block bodies."""

ENCODED = ["fork.apply_body", "fork.process_withdrawals", "fork.process_system_transaction", "fork.process_checked_system_transaction",
           "fork.process_unchecked_system_transaction", "fork.process_general_purpose_requests", "fork.pay_rewards",
           "requests.extract_deposit_data/parse_deposit_requests/compute_requests_hash", "blocks.encode_receipt/decode_receipt",
           "transactions.decode_transaction", "state.modify_state/destroy_account", "trie.trie_set/trie_get"]
BOUNDS = ("h_body: 0 to 3 transactions (legacy and typed), every outcome of every system call (error or not, output of 0, 1 or 76 free bytes, any gas "
          "left and refund, logs, accounts to delete), system contracts with and without code, one reward, and 1 or 21 withdrawals; h_withdrawals: 0 to 2 "
          "withdrawals, or a list of 21 (fixed addresses, some twice), of any amount below 2^64 gwei to any (equal or distinct) addresses holding any balance, nonce, code or nothing; "
          "h_entry: any one field of a withdrawal; h_deposits: 0 to 2 receipts of each type with 0 to 2 logs, any address, first topic and "
          "576 data bytes; h_extract: 576-byte events with any contents and any one or two of the ten offset and size words free (thorough: all ten) and lengths 0, 575, 577; h_commitment: 0 to 3 requests of 1 to 70 bytes")
ASSUMPTIONS = ["h_body: process_message_call returns an arbitrary output (C37) and process_transaction is only recorded (C20)"]

SYSTEM = bytes.fromhex("fffffffffffffffffffffffffffffffffffffffe")
ROOTS = bytes.fromhex("000f3df6d732807ef1319fb7b8bb8522d0beac02")
HISTORY = bytes.fromhex("0000f90827f1c53a10cb7a02335b175320002935")
WITHDRAW = bytes.fromhex("00000961ef480eb55e80d19ad83579a64c007002")
MERGE = bytes.fromhex("0000bbddc7ce488642fb579f8b00f3a590007251")
DEPOSIT = bytes.fromhex("00000000219ab540356cbb839cbe05303d7705fa")
EVENT = bytes.fromhex("649bbc62d0e31342afea4e5cd82d4049e7e1ee912fc0889aa790803be39038c5")


def jobs(tier):
    from oracle.forks import FORKS, ge
    out = []
    for f in FORKS:
        out.append({"harness": "h_body", "params": {"fork": f}, "weight": 6 if ge(f, "prague") else 1})
        if ge(f, "shanghai"):
            out.append({"harness": "h_withdrawals", "params": {"fork": f}, "weight": 4})
            out.append({"harness": "h_entry", "params": {"fork": f}})
        if ge(f, "prague"):
            out.append({"harness": "h_deposits", "params": {"fork": f}, "weight": 4})
            out.append({"harness": "h_extract", "params": {"fork": f, "wide": tier != "quick"}, "weight": 2})
            out.append({"harness": "h_commitment", "params": {"fork": f}})
    return out


def h_body(cx, fork):
    from oracle.kit import Kit, fill
    from oracle.forks import ge
    from oracle import headers, txs
    k = Kit(cx, fork)
    sm, fm = k.state_mod, k.m("fork")
    st = k.state()
    kinds = txs.kinds(fork)
    n = cx.choice("transactions", [0, 1, 3])
    sent, listed = [], []
    for i in range(n):
        kind = kinds[(i + 1) % len(kinds)] if i else kinds[-1]
        tx = txs.make(k, kind, nonce=type_nonce(k, kind, 10 + i), blob_versioned_hashes=(k.Bytes32(b"\x01" * 32),),
                      authorizations=(txs.authorization(k),) if kind == "setcode" else ())
        sent.append(tx)
        enc = getattr(k.m("transactions"), "encode_transaction", None)
        listed.append(tx if kind == "legacy" else enc(tx))
    codes = {}
    systems = []
    if ge(fork, "cancun"):
        systems = [ROOTS] + ([HISTORY, WITHDRAW, MERGE] if ge(fork, "prague") else [])
    for a in systems:
        has = True if n == 3 else cx.flag("code" + str(systems.index(a)))
        codes[a] = (b"\x60" + a[:3]) if has else b""
        if has:
            sm.set_account(st, k.Bytes20(a), k.account(1, 0, codes[a]))
    lucky = k.addr(0x99)
    sm.set_account(st, lucky, k.account(1, 5))
    money = cx.int("money", 0, 2**64)
    root = cx.bytes32("root")
    parent = cx.bytes32("parent")
    be = k.block_env(st, coinbase=lucky if not ge(fork, "paris") else k.addr(0xC0), parent_beacon_block_root=root,
                     block_hashes=[k.Bytes32(b"\x01" * 32), parent], base_fee_per_gas=k.Uint(77), number=k.Uint(headers.number(fork)))
    events = []
    outs = {}

    def balance():
        return int(sm.get_account(st, lucky).balance)

    def transaction(env, bo, tx, index):
        cx.check("block", env is be)
        for t in sent:
            if t == tx:
                events.append(("tx", sent.index(t), int(index), balance(), bo))
                return
        cx.check("a transaction of the list", False)

    def call(msg):
        a = bytes(msg.current_target)
        cx.check("a system contract", a in systems)
        i = systems.index(a)
        events.append(("call", a, None, balance(), None))
        te = msg.tx_env
        for name, got, want in (
                ("block", msg.block_env is be, True), ("caller", bytes(msg.caller) == SYSTEM, True), ("origin", bytes(te.origin) == SYSTEM, True),
                ("target", bytes(msg.target) == a, True), ("code address", bytes(msg.code_address) == a, True),
                ("code", bytes(msg.code), codes[a]), ("gas", int(msg.gas), 30_000_000), ("tx gas", int(te.gas), 30_000_000),
                ("price", int(te.gas_price), 77), ("value", int(msg.value), 0), ("depth", int(msg.depth), 0), ("static", msg.is_static, False),
                ("transfer", msg.should_transfer_value, False), ("warm", len(msg.accessed_addresses) + len(te.access_list_addresses), 0),
                ("slots", len(msg.accessed_storage_keys) + len(te.access_list_storage_keys), 0), ("parent", msg.parent_evm is None, True),
                ("blobs", len(te.blob_versioned_hashes), 0)):
            cx.check("message " + name, got == want)
        cx.check_eq("message data", msg.data, {ROOTS: root, HISTORY: parent}.get(a, b""))
        bad = cx.flag("fails%d" % i) if a in (WITHDRAW, MERGE) and n < 3 else (a in (ROOTS, HISTORY))
        size = cx.choice("output%d" % i, [0, 1, 76]) if a in (WITHDRAW, MERGE) else 3
        data = cx.bytesn("data%d" % i, size)
        outs[a] = (bad, data)
        log = fill(k.m("blocks").Log, address=k.addr(1), topics=(), data=b"x")
        err = k.m("vm.exceptions").OutOfGasError() if bad else None
        mco = k.m("vm.interpreter").MessageCallOutput
        return fill(mco, gas_left=cx.uint("left%d" % i, 30_000_000), refund_counter=k.U256(cx.int("refund%d" % i, 0, 10**6)), logs=(log,),
                    accounts_to_delete={lucky}, error=err, return_data=data)
    cx.stub(fm, "process_transaction", transaction)
    if hasattr(fm, "process_message_call"):
        cx.stub(fm, "process_message_call", call)
    args = [be, tuple(listed)]
    wd = None
    if ge(fork, "shanghai"):
        wd = fill(k.m("blocks").Withdrawal, index=k.U64(1), validator_index=k.U64(2), address=lucky, amount=k.U256(money))
        headers_rlp(cx, "Withdrawal")
        more = [fill(k.m("blocks").Withdrawal, index=k.U64(2 + i), validator_index=k.U64(2), address=lucky, amount=k.U256(1 + i)) for i in range(20)]
        args.append((wd, *more) if n == 3 else (wd,))
    elif not ge(fork, "paris"):
        args.append(())
    out = k.run(fm.apply_body, *args)
    cx.observe("outcome", out == "ok")
    # what happens, in order
    before = 5
    after = before
    if ge(fork, "shanghai"):
        after = before + money * 10**9 + (210 * 10**9 if n == 3 else 0)
    elif not ge(fork, "paris"):
        from props.c27 import reward
        after = before + reward(fork)
    first = [("call", a) for a in systems if a in (ROOTS, HISTORY)]
    want = [(e, before) for e in first] + [(("tx", i), before) for i in range(n)]
    ok = True
    requests = []
    for a, t in ((WITHDRAW, b"\x01"), (MERGE, b"\x02")):
        if a in systems and ok:
            if not codes[a]:
                ok = False
                continue
            want.append((("call", a), after))
            if a in outs and outs[a][0]:
                ok = False
            elif a in outs and len(outs[a][1]) > 0:
                requests.append(t + outs[a][1])
    cx.check("how often", len(events) == len(want))
    for e, (w, bal) in zip(events, want):
        cx.check("in order", e[:2] == w)
        cx.check_eq("when", e[3], bal)
        if e[0] == "tx":
            cx.check("index", e[2] == e[1])
    if not ok:
        cx.check("rejected", txs.rejected(cx, out, k.exc), out)
        return
    cx.check("accepted", out == "ok", out)
    bo = k.ret
    cx.check("one output", all(e[4] is bo for e in events if e[0] == "tx"))
    cx.check_eq("money", balance(), after)
    cx.check_eq("no gas", int(bo.block_gas_used), 0)
    cx.check("no logs", len(bo.block_logs) == 0)
    if ge(fork, "prague"):
        cx.check("requests", len(bo.requests) == len(requests))
        for a, b in zip(bo.requests, requests):
            cx.check_eq("request", a, b)


def type_nonce(k, kind, n):
    from props.c18 import type_of
    return type_of(k, kind, "nonce")(n)


def headers_rlp(cx, name):
    """objects of this class encode to a tag"""
    r = cx.load("ethereum_rlp.rlp")
    real = r.encode
    seen = []

    def encode(x):
        if type(x).__name__ == name:
            for i, y in enumerate(seen):
                if y is x:
                    return b"object" + bytes([i])
            seen.append(x)
            return b"object" + bytes([len(seen) - 1])
        return real(x)
    cx.stub(r, "encode", encode)
    p = cx.load("ethereum_rlp")
    if hasattr(p, "encode"):
        cx.stub(p, "encode", encode)


def h_withdrawals(cx, fork):
    from oracle.kit import Kit, fill
    from oracle import rlp
    k = Kit(cx, fork)
    sm, fm = k.state_mod, k.m("fork")
    headers_rlp(cx, "Withdrawal")
    st = k.state()
    n = cx.choice("withdrawals", [0, 1, 2, 21])
    other = k.addr(0x77)
    sm.set_account(st, other, k.account(0, 9))
    who, amount = [], []
    for i in range(n):
        who.append(cx.address("to%d" % i) if n < 3 else k.addr(0x100 + i % 19))
        amount.append(cx.int("amount%d" % i, 0, 2**64 - 1) if n < 3 or i == n - 1 else 1000 + i)
    kind = cx.choice("account", ["none", "empty", "funds", "nonce", "code"] if n < 3 else ["funds"]) if n else "none"
    had = cx.int("had", 1, 2**254) if kind == "funds" else 0
    if kind != "none":
        sm.set_account(st, who[0], k.account(1 if kind == "nonce" else 0, had, b"\x00" if kind == "code" else b""))
    people = who + [other]
    first = [(int(sm.get_account(st, a).balance), int(sm.get_account(st, a).nonce), len(sm.get_account(st, a).code)) for a in people]
    wds = [fill(k.m("blocks").Withdrawal, index=k.U64(i), validator_index=k.U64(9), address=who[i], amount=k.U256(amount[i])) for i in range(n)]
    be, bo = k.block_env(st), k.vm.BlockOutput()
    out = k.run(fm.process_withdrawals, be, bo, tuple(wds))
    cx.check("processed", out == "ok", out)
    r = cx.load("ethereum_rlp.rlp").encode
    t = k.m("trie")
    for i in range(n):
        cx.check_eq("entry", t.trie_get(bo.withdrawals_trie, rlp.uint(i)), r(wds[i]))
    cx.check("entries", len(bo.withdrawals_trie._data) == n)
    for a, (b, nonce, code) in zip(people, first):
        want = b
        for w, x in zip(who, amount):
            want = want + cx.ite(cx.eq(a, w), x * 10**9, 0)
        cx.check_eq("balance", int(sm.get_account(st, a).balance), want)
        cx.check_eq("nonce", int(sm.get_account(st, a).nonce), nonce)
        cx.check_eq("code", len(sm.get_account(st, a).code), code)
        if want == 0 and nonce == 0 and code == 0:
            cx.check("no empty account is left", not sm.account_exists(st, a))
        else:
            cx.check("exists", sm.account_exists(st, a))
    cx.check_eq("no gas", int(bo.block_gas_used), 0)
    if n:
        cx.observe("balance", int(sm.get_account(st, who[0]).balance))


def h_entry(cx, fork):
    from oracle.kit import Kit, fill
    from oracle import rlp
    k = Kit(cx, fork)
    f = cx.choice("field", ["index", "validator_index", "address", "amount"])
    d = dict(index=k.U64(0x1234), validator_index=k.U64(0x77), address=k.addr(0x9999), amount=k.U256(0xABCDEF))
    if f == "address":
        d[f] = cx.address("a")
    else:
        d[f] = type(d[f])(cx.int("n", 0, 2**64 - 1))
    wd = fill(k.m("blocks").Withdrawal, **d)
    st = k.state()
    bo = k.vm.BlockOutput()
    out = k.run(k.m("fork").process_withdrawals, k.block_env(st), bo, (wd,))
    cx.check("processed", out == "ok", out)
    want = rlp.seq([rlp.uint(int(wd.index)), rlp.uint(int(wd.validator_index)), rlp.string(wd.address), rlp.uint(int(wd.amount))])
    cx.check_eq("entry", k.m("trie").trie_get(bo.withdrawals_trie, rlp.uint(0)), want)


LAYOUT = [(0, 160), (32, 256), (64, 320), (96, 384), (128, 512), (160, 48), (256, 32), (320, 8), (384, 96), (512, 8)]


def deposit(cx, data):
    """(valid, request) of a deposit event"""
    if len(data) != 576:
        return False, None
    ok = cx.and_(*[cx.eq(data[at:at + 32], v.to_bytes(32, "big")) for at, v in LAYOUT])
    return ok, data[192:240] + data[288:320] + data[352:360] + data[416:512] + data[544:552]


def event(cx, name, free):
    """576 bytes: well formed but for the listed words, contents free"""
    out = b""
    at = 0
    for o, v in sorted(LAYOUT):
        if o > at:
            out = out + cx.bytesn("%s_at%d" % (name, at), o - at)
        out = out + (cx.bytesn("%s_w%d" % (name, o), 32) if o in free else v.to_bytes(32, "big"))
        at = o + 32
    return out + cx.bytesn("%s_at%d" % (name, at), 576 - at)


def h_extract(cx, fork, wide):
    from oracle.kit import Kit
    from oracle import txs
    k = Kit(cx, fork)
    n = cx.choice("size", [576, 0, 575, 577])
    if n == 576:
        free = cx.choice("words", [(o,) for o, _ in LAYOUT] + ([tuple(o for o, _ in LAYOUT)] if wide else [(0, 512), (160, 320), (96, 384)]))
        data = event(cx, "d", free)
    else:
        data = cx.bytesn("data", n)
    out = k.run(k.m("requests").extract_deposit_data, data)
    ok, want = deposit(cx, data)
    if ok:
        cx.check("accepted", out == "ok", out)
        cx.check_eq("request", k.ret, want)
    else:
        cx.check("rejected", txs.rejected(cx, out, k.exc), out)
    cx.observe("outcome", out == "ok")


def h_deposits(cx, fork):
    from oracle.kit import Kit, fill
    from oracle import txs, rlp
    k = Kit(cx, fork)
    t, b = k.m("trie"), k.m("blocks")
    bo = k.vm.BlockOutput()
    shape = cx.choice("logs per receipt", [(), (0,), (1,), (2,), (1, 0, 1), (1, 1)])
    kinds = txs.kinds(fork)
    want, ok, j = b"", True, 0
    for i, m in enumerate(shape):
        logs = []
        for x in range(m):
            addr = cx.address("a%d" % j)
            nt = cx.choice("topics%d" % j, [0, 1] if j else [0, 1, 2])
            topics = [cx.bytes32("t%d" % j)][:nt] + [k.Bytes32(bytes(32))] * (nt - 1)
            bad = cx.choice("shape%d" % j, [0, 1, 2]) if j == 0 else 0
            data = b"short" if bad == 1 else event(cx, "d%d" % j, (320,) if bad == 2 else ())
            logs.append(fill(b.Log, address=addr, topics=tuple(topics), data=data))
            j += 1
        r = fill(b.Receipt, succeeded=True, cumulative_gas_used=k.Uint(21000 * (i + 1)), bloom=k.by.Bytes256(bytes(256)), logs=tuple(logs))
        kind = kinds[(i + len(shape) - 1) % len(kinds)] if i else "legacy"
        tx = txs.make(k, kind, blob_versioned_hashes=(k.Bytes32(b"\x01" * 32),))
        key = rlp.uint(i)
        bo.receipt_keys += (key,)
        t.trie_set(bo.receipts_trie, key, b.encode_receipt(tx, r))
        for l in logs:
            if not ok:
                continue
            if cx.and_(cx.eq(l.address, DEPOSIT), cx.eq(l.topics[0], EVENT) if l.topics else False):
                good, req = deposit(cx, l.data)
                if good:
                    want = want + req
                else:
                    ok = False
    out = k.run(k.m("requests").parse_deposit_requests, bo)
    if ok:
        cx.check("accepted", out == "ok", out)
        cx.check_eq("requests", k.ret, want)
    else:
        cx.check("rejected", txs.rejected(cx, out, k.exc), out)
    cx.observe("outcome", out == "ok")
    # as part of the block
    fm = k.m("fork")
    if ok and shape and hasattr(fm, "process_checked_system_transaction"):
        mco = k.m("vm.interpreter").MessageCallOutput
        done = fill(mco, gas_left=k.Uint(0), refund_counter=k.U256(0), logs=(), accounts_to_delete=set(), error=None, return_data=b"\x07\x08")
        cx.stub(fm, "process_message_call", lambda m: done)
        st = k.state()
        for a in (WITHDRAW, MERGE):
            k.state_mod.set_account(st, k.Bytes20(a), k.account(1, 0, b"\x01"))
        out = k.run(fm.process_general_purpose_requests, k.block_env(st), bo)
        cx.check("processed", out == "ok", out)
        reqs = ([b"\x00" + want] if len(want) else []) + [b"\x01\x07\x08", b"\x02\x07\x08"]
        cx.check("number of requests", len(bo.requests) == len(reqs))
        for x, y in zip(bo.requests, reqs):
            cx.check_eq("request", x, y)


def h_commitment(cx, fork):
    from oracle.kit import Kit
    k = Kit(cx, fork)
    sizes = cx.choice("sizes", [(), (1,), (70,), (2, 5), (3, 1, 9)])
    rs = [cx.bytesn("r%d" % i, n) for i, n in enumerate(sizes)]
    out = k.run(k.m("requests").compute_requests_hash, rs)
    cx.check("computed", out == "ok", out)
    inner = b""
    for r in rs:
        inner = inner + cx.hash("sha256", r)
    cx.check_eq("hash", k.ret, cx.hash("sha256", inner))
    cx.observe("hash", k.ret)
