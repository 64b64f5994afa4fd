"""C20: settlement of a transaction."""

ENCODED = ["fork.process_transaction/check_transaction/make_receipt", "transactions.validate_transaction/calculate_intrinsic_cost/"
           "encode_transaction/get_transaction_hash", "utils.message.prepare_message", "blocks.encode_receipt",
           "vm.gas.calculate_data_fee/calculate_total_blob_gas/calculate_blob_gas_price", "state.increment_nonce/set_account_balance/"
           "destroy_account/destroy_touched_empty_accounts", "trie.trie_set"]
BOUNDS = ("pay: every gas limit below 2^40, gas prices and base fee below 2^64, sender balance, gas left and refund counter of the execution, balance of "
          "the sender and coinbase left by it, empty call data and 100 bytes; coinbase: absent, empty, funded, the sender, deleted, with zero and "
          "non-zero priority price; message: calls and creations of each type with four access lists, symbolic value, nonce, gas and recipient; output: "
          "block positions 0, 1, 127, 128, 300, earlier gas used in the block, two logs, failed or not")
ASSUMPTIONS = ["recover_sender is replaced by one returning a fixed address (C21), process_message_call by a recorder with an arbitrary outcome (C37)",
               "in pay and coinbase the transaction's own encoding and hash are replaced by fixed values (C22)",
               "no account balance reaches 2^256", "before Byzantium the state root is an arbitrary value (C30)"]


def jobs(tier):
    from oracle.forks import FORKS
    from oracle.txs import kinds
    out = []
    for f in FORKS:
        for kd in kinds(f):
            last = kd == kinds(f)[-1]
            for size in (0, 100):
                if kd == "legacy" or tier == "thorough" or last or size == 0:
                    out.append({"harness": "h_pay", "params": {"fork": f, "kind": kd, "size": size}, "weight": 3})
            out.append({"harness": "h_message", "params": {"fork": f, "kind": kd}, "weight": 3})
            out.append({"harness": "h_output", "params": {"fork": f, "kind": kd}, "weight": 2})
            if last or kd == "legacy":
                for cb in ("absent", "empty", "funded", "sender", "deleted"):
                    if cb == "empty" and f in ("paris", "shanghai", "cancun", "prague", "osaka"):
                        continue
                    out.append({"harness": "h_coinbase", "params": {"fork": f, "kind": kd, "coinbase": cb}, "weight": 1})
    return out


def touches(fork):
    from oracle.forks import ge, lt
    return ge(fork, "spurious_dragon") and lt(fork, "paris")


class Scene:
    """one transaction of sender A in a block, its execution replaced"""

    def __init__(self, cx, fork, kind):
        from oracle.kit import Kit
        self.cx, self.fork, self.kind = cx, fork, kind
        self.k = k = Kit(cx, fork)
        self.st = k.state()
        self.A = k.addr(0x5E)
        self.fk = k.m("fork")
        cx.stub(self.fk, "recover_sender", lambda *a: self.A)
        self.calls = []
        self.root = None

    def opaque_encoding(self, receipts=True):
        k, cx = self.k, self.cx
        self.hash = k.Bytes32(b"\x77" * 32)
        cx.stub(self.fk, "get_transaction_hash", lambda tx: self.hash)
        if hasattr(self.fk, "encode_transaction"):
            cx.stub(self.fk, "encode_transaction", lambda tx: b"\x02marker")
        if hasattr(self.fk, "encode_receipt") and receipts:
            cx.stub(self.fk, "encode_receipt", lambda tx, receipt: receipt)

    def output(self, **kw):
        from oracle.kit import fill
        k = self.k
        d = dict(gas_left=k.Uint(0), refund_counter=k.U256(0), logs=(), accounts_to_delete=set(), touched_accounts=set(), error=None,
                 return_data=b"")
        d.update(kw)
        return fill(k.m("vm.interpreter").MessageCallOutput, **d)

    def prepare(self, account, on_call):
        k, cx, s = self.k, self.cx, self.k.state_mod

        def call(message):
            self.calls.append(message)
            return on_call(message)
        cx.stub(self.fk, "process_message_call", call)
        if hasattr(self.fk, "state_root"):
            def root(state):
                cx.check("root of this state", state is self.st)
                self.at_root = [s.get_account_optional(self.st, a) for a in self.watch]
                self.root = cx.bytes32("root")
                return self.root
            cx.stub(self.fk, "state_root", root)
        self.watch = [self.A]
        s.set_account(self.st, self.A, account)

    def run(self, be, bo, tx, index=0):
        k, cx = self.k, self.cx
        out = k.run(self.fk.process_transaction, be, bo, tx, k.Uint(index))
        cx.check("runs", out == "ok", out)
        cx.check("one execution", len(self.calls) == 1)
        if self.root is not None:
            now = [k.state_mod.get_account_optional(self.st, a) for a in self.watch]
            for x, y in zip(self.at_root, now):
                cx.check("root taken at the end", (x is None) == (y is None) and (x is None or cx.and_(
                    x.nonce == y.nonce, x.balance == y.balance, cx.eq(x.code, y.code))))

    def acct(self, a):
        return self.k.state_mod.get_account(self.st, a)


def prices(cx, k, fork, kind):
    """(base fee, price fields, effective price); built from non-negative parts so that every combination is covered without products in the
    assumptions"""
    from oracle.forks import ge
    if not ge(fork, "london"):
        price = cx.uint("price", 2**64 - 1)
        return k.Uint(0), dict(gas_price=price), int(price)
    base = cx.uint("basefee", 2**64 - 1)
    if kind in ("legacy", "access"):
        price = int(base) + cx.int("above", 0, 2**64)
        return base, dict(gas_price=k.Uint(price)), price
    if cx.flag("capped"):      # price reaches its cap before the priority fee is used up
        above = cx.int("above", 0, 2**64)
        price = int(base) + above
        more = cx.int("more", 0, 2**64)
        cx.assume(more <= int(base))
        prio = above + more
        eff = price
    else:
        prio = cx.int("prio", 0, 2**64)
        eff = int(base) + prio
        price = eff + cx.int("spare", 0, 2**64)
    return base, dict(max_fee_per_gas=k.Uint(price), max_priority_fee_per_gas=k.Uint(prio)), eff


def need(cx, fork, kind, size, create=False):
    from props.c18 import spec
    return spec(cx, fork, kind, [0xFF] * size, create, (), 1 if kind == "setcode" else 0)


def blobs(k, kind):
    return (k.Bytes32(b"\x01" + bytes(31)),) if kind == "blob" else ()


def most(cx, a, b):
    return b if a < b else a


def least(cx, a, b):
    return a if a < b else b


def used_of(cx, fork, gas, left, refund, floor):
    from oracle.forks import ge
    before = gas - left
    after = before - least(cx, before // (5 if ge(fork, "london") else 2), refund)
    return most(cx, after, floor)


def h_pay(cx, fork, kind, size):
    from oracle import txs
    from oracle.forks import ge
    from props.c18 import type_of
    from props.c19 import exponential
    sc = Scene(cx, fork, kind)
    k, s, A = sc.k, sc.k.state_mod, sc.A
    sc.opaque_encoding()
    base, pr, eff = prices(cx, k, fork, kind)
    intrinsic, floor = need(cx, fork, kind, size)
    left, spent = cx.uint("left", 2**40), cx.int("spent", 0, 2**40)
    gas = k.Uint(intrinsic + spent + int(left))
    if floor > intrinsic:
        cx.assume(int(gas) >= floor)
    if ge(fork, "osaka"):
        cx.assume(int(gas) <= 2**24)
    refund = cx.int("refund", 0, 2**40)
    value = cx.u256("value", 0, 2**200)
    nonce = cx.uint("nonce", 2**64 - 2)
    slack = cx.int("slack", 0, 2**250)
    excess = cx.choice("excess", [0, 10**7]) if kind == "blob" else 0
    bprice = exponential(1, excess, 5007716 if ge(fork, "prague") else 3338477)
    bmax = bprice + cx.int("bmax", 0, 2**64) if kind == "blob" else 0
    blob_fee = 131072 * bprice if kind == "blob" else 0
    price = int(pr.get("gas_price", pr.get("max_fee_per_gas")))
    bal = k.U256(int(gas) * price + int(value) + 131072 * bmax + slack)
    C = k.addr(0xC0)
    coin = cx.u256("coin", 1, 2**200)
    after = cx.u256("after", 0, 2**250)

    def call(message):
        a = sc.acct(A)
        cx.check("gas bought up front", int(a.balance) == int(bal) - int(gas) * eff - blob_fee)
        cx.check("nonce increased", int(a.nonce) == int(nonce) + 1)
        cx.check("gas for execution", int(message.gas) == int(gas) - intrinsic)
        cx.check("gas price", int(message.tx_env.gas_price) == eff)
        cx.check("value", int(message.value) == int(value))
        s.set_account_balance(sc.st, A, after)
        s.set_account(sc.st, C, k.types.Account(nonce=k.Uint(1), balance=coin, code=b""))
        return sc.output(gas_left=left, refund_counter=k.U256(refund))
    sc.prepare(k.types.Account(nonce=nonce, balance=bal, code=b""), call)
    sc.watch = [A, C]
    used0 = cx.uint("used0", 2**40)
    be = k.block_env(sc.st, coinbase=C, base_fee_per_gas=base, block_gas_limit=k.Uint(2**42), excess_blob_gas=k.U64(excess))
    bo = k.vm.BlockOutput()
    bo.block_gas_used = used0
    b0 = 0
    if ge(fork, "cancun"):
        b0 = cx.int("blobs0", 0, 5)
        bo.blob_gas_used = k.U64(131072 * b0)
    N = type_of(k, kind, "nonce")
    tx = txs.make(k, kind, nonce=N(int(nonce)), gas=gas, value=value, data=b"\xff" * size, blob_versioned_hashes=blobs(k, kind),
                  max_fee_per_blob_gas=k.U256(bmax), authorizations=(txs.authorization(k),) if kind == "setcode" else (), **pr)
    sc.run(be, bo, tx)
    used = used_of(cx, fork, int(gas), int(left), refund, floor)
    a, c = sc.acct(A), sc.acct(C)
    cx.check("unused gas returned", int(a.balance) == int(after) + (int(gas) - used) * eff)
    cx.check("nonce kept", int(a.nonce) == int(nonce) + 1)
    cx.check("coinbase paid", int(c.balance) == int(coin) + used * (eff - int(base)))
    cx.check("coinbase nonce", int(c.nonce) == 1)
    cx.check("gas of the block", int(bo.block_gas_used) == int(used0) + used)
    if ge(fork, "cancun"):
        cx.check("blob gas of the block", int(bo.blob_gas_used) == 131072 * (b0 + (1 if kind == "blob" else 0)))
    cx.observe("used", bo.block_gas_used)
    cx.observe("balance", a.balance)
    cx.observe("coin", c.balance)


def h_coinbase(cx, fork, kind, coinbase):
    from oracle import txs
    from oracle.forks import ge, lt
    from props.c18 import type_of
    sc = Scene(cx, fork, kind)
    k, s, A = sc.k, sc.k.state_mod, sc.A
    sc.opaque_encoding()
    C = A if coinbase == "sender" else k.addr(0xC0)
    D, E, F = k.addr(0xD0), k.addr(0xE0), k.addr(0xF0)
    base = k.Uint(7 if ge(fork, "london") else 0)
    tip = cx.uint("tip", 2**32)
    intrinsic, floor = need(cx, fork, kind, 0)
    gas = k.Uint(100000)
    left = cx.uint("left", 100000 - max(intrinsic, floor))
    bal = cx.u256("balance", 2**128, 2**250)
    coin = cx.u256("coin", 1, 2**250)
    free = cx.flag("deletes coinbase too") if coinbase == "funded" else coinbase == "deleted"
    Acc = k.types.Account

    def call(message):
        if coinbase in ("funded", "deleted"):
            s.set_account(sc.st, C, Acc(nonce=k.Uint(0), balance=coin, code=b""))
        elif coinbase == "empty":
            s.set_account(sc.st, C, k.account())
        s.set_account(sc.st, D, k.account(1, 5, b"\x01"))
        s.set_storage(sc.st, D, k.Bytes32(bytes(32)), k.U256(5))
        if lt(fork, "paris"):
            s.set_account(sc.st, E, k.account())
        s.set_account(sc.st, F, k.account(0, 1))
        gone = {D, C} if coinbase == "deleted" else {D}
        touched = {E, F}
        return sc.output(gas_left=left, accounts_to_delete=gone, touched_accounts=touched)
    sc.prepare(Acc(nonce=k.Uint(3), balance=bal, code=b""), call)
    sc.watch = [A, C, D, E, F]
    be = k.block_env(sc.st, coinbase=C, base_fee_per_gas=base)
    bo = k.vm.BlockOutput()
    N = type_of(k, kind, "nonce")
    price = k.Uint(int(base) + int(tip))
    tx = txs.make(k, kind, nonce=N(3), gas=gas, gas_price=price, max_fee_per_gas=k.Uint(int(price) + 5), max_priority_fee_per_gas=tip,
                  blob_versioned_hashes=blobs(k, kind), max_fee_per_blob_gas=k.U256(1),
                  authorizations=(txs.authorization(k),) if kind == "setcode" else ())
    sc.run(be, bo, tx)
    used = most(cx, 100000 - int(left), floor)
    fee = used * int(tip)
    if coinbase == "sender":
        blob = 131072 if kind == "blob" else 0
        cx.check("own coinbase", int(sc.acct(A).balance) == int(bal) - used * int(price) - blob + fee)
    else:
        start = int(coin) if coinbase == "funded" else 0
        if coinbase == "deleted":
            cx.check("deleted after payment", s.get_account_optional(sc.st, C) is None)
        else:
            cx.check("coinbase paid", int(sc.acct(C).balance) == start + fee)
            exists = s.get_account_optional(sc.st, C) is not None
            if lt(fork, "spurious_dragon"):
                cx.check("coinbase exists", exists)
            else:
                cx.check("coinbase exists only with balance", exists == bool(start + fee != 0))
    cx.check("scheduled account deleted", s.get_account_optional(sc.st, D) is None)
    cx.check("and its storage", int(s.get_storage(sc.st, D, k.Bytes32(bytes(32)))) == 0)
    if lt(fork, "paris"):
        cx.check("touched empty account", (s.get_account_optional(sc.st, E) is None) == touches(fork))
    cx.check("other account stays", int(sc.acct(F).balance) == 1)


LISTS = [(), (0,), (2, 1), (0, 3, 1)]


def h_message(cx, fork, kind):
    from oracle import txs, rlp
    from oracle.forks import ge
    from props.c18 import type_of, spec
    sc = Scene(cx, fork, kind)
    k, s, A = sc.k, sc.k.state_mod, sc.A
    create = kind not in ("blob", "setcode") and cx.flag("create")
    shape = cx.choice("shape", LISTS) if kind != "legacy" else ()
    al = []
    for i, n in enumerate(shape):
        a = A if i == 1 else cx.address("a%d" % i, 2**32)
        al.append((a, [cx.bytes32("s%d" % i) if j == 0 and i != 1 else k.Bytes32(bytes([j]) * 32) for j in range(n)]))
    to = cx.address("to", 2**32)
    cx.assume(cx.not_(cx.eq(to, A)))
    data = b"\x60\x00\x01"
    code = cx.bytesn("code", 2) if not create and cx.flag("callee") else b""
    if len(code):
        s.set_account(sc.st, to, k.types.Account(nonce=k.Uint(1), balance=k.U256(1), code=code))
    N = type_of(k, kind, "nonce")
    auths = (txs.authorization(k, nonce=k.U64(9)),) if kind == "setcode" else ()
    C = k.addr(0xC0)
    value = k.U256(0x1234)
    out = sc.output(gas_left=k.Uint(0))
    sc.prepare(k.account(0x80, 10**30), lambda m: out)
    be = k.block_env(sc.st, coinbase=C)
    bo = k.vm.BlockOutput()
    gas = 0x030201
    tx = txs.make(k, kind, nonce=N(0x80), gas=k.Uint(gas), value=value, data=data, to=k.Bytes0(b"") if create else to,
                  access_list=tuple(txs.access(k, a, ss) for a, ss in al), blob_versioned_hashes=blobs(k, kind), authorizations=auths,
                  chain_id=k.U64(1))
    sc.run(be, bo, tx, 5)
    m = sc.calls[0]
    t = m.tx_env
    intrinsic = spec(cx, fork, kind, list(data), create, shape, len(auths))[0]
    want_to = to
    if create:
        want_to = cx.keccak(rlp.seq([rlp.string(bytes(A)), rlp.uint(0x80)]))[12:]
        cx.check("no recipient", len(m.target) == 0)
        cx.check("no code address", m.code_address is None)
    else:
        cx.check_eq("recipient", m.target, to)
        cx.check_eq("code address", m.code_address, to)
    cx.check_eq("executing contract", m.current_target, want_to)
    cx.check_eq("caller", m.caller, A)
    cx.check_eq("origin", t.origin, A)
    cx.check("gas", int(m.gas) == gas - intrinsic)
    cx.check("value", int(m.value) == 0x1234)
    cx.check_eq("data", m.data, b"" if create else data)
    cx.check_eq("code", m.code, data if create else code)
    cx.check("depth", int(m.depth) == 0)
    if hasattr(m, "should_transfer_value"):
        cx.check("moves value", m.should_transfer_value == True)  # noqa: E712
    if hasattr(m, "is_static"):
        cx.check("not static", not m.is_static)
    if hasattr(m, "disable_precompiles"):
        cx.check("precompiles on", not m.disable_precompiles)
    cx.check("no parent", m.parent_evm is None)
    cx.check("block", m.block_env is be)
    cx.check("position", int(t.index_in_block) == 5)
    if ge(fork, "cancun"):
        cx.check_eq("blob hashes", tuple(t.blob_versioned_hashes), blobs(k, kind))
        cx.check("fresh transient storage", len(t.transient_storage._tries) == 0)
    if ge(fork, "prague"):
        cx.check("authorizations", tuple(t.authorizations) == tuple(auths) if not auths else t.authorizations[0] is auths[0] and len(t.authorizations) == 1)
    # payload hash
    enc = txs.network(kind, tx)
    cx.check_eq("transaction hash", t.tx_hash, cx.keccak(enc))
    got = k.m("trie").trie_get(bo.transactions_trie, rlp.uint(5))
    if kind == "legacy":
        cx.check("transaction recorded", got is tx)
    else:
        cx.check_eq("transaction recorded", got, enc)
    if not ge(fork, "berlin"):
        return
    n = 9 if ge(fork, "berlin") else 0
    if ge(fork, "cancun"):
        n = 10
    if ge(fork, "prague"):
        n = 17
    warm = [A, want_to] + [k.addr(i) for i in range(1, n + 1)] + [a for a, _ in al]
    if ge(fork, "osaka"):
        warm.append(k.addr(0x100))
    if ge(fork, "shanghai"):
        warm.append(C)
    for x in warm:
        cx.check("warm from the start", x in m.accessed_addresses)
    slots = [(a, q) for a, ss in al for q in ss]
    for x in slots:
        cx.check("warm slot from the start", x in m.accessed_storage_keys)
    for x in m.accessed_addresses:
        cx.check("nothing else warm", cx.or_(*[cx.eq(x, w) for w in warm]))
    for x in m.accessed_storage_keys:
        cx.check("no other slot warm", cx.or_(*[cx.eq(x, w) for w in slots]) if slots else False)


def bloom(cx, logs):
    bits = 0
    for lg in logs:
        for item in (lg.address,) + tuple(lg.topics):
            h = cx.keccak(item)
            for i in (0, 2, 4):
                bits |= 1 << (((int(h[i]) << 8) | int(h[i + 1])) & 2047)
    return bits.to_bytes(256, "big")


def h_output(cx, fork, kind):
    from oracle import txs, rlp
    from oracle.forks import ge
    from props.c18 import type_of
    sc = Scene(cx, fork, kind)
    k, s, A = sc.k, sc.k.state_mod, sc.A
    sc.opaque_encoding(False)
    Log = k.m("blocks").Log
    old = Log(address=k.addr(1), topics=(), data=b"")
    logs = tuple(Log(address=k.addr(0x10 + i), topics=(k.Bytes32(bytes([i + 1]) * 32),) * i, data=cx.bytesn("d%d" % i, i * 2))
                 for i in range(cx.choice("logs", [0, 2])))
    error = k.m("vm.exceptions").OutOfGasError() if cx.flag("failed") else None
    left = cx.uint("left", 1000)
    out = sc.output(gas_left=left, logs=logs, error=error)
    sc.prepare(k.account(3, 10**30), lambda m: out)
    index = cx.choice("index", [0, 1, 127, 128, 300])
    used0 = cx.uint("used0", 20000, 2000)
    be = k.block_env(sc.st)
    bo = k.vm.BlockOutput()
    bo.block_gas_used = used0
    bo.receipt_keys = (b"before",)
    bo.block_logs = (old,)
    N = type_of(k, kind, "nonce")
    tx = txs.make(k, kind, nonce=N(3), gas=k.Uint(100000), blob_versioned_hashes=blobs(k, kind),
                  authorizations=(txs.authorization(k),) if kind == "setcode" else ())
    sc.run(be, bo, tx, index)
    cum = int(used0) + 100000 - int(left)
    key = rlp.uint(index)
    cx.check("one receipt key", len(bo.receipt_keys) == 2)
    cx.check_eq("earlier receipt key", bo.receipt_keys[0], b"before")
    cx.check_eq("receipt key", bo.receipt_keys[1], key)
    cx.check("logs of the block", len(bo.block_logs) == 1 + len(logs) and bo.block_logs[0] is old)
    for x, y in zip(bo.block_logs[1:], logs):
        cx.check_eq("log of the block", x, y)
    got = k.m("trie").trie_get(bo.receipts_trie, key)
    bl = bloom(cx, logs)
    if kind == "legacy":
        if ge(fork, "byzantium"):
            cx.check("status", bool(got.succeeded) == (error is None))
        else:
            cx.check_eq("state root", got.post_state, sc.root)
        cx.check("cumulative gas", int(got.cumulative_gas_used) == cum)
        cx.check_eq("bloom", got.bloom, bl)
        cx.check_eq("logs", tuple(got.logs), logs)
    else:
        body = [rlp.uint(0 if error is not None else 1), rlp.uint(cum), rlp.string(bl),
                rlp.seq([rlp.seq([rlp.string(x.address), rlp.seq([rlp.string(t) for t in x.topics]), rlp.string(x.data)]) for x in logs])]
        cx.check_eq("receipt", got, bytes([txs.BYTE[kind]]) + rlp.seq(body))
    t = k.m("trie").trie_get(bo.transactions_trie, key)
    if kind == "legacy" and not ge(fork, "berlin"):
        cx.check("transaction under its index", t is tx)
    else:
        cx.check_eq("transaction under its index", t, b"\x02marker")
    cx.observe("cum", bo.block_gas_used)
