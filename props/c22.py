"""C22: typed transaction and receipt encodings."""

ENCODED = ["transactions.encode_transaction/decode_transaction/get_transaction_hash", "blocks.encode_receipt/decode_receipt",
           "fork.make_receipt", "rlp encoding and decoding of the transaction and receipt types (ethereum_rlp)"]
BOUNDS = ("h_transaction: every value of one field (whole range) of each type at a time, other fields distinct; h_unknown: every first byte; h_receipt: "
          "every cumulative gas below 2^64, succeeded or not, state root, up to two logs of symbolic address, up to two topics and two data bytes")
ASSUMPTIONS = ["the bloom filter is replaced by an arbitrary one (C31)"]


def jobs(tier):
    from oracle.forks import FORKS, since
    from oracle.txs import kinds
    out = []
    for f in FORKS:
        for kd in kinds(f):
            out.append({"harness": "h_transaction", "params": {"fork": f, "kind": kd}, "weight": 3, "max_paths": 8000})
            out.append({"harness": "h_receipt", "params": {"fork": f, "kind": kd}, "weight": 1})
    for f in since("berlin"):
        out.append({"harness": "h_unknown", "params": {"fork": f}})
    return out


def h_transaction(cx, fork, kind):
    from oracle.kit import Kit
    from oracle.forks import ge
    from oracle import txs
    from props.c21 import numbers, vs, FIELDS
    import dataclasses
    k = Kit(cx, fork)
    m = k.m("transactions")
    d = numbers(kind, k)
    d.update(v=k.U256(0x25), y_parity=k.U256(1))
    extra = ["v", "r", "s"] if kind == "legacy" else ["y_parity", "r", "s"]
    field = cx.choice("field", [x for x in FIELDS[kind] if x != "chain"] + extra)
    vs(cx, k, kind, field, True, d)
    tx = txs.make(k, kind, **d)
    want = txs.network(kind, tx)
    if not ge(fork, "berlin"):
        cx.check_eq("hash", m.get_transaction_hash(tx), cx.keccak(want))
        return
    enc = m.encode_transaction(tx)
    if kind == "legacy":
        cx.check("legacy unchanged", enc is tx)
        cx.check("decodes to itself", m.decode_transaction(tx) is tx)
        cx.check_eq("hash", m.get_transaction_hash(enc), cx.keccak(want))
        return
    cx.check_eq("encoding", enc, want)
    cx.check_eq("hash", m.get_transaction_hash(enc), cx.keccak(want))
    cx.observe("encoding", enc)
    kd, back = cx.attempt(m.decode_transaction, want)
    cx.check("decodes", kd == "ok", back)
    cx.check("type", type(back) is type(tx))
    for f in dataclasses.fields(tx):
        a, b = getattr(back, f.name), getattr(tx, f.name)
        if isinstance(b, tuple):
            cx.check("length of " + f.name, len(a) == len(b))
            for x, y in zip(a, b):
                cx.check_eq("entry of " + f.name, x, y)
                cx.check("entry type of " + f.name, type(x) is type(y))
        else:
            cx.check_eq(f.name, a, b)


def h_unknown(cx, fork):
    from oracle.kit import Kit
    from oracle import txs
    k = Kit(cx, fork)
    m = k.m("transactions")
    known = [txs.BYTE[x] for x in txs.kinds(fork) if x != "legacy"]
    t = cx.int("type", 0, 255)
    cx.assume(cx.and_(*[t != x for x in known]))
    tail = cx.choice("tail", [b"", b"\xc0", b"\xc1\x80"])
    kd, e = cx.attempt(m.decode_transaction, t.to_bytes(1, "big") + tail)
    cx.check("unknown type rejected", kd == "exc" and isinstance(e, k.m("exceptions").TransactionTypeError), e)
    cx.check("names the type", int(e.transaction_type) == t)


def h_receipt(cx, fork, kind):
    from oracle.kit import Kit
    from oracle.forks import ge
    from oracle import txs, rlp
    k = Kit(cx, fork)
    b, fk = k.m("blocks"), k.m("fork")
    d = {} if kind == "legacy" else dict(chain_id=k.U64(1))
    tx = txs.make(k, kind, authorizations=(txs.authorization(k),) if kind == "setcode" else (), **d)
    logs = []
    for i in range(cx.choice("logs", [0, 1, 2])):
        logs.append(b.Log(address=cx.address("a%d" % i), topics=tuple(cx.bytes32("t%d_%d" % (i, j)) for j in range(2 - i)),
                          data=cx.bytesn("d%d" % i, 2 * i)))
    logs = tuple(logs)
    bl = k.types.Bloom(cx.bytesn("bloom", 256))
    seen = []

    def bloom(x):
        seen.append(x)
        return bl
    cx.stub(fk, "logs_bloom", bloom)
    cum = cx.uint("cum", 2**64 - 1)
    root = cx.bytes32("root")
    failed = cx.flag("failed")
    err = k.m("vm.exceptions").OutOfGasError() if failed else None
    if ge(fork, "berlin"):
        r = fk.make_receipt(tx, err, cum, logs)
    elif ge(fork, "byzantium"):
        r = fk.make_receipt(err, cum, logs)
    else:
        r = fk.make_receipt(root, cum, logs)
    cx.check("bloom of these logs", len(seen) == 1 and len(seen[0]) == len(logs) and all(x is y for x, y in zip(seen[0], logs)))
    first = rlp.uint(0 if failed else 1) if ge(fork, "byzantium") else rlp.string(root)
    want = rlp.seq([first, rlp.uint(int(cum)), rlp.string(bl), rlp.seq([
        rlp.seq([rlp.string(x.address), rlp.seq([rlp.string(t) for t in x.topics]), rlp.string(x.data)]) for x in logs])])
    if kind == "legacy":
        cx.check("legacy receipt", isinstance(r, b.Receipt))
        R = cx.load("ethereum_rlp").rlp
        cx.check_eq("fields in order", R.encode(r), want)
    else:
        cx.check_eq("typed receipt", r, txs.prefix(kind) + want)
    if not ge(fork, "berlin"):
        return
    back = b.decode_receipt(r if kind == "legacy" else txs.prefix(kind) + want)
    cx.check("succeeded", back.succeeded == (not failed))
    cx.check_eq("cumulative gas", back.cumulative_gas_used, cum)
    cx.check_eq("bloom", back.bloom, bl)
    cx.check("number of logs", len(back.logs) == len(logs))
    for x, y in zip(back.logs, logs):
        cx.check_eq("log", x, y)
