"""C40: hexadecimal text and JSON fixtures."""

ENCODED = ["ethereum.utils.hexadecimal: every function", "utils.hexadecimal of every fork: hex_to_root, hex_to_address",
           "evm_tools.loaders.fixture_loader.Load: json_to_state, json_to_header, json_to_withdrawals",
           "evm_tools.loaders.transaction_loader.TransactionLoad: read and the json_to_* readers", "evm_tools.loaders.fork_loader.ForkLoad",
           "evm_tools.utils.parse_hex_or_int"]
BOUNDS = ("text of a fixed number of free hexadecimal digits (h_hex: 0 to 8, and about each of 16, 20, 32, 40, 64 and 512 digits, as the function needs), with and without 0x, in "
          "lower and upper case, with at most one character that is no digit; h_state: two accounts (equal or distinct addresses of 39 and 40 digits), any nonce "
          "(16 digits), balance (64 digits), code of 0, 1 or 40 bytes, one or two storage entries of any key and value; h_header and h_transaction: every digit of every "
          "field free, byte strings of 0 to 32 bytes, access lists of 0 to 2 entries of 0 to 2 keys, 0 to 2 blob hashes and authorizations")
ASSUMPTIONS = ["digits of one text are all in lower or all in upper case"]

BAD = "g"


def jobs(tier):
    from oracle.forks import FORKS
    from oracle import txs
    q = tier == "quick"
    out = []
    for fn, sizes in PLAIN.items():
        for n in sizes if q else sorted(set(list(sizes) + list(range(0, 20)) + list(range(60, 68)))):
            out.append({"harness": "h_hex", "params": {"fork": "frontier", "fn": fn, "digits": n}})
    for f in FORKS:
        for fn, sizes in (("hex_to_root", (0, 1, 63, 64, 65, 66)), ("hex_to_address", (0, 1, 2, 39, 40, 41, 42))):
            for n in sizes:
                out.append({"harness": "h_hex", "params": {"fork": f, "fn": fn, "digits": n}})
        out.append({"harness": "h_state", "params": {"fork": f}})
        out.append({"harness": "h_header", "params": {"fork": f}})
        if f in FORKS[FORKS.index("shanghai"):]:
            out.append({"harness": "h_withdrawal", "params": {"fork": f}})
        for kind in txs.kinds(f):
            out.append({"harness": "h_transaction", "params": {"fork": f, "kind": kind}})
    for n in (1, 2, 16, 17, 64, 65):
        out.append({"harness": "h_number", "params": {"fork": "frontier", "digits": n}})
    return out


SMALL = tuple(range(9))
PLAIN = {
    "hex_to_bytes": SMALL + (63, 64, 200), "hex_to_bytes8": SMALL + (15, 16, 17, 18), "hex_to_bytes32": SMALL + (63, 64, 65, 66),
    "hex_to_bytes256": (0, 1, 2, 511, 512, 513, 514), "hex_to_hash": (0, 1, 62, 63, 64, 65, 66),
    "hex_to_uint": SMALL + (16, 17, 64, 65, 70), "hex_to_u8": SMALL, "hex_to_u64": SMALL + (15, 16, 17, 18),
    "hex_to_u256": SMALL + (63, 64, 65, 66),
}
# width in bytes, left padding, (or) bits
WIDTH = {"hex_to_bytes": (None, False), "hex_to_bytes8": (8, True), "hex_to_bytes32": (32, True), "hex_to_bytes256": (256, True),
         "hex_to_hash": (32, False), "hex_to_root": (32, False), "hex_to_address": (20, True)}
BITS = {"hex_to_uint": None, "hex_to_u8": 8, "hex_to_u64": 64, "hex_to_u256": 256}
TYPE = {"hex_to_bytes8": "Bytes8", "hex_to_bytes32": "Bytes32", "hex_to_bytes256": "Bytes256", "hex_to_hash": "Bytes32", "hex_to_root": "Bytes32",
        "hex_to_address": "Bytes20", "hex_to_uint": "Uint", "hex_to_u8": "U8", "hex_to_u64": "U64", "hex_to_u256": "U256"}


def h_hex(cx, fork, fn, digits):
    m = cx.load("ethereum.%s.utils.hexadecimal" % fork if fn in ("hex_to_root", "hex_to_address") else "ethereum.utils.hexadecimal")
    prefix = cx.choice("prefix", ["0x", ""])
    text, v = cx.hextext("digits", digits, prefix, cx.flag("upper"))
    broken = digits > 0 and cx.flag("no digit")
    if broken:
        at = len(prefix) + cx.choice("place", [0, digits - 1])
        text = text[:at] + BAD + text[at + 1:]
    elif fn == "hex_to_uint" and digits:
        u = cx.load("ethereum.utils.hexadecimal")
        cx.check("prefix seen", u.has_hex_prefix(text) == (prefix == "0x"))
        bare = u.remove_hex_prefix(text)
        cx.check("prefix removed", bare == (text[2:] if prefix else text))
    how, got = cx.attempt(getattr(m, fn), text)
    cx.observe("outcome", how)
    if fn in BITS:
        bits = BITS[fn]
        ok = cx.and_(digits > 0 and not broken, True if bits is None else v < 2**bits)
        if cx.symbolic:
            ok = bool(ok)
        cx.check("accepted exactly when in range", (how == "ok") == ok)
        if not ok:
            cx.check("error", isinstance(got, OverflowError if digits and not broken else ValueError))
            return
        cx.check_eq("value", int(got), v)
    else:
        width, pad = WIDTH[fn]
        n = max(digits, 2 * width) if pad else digits
        ok = not broken and n % 2 == 0 and (width is None or n == 2 * width)
        cx.check("accepted exactly when well formed", (how == "ok") == ok)
        if not ok:
            cx.check("error", isinstance(got, ValueError))
            return
        size = n // 2
        cx.check("length", len(got) == size)
        cx.check_eq("value", got, v.to_bytes(size, "big") if size else b"")
        cx.observe("value", got)
    if fn in TYPE:
        t = TYPE[fn]
        cx.check("type", isinstance(got, getattr(cx.load("ethereum_types.bytes" if t.startswith("B") else "ethereum_types.numeric"), t)))


def h_number(cx, fork, digits):
    u = cx.load("ethereum_spec_tools.evm_tools.utils")
    n = cx.num()
    text, v = cx.hextext("digits", digits)
    for t, bits in ((n.Uint, None), (n.U64, 64), (n.U256, 256)):
        how, got = cx.attempt(u.parse_hex_or_int, text, t)
        ok = bool(True if bits is None else v < 2**bits)
        cx.check("in range", (how == "ok") == ok)
        if ok:
            cx.check("type", isinstance(got, t))
            cx.check_eq("value", int(got), v)
    w = cx.int("number", 0, 2**64 - 1)
    for t in (n.Uint, n.U64, n.U256):
        cx.check_eq("a number", int(u.parse_hex_or_int(w, t)), w)
    for t in ("0", "12", "0x", "18446744073709551615"):
        how, got = cx.attempt(u.parse_hex_or_int, t, n.U64)
        cx.check("decimal", how == "exc" if t == "0x" else int(got) == int(t))


def loader(cx, fork):
    return cx.load("ethereum_spec_tools.evm_tools.loaders.fixture_loader").Load("".join(x.title() for x in fork.split("_")), fork)


def raw(cx, name, n):
    """text of n bytes and the bytes"""
    text, v = cx.hextext(name, 2 * n)
    return text, v.to_bytes(n, "big") if n else b""


def h_state(cx, fork):
    from oracle.kit import Kit
    from oracle.forks import ge
    k = Kit(cx, fork)
    sm = k.state_mod
    alloc, expect = {}, []
    addrs = [cx.hextext("address0", 40), cx.hextext("address1", 39)]
    two = cx.flag("two")
    nothing = False
    for i, (text, a) in enumerate(addrs[:2 if two else 1]):
        j = {}
        n = b = 0
        code = b""
        store = []
        if i == 1 or cx.flag("full"):
            t, n = cx.hextext("nonce%d" % i, 16)
            j["nonce"] = t
            t, b = cx.hextext("balance%d" % i, 64)
            j["balance"] = t
            if i == 0:
                j["code"], code = raw(cx, "code%d" % i, cx.choice("code size", [0, 1, 40]))
            st = {}
            for s in range(cx.choice("slots", [0, 1, 2]) if i == 0 else 1):
                kt, key = cx.hextext("key%d%d" % (i, s), 64 if s == 0 else 5)
                vt, val = cx.hextext("value%d%d" % (i, s), 64 if s == 0 else 2)
                st[kt] = vt
                store.append((key, val))
            j["storage"] = st
        alloc[text] = j
        if ge(fork, "paris") and bool(cx.and_(n == 0, b == 0, len(code) == 0)):
            nothing = True
        expect.append((a, n, b, code, store))
    how, st = cx.attempt(loader(cx, fork).json_to_state, alloc)
    cx.observe("outcome", how)
    cx.check("empty accounts refused from the merge on", (how == "exc") == nothing)
    if nothing:
        cx.check("by name", isinstance(st, cx.load("ethereum.exceptions").StateWithEmptyAccount))
        return
    final, slots = [], []
    for a, n, b, code, store in expect:
        final = [x for x in final if not bool(x[0] == a)] + [(a, n, b, code)]
        for key, val in store:
            slots = [x for x in slots if not bool(cx.and_(x[0] == a, x[1] == key))] + [(a, key, val)]
    for a, n, b, code in final:
        acc = sm.get_account_optional(st, k.Bytes20(a.to_bytes(20, "big")))
        cx.check("account there", acc is not None)
        cx.check_eq("nonce", int(acc.nonce), n)
        cx.check_eq("balance", int(acc.balance), b)
        cx.check_eq("code", acc.code, code)
    for a, key, val in slots:
        cx.check_eq("slot", int(sm.get_storage(st, k.Bytes20(a.to_bytes(20, "big")), k.Bytes32(key.to_bytes(32, "big")))), val)
    cx.check("no other account", len(st._main_trie._data) == len(final))
    cx.check("no other slot", sum(len(t._data) for t in st._storage_tries.values()) == sum(1 for x in slots if not bool(x[2] == 0)))


HEADER = [("parent_hash", ("parentHash",), "B32"), ("ommers_hash", ("uncleHash", "sha3Uncles"), "B32"), ("coinbase", ("coinbase", "miner"), "B20"),
          ("state_root", ("stateRoot",), "B32"), ("transactions_root", ("transactionsTrie", "transactionsRoot"), "B32"),
          ("receipt_root", ("receiptTrie", "receiptsRoot"), "B32"), ("bloom", ("bloom", "logsBloom"), "B256"), ("difficulty", ("difficulty",), "N64"),
          ("number", ("number",), "N16"), ("gas_limit", ("gasLimit",), "N16"), ("gas_used", ("gasUsed",), "N9"), ("timestamp", ("timestamp",), "N64"),
          ("extra_data", ("extraData",), "V"), ("mix_digest", ("mixHash",), "B32"), ("prev_randao", ("mixHash",), "B32"), ("nonce", ("nonce",), "B8"),
          ("base_fee_per_gas", ("baseFeePerGas",), "N16"), ("withdrawals_root", ("withdrawalsRoot",), "B32"), ("blob_gas_used", ("blobGasUsed",), "N16"),
          ("excess_blob_gas", ("excessBlobGas",), "N16"), ("parent_beacon_block_root", ("parentBeaconBlockRoot",), "B32"),
          ("requests_hash", ("requestsHash",), "B32")]


def h_header(cx, fork):
    import dataclasses
    H = cx.load("ethereum.%s.blocks" % fork).Header
    names = [f.name for f in dataclasses.fields(H)]
    alt = cx.flag("other names")
    j, want = {}, {}
    for name, keys, kind in HEADER:
        if name not in names:
            continue
        key = keys[-1 if alt else 0]
        if kind[0] == "N":
            j[key], want[name] = cx.hextext(name, int(kind[1:]))
        else:
            j[key], want[name] = raw(cx, name, cx.choice("extra", [0, 1, 32]) if kind == "V" else int(kind[1:]))
    cx.check("every field of the fork known", set(want) == set(names))
    h = loader(cx, fork).json_to_header(j)
    cx.check("type", isinstance(h, H))
    for name in names:
        v = getattr(h, name)
        cx.check_eq(name, v if not hasattr(v, "_number") else int(v), want[name])
    cx.observe("number", h.number)


def h_withdrawal(cx, fork):
    j, want = {}, {}
    for key, n in (("index", 16), ("validatorIndex", 16), ("address", 40), ("amount", 64)):
        j[key], want[key] = cx.hextext(key, n)
    w = loader(cx, fork).json_to_withdrawals(j)
    cx.check_eq("index", int(w.index), want["index"])
    cx.check_eq("validator", int(w.validator_index), want["validatorIndex"])
    cx.check_eq("address", w.address, want["address"].to_bytes(20, "big"))
    cx.check_eq("amount", int(w.amount), want["amount"])
    cx.observe("amount", w.amount)


TX = {"nonce": ("nonce", 16), "gas_price": ("gasPrice", 20), "max_priority_fee_per_gas": ("maxPriorityFeePerGas", 20), "max_fee_per_gas": ("maxFeePerGas", 20),
      "gas": ("gasLimit", 16), "value": ("value", 64), "max_fee_per_blob_gas": ("maxFeePerBlobGas", 64), "v": ("v", 2), "y_parity": ("v", 2), "r": ("r", 64), "s": ("s", 64)}


def h_transaction(cx, fork, kind):
    import dataclasses
    from oracle.kit import Kit
    from oracle import txs
    k = Kit(cx, fork)
    m = k.m("transactions")
    cls = (getattr(m, "LegacyTransaction", None) or m.Transaction) if kind == "legacy" else getattr(m, txs.CLASS[kind])
    names = [f.name for f in dataclasses.fields(cls)]
    shape = cx.choice("shape", [0, 1, 2])
    j, want = {}, {}
    named = shape != 1
    for name in names:
        if name in TX:
            key, n = TX[name]
            j[key], want[name] = cx.hextext(name, n)
    if "y_parity" in names and shape == 2:
        j["y_parity"] = j["v"]
        j["v"] = "0x99"
    if shape == 1:
        j["value"], want["value"] = "0x", 0
        j["to"], want["to"] = "", b""
    else:
        j["to"], want["to"] = raw(cx, "to", 20)
    j["data"], want["data"] = raw(cx, "data", (0, 1, 32)[shape])
    if kind != "legacy":
        if shape == 1:
            want["chain_id"] = 1
        else:
            j["chainId"], want["chain_id"] = cx.hextext("chain", 16)
    if "access_list" in names:
        lists = []
        j["accessList"] = []
        for i in range(shape):
            t, a = raw(cx, "listed%d" % i, 20)
            keys = [raw(cx, "slot%d%d" % (i, s), 32) for s in range(2 - i)]
            j["accessList"].append({"address": t, "storageKeys": [x[0] for x in keys]})
            lists.append((a, [x[1] for x in keys]))
        want["access_list"] = lists
    if "blob_versioned_hashes" in names:
        hs = [raw(cx, "blob%d" % i, 32) for i in range(shape)]
        j["blobVersionedHashes"] = [x[0] for x in hs]
        want["blob_versioned_hashes"] = [x[1] for x in hs]
    if "authorizations" in names:
        j["authorizationList"], auths = [], []
        for i in range(shape):
            e, w = {}, {}
            for key, n in (("chainId", 64), ("nonce", 16), ("address", 40), ("v", 2), ("r", 64), ("s", 64)):
                e[key], w[key] = cx.hextext("%s%d" % (key, i), n)
            j["authorizationList"].append(e)
            auths.append(w)
        want["authorizations"] = auths
    if named and shape == 0:
        j["type"] = {"legacy": "0x0", "access": "0x1", "fee": "0x2", "blob": "0x3", "setcode": "0x4"}[kind]
    cx.check("every field known", set(want) == set(names))
    L = cx.load("ethereum_spec_tools.evm_tools.loaders.transaction_loader")
    F = cx.load("ethereum_spec_tools.evm_tools.loaders.fork_loader")
    tx = L.TransactionLoad(j, F.ForkLoad(fork)).read()
    cx.check("type", isinstance(tx, cls))
    for name in names:
        v, w = getattr(tx, name), want[name]
        if name == "access_list":
            cx.check("as many entries", len(v) == len(w))
            for e, (a, keys) in zip(v, w):
                cx.check_eq("listed account", e.account, a)
                cx.check("as many keys", len(e.slots) == len(keys))
                for x, y in zip(e.slots, keys):
                    cx.check_eq("listed key", x, y)
        elif name == "blob_versioned_hashes":
            cx.check("as many blobs", len(v) == len(w))
            for x, y in zip(v, w):
                cx.check_eq("blob hash", x, y)
        elif name == "authorizations":
            cx.check("as many authorizations", len(v) == len(w))
            for x, y in zip(v, w):
                for at, key in (("chain_id", "chainId"), ("nonce", "nonce"), ("y_parity", "v"), ("r", "r"), ("s", "s")):
                    cx.check_eq("authorization " + at, int(getattr(x, at)), y[key])
                cx.check_eq("authorization address", x.address, y["address"].to_bytes(20, "big"))
        else:
            cx.check_eq(name, int(v) if hasattr(v, "_number") else v, w)
    cx.observe("nonce", tx.nonce)
