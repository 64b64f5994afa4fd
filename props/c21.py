"""C21: sender recovery."""

ENCODED = ["transactions.recover_sender/signing_hash_pre155/signing_hash_155/signing_hash_2930/signing_hash_1559/signing_hash_4844/"
           "signing_hash_7702", "crypto.elliptic_curve.secp256k1_recover", "rlp encoding of the signed payload (ethereum_rlp)"]
BOUNDS = ("h_signature: every 256-bit r, s, v or parity and every 64-bit chain id of the transaction and of the chain, over one payload per type; "
          "h_payload: every value of one number field at a time over its whole range, recipients present or not, "
          "data of 0, 1, 2, 55, 56 and 300 bytes, three access lists, up to two blob hashes and authorizations; h_recover: every 256-bit r and s "
          "in range, parity 0 and 1, every digest and recovered key")
ASSUMPTIONS = ["secp256k1_recover returns an arbitrary key or fails (h_signature, h_payload); in h_recover the native library's recovery is arbitrary, "
               "and modular exponentiation is uninterpreted, its values checked against the real one in every model"]

N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
P = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F

FIELDS = {
    "legacy": ["nonce", "gas_price", "gas", "value", "data", "to", "chain"],
    "access": ["chain_id", "nonce", "gas_price", "gas", "value", "data", "to", "access_list"],
    "fee": ["chain_id", "nonce", "max_priority_fee_per_gas", "max_fee_per_gas", "gas", "value", "data", "to", "access_list"],
    "blob": ["chain_id", "nonce", "max_priority_fee_per_gas", "max_fee_per_gas", "gas", "value", "data", "to", "access_list",
             "max_fee_per_blob_gas", "blob_versioned_hashes"],
    "setcode": ["chain_id", "nonce", "max_priority_fee_per_gas", "max_fee_per_gas", "gas", "value", "data", "to", "access_list",
                "authorizations"],
}


def jobs(tier):
    from oracle.forks import FORKS
    from oracle.txs import kinds
    out = []
    for f in FORKS:
        for kd in kinds(f):
            out.append({"harness": "h_signature", "params": {"fork": f, "kind": kd}})
            out.append({"harness": "h_payload", "params": {"fork": f, "kind": kd, "wide": True}, "weight": 2,
                        "seconds": 60 if tier == "quick" else 600})
    out.append({"harness": "h_recover", "params": {}})
    return out


def numbers(kind, k):
    """a payload with distinct fields"""
    U = k.Uint
    from props.c18 import type_of
    d = dict(chain_id=k.U64(0x101), gas_price=U(0x303), gas=U(0x50505), value=k.U256(0x707), max_priority_fee_per_gas=U(0x909),
             max_fee_per_gas=U(0xB0B), max_fee_per_blob_gas=k.U256(0xD0D), r=k.U256(0x1111), s=k.U256(0x2222))
    d["nonce"] = type_of(k, kind, "nonce")(0x404)
    return d


def auth(k, kind):
    from oracle import txs
    return (txs.authorization(k, nonce=k.U64(5)),) if kind == "setcode" else ()


def recovery(cx, k, calls):
    pk = cx.bytesn("key", 64)
    fails = cx.flag("unrecoverable")
    Bad = cx.load("ethereum.exceptions").InvalidSignatureError

    def rec(r, s, v, h):
        calls.append((r, s, v, h))
        if fails:
            raise Bad("no key")
        return pk
    cx.stub(k.m("transactions"), "secp256k1_recover", rec)
    return pk, fails


def call(cx, k, fork, chain, tx):
    from oracle.forks import ge
    f = k.m("transactions").recover_sender
    return k.run(f, chain, tx) if ge(fork, "spurious_dragon") else k.run(f, tx)


def h_signature(cx, fork, kind):
    from oracle.kit import Kit
    from oracle.forks import ge
    from oracle import txs
    k = Kit(cx, fork)
    d = numbers(kind, k)
    r, s = cx.u256("r"), cx.u256("s")
    v = cx.u256("v")
    chain = cx.u64("chain")
    d.update(r=r, s=s, v=v, y_parity=v, authorizations=auth(k, kind), blob_versioned_hashes=(k.Bytes32(b"\x01" * 32),))
    if kind != "legacy":
        d["chain_id"] = cx.u64("txchain")
    tx = txs.make(k, kind, **d)
    calls = []
    pk, fails = recovery(cx, k, calls)
    out = call(cx, k, fork, chain, tx)
    top = N // 2 if ge(fork, "homestead") else N - 1
    ok = [int(r) >= 1, int(r) < N, int(s) >= 1, int(s) <= top]
    eip155 = False
    if kind == "legacy":
        old = cx.or_(int(v) == 27, int(v) == 28)
        if old:
            parity = int(v) - 27
        else:
            parity = int(v) - 35 - 2 * int(chain)
            ok.append(cx.and_(parity >= 0, parity <= 1) if ge(fork, "spurious_dragon") else False)
            eip155 = True
    else:
        parity = int(v)
        ok += [int(v) <= 1, int(tx.chain_id) == int(chain)]
    if not cx.and_(*ok):
        cx.check("rejected", txs.rejected(cx, out, k.exc), out)
        return
    cx.check("one recovery", len(calls) == 1)
    c = calls[0]
    cx.check("r", int(c[0]) == int(r))
    cx.check("s", int(c[1]) == int(s))
    cx.check("parity", int(c[2]) == parity)
    cx.check_eq("hash", c[3], cx.keccak(txs.signed(kind, tx, chain if eip155 else None)))
    if fails:
        cx.check("rejected without a key", txs.rejected(cx, out, k.exc), out)
        return
    cx.check("accepted", out == "ok", out)
    cx.check_eq("sender", k.ret, cx.keccak(pk)[12:])
    cx.observe("sender", k.ret)


def h_payload(cx, fork, kind, wide):
    from oracle.kit import Kit
    from oracle.forks import ge
    from oracle import txs
    from props.c18 import type_of
    k = Kit(cx, fork)
    d = numbers(kind, k)
    field = cx.choice("field", [x for x in FIELDS[kind] if x != "chain" or ge(fork, "spurious_dragon")])
    vs(cx, k, kind, field, wide, d)
    chain = d.get("chain_id")
    eip155 = None
    v = 27
    if kind == "legacy":
        chain = k.U64(1)
        if field == "chain":
            chain = cx.u64("chain", 0, 2**64 - 1 if wide else 2**16)
            eip155 = chain
            v = 36 + 2 * int(chain)
    else:
        v = 1
    d.update(v=k.U256(v), y_parity=k.U256(1))
    tx = txs.make(k, kind, **d)
    calls = []
    pk, fails = recovery(cx, k, calls)
    out = call(cx, k, fork, chain, tx)
    cx.check("one recovery", len(calls) == 1)
    cx.check_eq("hash", calls[0][3], cx.keccak(txs.signed(kind, tx, eip155)))
    cx.check("accepted", (out == "ok") == (not fails), out)


def vs(cx, k, kind, field, wide, d):
    """make one field of a transaction symbolic"""
    from oracle import txs
    from props.c18 import type_of
    d["authorizations"] = auth(k, kind)
    d["blob_versioned_hashes"] = (k.Bytes32(b"\x01" * 32),)
    if field == "data":
        n = cx.choice("size", [0, 1, 2, 55, 56, 300])
        m = min(n, 2)
        d["data"] = cx.bytesn("data", m) + (bytes(range(200)) * 2)[:n - m]
    elif field == "to":
        d["to"] = k.Bytes0(b"") if kind in ("legacy", "access", "fee") and cx.flag("create") else cx.address("to")
    elif field == "access_list":
        shape = cx.choice("shape", [(0,), (1,), (2, 0, 1)])
        d["access_list"] = tuple(txs.access(k, cx.address("a%d" % i), [cx.bytes32("s%d_%d" % (i, j)) for j in range(n)])
                                 for i, n in enumerate(shape))
    elif field == "blob_versioned_hashes":
        d[field] = tuple(cx.bytes32("h%d" % i) for i in range(cx.choice("blobs", [0, 1, 2])))
    elif field == "authorizations":
        n = cx.choice("auths", [0, 1, 2])
        one = cx.choice("which", ["chain_id", "nonce", "y_parity", "r", "s"]) if n else None
        a = []
        for i in range(n):
            kw = dict(chain_id=k.U256(0x11), address=cx.address("aa%d" % i), nonce=k.U64(0x22), y_parity=k.num.U8(1), r=k.U256(0x33), s=k.U256(0x44))
            if i == 0:
                top = {"chain_id": 2**256, "nonce": 2**64, "y_parity": 256, "r": 2**256, "s": 2**256}[one]
                if not wide:
                    top = min(top, 2**24)
                kw[one] = type(kw[one])(cx.int("auth", 0, top - 1))
            a.append(txs.authorization(k, **kw))
        d[field] = tuple(a)
    elif field != "chain":
        T = type_of(k, kind, field)
        top = {"U64": 2**64, "U256": 2**256}.get(T.__name__, 2**256)
        d[field] = T(cx.int(field, 0, (top if wide else 2**24) - 1))


class Key:
    def __init__(self, b):
        self.b = b

    def format(self, compressed=True):
        assert not compressed
        return b"\x04" + self.b


def h_recover(cx):
    ec = cx.load("ethereum.crypto.elliptic_curve")
    num, by = cx.load("ethereum_types.numeric"), cx.load("ethereum_types.bytes")
    r, s = cx.u256("r", 1, N - 1), cx.u256("s", 1, N - 1)
    v = cx.u256("v", 0, 1)
    h = cx.bytes32("h")
    pk = cx.bytesn("key", 64)
    fails = cx.flag("unrecoverable")
    calls = []

    class Lib:
        class PublicKey:
            @staticmethod
            def from_signature_and_message(sig, msg, hasher="sha256"):
                calls.append((sig, msg, hasher))
                if fails:
                    raise ValueError("no")
                return Key(pk)
    cx.stub(ec, "coincurve", Lib)
    square = pow(pow(int(r), 3, P) + 7, (P - 1) // 2, P) == 1
    kind, out = cx.attempt(ec.secp256k1_recover, r, s, v, h)
    Bad = cx.load("ethereum.exceptions").InvalidSignatureError
    if not square:
        cx.check("not a point", kind == "exc" and isinstance(out, Bad))
        return
    cx.check("one recovery", len(calls) == 1)
    sig, msg, hasher = calls[0]
    cx.check_eq("signature", sig, int(r).to_bytes(32, "big") + int(s).to_bytes(32, "big") + int(v).to_bytes(1, "big"))
    cx.check_eq("message", msg, h)
    cx.check("no second hash", hasher is None)
    if fails:
        cx.check("no key", kind == "exc" and isinstance(out, Bad))
    else:
        cx.check("key", kind == "ok")
        cx.check_eq("key bytes", out, pk)
