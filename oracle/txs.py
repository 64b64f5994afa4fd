"""Transactions of any fork and type."""

from oracle.forks import ge
from oracle.kit import fill

CLASS = {"access": "AccessListTransaction", "fee": "FeeMarketTransaction", "blob": "BlobTransaction", "setcode": "SetCodeTransaction"}
BYTE = {"access": 1, "fee": 2, "blob": 3, "setcode": 4}


def kinds(fork):
    out = ["legacy"]
    for name, since in (("access", "berlin"), ("fee", "london"), ("blob", "cancun"), ("setcode", "prague")):
        if ge(fork, since):
            out.append(name)
    return out


def make(k, kind, **kw):
    m = k.m("transactions")
    U, U256 = k.Uint, k.U256
    if kind == "legacy":
        cls = getattr(m, "LegacyTransaction", None) or m.Transaction
    else:
        cls = getattr(m, CLASS[kind])
    d = dict(chain_id=k.U64(1), nonce=U256(0), gas_price=U(10), max_priority_fee_per_gas=U(1), max_fee_per_gas=U(10), gas=U(100000),
             to=k.addr(0x70), value=U256(0), data=b"", access_list=(), max_fee_per_blob_gas=U256(1), blob_versioned_hashes=(),
             authorizations=(), v=U256(27), y_parity=U256(0), r=U256(1), s=U256(1))
    d.update(kw)
    return fill(cls, **d)


def access(k, account, slots):
    return k.m("transactions").Access(account=account, slots=tuple(slots))


def authorization(k, **kw):
    d = dict(chain_id=k.U256(0), address=k.addr(1), nonce=k.U64(0), y_parity=k.num.U8(0), r=k.U256(1), s=k.U256(1))
    d.update(kw)
    return fill(k.types.Authorization, **d)


def rejected(cx, out, exc):
    """is the exception one of the protocol's rejections?"""
    if out == "ok":
        return False
    e = cx.load("ethereum.exceptions")
    return isinstance(exc, (e.InvalidTransaction, e.InvalidBlock))


def body(kind, tx):
    """RLP items of a transaction without its signature"""
    from oracle import rlp

    def u(n):
        return rlp.uint(int(getattr(tx, n)))
    to, data = rlp.string(tx.to), rlp.string(tx.data)
    if kind == "legacy":
        return [u("nonce"), u("gas_price"), u("gas"), to, u("value"), data]
    p = [u("chain_id"), u("nonce")]
    p += [u("gas_price")] if kind == "access" else [u("max_priority_fee_per_gas"), u("max_fee_per_gas")]
    p += [u("gas"), to, u("value"), data,
          rlp.seq([rlp.seq([rlp.string(a.account), rlp.seq([rlp.string(x) for x in a.slots])]) for a in tx.access_list])]
    if kind == "blob":
        p += [u("max_fee_per_blob_gas"), rlp.seq([rlp.string(h) for h in tx.blob_versioned_hashes])]
    if kind == "setcode":
        p += [rlp.seq([rlp.seq([rlp.uint(int(a.chain_id)), rlp.string(a.address), rlp.uint(int(a.nonce)), rlp.uint(int(a.y_parity)),
                                rlp.uint(int(a.r)), rlp.uint(int(a.s))]) for a in tx.authorizations])]
    return p


def prefix(kind):
    return b"" if kind == "legacy" else bytes([BYTE[kind]])


def network(kind, tx):
    """the network form"""
    from oracle import rlp
    sig = [rlp.uint(int(x)) for x in (tx.v if kind == "legacy" else tx.y_parity, tx.r, tx.s)]
    return prefix(kind) + rlp.seq(body(kind, tx) + sig)


def signed(kind, tx, chain_id=None):
    """what the signature of a transaction commits to; chain_id: EIP-155 form of the legacy type"""
    from oracle import rlp
    p = body(kind, tx)
    if kind == "legacy" and chain_id is not None:
        p += [rlp.uint(int(chain_id)), rlp.uint(0), rlp.uint(0)]
    return prefix(kind) + rlp.seq(p)
