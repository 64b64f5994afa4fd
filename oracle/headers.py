"""Headers, blocks and chains of any fork, and the rules a header must obey."""

from oracle.forks import FORKS, IDX, ge
from oracle.kit import fill

# the blocks at which the proof-of-work forks started (the first is genesis)
START = {
    "frontier": 0, "homestead": 1150000, "dao_fork": 1920000, "tangerine_whistle": 2463000, "spurious_dragon": 2675000,
    "byzantium": 4370000, "constantinople": 7280000, "istanbul": 9069000, "muir_glacier": 9200000, "berlin": 12244000,
    "london": 12965000, "arrow_glacier": 13773000, "gray_glacier": 15050000, "paris": 15537394,
}
TIME = {"shanghai": 1681338455, "cancun": 1710338135, "prague": 1746612311}
DELAY = {"byzantium": 3000000, "constantinople": 5000000, "istanbul": 5000000, "muir_glacier": 9000000, "berlin": 9000000,
         "london": 9700000, "arrow_glacier": 10700000, "gray_glacier": 11400000}
EMPTY_OMMERS = bytes.fromhex("1dcc4de8dec75d7aab85b567b6ccd41ad312451b948a7413f0a142fd40d49347")


def before(fork):
    return FORKS[IDX[fork] - 1]


def pow_fork(fork):
    return not ge(fork, "paris")


def number(fork):
    """a block number well inside the fork"""
    return START.get(fork, 22000000) + 100


def header(cx, k, fork, **kw):
    U, B32 = k.Uint, k.Bytes32
    d = dict(
        parent_hash=B32(b"\x11" * 32), ommers_hash=B32(EMPTY_OMMERS), coinbase=k.addr(0xC0), state_root=B32(b"\x22" * 32),
        transactions_root=B32(b"\x33" * 32), receipt_root=B32(b"\x44" * 32), bloom=k.by.Bytes256(bytes(256)),
        difficulty=U(10**12 if pow_fork(fork) else 0), number=U(number(fork)), gas_limit=U(30_000_000), gas_used=U(0),
        timestamp=k.U256(1_800_000_000), extra_data=b"", mix_digest=B32(b"\x55" * 32), prev_randao=B32(b"\x55" * 32),
        nonce=k.by.Bytes8(bytes(8)), base_fee_per_gas=U(7), withdrawals_root=B32(b"\x66" * 32), blob_gas_used=k.U64(0),
        excess_blob_gas=k.U64(0), parent_beacon_block_root=B32(b"\x77" * 32), requests_hash=B32(b"\x88" * 32),
    )
    d.update(kw)
    return fill(cx.load("ethereum." + fork + ".blocks").Header, **d)


def block(cx, k, fork, h, **kw):
    d = dict(header=h, transactions=(), ommers=(), withdrawals=())
    d.update(kw)
    return fill(cx.load("ethereum." + fork + ".blocks").Block, **d)


def chain(k, blocks, state=None, chain_id=None):
    return k.m("fork").BlockChain(blocks=list(blocks), state=state if state is not None else k.state(),
                                  chain_id=chain_id if chain_id is not None else k.U64(1))


def no_work(cx, k, calls=None):
    """replace the proof-of-work check"""
    m = k.m("fork")
    if hasattr(m, "validate_proof_of_work"):
        cx.stub(m, "validate_proof_of_work", (lambda h: calls.append(h)) if calls is not None else (lambda h: None))


class Hashes:
    """stands in for the RLP encoding of headers: equal headers have equal encodings, others differ"""

    def __init__(self, cx):
        self.cx = cx
        self.seen = []
        r = cx.load("ethereum_rlp.rlp")
        real = r.encode
        self.names = {}

        def encode(x):
            if type(x).__name__ == "Header":
                return self.encoding(x)
            if type(x) in (tuple, list) and len(x) and all(type(y).__name__ == "Header" for y in x):
                return self.encoding(x)
            return real(x)
        cx.stub(r, "encode", encode)
        p = cx.load("ethereum_rlp")
        if hasattr(p, "encode"):
            cx.stub(p, "encode", encode)

    def encoding(self, h):
        if type(h) in (tuple, list):
            return b"list" + b"".join(self.encoding(x) for x in h)
        for i, x in enumerate(self.seen):
            if x is h:
                return b"header " + bytes([i])
        self.seen.append(h)
        return b"header " + bytes([len(self.seen) - 1])

    def hash(self, h):
        return self.cx.keccak(self.encoding(h))


# -- rules ------------------------------------------------------------------

def gas_limit_ok(cx, limit, parent):
    step = parent // 1024
    return cx.and_(limit < parent + step, limit > parent - step, limit >= 5000)


def base_fee(cx, limit, used, fee):
    """EIP-1559"""
    target = limit // 2
    if used == target:
        return fee
    if used > target:
        up = fee * (used - target) // target // 8
        return fee + (up if up > 1 else 1)
    return fee - fee * (target - used) // target // 8


def bomb(fork, num):
    return (num - DELAY.get(fork, 0)) // 100000 - 2


def difficulty(cx, fork, periods, ts, pts, pd, ommers):
    """periods: of the difficulty bomb"""
    step = pd // 2048
    if fork == "frontier":
        d = pd + step if ts < pts + 13 else pd - step
    else:
        dt = ts - pts
        m = (2 if ommers else 1) - dt // 9 if ge(fork, "byzantium") else 1 - dt // 10
        if m < -99:
            m = -99
        d = pd + step * m
    if periods >= 0:
        d = d + 2**periods
    return d if d > 131072 else 131072
