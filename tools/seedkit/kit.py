"""Minimal builder of messages and transactions of any fork, for demonstrations."""
import dataclasses
import importlib
import sys

from ethereum_types.bytes import Bytes20, Bytes32
from ethereum_types.numeric import U64, U256, Uint

sys.setrecursionlimit(10000)


def mod(fork, name=""):
    return importlib.import_module("ethereum." + fork + ("." + name if name else ""))


def fill(cls, **known):
    kw = {}
    for f in dataclasses.fields(cls):
        if f.name in known:
            kw[f.name] = known[f.name]
        elif f.default is not dataclasses.MISSING or f.default_factory is not dataclasses.MISSING:
            continue
        else:
            raise AssertionError("no value for " + f.name)
    return cls(**kw)


def addr(n):
    return Bytes20(n.to_bytes(20, "big"))


def state(fork, accounts=()):
    """accounts: {address: (nonce, balance, code, {slot: value})}"""
    s = mod(fork, "state")
    st = s.State()
    for a, (nonce, balance, code, storage) in dict(accounts).items():
        s.set_account(st, a, mod(fork, "fork_types").Account(nonce=Uint(nonce), balance=U256(balance), code=code))
        for k, v in storage.items():
            s.set_storage(st, a, Bytes32(k.to_bytes(32, "big")), U256(v))
    return st


def block_env(fork, st, **kw):
    z = Bytes32(bytes(32))
    d = dict(chain_id=U64(1), state=st, block_gas_limit=Uint(30_000_000), block_hashes=[], coinbase=addr(0xC0),
             number=Uint(1), base_fee_per_gas=Uint(7), time=U256(1000), prev_randao=z, difficulty=Uint(1),
             excess_blob_gas=U64(0), parent_beacon_block_root=z)
    d.update(kw)
    return fill(mod(fork, "vm").BlockEnvironment, **d)


def tx_env(fork, **kw):
    d = dict(origin=addr(0x0A), gas_price=Uint(10), gas=Uint(1_000_000), access_list_addresses=set(),
             access_list_storage_keys=set(), blob_versioned_hashes=(), authorizations=(), index_in_block=Uint(0), tx_hash=None)
    s = mod(fork, "state")
    if hasattr(s, "TransientStorage"):
        d["transient_storage"] = s.TransientStorage()
    d.update(kw)
    return fill(mod(fork, "vm").TransactionEnvironment, **d)


def message(fork, benv, tenv, **kw):
    me = addr(0xAA)
    d = dict(block_env=benv, tx_env=tenv, caller=addr(0xBB), target=me, current_target=me, gas=Uint(1_000_000), value=U256(0),
             data=b"", code_address=me, code=b"", depth=Uint(0), should_transfer_value=True, is_static=False,
             accessed_addresses=set(), accessed_storage_keys=set(), disable_precompiles=False, parent_evm=None)
    d.update(kw)
    return fill(mod(fork, "vm").Message, **d)


def run(fork, code, st=None, **kw):
    """execute code in a fresh message; returns the frame (its .error tells a halt)"""
    st = st if st is not None else state(fork)
    benv = kw.pop("benv", None) or block_env(fork, st)
    tenv = kw.pop("tenv", None) or tx_env(fork)
    m = message(fork, benv, tenv, code=code, **kw)
    it = mod(fork, "vm.interpreter")
    return it.execute_code(m) if fork == "frontier" or True and "process_message" not in dir(it) else it.process_message(m)


def push(n, size=32):
    return bytes([0x5F + size]) + n.to_bytes(size, "big")


def ret_top():
    """MSTORE at 0 and RETURN 32 bytes"""
    return bytes.fromhex("60005260206000f3")


def fail(msg):
    print("BROKEN:", msg)
    sys.exit(1)
