"""Building EVM frames of any fork through its public types."""

import dataclasses

from oracle.forks import ge


def mod(cx, fork, name):
    return cx.load("ethereum." + fork + "." + name) if name else cx.load("ethereum." + fork)


_NONE = object()


def fill(cls, **known):
    """instance of a dataclass from the fields it has"""
    kw = {}
    for f in dataclasses.fields(cls):
        if f.name in known:
            kw[f.name] = known[f.name]
        elif f.default is not dataclasses.MISSING or f.default_factory is not dataclasses.MISSING:
            continue
        else:
            raise AssertionError("no value for field " + f.name + " of " + cls.__name__)
    return cls(**kw)


class Kit:
    def __init__(self, cx, fork):
        self.cx = cx
        self.fork = fork
        self.vm = mod(cx, fork, "vm")
        self.state_mod = mod(cx, fork, "state")
        self.types = mod(cx, fork, "fork_types")
        self.num = cx.load("ethereum_types.numeric")
        self.by = cx.load("ethereum_types.bytes")
        self.Uint, self.U256, self.U64 = self.num.Uint, self.num.U256, self.num.U64
        self.Bytes0, self.Bytes20, self.Bytes32 = self.by.Bytes0, self.by.Bytes20, self.by.Bytes32

    def m(self, name):
        return mod(self.cx, self.fork, name)

    def addr(self, n):
        return self.Bytes20(n.to_bytes(20, "big"))

    def state(self):
        return self.state_mod.State()

    def begin(self, st, tenv=None):
        """open a state transaction"""
        if hasattr(self.state_mod, "TransientStorage"):
            self.state_mod.begin_transaction(st, tenv.transient_storage)
        else:
            self.state_mod.begin_transaction(st)

    def commit(self, st, tenv=None):
        if hasattr(self.state_mod, "TransientStorage"):
            self.state_mod.commit_transaction(st, tenv.transient_storage)
        else:
            self.state_mod.commit_transaction(st)

    def rollback(self, st, tenv=None):
        if hasattr(self.state_mod, "TransientStorage"):
            self.state_mod.rollback_transaction(st, tenv.transient_storage)
        else:
            self.state_mod.rollback_transaction(st)

    def account(self, nonce=0, balance=0, code=b""):
        return self.types.Account(nonce=self.Uint(nonce), balance=self.U256(balance), code=code)

    def block_env(self, state=None, **kw):
        U, z32 = self.Uint, self.Bytes32(bytes(32))
        d = dict(
            chain_id=self.U64(1), state=state if state is not None else self.state(), block_gas_limit=U(30_000_000),
            block_hashes=[], coinbase=self.addr(0xC0), number=U(1), base_fee_per_gas=U(7), time=self.U256(1000),
            prev_randao=z32, difficulty=U(1), excess_blob_gas=self.U64(0), parent_beacon_block_root=z32,
        )
        d.update(kw)
        return fill(self.vm.BlockEnvironment, **d)

    def tx_env(self, **kw):
        d = dict(
            origin=self.addr(0x0A), gas_price=self.Uint(10), gas=self.Uint(1_000_000), access_list_addresses=set(),
            access_list_storage_keys=set(), blob_versioned_hashes=(), authorizations=(), index_in_block=self.Uint(0),
            tx_hash=None,
        )
        if hasattr(self.state_mod, "TransientStorage"):
            d["transient_storage"] = self.state_mod.TransientStorage()
        d.update(kw)
        return fill(self.vm.TransactionEnvironment, **d)

    def message(self, block_env=None, tx_env=None, **kw):
        me = self.addr(0xAA)
        d = dict(
            block_env=block_env if block_env is not None else self.block_env(),
            tx_env=tx_env if tx_env is not None else self.tx_env(),
            caller=self.addr(0xBB), target=me, current_target=me, gas=self.Uint(1_000_000), value=self.U256(0),
            data=b"", code_address=me, code=b"", depth=self.Uint(0), should_transfer_value=True, is_static=False,
            accessed_addresses=set(), accessed_storage_keys=set(), disable_precompiles=False, parent_evm=None,
        )
        d.update(kw)
        return fill(self.vm.Message, **d)

    def evm(self, message=None, **kw):
        message = message if message is not None else self.message()
        d = dict(
            pc=self.Uint(0), stack=[], memory=bytearray(), code=b"", gas_left=self.Uint(1_000_000),
            valid_jump_destinations=set(), logs=(), refund_counter=0, running=True, message=message, output=b"",
            accounts_to_delete=set(), touched_accounts=set(), return_data=b"", error=None, accessed_addresses=set(),
            accessed_storage_keys=set(),
        )
        d.update(kw)
        return fill(self.vm.Evm, **d)

    # -- running one instruction -------------------------------------------
    def impl(self, byte):
        ins = self.m("vm.instructions")
        return ins.op_implementation[ins.Ops(byte)]

    def has_op(self, byte):
        ins = self.m("vm.instructions")
        for o in ins.Ops:
            if o.value == byte:
                return True
        return False

    def run(self, fn, *args):
        """'ok' | 'halt' | 'revert' | 'crash:<type>'; the exception in .exc"""
        exc = self.m("vm.exceptions")
        self.exc = None
        self.ret = None
        try:
            self.ret = fn(*args)
            return "ok"
        except exc.ExceptionalHalt as e:
            self.exc = e
            return "halt"
        except Exception as e:  # noqa: BLE001
            self.exc = e
            if type(e).__name__ == "Revert":
                return "revert"
            if type(e).__name__ == "CheckFailed":
                raise
            return "crash:" + type(e).__name__

    def step(self, byte, evm):
        return self.run(self.impl(byte), evm)

    SCALARS = ("pc", "gas_left", "refund_counter", "running", "output", "return_data", "code", "memory", "error")

    def snap(self, evm):
        """values of the frame's fields, to state what must not change"""
        s = {"stack": list(evm.stack)}
        for n in self.SCALARS:
            if hasattr(evm, n):
                v = getattr(evm, n)
                s[n] = bytes(v) if n == "memory" else v
        s["logs"] = tuple(evm.logs)
        s["accounts_to_delete"] = set(evm.accounts_to_delete)
        for n in ("accessed_addresses", "accessed_storage_keys", "touched_accounts"):
            if hasattr(evm, n):
                s[n] = set(getattr(evm, n))
        s["message"] = evm.message
        return s

    def unchanged(self, label, evm, before, allowed=()):
        cx = self.cx
        for n, v in before.items():
            if n in allowed:
                continue
            now = getattr(evm, n)
            if n in ("accounts_to_delete", "accessed_addresses", "accessed_storage_keys", "touched_accounts"):
                cx.check(label + "." + n, len(now) == len(v) and all(x in now for x in v))
            elif n == "message":
                cx.check(label + ".message", now is v)
            elif n == "error":
                cx.check(label + ".error", now is v)
            elif n == "logs":
                cx.check(label + ".logs", len(now) == len(v) and all(x is y for x, y in zip(now, v)))
            elif n == "running":
                cx.check(label + ".running", now is v or now == v)
            else:
                cx.check_eq(label + "." + n, now, v)

    # -- one instruction with common checks ---------------------------------
    def frame(self, args, mem=False, **kw):
        """an evm frame about to run one instruction with the operands args (args[0] on top)"""
        cx = self.cx
        self.below = cx.u256("below")
        self.gas = kw.pop("gas", None)
        if self.gas is None:
            self.gas = cx.uint("gas", 2**64 - 1)
        self.old_mem = cx.buf("mem", 2**40, 0, 32) if mem else cx.B(b"")
        kw.setdefault("pc", self.Uint(cx.int("pc", 0, 2**32)))
        evm = self.evm(stack=[self.below] + list(args)[::-1], gas_left=self.gas, memory=bytearray(self.old_mem), **kw)
        self.before = self.snap(evm)
        self.frame_evm = evm
        return evm

    def paid(self, out, cost, ok="ok"):
        """checks the out-of-gas boundary; True if the instruction must have gone through"""
        cx = self.cx
        if int(self.gas) < cost:
            cx.check("out of gas halts", out == "halt", out)
            return False
        cx.check("succeeds", out == ok, out)
        return True

    def settled(self, cost, push=(), mem=None, allowed=(), pc=1):
        """gas, pc, stack, memory and the rest of the frame after a successful instruction"""
        cx, evm = self.cx, self.frame_evm
        cx.check("gas", int(evm.gas_left) == int(self.gas) - cost)
        if pc is not None:
            cx.check("pc", int(evm.pc) == int(self.before["pc"]) + pc)
        cx.check_eq("stack", evm.stack, [self.below] + list(push))
        cx.check_eq("memory", bytes(evm.memory), self.old_mem if mem is None else mem)
        self.unchanged("frame", evm, self.before, ("stack", "gas_left", "pc", "memory") + tuple(allowed))
        cx.observe("stack", list(evm.stack))
        cx.observe("gas", evm.gas_left)
        cx.observe("size", len(evm.memory))

    # -- access sets -----------------------------------------------------------
    def has_access(self):
        return ge(self.fork, "berlin")

    def access_sets(self, n=1):
        """keyword arguments: accessed addresses/slots with symbolic members, kept in .acc_a/.acc_k"""
        cx = self.cx
        if not self.has_access():
            return {}
        self.acc_a = [cx.address("warm%d" % i) for i in range(n)]
        self.acc_k = [(cx.address("warmka%d" % i), cx.bytes32("warmkk%d" % i)) for i in range(n)]
        return {"accessed_addresses": set(self.acc_a), "accessed_storage_keys": set(self.acc_k)}

    def warm(self, addr):
        """forks: is the address in the accessed set given by access_sets?"""
        return any(self.cx.eq(addr, a) for a in self.acc_a)

    def warm_slot(self, addr, key):
        cx = self.cx
        return any(cx.and_(cx.eq(addr, a), cx.eq(key, q)) for a, q in self.acc_k)

    def check_access(self, evm, addrs=(), slots=()):
        """the accessed sets are the given ones plus exactly the named entries"""
        cx = self.cx
        if not self.has_access():
            return
        for name, now, want in (("accessed addresses", evm.accessed_addresses, list(self.acc_a) + list(addrs)),
                                ("accessed slots", evm.accessed_storage_keys, list(self.acc_k) + list(slots))):
            for x in want:
                cx.check(name + " include", x in now)
            for x in now:
                cx.check(name + " nothing else", cx.or_(*[cx.eq(x, w) for w in want]))
