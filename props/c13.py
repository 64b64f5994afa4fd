"""C13: CREATE, CREATE2."""

ENCODED = ["vm.instructions.system.create/create2/generic_create", "utils.address.compute_contract_address/"
           "compute_create2_contract_address", "ethereum_rlp.encode (for the address)", "vm.gas.calculate_gas_extend_memory/"
           "max_message_call_gas/init_code_cost/charge_gas", "state.increment_nonce/account_has_code_or_nonce/account_has_storage/"
           "get_account", "vm.incorporate_child_on_success/incorporate_child_on_error", "vm.memory", "vm.stack"]
BOUNDS = ("h_gas: every init code range with position and size below 2^40, any memory, gas below 2^80, child's remaining gas; h_setup: every "
          "endowment, creator balance, depth, static flag, salt, creator address and nonce below 2^16 or at the top of its range, every kind of "
          "occupant at the new address; h_effects: every refund counter, two logs, symbolic accessed and deleted entries, any child output")
ASSUMPTIONS = ["the child's execution (process_create_message) is replaced by a recorder returning an arbitrary outcome (C15)",
               "keccak256 is an uninterpreted function given its real value on every input the solver proposes",
               "no derived address equals its creator's"]

CREATE, CREATE2 = 0xF0, 0xF5


def jobs(tier):
    from oracle.forks import FORKS, ge
    out = []
    for f in FORKS:
        for o in (CREATE, CREATE2) if ge(f, "constantinople") else (CREATE,):
            out.append({"harness": "h_gas", "params": {"fork": f, "op": o}, "weight": 3})
            out.append({"harness": "h_setup", "params": {"fork": f, "op": o}, "weight": 3})
            out.append({"harness": "h_effects", "params": {"fork": f, "op": o}, "weight": 2})
    return out


class Child:
    """stands for the execution of the init code"""

    def __init__(self, cx, k, **result):
        self.seen = []
        self.result = result
        cx.stub(k.m("vm.interpreter"), "process_create_message", self)
        self.cx, self.k = cx, k

    def __call__(self, msg):
        cx, k = self.cx, self.k
        cx.check("one child only", not self.seen)
        self.seen.append(msg)
        self.nonce = k.state_mod.get_account(k.st, k.me).nonce
        self.left = cx.uint("childleft", 2**81)
        cx.assume(int(self.left) <= int(msg.gas))
        kw = dict(gas_left=self.left)
        if hasattr(msg, "accessed_addresses"):
            kw.update(accessed_addresses=msg.accessed_addresses, accessed_storage_keys=msg.accessed_storage_keys)
        kw.update(self.result)
        f = kw.pop("hook", None)
        self.evm = k.evm(msg, **kw)
        if f:
            f(self.evm)
        return self.evm


def world(cx, fork, bal, nonce, me=None):
    from oracle.kit import Kit
    k = Kit(cx, fork)
    k.st = k.state()
    k.me = k.addr(0xAA) if me is None else me
    k.state_mod.set_account(k.st, k.me, k.types.Account(nonce=nonce, balance=bal, code=b"\x5b"))
    k.tenv = k.tx_env()
    return k


def operands(op, value, pos, size, salt):
    return [value, pos, size] + ([salt] if op == CREATE2 else [])


def where(cx, k, op, nonce, salt, code):
    """the address the protocol derives"""
    from oracle import rlp
    if op == CREATE:
        h = cx.keccak(rlp.seq([rlp.string(k.me), rlp.uint(int(nonce))]))
    else:
        h = cx.keccak(b"\xff" + k.me + int(salt).to_bytes(32, "big") + cx.keccak(code))
    return k.Bytes20(h[12:32])


def apart(cx, k, new):
    """the derived address is not the creator's"""
    cx.assume(cx.not_(cx.eq(new, k.me)))


def base_cost(cx, fork, op, size):
    from oracle.forks import ge
    from oracle.mem import words
    w = words(size) if op == CREATE2 or ge(fork, "shanghai") else 0
    cost = 32000
    if op == CREATE2:
        cost = cost + 6 * w
    if ge(fork, "shanghai"):
        cost = cost + 2 * w
    return cost


def h_gas(cx, fork, op):
    """price, gas of the child, init code"""
    from oracle.forks import ge
    from oracle.mem import Mem, padded
    k = world(cx, fork, cx.num().U256(7), cx.num().Uint(1))
    k.begin(k.st, k.tenv)
    pos, size, salt = cx.u256("pos", 0, 2**40), cx.u256("size", 0, 2**40), cx.u256("salt")
    child = Child(cx, k, error=None)
    msg = k.message(k.block_env(k.st), k.tenv, current_target=k.me, target=k.me)
    evm = k.frame(operands(op, k.U256(7), pos, size, salt), mem=True, message=msg, gas=cx.uint("gas", 2**80), **k.access_sets())
    old = k.old_mem
    m = Mem(cx, old)
    m.touch(int(pos), int(size))
    out = k.step(op, evm)
    cost = base_cost(cx, fork, op, int(size)) + m.cost
    if ge(fork, "shanghai") and int(size) > 2 * 24576:
        cx.check("over-long init code halts", out == "halt", out)
        cx.check("no child", not child.seen)
        return
    if not k.paid(out, cost):
        cx.check("no child", not child.seen)
        return
    code = padded(cx, old, int(pos), int(size))
    if op == CREATE2 and not child.seen:
        apart(cx, k, where(cx, k, op, 1, salt, bytes(evm.memory)[int(pos):int(pos) + int(size)]))
    cx.check("child ran", len(child.seen) == 1)
    cm = child.seen[0]
    cx.check_eq("init code", cm.code, code)
    left = int(evm.gas_left) - int(child.left) + int(cm.gas)
    cx.check("price", left == int(k.gas) - cost)
    sub = left
    if ge(fork, "tangerine_whistle"):
        sub = left - left // 64
    cx.check("child gas", int(cm.gas) == sub)
    cx.check_eq("memory", bytes(evm.memory), m.grown())
    cx.check("pc", int(evm.pc) == int(k.before["pc"]) + 1)
    cx.observe("size", len(evm.memory))
    cx.observe("gas", evm.gas_left)


def h_setup(cx, fork, op):
    """the child's message and the creations that fail before running"""
    from oracle.forks import ge
    bal, value = cx.u256("bal"), cx.u256("value")
    top = 2**64 - 1
    U = cx.num().Uint
    if op == CREATE:
        nonce = cx.choice("nonce", [cx.uint("n1", 2**16), U(top - 1), U(top)])
    else:
        nonce = U(cx.int("n1", 1, top))
    k = world(cx, fork, bal, nonce, cx.address("me"))
    s = k.state_mod
    salt = cx.u256("salt")
    mem = cx.bytesn("mem", 32)
    if cx.flag("nocode"):
        size, code = 0, cx.B(b"")
    else:
        size, code = 5, mem[3:8]
    new = where(cx, k, op, nonce, salt, code)
    apart(cx, k, new)
    there = cx.choice("there", ["nothing", "ether", "nonce", "code", "slot"])
    if there != "nothing":
        s.set_account(k.st, new, k.types.Account(nonce=cx.uint("nn", top, 1) if there == "nonce" else U(0), balance=cx.u256("nbal", 1),
                                                 code=cx.bytesn("ncode", 2) if there == "code" else b""))
    if there == "slot":
        s.set_storage(k.st, new, cx.bytes32("key"), cx.u256("val", 1))
    k.begin(k.st, k.tenv)
    depth = cx.uint("depth", 1024)
    static = cx.flag("static") if ge(fork, "byzantium") else False
    child = Child(cx, k, error=None)
    msg = k.message(k.block_env(k.st), k.tenv, current_target=k.me, target=k.me, depth=depth, is_static=static, caller=cx.address("caller"),
                    value=cx.u256("mvalue"))
    evm = k.frame(operands(op, value, k.U256(3), k.U256(size), salt), message=msg, gas=k.Uint(10**6), **k.access_sets())
    evm.memory = bytearray(mem)
    if hasattr(evm, "return_data"):
        evm.return_data = cx.bytesn("earlier", 3)
    out = k.step(op, evm)
    if static:
        cx.check("halts in a static call", out == "halt", out)
        cx.check("no child", not child.seen)
        return
    cx.check("succeeds", out == "ok", out)
    left = 10**6 - base_cost(cx, fork, op, size)
    sub = left
    if ge(fork, "tangerine_whistle"):
        sub = left - left // 64
    if hasattr(evm, "return_data"):
        cx.check("return data cleared", len(evm.return_data) == 0)
    if cx.or_(int(bal) < int(value), int(nonce) == top, int(depth) == 1024):
        cx.check("no child", not child.seen)
        cx.check("gas returned", int(evm.gas_left) == left)
        cx.check_eq("stack", evm.stack, [k.below, k.U256(0)])
        cx.check("nonce kept", s.get_account(k.st, k.me).nonce == nonce)
        k.check_access(evm)
    elif there in ("nonce", "code", "slot"):
        cx.check("no child", not child.seen)
        cx.check("gas of a collision", int(evm.gas_left) == left - sub)
        cx.check_eq("stack", evm.stack, [k.below, k.U256(0)])
        cx.check("nonce increased", int(s.get_account(k.st, k.me).nonce) == int(nonce) + 1)
        k.check_access(evm, [new])
    else:
        cx.check("child ran", len(child.seen) == 1)
        cm = child.seen[0]
        cx.check("nonce increased first", int(child.nonce) == int(nonce) + 1)
        cx.check("message.gas", int(cm.gas) == sub)
        want = dict(caller=k.me, current_target=new, value=value, depth=k.Uint(int(depth) + 1), code=code, data=b"", target=k.Bytes0(b""))
        for n, v in want.items():
            cx.check_eq("message." + n, getattr(cm, n), v)
        cx.check("message.code_address", cm.code_address is None)
        cx.check("message.parent", cm.parent_evm is evm)
        cx.check("message.block_env", cm.block_env is msg.block_env)
        cx.check("message.tx_env", cm.tx_env is msg.tx_env)
        for n, v in (("is_static", False), ("should_transfer_value", True), ("disable_precompiles", False)):
            if hasattr(cm, n):
                cx.check("message." + n, bool(getattr(cm, n)) == v)
        cx.check_eq("stack", evm.stack, [k.below, k.U256(int.from_bytes(new, "big"))])
        cx.check("nonce", int(s.get_account(k.st, k.me).nonce) == int(nonce) + 1)
        k.check_access(evm, [new])
    cx.check("pc", int(evm.pc) == int(k.before["pc"]) + 1)
    cx.check_eq("memory", bytes(evm.memory), mem)
    cx.check_eq("creator's balance", s.get_account(k.st, k.me).balance, bal)
    k.unchanged("frame", evm, k.before, ("stack", "gas_left", "pc", "memory", "return_data", "accessed_addresses", "accessed_storage_keys",
                                         "touched_accounts"))


def h_effects(cx, fork, op):
    """what a successful or failed creation leaves with its caller"""
    from oracle.forks import ge, lt
    k = world(cx, fork, cx.num().U256(7), cx.num().Uint(1))
    s = k.state_mod
    k.begin(k.st, k.tenv)
    salt = cx.u256("salt")
    new = where(cx, k, op, 1, salt, b"")
    apart(cx, k, new)
    log = [k.m("blocks").Log(address=k.addr(i), topics=(), data=b"x") for i in range(3)]
    own, kid = cx.address("own"), cx.address("kid")
    r0, r1 = cx.int("refund0", -2**64, 2**64), cx.int("refund1", -2**64, 2**64)
    fails = cx.flag("fails")
    ka, kk = cx.address("kidaddr"), (cx.address("kidka"), cx.bytes32("kidkk"))
    ta, t0 = cx.address("kidtouched"), cx.address("touched")
    cout = cx.buf("out", 2**40)
    touch = ge(fork, "spurious_dragon") and lt(fork, "paris")

    def hook(e):
        if k.has_access():
            e.accessed_addresses.add(ka)
            e.accessed_storage_keys.add(kk)
        if touch:
            e.touched_accounts.add(ta)
    child = Child(cx, k, error=k.m("vm.exceptions").ExceptionalHalt() if fails else None, logs=(log[1], log[2]), refund_counter=r1,
                  accounts_to_delete=set([kid]), hook=hook, output=cout)
    access = k.access_sets()
    if touch:
        access["touched_accounts"] = set([t0])
    msg = k.message(k.block_env(k.st), k.tenv, current_target=k.me, target=k.me)
    z = k.U256(0)
    evm = k.frame(operands(op, z, z, z, salt), message=msg, gas=k.Uint(10**6), logs=(log[0],), refund_counter=r0,
                  accounts_to_delete=set([own]), **access)
    if hasattr(evm, "return_data"):
        evm.return_data = cx.bytesn("earlier", 3)
    out = k.step(op, evm)
    cx.check("succeeds", out == "ok", out)
    cx.check("child ran", len(child.seen) == 1)
    left = 10**6 - 32000
    sub = left
    if ge(fork, "tangerine_whistle"):
        sub = left - left // 64
    cx.check("gas settled", int(evm.gas_left) == left - sub + int(child.left))
    cx.check_eq("stack", evm.stack, [k.below, k.U256(0 if fails else int.from_bytes(new, "big"))])
    if hasattr(evm, "return_data"):
        cx.check_eq("return data", evm.return_data, cout if fails else cx.B(b""))
    cx.check("logs", len(evm.logs) == (1 if fails else 3) and all(x is y for x, y in zip(evm.logs, log)))
    cx.check("refund", evm.refund_counter == r0 + (0 if fails else r1))

    def are(name, have, want):
        for x in want:
            cx.check(name + " include", x in have)
        for x in have:
            cx.check(name + " nothing else", cx.or_(*[cx.eq(x, y) for y in want]))
    are("deletions", evm.accounts_to_delete, [own] + ([] if fails else [kid]))
    if k.has_access():
        are("accessed addresses", evm.accessed_addresses, list(k.acc_a) + [new] + ([] if fails else [ka]))
        are("accessed slots", evm.accessed_storage_keys, list(k.acc_k) + ([] if fails else [kk]))
    if touch:
        want = [t0] + ([ta] if not fails else [])
        three = k.addr(3)
        if fails and cx.eq(ta, three):
            want.append(three)
        are("touched", evm.touched_accounts, want)
    k.unchanged("frame", evm, k.before, ("stack", "gas_left", "pc", "memory", "logs", "refund_counter", "accounts_to_delete",
                                         "accessed_addresses", "accessed_storage_keys", "touched_accounts", "return_data"))
