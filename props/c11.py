"""C11: static calls cannot change state."""

ENCODED = ["vm.instructions.storage.sstore/tstore", "vm.instructions.log.*", "vm.instructions.system.create/create2/selfdestruct/call*"]
BOUNDS = ("every operand (memory operands of the state-changing opcodes below 2^16 in quick), every gas below 2^64, any balance of the "
          "executing account; child execution replaced by a recorder")
ASSUMPTIONS = ["the child's execution is opaque (its effects are C12, C13, C15)"]

OPS = {0x55: (2, "byzantium"), 0x5D: (2, "cancun"), 0xA0: (2, "byzantium"), 0xA1: (3, "byzantium"), 0xA2: (4, "byzantium"),
       0xA3: (5, "byzantium"), 0xA4: (6, "byzantium"), 0xF0: (3, "byzantium"), 0xF5: (4, "constantinople"), 0xFF: (1, "byzantium"),
       0xF1: (7, "byzantium")}
CALLS = {0xF1: 7, 0xF2: 7, 0xF4: 6, 0xFA: 6}


def jobs(tier):
    from oracle.forks import since
    out = [{"harness": "h_write", "params": {"fork": f, "op": b}} for b in OPS for f in since(OPS[b][1])]
    out += [{"harness": "h_inherit", "params": {"fork": f, "op": b}} for b in CALLS for f in since("byzantium")]
    return out


def world(cx, fork):
    from oracle.kit import Kit
    k = Kit(cx, fork)
    st = k.state()
    k.st = st
    k.me = k.addr(0xAA)
    k.acct = k.types.Account(nonce=k.Uint(1), balance=cx.u256("bal", 0, 2**128), code=b"")
    k.state_mod.set_account(st, k.me, k.acct)
    k.slot = k.Bytes32((5).to_bytes(32, "big"))
    k.state_mod.set_storage(st, k.me, k.slot, k.U256(9))
    k.tenv = k.tx_env()
    k.begin(st, k.tenv)
    return k


def same(cx, k, x, before):
    s = k.state_mod
    cx.check_eq("account unchanged", s.get_account(k.st, k.me), k.acct)
    cx.check("slot unchanged", int(s.get_storage(k.st, k.me, k.slot)) == 9)
    if x is not None:
        key = k.Bytes32(int(x).to_bytes(32, "big"))
        want = 9 if cx.eq(key, k.slot) else 0
        cx.check("written slot unchanged", int(s.get_storage(k.st, k.me, key)) == want)
        if hasattr(s, "TransientStorage"):
            cx.check("transient slot unchanged", int(s.get_transient_storage(k.tenv.transient_storage, k.me, key)) == 0)
    cx.check("no log", len(k.frame_evm.logs) == 0)
    cx.check("nothing to delete", len(k.frame_evm.accounts_to_delete) == 0)


def h_write(cx, fork, op):
    k = world(cx, fork)
    n = OPS[op][0]
    hi = 2**256 - 1
    if op in (0xA0, 0xA1, 0xA2, 0xA3, 0xA4, 0xF0, 0xF5, 0xF1):
        args = []
        for i in range(n):
            small = (op == 0xF1 and i >= 3) or (op in (0xF0, 0xF5) and i in (1, 2)) or (0xA0 <= op <= 0xA4 and i < 2)
            args.append(cx.u256("x%d" % i, 0, 2**16 if small else hi))
    else:
        args = [cx.u256("x%d" % i) for i in range(n)]
    if op == 0xF1:
        cx.assume(int(args[2]) != 0)
    ran = []

    def never(msg):
        ran.append(1)
        raise AssertionError("child ran")
    for f in ("process_message", "process_create_message"):
        cx.stub(k.m("vm.interpreter"), f, never)
    msg = k.message(k.block_env(k.st), k.tenv, current_target=k.me, target=k.me, is_static=True)
    evm = k.evm(msg, stack=args[::-1], gas_left=cx.uint("gas", 2**64 - 1))
    k.frame_evm = evm
    before = None
    out = k.step(op, evm)
    cx.check("no child", len(ran) == 0)
    cx.check("halts", out == "halt", out)
    same(cx, k, args[0] if op in (0x55, 0x5D) else None, before)


def h_inherit(cx, fork, op):
    """nested frames of a static frame are static; STATICCALL makes them so"""
    k = world(cx, fork)
    static = cx.flag("static")
    gas, to = cx.u256("g"), cx.u256("to")
    seen = []

    def child(msg):
        seen.append(msg)
        return k.evm(msg, gas_left=msg.gas)
    cx.stub(k.m("vm.interpreter"), "process_message", child)
    args = [gas, to] + ([k.U256(0)] if CALLS[op] == 7 else []) + [k.U256(0)] * 4
    if op == 0xF2:
        args[2] = cx.u256("value", 0, 2**130)
    msg = k.message(k.block_env(k.st), k.tenv, current_target=k.me, target=k.me, is_static=static)
    evm = k.evm(msg, stack=args[::-1], gas_left=cx.uint("gas", 2**64 - 1))
    out = k.step(op, evm)
    cx.check("outcome", out in ("ok", "halt"), out)
    if seen:
        want = True if op == 0xFA else static
        cx.check("child static flag", bool(seen[0].is_static) == bool(want))
    cx.check("at most one child", len(seen) <= 1)
