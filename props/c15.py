"""C15: atomicity of frames; code deposit."""

ENCODED = ["vm.interpreter.process_message/process_create_message/execute_code", "state.begin_transaction/commit_transaction/"
           "rollback_transaction/destroy_storage/mark_account_created/increment_nonce/set_code/move_ether/touch_account", "the executed "
           "opcodes (PUSH, SSTORE, TSTORE, LOG0, CALL, GAS, MSTORE, MSTORE8, RETURN, REVERT)", "vm.runtime.get_valid_jump_destinations"]
BOUNDS = ("one fixed program of up to 30 instructions writing a slot, a transient slot, a log and another account through a value call; "
          "every value, slot content, balance and (for the ends that can be reached) every gas limit below 10^6, so out-of-gas strikes at "
          "any instruction; creations: every deployed size below 2^17 and first byte, every gas below 2^40")
ASSUMPTIONS = ["the caller can pay the value", "no balance exceeds 2^256"]


def ends(fork):
    from oracle.forks import ge
    e = ["stop", "return", "invalid", "underflow", "jump"]
    if ge(fork, "byzantium"):
        e.append("revert")
    return e


def jobs(tier):
    from oracle.forks import FORKS
    out = []
    for f in FORKS:
        for e in ends(f):
            out.append({"harness": "h_message", "params": {"fork": f, "end": e}, "weight": 4 if e in ("stop", "return") else 1})
        out.append({"harness": "h_create", "params": {"fork": f}, "weight": 4})
        out.append({"harness": "h_create_fails", "params": {"fork": f}})
    return out


END = {
    "stop": b"\x00",
    "return": bytes([0x5A, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xF3]),
    "revert": bytes([0x5A, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xFD]),
    "invalid": b"\xfe",
    "underflow": b"\x01",
    "jump": bytes([0x60, 1, 0x56]),
}


def push32(x):
    return b"\x7f" + int(x).to_bytes(32, "big")


def world(cx, fork):
    from oracle.kit import Kit
    k = Kit(cx, fork)
    s = k.state_mod
    st = k.st = k.state()
    k.me, k.from_, k.third = k.addr(0xAA), k.addr(0xBB), k.addr(0xCC)
    k.key = k.Bytes32((5).to_bytes(32, "big"))
    k.tenv = k.tx_env()
    return k


def transient(k):
    return hasattr(k.state_mod, "TransientStorage")


def view(k, cx, accounts):
    """everything observable about the accounts, the slot and the transient slot"""
    s = k.state_mod
    out = []
    for a in accounts:
        out.append((s.account_exists(k.st, a), s.get_account(k.st, a), s.get_storage(k.st, a, k.key),
                    s.get_transient_storage(k.tenv.transient_storage, a, k.key) if transient(k) else None))
    return out


def same(k, cx, label, before, accounts):
    for i, (a, b) in enumerate(zip(before, view(k, cx, accounts))):
        cx.check(label + " existence %d" % i, bool(a[0]) == bool(b[0]))
        cx.check_eq(label + " account %d" % i, a[1], b[1])
        cx.check(label + " slot %d" % i, a[2] == b[2])
        if a[3] is not None:
            cx.check(label + " transient slot %d" % i, a[3] == b[3])


def h_message(cx, fork, end):
    from oracle.forks import ge, lt
    k = world(cx, fork)
    s, st = k.state_mod, k.st
    U = k.U256
    v, old = cx.u256("v", 1), cx.u256("old", 1)
    fbal, mbal = cx.u256("fbal", 1), cx.u256("mbal", 1, 2**254)
    value = cx.u256("value", 0, 2**254)
    cx.assume(int(fbal) >= int(value))
    code = push32(v) + bytes([0x60, 5, 0x55])
    if transient(k):
        code += bytes([0x60, 9, 0x60, 5, 0x5D])
    code += bytes([0x60, 0, 0x60, 0, 0xA0])
    # send one wei to the third account, with no gas
    code += bytes([0x60, 0] * 4 + [0x60, 1, 0x60, 0xCC, 0x60, 0, 0xF1, 0x50])
    code += END[end]
    s.set_account(st, k.from_, k.types.Account(nonce=k.Uint(1), balance=fbal, code=b""))
    s.set_account(st, k.me, k.types.Account(nonce=k.Uint(1), balance=mbal, code=code))
    s.set_storage(st, k.me, k.key, old)
    if transient(k):
        s.set_transient_storage(k.tenv.transient_storage, k.me, k.key, U(4))
    k.begin(st, k.tenv)
    accounts = (k.from_, k.me, k.third)
    before = view(k, cx, accounts)
    gas = cx.uint("gas", 10**6) if end in ("stop", "return") else k.Uint(10**6)
    msg = k.message(k.block_env(st), k.tenv, caller=k.from_, target=k.me, current_target=k.me, code_address=k.me, code=code, value=value,
                    gas=gas, depth=k.Uint(3))
    it = k.m("vm.interpreter")
    out = k.run(it.process_message, msg)
    cx.check("returns", out == "ok", out)
    evm = k.ret
    good = end in ("stop", "return")
    left = int(evm.gas_left)
    if evm.error:
        cx.check("may fail", not good or int(gas) < 70000, str(evm.error))
        same(k, cx, "restored", before, accounts)
        if end == "revert":
            g = int.from_bytes(evm.output, "big")
            cx.check("output kept", len(evm.output) == 32)
            cx.check("gas kept", left == g - 15)
            cx.check("gas plausible", left > 10**6 - 70000)
        else:
            cx.check("gas consumed", left == 0)
            cx.check("no output", len(evm.output) == 0)
    else:
        cx.check("may succeed", good)
        now = view(k, cx, accounts)
        cx.check("value taken", int(now[0][1].balance) == int(fbal) - int(value))
        cx.check("value given", int(now[1][1].balance) == int(mbal) + int(value) - 1)
        cx.check("inner value given", int(now[2][1].balance) == 1)
        cx.check("slot written", now[1][2] == v)
        if transient(k):
            cx.check("transient slot written", int(now[1][3]) == 9)
        cx.check("log kept", len(evm.logs) == 1)
        cx.check_eq("log address", evm.logs[0].address, k.me)
        if end == "return":
            cx.check("output", len(evm.output) == 32)
            cx.check("gas left", left == int.from_bytes(evm.output, "big") - 15)
        cx.check("gas used", left < int(gas))
        cx.check_eq("codes unchanged", now[1][1].code, code)
    # the transaction around the frame is still open, and undoing it undoes everything
    k.rollback(st, k.tenv)
    cx.check("outer state", int(s.get_account(st, k.me).balance) == int(mbal))
    cx.check("outer slot", s.get_storage(st, k.me, k.key) == old)
    cx.observe("left", left)


def h_create(cx, fork):
    """a creation returning `size` bytes, the first being b"""
    from oracle.forks import ge, lt
    from oracle.mem import mem_cost, words
    k = world(cx, fork)
    s, st = k.state_mod, k.st
    fbal = cx.u256("fbal", 1)
    value = cx.u256("value", 0, 2**254)
    cx.assume(int(fbal) >= int(value))
    b, size = cx.int("b", 0, 255), cx.int("size", 1, 2**17)
    code = bytes([0x60, 9, 0x60, 6, 0x55, 0x60, b, 0x60, 0, 0x53, 0x62]) + size.to_bytes(3, "big") + bytes([0x60, 0, 0xF3])
    pre = cx.flag("pre")
    mbal = 0
    if pre:
        mbal = cx.u256("mbal", 1, 2**254)
        s.set_account(st, k.me, k.types.Account(nonce=k.Uint(0), balance=mbal, code=b""))
    s.set_account(st, k.from_, k.types.Account(nonce=k.Uint(1), balance=fbal, code=b""))
    if pre:
        s.set_storage(st, k.me, k.key, k.U256(77))
    k.begin(st, k.tenv)
    accounts = (k.from_, k.me)
    before = view(k, cx, accounts)
    gas = cx.uint("gas", 2**40)
    msg = k.message(k.block_env(st), k.tenv, caller=k.from_, target=k.Bytes0(b""), current_target=k.me, code_address=None, code=code,
                    value=value, gas=gas, depth=k.Uint(3), data=b"")
    out = k.run(k.m("vm.interpreter").process_create_message, msg)
    cx.check("returns", out == "ok", out)
    evm = k.ret
    run = 3 + 3 + 20000 + (2100 if ge(fork, "berlin") else 0) + 3 + 3 + 3 + 3 + 3 + mem_cost(size)
    deposit = 200 * size
    left = int(evm.gas_left)
    g = int(gas)
    fails = g < run
    kept = True
    if not fails:
        if ge(fork, "london") and b == 0xEF:
            fails = True
        elif g < run + deposit:
            if fork == "frontier":
                kept = False
            else:
                fails = True
        elif ge(fork, "spurious_dragon") and size > 24576:
            fails = True
    if fails:
        cx.check("fails", evm.error)
        cx.check("gas consumed", left == 0)
        same(k, cx, "restored", before, accounts)
        if ge(fork, "byzantium"):
            cx.check("no output", len(evm.output) == 0)
    else:
        cx.check("succeeds", not evm.error, str(evm.error))
        cx.check("gas left", left == g - run - (deposit if kept else 0))
        now = view(k, cx, accounts)
        acct = now[1][1]
        cx.check("nonce", int(acct.nonce) == (1 if ge(fork, "spurious_dragon") else 0))
        cx.check("value taken", int(now[0][1].balance) == int(fbal) - int(value))
        cx.check("value given", int(acct.balance) == int(mbal) + int(value))
        cx.check("old storage gone", int(now[1][2]) == 0)
        cx.check("new storage kept", int(s.get_storage(st, k.me, k.Bytes32((6).to_bytes(32, "big")))) == 9)
        if kept:
            cx.check_eq("code", acct.code, cx.bytes_of(size, lambda i: cx.ite(i == 0, b, 0)))
        else:
            cx.check("no code", len(acct.code) == 0)
    cx.observe("left", left)
    cx.observe("failed", bool(evm.error))


def h_create_fails(cx, fork):
    """init code that ends in an error, or deploys nothing"""
    from oracle.forks import ge
    k = world(cx, fork)
    s, st = k.state_mod, k.st
    fbal = cx.u256("fbal", 1)
    value = cx.u256("value", 0, 2**254)
    cx.assume(int(fbal) >= int(value))
    kinds = ["invalid", "underflow", "stop"] + (["revert"] if ge(fork, "byzantium") else [])
    end = cx.choice("end", kinds)
    code = bytes([0x60, 9, 0x60, 6, 0x55]) + END[end]
    s.set_account(st, k.me, k.types.Account(nonce=k.Uint(0), balance=k.U256(3), code=b""))
    s.set_account(st, k.from_, k.types.Account(nonce=k.Uint(1), balance=fbal, code=b""))
    s.set_storage(st, k.me, k.key, k.U256(77))
    k.begin(st, k.tenv)
    accounts = (k.from_, k.me)
    before = view(k, cx, accounts)
    gas = cx.uint("gas", 10**6, 50000)
    msg = k.message(k.block_env(st), k.tenv, caller=k.from_, target=k.Bytes0(b""), current_target=k.me, code_address=None, code=code,
                    value=value, gas=gas, depth=k.Uint(3), data=b"")
    out = k.run(k.m("vm.interpreter").process_create_message, msg)
    cx.check("returns", out == "ok", out)
    evm = k.ret
    left = int(evm.gas_left)
    used = 20006 + (2100 if ge(fork, "berlin") else 0)
    if end == "stop":
        cx.check("succeeds", not evm.error)
        cx.check("no code", len(s.get_account(st, k.me).code) == 0)
        cx.check("gas left", left == int(gas) - used)
        cx.check("value given", int(s.get_account(st, k.me).balance) == 3 + int(value))
        cx.check("storage replaced", int(s.get_storage(st, k.me, k.key)) == 0)
        return
    cx.check("fails", evm.error)
    same(k, cx, "restored", before, accounts)
    if end == "revert":
        cx.check("gas kept", left == int(gas) - used - 2 - 3 - 6 - 6)
        cx.check("output kept", len(evm.output) == 32)
    else:
        cx.check("gas consumed", left == 0)
        if ge(fork, "byzantium"):
            cx.check("no output", len(evm.output) == 0)
