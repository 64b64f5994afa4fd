"""C09: cold once, warm afterwards; accesses of failed frames are forgotten."""

ENCODED = ["vm.instructions.environment.balance/extcode*", "vm.instructions.storage.sload/sstore", "vm.instructions.system.call/"
           "delegatecall/staticcall/callcode/selfdestruct", "vm.incorporate_child_on_success/error", "vm.interpreter.process_message/execute_code",
           "vm.gas.charge_gas"]
BOUNDS = ("sequences of two (thorough three) accesses chosen from BALANCE, EXTCODESIZE, EXTCODEHASH, EXTCODECOPY, SLOAD, SSTORE, CALL and "
          "STATICCALL with arbitrary operands, after one arbitrary warm address and slot; a child frame of four kinds of ending between "
          "two accesses of the caller, operands arbitrary")
ASSUMPTIONS = ["called accounts have no code and are not precompiles, except the child of h_frames"]

KINDS = ("BALANCE", "EXTCODESIZE", "EXTCODEHASH", "EXTCODECOPY", "SLOAD", "SSTORE", "CALL", "STATICCALL")
BYTE = {"BALANCE": 0x31, "EXTCODESIZE": 0x3B, "EXTCODEHASH": 0x3F, "EXTCODECOPY": 0x3C, "SLOAD": 0x54, "SSTORE": 0x55,
        "CALL": 0xF1, "STATICCALL": 0xFA}


def jobs(tier):
    from oracle.forks import since
    out = []
    for f in since("berlin"):
        for k in KINDS:
            out.append({"harness": "h_sequence", "params": {"fork": f, "first": k, "n": 2 if tier == "quick" else 3}, "weight": 3})
        for end in ("stop", "revert", "invalid", "short"):
            for inner in ("address", "slot"):
                out.append({"harness": "h_frames", "params": {"fork": f, "end": end, "inner": inner}, "weight": 3})
    return out


def h_sequence(cx, fork, first, n):
    from oracle.kit import Kit
    k = Kit(cx, fork)
    s = k.state_mod
    st = k.state()
    me = k.addr(0xAA)
    s.set_account(st, me, k.account(nonce=1))
    tenv = k.tx_env()
    k.begin(st, tenv)
    ekw = k.access_sets()

    def child(msg):
        return k.evm(msg, gas_left=msg.gas, accessed_addresses=msg.accessed_addresses, accessed_storage_keys=msg.accessed_storage_keys)
    cx.stub(k.m("vm.interpreter"), "process_message", child)
    msg = k.message(k.block_env(st), tenv, current_target=me, target=me)
    evm = k.evm(msg, gas_left=cx.uint("gas", 2**60, 10**6), **ekw)
    addrs, slots = list(k.acc_a), list(k.acc_k)
    kinds = [first] + [cx.choice("kind%d" % i, KINDS) for i in range(1, n)]
    U = k.U256
    for i, kind in enumerate(kinds):
        x = cx.u256("x%d" % i)
        g0 = int(evm.gas_left)
        z = U(0)
        evm.stack = {"EXTCODECOPY": [z, z, z, x], "SSTORE": [z, x], "CALL": [z, z, z, z, z, x, z],
                     "STATICCALL": [z, z, z, z, x, z]}.get(kind, [x])
        out = k.step(BYTE[kind], evm)
        cx.check("succeeds", out == "ok", [kind, out])
        if kind in ("SLOAD", "SSTORE"):
            key = k.Bytes32(int(x).to_bytes(32, "big"))
            warm = any(cx.and_(cx.eq(a, me), cx.eq(q, key)) for a, q in slots)
            if kind == "SLOAD":
                cost = 100 if warm else 2100
            else:
                cost = 100 + (0 if warm else 2100)
            slots.append((me, key))
        else:
            a = k.Bytes20((int(x) % 2**160).to_bytes(20, "big"))
            cost = 100 if any(cx.eq(a, b) for b in addrs) else 2600
            addrs.append(a)
        cx.check("gas of access %d" % i, g0 - int(evm.gas_left) == cost, kinds)
    for a in addrs:
        cx.check("addresses include", a in evm.accessed_addresses)
    for a in evm.accessed_addresses:
        cx.check("addresses nothing else", cx.or_(*[cx.eq(a, b) for b in addrs]))
    for q in slots:
        cx.check("slots include", q in evm.accessed_storage_keys)
    for a, q in evm.accessed_storage_keys:
        cx.check("slots nothing else", cx.or_(*[cx.and_(cx.eq(a, b), cx.eq(q, r)) for b, r in slots]))


def h_frames(cx, fork, end, inner):
    """the caller calls a child that touches x and ends in the given way, then touches y itself (slots: of the same account, by
    delegate calls)"""
    from oracle.kit import Kit
    k = Kit(cx, fork)
    s = k.state_mod
    st = k.state()
    me, kid = k.addr(0xAA), k.addr(0xBEEF)
    x, y = cx.u256("x"), cx.u256("y")
    addr = inner == "address"
    op, cold_cost = (0x31, 2600) if addr else (0x54, 2100)
    body = bytes([0x7F]) + int(x).to_bytes(32, "big") + bytes([op, 0x50])
    body += {"stop": b"\x00", "revert": bytes([0x60, 0, 0x60, 0, 0xFD]), "invalid": b"\xfe", "short": bytes([0x60, 0, 0x60, 1, 0x90])}[end]
    s.set_account(st, me, k.account(nonce=1))
    s.set_account(st, kid, k.account(nonce=1, code=body))
    tenv = k.tx_env()
    k.begin(st, tenv)
    wa, wk = [me, kid], [(me, k.Bytes32((7).to_bytes(32, "big")))]
    call_gas = cold_cost + 13 if end == "short" else 50000
    msg = k.message(k.block_env(st), tenv, current_target=me, target=me)
    evm = k.evm(msg, gas_left=k.Uint(10**6), accessed_addresses=set(wa), accessed_storage_keys=set(wk))

    def item(w):
        return k.Bytes20((int(w) % 2**160).to_bytes(20, "big")) if addr else (me, k.Bytes32(int(w).to_bytes(32, "big")))

    def known(i, l):
        return any(cx.eq(i, a) if addr else cx.eq(i[1], a[1]) for a in l)
    warm = list(wa if addr else wk)
    U = k.U256
    z = U(0)
    evm.stack = [z, z, z, z, U(0xBEEF), U(call_gas)]
    g0 = int(evm.gas_left)
    out = k.step(0xF4, evm)
    cx.check("call succeeds", out == "ok", out)
    xi = item(x)
    cold_x = not known(xi, warm)
    ok = end == "stop" or (end == "short" and not cold_x)
    cx.check("call result", int(evm.stack[-1]) == (1 if ok else 0))
    used = 3 + (cold_cost if cold_x else 100) + 2
    if end == "invalid" or (end == "short" and not ok):
        used = call_gas
    elif end == "revert":
        used += 6
    elif end == "short":
        used += 9
    cx.check("gas of the call", g0 - int(evm.gas_left) == 100 + used)
    if ok:
        warm.append(xi)
    have = evm.accessed_addresses if addr else evm.accessed_storage_keys
    cx.check("child's access kept iff it succeeded", (xi in have) == (ok or not cold_x))
    g1 = int(evm.gas_left)
    evm.stack = [y]
    out = k.step(op, evm)
    cx.check("access succeeds", out == "ok", out)
    cost = 100 if known(item(y), warm) else cold_cost
    cx.check("gas of the later access", g1 - int(evm.gas_left) == cost)
