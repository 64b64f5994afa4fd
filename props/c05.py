"""C05: reading and copying call data, code, return data; hashing; RETURN and REVERT data."""

ENCODED = ["vm.instructions.environment.calldata*/code*/extcode*/returndata*", "vm.instructions.keccak.keccak",
           "vm.instructions.system.return_/revert", "vm.memory.*", "vm.gas.calculate_gas_extend_memory", "vm.gas.charge_gas",
           "state.get_account", "utils.address.to_address_masked"]
BOUNDS = ("offsets and lengths: every 256-bit value; gas below 2^64; memory any multiple of 32 bytes up to 2^40, source buffers of "
          "every length up to 2^32, all with arbitrary contents; one account in the state, at any address; one accessed address")
ASSUMPTIONS = ["keccak256 is an uninterpreted function of the bytes (true function on models)",
               "memory is a multiple of 32 bytes before the instruction"]

OPS = {0x35: ("CALLDATALOAD", 1, "frontier"), 0x36: ("CALLDATASIZE", 0, "frontier"), 0x37: ("CALLDATACOPY", 3, "frontier"),
       0x38: ("CODESIZE", 0, "frontier"), 0x39: ("CODECOPY", 3, "frontier"), 0x3B: ("EXTCODESIZE", 1, "frontier"),
       0x3C: ("EXTCODECOPY", 4, "frontier"), 0x3D: ("RETURNDATASIZE", 0, "byzantium"), 0x3E: ("RETURNDATACOPY", 3, "byzantium"),
       0x3F: ("EXTCODEHASH", 1, "constantinople"), 0x20: ("KECCAK256", 2, "frontier"), 0xF3: ("RETURN", 2, "frontier"),
       0xFD: ("REVERT", 2, "byzantium")}


def jobs(tier):
    from oracle.forks import since
    return [{"harness": "h_copy", "params": {"fork": f, "op": b}, "weight": 5 if b in (0x3C, 0x3E) else 2}
            for b in OPS for f in since(OPS[b][2])]


def h_copy(cx, fork, op):
    from oracle.kit import Kit
    from oracle.mem import Mem, words, padded
    from oracle.costs import account_access
    k = Kit(cx, fork)
    name, n, first = OPS[op]
    args = [cx.u256("x%d" % i) for i in range(n)]
    for a in args[1 if name.startswith("EXT") else 0:]:
        cx.prefer_small(a)
    data = cx.buf("data", 2**32, 0)
    mkw, ekw = {}, {}
    if name.startswith("CALLDATA"):
        mkw["data"] = data
    elif name.startswith("CODE"):
        ekw["code"] = data
    elif name.startswith("RETURNDATA"):
        ekw["return_data"] = data
    st = k.state()
    if name.startswith("EXT"):
        holder = cx.address("holder")
        acct = k.types.Account(nonce=k.Uint(cx.int("nonce", 0, 2**64 - 1)), balance=cx.u256("balance"), code=data)
        k.state_mod.set_account(st, holder, acct)
        ekw.update(k.access_sets())
    msg = k.message(k.block_env(st), **mkw)
    evm = k.frame(args, mem=True, message=msg, **ekw)
    out = k.step(op, evm)
    v = [int(a) for a in args]
    m = Mem(cx, k.old_mem)
    if name in ("CALLDATASIZE", "CODESIZE", "RETURNDATASIZE"):
        if k.paid(out, 2):
            k.settled(2, [k.U256(len(data))])
        return
    if name == "CALLDATALOAD":
        if k.paid(out, 3):
            w = 0
            for i in range(32):
                w = w * 256 + cx.at0(data, v[0] + i)
            k.settled(3, [k.U256(w)])
        return
    if name in ("KECCAK256", "RETURN", "REVERT"):
        m.touch(v[0], v[1])
        cost = (30 + 6 * words(v[1]) if name == "KECCAK256" else 0) + m.cost
        if not k.paid(out, cost, "revert" if name == "REVERT" else "ok"):
            return
        want = padded(cx, k.old_mem, v[0], v[1])
        if name == "KECCAK256":
            k.settled(cost, [k.U256.from_be_bytes(cx.keccak(want))], m.grown())
        else:
            cx.check_eq("output", evm.output, want)
            if name == "RETURN":
                cx.check("stopped", evm.running == False)  # noqa: E712
            k.settled(cost, [], m.grown(), allowed=("output", "running"), pc=None)
        return
    if name.startswith("EXT"):
        addr = k.Bytes20((v[0] % 2**160).to_bytes(20, "big"))
        src = data if cx.eq(addr, holder) else cx.B(b"")
        cost = account_access(k, addr, "hash" if name == "EXTCODEHASH" else "ext")
        if name == "EXTCODECOPY":
            m.touch(v[1], v[3])
            cost = cost + 3 * words(v[3]) + m.cost
        if not k.paid(out, cost):
            return
        acc = ("accessed_addresses", "accessed_storage_keys") if k.has_access() else ()
        if name == "EXTCODESIZE":
            k.settled(cost, [k.U256(len(src))], allowed=acc)
        elif name == "EXTCODECOPY":
            k.settled(cost, [], m.written(v[1], padded(cx, src, v[2], v[3]), v[3]), allowed=acc)
        else:
            if not cx.eq(addr, holder):
                want = k.U256(0)
            elif cx.and_(acct.nonce == 0, acct.balance == 0, len(data) == 0):
                want = k.U256(0)
            else:
                want = k.U256.from_be_bytes(cx.keccak(data))
            k.settled(cost, [want], allowed=acc)
        k.check_access(evm, [addr])
        cx.check_eq("account kept", k.state_mod.get_account(st, holder), acct)
        return
    # the three-operand copies
    m.touch(v[0], v[2])
    cost = 3 + 3 * words(v[2]) + m.cost
    if name == "RETURNDATACOPY":
        if int(k.gas) >= cost and v[1] + v[2] > len(data):
            cx.check("reading past the return data halts", out == "halt", out)
            return
    if k.paid(out, cost):
        k.settled(cost, [], m.written(v[0], padded(cx, data, v[1], v[2]), v[2]))
