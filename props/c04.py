"""C04: memory opcodes."""

ENCODED = ["vm.instructions.memory.*", "vm.memory.*", "vm.gas.calculate_gas_extend_memory", "vm.gas.calculate_memory_gas_cost",
           "vm.gas.charge_gas"]
BOUNDS = ("offsets, lengths, values: every 256-bit value; gas: every value below 2^64; memory: every multiple of 32 bytes up to "
          "2^40 with arbitrary contents; one instruction")
ASSUMPTIONS = ["memory is a multiple of 32 bytes before the instruction (shown preserved by it)"]

OPS = {0x51: ("MLOAD", 1, 3, "frontier"), 0x52: ("MSTORE", 2, 3, "frontier"), 0x53: ("MSTORE8", 2, 3, "frontier"),
       0x59: ("MSIZE", 0, 2, "frontier"), 0x5E: ("MCOPY", 3, 3, "cancun")}


def jobs(tier):
    from oracle.forks import since
    return [{"harness": "h_mem", "params": {"fork": f, "op": b}, "weight": 5 if b == 0x5E else 1}
            for b in OPS for f in since(OPS[b][3])]


def h_mem(cx, fork, op):
    from oracle.kit import Kit
    from oracle.mem import Mem, words, padded
    k = Kit(cx, fork)
    name, n, base, first = OPS[op]
    below = cx.u256("below")
    args = [cx.u256("x%d" % i) for i in range(n)]
    for i in range(n):
        if name != "MSTORE8" or i == 0:
            cx.prefer_small(args[i])
    gas = cx.uint("gas", 2**64 - 1)
    old = cx.buf("mem", 2**40, 0, 32)
    evm = k.evm(stack=[below] + args[::-1], gas_left=gas, pc=k.Uint(cx.int("pc", 0, 2**32)), memory=bytearray(old))
    before = k.snap(evm)
    out = k.step(op, evm)
    v = [int(a) for a in args]
    m = Mem(cx, old)
    extra = 0
    if name in ("MLOAD", "MSTORE"):
        m.touch(v[0], 32)
    elif name == "MSTORE8":
        m.touch(v[0], 1)
    elif name == "MCOPY":
        extra = 3 * words(v[2])
        if v[0] < v[1]:
            m.touch(v[1], v[2])
        else:
            m.touch(v[0], v[2])
    cost = base + extra + m.cost
    if int(gas) < cost:
        cx.check("out of gas halts", out == "halt", out)
        return
    cx.check("succeeds", out == "ok", out)
    cx.check("gas", int(evm.gas_left) == int(gas) - cost)
    cx.check("pc", int(evm.pc) == int(before["pc"]) + 1)
    stack = [below]
    if name == "MLOAD":
        w = 0
        for i in range(32):
            w = w * 256 + cx.at0(old, v[0] + i)
        stack.append(k.U256(w))
        want = m.grown()
    elif name == "MSTORE":
        want = m.written(v[0], v[1].to_bytes(32, "big"), 32)
    elif name == "MSTORE8":
        want = m.written(v[0], (v[1] % 256).to_bytes(1, "big"), 1)
    elif name == "MSIZE":
        stack.append(k.U256(len(old)))
        want = old
    else:
        want = m.written(v[0], padded(cx, old, v[1], v[2]), v[2])
    cx.check_eq("stack", evm.stack, stack)
    cx.check_eq("memory", bytes(evm.memory), want)
    k.unchanged("frame", evm, before, ("stack", "gas_left", "pc", "memory"))
    cx.observe("stack", list(evm.stack))
    cx.observe("gas", evm.gas_left)
    cx.observe("size", len(evm.memory))
