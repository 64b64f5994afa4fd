"""C02: comparison, bitwise, shift and bit-counting opcodes."""

ENCODED = ["vm.instructions.comparison.*", "vm.instructions.bitwise.*", "vm.stack.pop/push", "vm.gas.charge_gas",
           "vm.instructions.op_implementation", "ethereum_types.numeric (U256/Uint)"]
BOUNDS = "operands: every 256-bit value; gas: every value below 2^64; one instruction, one item below the operands"
ASSUMPTIONS = []

# byte: (name, operands, gas, first fork)
OPS = {
    0x10: ("LT", 2, 3, "frontier"), 0x11: ("GT", 2, 3, "frontier"), 0x12: ("SLT", 2, 3, "frontier"),
    0x13: ("SGT", 2, 3, "frontier"), 0x14: ("EQ", 2, 3, "frontier"), 0x15: ("ISZERO", 1, 3, "frontier"),
    0x16: ("AND", 2, 3, "frontier"), 0x17: ("OR", 2, 3, "frontier"), 0x18: ("XOR", 2, 3, "frontier"),
    0x19: ("NOT", 1, 3, "frontier"), 0x1A: ("BYTE", 2, 3, "frontier"), 0x1B: ("SHL", 2, 3, "constantinople"),
    0x1C: ("SHR", 2, 3, "constantinople"), 0x1D: ("SAR", 2, 3, "constantinople"), 0x1E: ("CLZ", 1, 5, "osaka"),
}
M = 2**256


def jobs(tier):
    from oracle.forks import since
    out = []
    for b, (name, n, g, first) in OPS.items():
        for f in since(first):
            out.append({"harness": "h_op", "params": {"fork": f, "op": b}})
    return out


def signed(x):
    return x - M if x >= 2**255 else x


def spec(cx, name, v):
    a = v[0]
    b = v[1] if len(v) > 1 else None
    if name == "LT":
        return cx.ite(a < b, 1, 0)
    if name == "GT":
        return cx.ite(a > b, 1, 0)
    if name == "SLT":
        return cx.ite(signed(a) < signed(b), 1, 0)
    if name == "SGT":
        return cx.ite(signed(a) > signed(b), 1, 0)
    if name == "EQ":
        return cx.ite(a == b, 1, 0)
    if name == "ISZERO":
        return cx.ite(a == 0, 1, 0)
    if name == "AND":
        return a & b
    if name == "OR":
        return a | b
    if name == "XOR":
        return a ^ b
    if name == "NOT":
        return M - 1 - a
    if name == "BYTE":
        for k in range(32):
            if a == k:
                return (b // 256 ** (31 - k)) % 256
        return 0
    if name == "SHL":
        return (b << a) % M if a < 256 else 0
    if name == "SHR":
        return b >> a if a < 256 else 0
    if name == "SAR":
        if b < 2**255:
            return b >> a if a < 256 else 0
        return M - 1 - ((M - 1 - b) >> a) if a < 256 else M - 1
    if name == "CLZ":
        return 256 - a.bit_length()
    raise AssertionError(name)


def h_op(cx, fork, op):
    from oracle.kit import Kit
    k = Kit(cx, fork)
    name, n, cost, first = OPS[op]
    below = cx.u256("below")
    args = [cx.u256("x%d" % i) for i in range(n)]      # x0 is the top
    if name == "BYTE":                                  # one path per byte index, one for 32 and above
        i = cx.choice("index", list(range(33)))
        args[0] = k.U256(i) if i < 32 else cx.u256("x0", 32)
    gas = cx.uint("gas", 2**64 - 1)
    evm = k.evm(stack=[below] + args[::-1], gas_left=gas, pc=k.Uint(cx.int("pc", 0, 2**32)))
    before = k.snap(evm)
    out = k.step(op, evm)
    vals = [int(a) for a in args]
    if int(gas) < cost:
        cx.check("out of gas halts", out == "halt")
        return
    cx.check("succeeds", out == "ok", out)
    cx.check("one result", len(evm.stack) == 2)
    cx.check("result", int(evm.stack[1]) == spec(cx, name, vals))
    cx.check_eq("item below kept", evm.stack[0], below)
    cx.check("gas", int(evm.gas_left) == int(gas) - cost)
    cx.check("pc", int(evm.pc) == int(before["pc"]) + 1)
    k.unchanged("frame", evm, before, ("stack", "gas_left", "pc"))
    cx.observe("stack", list(evm.stack))
    cx.observe("gas", evm.gas_left)
