"""C01: arithmetic opcodes."""

ENCODED = ["vm.instructions.arithmetic.*", "vm.stack.pop/push", "vm.gas.charge_gas", "vm.instructions.op_implementation",
           "ethereum_types.numeric (U256/Uint)"]
BOUNDS = ("operands: every 256-bit value; gas: every value below 2^64; one instruction, one item below the operands; "
          "EXP result compared as modular power (uninterpreted, true semantics on models)")
ASSUMPTIONS = []

# byte: (name, operands, gas)
OPS = {
    0x01: ("ADD", 2, 3), 0x02: ("MUL", 2, 5), 0x03: ("SUB", 2, 3), 0x04: ("DIV", 2, 5), 0x05: ("SDIV", 2, 5),
    0x06: ("MOD", 2, 5), 0x07: ("SMOD", 2, 5), 0x08: ("ADDMOD", 3, 8), 0x09: ("MULMOD", 3, 8), 0x0A: ("EXP", 2, None),
    0x0B: ("SIGNEXTEND", 2, 5),
}
FORKS = None


def jobs(tier):
    import os, sys
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from oracle.forks import FORKS
    out = []
    for f in FORKS:
        for b in OPS:
            out.append({"harness": "h_op", "params": {"fork": f, "op": b}, "weight": 5 if b in (5, 7, 11) else 1})
    return out


M = 2**256


def signed(x):
    return x - M if x >= 2**255 else x


def spec(name, v):
    a, b = v[0], v[1]
    if name == "ADD":
        return (a + b) % M
    if name == "MUL":
        return (a * b) % M
    if name == "SUB":
        return (a - b) % M
    if name == "DIV":
        return a // b if b != 0 else 0
    if name == "MOD":
        return a % b if b != 0 else 0
    if name == "SDIV":
        if b == 0:
            return 0
        sa, sb = signed(a), signed(b)
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0):
            q = -q
        return q % M
    if name == "SMOD":
        if b == 0:
            return 0
        sa, sb = signed(a), signed(b)
        r = abs(sa) % abs(sb)
        if sa < 0:
            r = -r
        return r % M
    if name == "ADDMOD":
        return (a + b) % v[2] if v[2] != 0 else 0
    if name == "MULMOD":
        return (a * b) % v[2] if v[2] != 0 else 0
    if name == "EXP":
        return pow(a, b, M)
    if name == "SIGNEXTEND":
        if a >= 31:
            return b
        for k in range(31):
            if a == k:
                bits = 8 * (k + 1)
                low = b % 2**bits
                if low >= 2 ** (bits - 1):
                    return low + (M - 2**bits)
                return low
    raise AssertionError(name)


def gas_cost(name, const, fork, v):
    from oracle.forks import ge
    if name != "EXP":
        return const
    per = 50 if ge(fork, "spurious_dragon") else 10
    n = (v[1].bit_length() + 7) // 8
    return 10 + per * n


def h_op(cx, fork, op):
    from oracle.kit import Kit
    k = Kit(cx, fork)
    name, n, const = OPS[op]
    below = cx.u256("below")
    args = [cx.u256("x%d" % i) for i in range(n)]      # x0 is the top
    gas = cx.uint("gas", 2**64 - 1)
    evm = k.evm(stack=[below] + args[::-1], gas_left=gas, pc=k.Uint(cx.int("pc", 0, 2**32)))
    before = k.snap(evm)
    out = k.step(op, evm)
    vals = [int(a) for a in args]
    cost = gas_cost(name, const, fork, vals)
    if int(gas) < cost:
        cx.check("out of gas halts", out == "halt")
        return
    cx.check("succeeds", out == "ok", out)
    cx.check("one result", len(evm.stack) == 2)
    cx.check("result", int(evm.stack[1]) == spec(name, vals))
    cx.check_eq("item below kept", evm.stack[0], below)
    cx.check("gas", int(evm.gas_left) == int(gas) - cost)
    cx.check("pc", int(evm.pc) == int(before["pc"]) + 1)
    k.unchanged("frame", evm, before, ("stack", "gas_left", "pc"))
    cx.observe("stack", list(evm.stack))
    cx.observe("gas", evm.gas_left)
