"""C03: stack discipline of every opcode; PUSH, DUP, SWAP, POP."""

ENCODED = ["vm.stack.*", "vm.instructions.stack.*", "vm.instructions.op_implementation (every opcode)", "vm.gas.charge_gas",
           "vm.memory.buffer_read"]
BOUNDS = ("stack items: every 256-bit value; gas: every value below 2^64; depths: every depth below the operand count, "
          "n, n+2, 1023 and 1024; PUSH: code of every length up to 2^32 with symbolic bytes, every position in it; "
          "thorough: every depth around each operand count and 1020-1024 for PUSH/DUP/SWAP")
ASSUMPTIONS = []


def jobs(tier):
    from oracle.forks import FORKS
    from oracle.opcodes import OPCODES, exists
    out = []
    for f in FORKS:
        for b in sorted(OPCODES):
            if not exists(b, f):
                continue
            name, pops, pushes, first = OPCODES[b]
            g = {"group": f}
            if pops:
                out.append({"harness": "h_underflow", "params": {"fork": f, "op": b}, **g})
            if pushes > pops:
                out.append({"harness": "h_overflow", "params": {"fork": f, "op": b}, **g})
            if 0x5F <= b <= 0x7F:
                out.append({"harness": "h_push", "params": {"fork": f, "op": b, "depths": [0, 3, 1023] if tier == "quick" else [0, 1, 3, 16, 512, 1022, 1023]}, **g})
            elif 0x80 <= b <= 0x8F:
                n = b - 0x7F
                ds = [n, n + 2, 1023] if tier == "quick" else [n, n + 1, n + 2, n + 17, 1022, 1023]
                out.append({"harness": "h_dup", "params": {"fork": f, "op": b, "depths": ds}, **g})
            elif 0x90 <= b <= 0x9F:
                n = b - 0x8E
                ds = [n, n + 2, 1024] if tier == "quick" else [n, n + 1, n + 2, n + 17, 1022, 1023, 1024]
                out.append({"harness": "h_swap", "params": {"fork": f, "op": b, "depths": ds}, **g})
            elif b == 0x50:
                out.append({"harness": "h_pop", "params": {"fork": f, "depths": [1, 2, 1024]}, **g})
    return out


def items(cx, k, n):
    """n items: the top 20 symbolic, the ones below distinct constants"""
    s = min(n, 20)
    return [k.U256(i + 1) for i in range(n - s)] + [cx.u256("s%d" % i) for i in range(s)]


def h_underflow(cx, fork, op):
    from oracle.kit import Kit
    from oracle.opcodes import OPCODES
    k = Kit(cx, fork)
    d = cx.choice("depth", range(OPCODES[op][1]))
    evm = k.evm(stack=items(cx, k, d), gas_left=cx.uint("gas", 2**64 - 1), code=bytes([op]))
    out = k.step(op, evm)
    cx.check("underflow halts", out == "halt", out)


def h_overflow(cx, fork, op):
    from oracle.kit import Kit
    k = Kit(cx, fork)
    d = cx.choice("depth", [1023, 1024])
    evm = k.evm(stack=items(cx, k, d), gas_left=cx.uint("gas", 2**64 - 1, 10**6), code=bytes([op]) + b"\x01" * 32)
    out = k.step(op, evm)
    if d == 1024:
        cx.check("overflow halts", out == "halt", out)
    else:
        cx.check("1024 items are allowed", out == "ok" and len(evm.stack) == 1024, out)


def _frame(cx, k, depths, **kw):
    st = items(cx, k, cx.choice("depth", depths))
    gas = cx.uint("gas", 2**64 - 1)
    kw.setdefault("pc", k.Uint(cx.int("pc", 0, 2**32)))
    evm = k.evm(stack=list(st), gas_left=gas, **kw)
    return st, gas, evm, k.snap(evm)


def _after(cx, k, out, evm, before, gas, cost, step, stack):
    if int(gas) < cost:
        cx.check("out of gas halts", out == "halt")
        return
    cx.check("succeeds", out == "ok", out)
    cx.check_eq("stack", evm.stack, stack)
    cx.check("gas", int(evm.gas_left) == int(gas) - cost)
    cx.check("pc", int(evm.pc) == int(before["pc"]) + step)
    k.unchanged("frame", evm, before, ("stack", "gas_left", "pc"))
    cx.observe("top", evm.stack[-3:])


def h_push(cx, fork, op, depths):
    from oracle.kit import Kit
    k = Kit(cx, fork)
    n = op - 0x5F
    code = cx.buf("code", 2**32, 1)
    pc = cx.int("pc", 0, 2**32)
    cx.assume(pc < len(code))
    st, gas, evm, before = _frame(cx, k, depths, code=code, pc=k.Uint(pc))
    out = k.step(op, evm)
    want = 0
    for i in range(n):
        p = pc + 1 + i
        want = want * 256 + cx.at0(code, p)
    _after(cx, k, out, evm, before, gas, 3 if n else 2, 1 + n, st + [k.U256(want)])


def h_dup(cx, fork, op, depths):
    from oracle.kit import Kit
    k = Kit(cx, fork)
    st, gas, evm, before = _frame(cx, k, depths)
    out = k.step(op, evm)
    _after(cx, k, out, evm, before, gas, 3, 1, st + [st[-(op - 0x7F)]])


def h_swap(cx, fork, op, depths):
    from oracle.kit import Kit
    k = Kit(cx, fork)
    st, gas, evm, before = _frame(cx, k, depths)
    out = k.step(op, evm)
    n = op - 0x8F
    want = list(st)
    want[-1], want[-1 - n] = st[-1 - n], st[-1]
    _after(cx, k, out, evm, before, gas, 3, 1, want)


def h_pop(cx, fork, depths):
    from oracle.kit import Kit
    k = Kit(cx, fork)
    st, gas, evm, before = _frame(cx, k, depths)
    out = k.step(0x50, evm)
    _after(cx, k, out, evm, before, gas, 2, 1, st[:-1])
