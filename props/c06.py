"""C06: control flow, jump destinations, the opcode table."""

ENCODED = ["vm.instructions.control_flow.*", "vm.runtime.get_valid_jump_destinations", "vm.instructions.Ops / op_implementation",
           "vm.interpreter.execute_code", "vm.gas.charge_gas", "vm.stack.*"]
BOUNDS = ("JUMP/JUMPI: every destination, condition, gas below 2^64 and program counter, a set of two arbitrary valid destinations; "
          "jump destination analysis: every first byte followed by 34 JUMPDESTs, and every code of 3 bytes (thorough 5) over eight "
          "byte classes; interpreter loop: programs of the listed templates with symbolic bytes, push data and gas; every byte as opcode")
ASSUMPTIONS = []


def jobs(tier):
    from oracle.forks import FORKS
    out = []
    for f in FORKS:
        for b in (0x00, 0x56, 0x57, 0x58, 0x5A, 0x5B):
            out.append({"harness": "h_flow", "params": {"fork": f, "op": b}})
        out.append({"harness": "h_classes", "params": {"fork": f}, "weight": 8})
        out.append({"harness": "h_dests", "params": {"fork": f, "n": 3 if tier == "quick" else 5}, "weight": 5})
        for lo in range(0, 256, 64):
            out.append({"harness": "h_table", "params": {"fork": f, "lo": lo}, "weight": 8})
        for t in TEMPLATES:
            out.append({"harness": "h_program", "params": {"fork": f, "template": t, "deep": tier != "quick"}, "weight": 10})
    return out


def h_flow(cx, fork, op):
    """one instruction on an arbitrary frame"""
    from oracle.kit import Kit
    k = Kit(cx, fork)
    n, cost = {0x00: (0, 0), 0x56: (1, 8), 0x57: (2, 10), 0x58: (0, 2), 0x5A: (0, 2), 0x5B: (0, 1)}[op]
    args = [cx.u256("x%d" % i) for i in range(n)]
    dests = [cx.uint("dest%d" % i, 2**32) for i in range(2)]
    evm = k.frame(args, valid_jump_destinations=set(dests))
    out = k.step(op, evm)
    gas = int(k.gas)
    pc = int(k.before["pc"])
    if op == 0x00:
        cx.check("stop succeeds", out == "ok", out)
        cx.check("stopped", evm.running == False)  # noqa: E712
        k.settled(0, allowed=("running",), pc=None)
        return
    if gas < cost:
        cx.check("out of gas halts", out == "halt", out)
        return
    if op == 0x56 or (op == 0x57 and int(args[1]) != 0):
        valid = cx.or_(*[int(args[0]) == int(d) for d in dests])
        if not valid:
            cx.check("bad destination halts", out == "halt", out)
            return
        cx.check("succeeds", out == "ok", out)
        k.settled(cost, allowed=(), pc=None)
        cx.check("jumped", int(evm.pc) == int(args[0]))
        return
    cx.check("succeeds", out == "ok", out)
    if op == 0x58:
        k.settled(cost, [k.U256(pc)])
    elif op == 0x5A:
        k.settled(cost, [k.U256(gas - cost)])
    else:
        k.settled(cost)


def check_dests(cx, k, code, fork):
    from oracle.interp import jumpdests
    found = k.m("vm.runtime").get_valid_jump_destinations(bytes(code))
    want = jumpdests(code, fork)
    for i in range(len(code) + 2):
        cx.check("destination iff JUMPDEST outside push data", (k.Uint(i) in found) == (i in want), [i, code])


def h_classes(cx, fork):
    """every first byte, followed by JUMPDESTs"""
    from oracle.kit import Kit
    k = Kit(cx, fork)
    b = cx.choice("byte", range(256))
    check_dests(cx, k, [b] + [0x5B] * 34, fork)


def h_dests(cx, fork, n):
    from oracle.kit import Kit
    k = Kit(cx, fork)
    alpha = [0x5B, 0x60, 0x61, 0x7F, 0x00, 0xFE, 0x5F, 0x80]
    code = [cx.choice("b%d" % i, alpha) for i in range(n)]
    check_dests(cx, k, code, fork)


def execute(cx, k, code, gas):
    st = k.state()
    k.state_mod.set_account(st, k.addr(0xAA), k.account(nonce=1))
    tenv = k.tx_env()
    k.begin(st, tenv)
    msg = k.message(k.block_env(st, number=k.Uint(0)), tenv, code=code, gas=gas)
    evm = k.m("vm.interpreter").execute_code(msg)
    if evm.error is None:
        return "ok", evm
    if isinstance(evm.error, k.m("vm.exceptions").ExceptionalHalt):
        return "halt", evm
    return "revert", evm


def h_table(cx, fork, lo):
    """every byte as an opcode, after seven zeros"""
    from oracle.kit import Kit
    from oracle.opcodes import exists
    k = Kit(cx, fork)
    b = cx.choice("byte", range(lo, lo + 64))
    code = bytes([0x60, 0] * 20 + [b])
    gas = cx.uint("gas", 2**60, 10**6)
    st, evm = execute(cx, k, code, gas)
    if not exists(b, fork):
        cx.check("undefined byte halts", st == "halt", [b, st])
        cx.check("halting consumes all gas", int(evm.gas_left) == 0)
        cx.check("halting leaves no output", len(evm.output) == 0)
    elif b == 0x56:
        cx.check("bad jump halts", st == "halt", [b, st])
    elif b == 0xFD:
        cx.check("revert reverts", st == "revert", [b, st])
        cx.check("revert keeps gas", int(evm.gas_left) == int(gas) - 60)
    else:
        cx.check("defined byte runs", st == "ok", [b, st])


OPS = [0x00, 0x5B, 0x56, 0x57, 0x58, 0x5A, 0x50, 0x60, 0x61, 0x01, 0xFE, 0xFD]
TEMPLATES = {
    # literals, "t": symbolic push data, "d": one of the destination classes, "o": any of OPS
    "any": ["o", "o"],
    "jump": [0x60, "t", 0x56, "d", "d", "d"],
    "jumpi": [0x60, "t", 0x60, "t", 0x57, "d", "d"],
    "loop": [0x5B, 0x60, "z", 0x56],
    "push": [0x60, "t", "o", "t"],
}


def h_program(cx, fork, template, deep):
    """whole programs against a reference interpreter"""
    from oracle.kit import Kit
    from oracle.interp import run
    k = Kit(cx, fork)
    shape = list(TEMPLATES[template])
    if deep:
        shape = shape + (["o"] if template != "loop" else [])
    code = []
    for i, s in enumerate(shape):
        if s == "o":
            code.append(cx.choice("o%d" % i, OPS))
        elif s == "d":
            code.append(cx.choice("d%d" % i, [0x5B, 0x60, 0x00, 0xFE]))
        elif s == "t":
            code.append(cx.int("t%d" % i, 0, 7 if template.startswith("jump") else 255))
        elif s == "z":
            code.append(cx.int("z%d" % i, 0, 3))
        else:
            code.append(s)
    # push data that is also executed must be concrete
    if template == "push":
        code[3] = cx.choice("p3", [0x00, 0x5B, 0x60, 0x01])
    gas = cx.uint("gas", 60 if template == "loop" else 2**64 - 1)
    want, left, stack = run(code, int(gas), fork)
    st, evm = execute(cx, k, bytes(code), gas)
    cx.check("outcome", st == want, [st, want, code])
    cx.check("gas left", int(evm.gas_left) == left)
    if want == "ok":
        cx.check("stack", cx.eq([int(x) for x in evm.stack], stack))
    if st != "revert":
        cx.check("no output", len(evm.output) == 0)
    cx.observe("gas", evm.gas_left)
    cx.observe("stack", list(evm.stack))
