"""C43: execution traces."""

ENCODED = ["evm_tools.t8n.evm_trace: eip3155.Eip3155Tracer, output_traces, _TraceJsonEncoder, count.CountTracer, group.GroupTracer", "ethereum.trace",
           "vm.interpreter: process_message_call, process_message, execute_code (the events they emit)", "vm.gas.charge_gas", "the instructions the programs use"]
BOUNDS = ("programs of up to 11 instructions covering straight line, jump, bad jump, underflow, unknown opcode first and later, falling off the end, return, revert, storage write, and a "
          "call to a child (that stops, falls off, fails first or later, is empty or a precompile, in one or two calls), with every value pushed and every amount of gas up to 200 "
          "(single frames) or an ample amount (calls); memory, stack and return data on and off; CountTracer of one transaction")
ASSUMPTIONS = ["JSON printing and files are replaced by recorders", "the gas charged for a storage write or call is taken from the machine (C06, C12)"]

PLAIN = {
    "sum": [("PUSH1", 0x60), ("PUSH1", 0x60), ("ADD", 0x01), ("DUP1", 0x80), ("POP", 0x50), ("PUSH1=0", 0x60), ("MSTORE", 0x52), ("PC", 0x58), ("GAS", 0x5A), ("STOP", 0x00)],
    "end": [("PUSH1", 0x60), ("POP", 0x50)],
    "unknown first": [("?", 0x0C)],
    "unknown later": [("PUSH1", 0x60), ("?", 0x0C), ("STOP", 0x00)],
    "underflow": [("PUSH1", 0x60), ("ADD", 0x01), ("STOP", 0x00)],
    "jump": [("PUSH1=4", 0x60), ("JUMP", 0x56), ("?", 0x0C), ("JUMPDEST", 0x5B), ("PUSH1", 0x60), ("STOP", 0x00)],
    "bad jump": [("PUSH1=3", 0x60), ("JUMP", 0x56), ("?", 0x0C), ("JUMPDEST", 0x5B), ("PUSH1", 0x60), ("STOP", 0x00)],
    "return": [("PUSH1", 0x60), ("PUSH1=0", 0x60), ("MSTORE", 0x52), ("PUSH1=32", 0x60), ("PUSH1=0", 0x60), ("RETURN", 0xF3)],
    "revert": [("PUSH1", 0x60), ("PUSH1=0", 0x60), ("MSTORE", 0x52), ("PUSH1=32", 0x60), ("PUSH1=0", 0x60), ("REVERT", 0xFD)],
    "empty": [],
}
COST = {"ADD": 3, "DUP1": 3, "POP": 2, "PC": 2, "GAS": 2, "STOP": 0, "JUMP": 8, "JUMPDEST": 1, "MSTORE": 3, "RETURN": 0, "REVERT": 0}


def jobs(tier):
    from oracle.forks import FORKS, ge
    out = []
    for f in FORKS:
        for p in PLAIN:
            if p == "revert" and not ge(f, "byzantium"):
                continue
            out.append({"harness": "h_frame", "params": {"fork": f, "program": p}})
        for c in ("stop", "end", "unknown first", "unknown later", "gas", "empty", "precompile"):
            out.append({"harness": "h_call", "params": {"fork": f, "child": c, "twice": False}})
            if tier == "thorough" or f in ("frontier", "byzantium", "berlin", "osaka"):
                out.append({"harness": "h_call", "params": {"fork": f, "child": c, "twice": True}})
        out.append({"harness": "h_store", "params": {"fork": f}})
        out.append({"harness": "h_create", "params": {"fork": f}})
        out.append({"harness": "h_again", "params": {"fork": f}})
    out.append({"harness": "h_output", "params": {"fork": "osaka"}})
    out.append({"harness": "h_group", "params": {"fork": "osaka"}})
    return out


def assemble(cx, program):
    """code and the pushed values"""
    code, values = b"", []
    for i, (name, byte) in enumerate(program):
        code = code + bytes([byte])
        if name.startswith("PUSH"):
            if "=" in name:
                v = int(name.split("=")[1])
                code = code + bytes([v])
            else:
                b = cx.bytesn("push%d" % i, 1)
                code = code + b
                v = int.from_bytes(b, "big")
            values.append(v)
        else:
            values.append(None)
    return code, values


def expected(cx, program, values, gas):
    """entries of a run of one frame: (pc, op, name, gas before, charge, stack, memory size, error), and (gas left, kind of end)"""
    at, pcs = 0, []
    for name, byte in program:
        pcs.append(at)
        at += 2 if name.startswith("PUSH") else 1
    out, i, stack, mem = [], 0, [], 0

    def entry(op, name, charge, error=None):
        out.append(dict(pc=pcs[i] if i < len(program) else at, op=op, name=name, gas=gas, charge=charge, stack=list(stack), mem=mem, error=error))
    if not program:
        return out, gas, "ok"
    while i < len(program):
        full, byte = program[i]
        name = full.split("=")[0]
        if name == "?":
            entry(byte, "InvalidOpcode", 0, "InvalidOpcode")
            return out, 0, "InvalidOpcode"
        cost = 3 if name.startswith("PUSH") else COST[name]
        need = {"ADD": 2, "DUP1": 1, "POP": 1, "MSTORE": 2, "JUMP": 1}.get(name, 0)
        if len(stack) < need:
            entry(byte, name, None, "StackUnderflowError")
            return out, 0, "StackUnderflowError"
        grow = 0
        if name == "MSTORE" and not mem:
            grow = 32
            cost += 3
        entry(byte, name, cost)
        if gas < cost:
            out[-1]["error"] = "OutOfGasError"
            return out, 0, "OutOfGasError"
        gas = gas - cost
        if name.startswith("PUSH"):
            stack.append(values[i])
        elif name == "ADD":
            stack.append(stack.pop() + stack.pop())
        elif name == "DUP1":
            stack.append(stack[-1])
        elif name == "POP":
            stack.pop()
        elif name == "MSTORE":
            stack.pop()
            stack.pop()
            mem += grow
        elif name == "PC":
            stack.append(pcs[i])
        elif name == "GAS":
            stack.append(gas)
        elif name == "STOP":
            return out, gas, "ok"
        elif name == "RETURN":
            return out, gas, "return"
        elif name == "REVERT":
            out[-1]["error"] = "Revert"
            return out, gas, "Revert"
        elif name == "JUMP":
            to = stack.pop()
            if to not in pcs or program[pcs.index(to)][1] != 0x5B:
                out[-1]["error"] = "InvalidJumpDestError"
                return out, 0, "InvalidJumpDestError"
            i = pcs.index(to)
            continue
        i += 1
    entry(0, "STOP", 0)
    return out, gas, "ok"


class Traced:
    """runs a message with a tracer and without"""

    def __init__(self, cx, fork, memory=False, stack=True, data=False):
        from oracle.kit import Kit
        self.cx, self.k = cx, Kit(cx, fork)
        self.trace = cx.load("ethereum.trace")
        self.E = cx.load("ethereum_spec_tools.evm_tools.t8n.evm_trace.eip3155")
        self.written = []
        cx.stub(self.E, "output_traces", lambda traces, index, h, base: self.written.append((list(traces), index, h, base)))
        self.tracer = self.E.Eip3155Tracer(trace_memory=memory, trace_stack=stack, trace_return_data=data, output_basedir="/nowhere")

    def execute(self, message, tracer):
        old = self.trace.set_evm_trace(tracer)
        try:
            return self.k.m("vm.interpreter").process_message_call(message)
        finally:
            self.trace.set_evm_trace(old)


def quiet(evm, event):
    return None


def same_output(cx, a, b):
    import dataclasses
    for f in dataclasses.fields(a):
        x, y = getattr(a, f.name), getattr(b, f.name)
        if f.name == "error":
            cx.check("same error", type(x) is type(y))
        elif isinstance(x, set):
            cx.check("same " + f.name, len(x) == len(y) and all(i in y for i in x))
        elif f.name in ("gas_left", "refund_counter"):
            cx.check_eq("same " + f.name, int(x), int(y))
        elif isinstance(x, tuple):
            cx.check("same " + f.name, len(x) == len(y))
        else:
            cx.check_eq("same " + f.name, x, y)


def number(cx, text):
    return cx.load("ethereum.utils.hexadecimal").hex_to_uint(text)._number


def compare(cx, got, want, depth=1):
    cx.check("an entry for every instruction and no other", len(got) == len(want))
    for g, w in zip(got, want):
        cx.check("program counter", g.pc == w["pc"])
        cx.check("code", g.op == w["op"])
        if w["name"] is not None:
            cx.check("name", g.opName == w["name"])
        cx.check("depth", g.depth == w.get("depth", depth))
        if w["gas"] is not None:
            cx.check_eq("gas", number(cx, g.gas), w["gas"])
        if w["charge"] is not None:
            cx.check_eq("charge", number(cx, g.gasCost), w["charge"])
        cx.check("error", g.error == w["error"])
        cx.check("memory size", g.memSize == w["mem"])
        if g.stack is not None:
            cx.check("stack items", len(g.stack) == len(w["stack"]))
            for x, y in zip(g.stack, w["stack"]):
                cx.check_eq("stack item", number(cx, x), y)


def world(k, code, extra=()):
    st = k.state()
    k.state_mod.set_account(st, k.addr(0xAA), k.account(1, 5, code))
    for a, acc in extra:
        k.state_mod.set_account(st, k.addr(a), acc)
    return k.block_env(st)


def final(cx, e, used, output, error):
    cx.check_eq("gas used", number(cx, e.gasUsed), used)
    cx.check("error", e.error == error)
    got = cx.load("ethereum.utils.hexadecimal").hex_to_bytes("0x" + e.output if type(e.output) is str else e.output)
    cx.check_eq("output", got, output)


def h_frame(cx, fork, program):
    p = PLAIN[program]
    mem, stk, dat = cx.choice("shown", [(False, True, False), (True, False, True)])
    t = Traced(cx, fork, mem, stk, dat)
    k = t.k
    code, values = assemble(cx, p)
    gas = cx.int("gas", 0, 200)
    h = k.Bytes32(b"\x11" * 32)

    def message():
        return k.message(world(k, code), k.tx_env(tx_hash=h, index_in_block=k.Uint(3)), code=code, gas=k.Uint(gas))
    o = t.execute(message(), t.tracer)
    same_output(cx, o, t.execute(message(), quiet))
    cx.check("written once", len(t.written) == 1)
    traces, index, hh, base = t.written[0]
    cx.check("of this transaction", int(index) == 3 and hh == h and base == "/nowhere")
    want, left, end = expected(cx, p, values, gas)
    failed = end not in ("ok", "return")
    out = b""
    if end in ("return", "Revert"):
        out = values[0].to_bytes(32, "big")
    compare(cx, traces[:-1], want)
    for g, w in zip(traces, want):
        cx.check("stack shown", (g.stack is not None) == stk)
        cx.check("memory shown", (g.memory is not None) == bool(mem and w["mem"]))
        if g.memory is not None:
            word = w["stack"] if program == "none" else None
            cx.check("memory length", len(g.memory) == 2 + 2 * w["mem"])
        from oracle.forks import ge
        cx.check("return data shown", (g.returnData is not None) == bool(dat and ge(fork, "byzantium")))
    final(cx, traces[-1], gas - left, out, end if failed else None)
    cx.check_eq("gas left", int(o.gas_left), left)
    # counting
    C = cx.load("ethereum_spec_tools.evm_tools.t8n.evm_trace.count").CountTracer()
    t.execute(message(), C)
    counts = {}
    known = [w for w in want if w["error"] != "InvalidOpcode" and w["pc"] < len(code)]
    for w in known:
        counts[w["name"]] = counts.get(w["name"], 0) + 1
    cx.check("counts", dict(C.results()) == counts)
    cx.check("counts cleared", dict(C.results()) == {})


CHILD = {"stop": (b"\x60\x01\x00", None), "end": (b"\x60\x01", None), "unknown first": (b"\x0c", "InvalidOpcode"), "unknown later": (b"\x60\x01\x0c", "InvalidOpcode"),
         "gas": (b"\x60\x01" * 40, "OutOfGasError"), "empty": (b"", None), "precompile": (None, None)}


def h_call(cx, fork, child, twice):
    t = Traced(cx, fork)
    k = t.k
    body, error = CHILD[child]
    at = 4 if child == "precompile" else 0xCC
    v = cx.bytesn("value", 1)
    code, want = b"", []
    stack = []

    def entry(pc, op, name, st, depth, gas=None, charge=None, error=None):
        want.append(dict(pc=pc, op=op, name=name, gas=gas, charge=charge, stack=list(st), mem=0, error=error, depth=depth))

    def add(op, name, arg=None):
        nonlocal code
        entry(len(code), op, name, stack, 1)
        code = code + bytes([op]) + (arg if arg is not None else b"")
    for turn in range(2 if twice else 1):
        for a in (b"\x00", b"\x00", b"\x00", b"\x00", b"\x00", bytes([at]), b"\x64"):
            add(0x60, "PUSH1", a)
            stack.append(a[0])
        add(0xF1, "CALL")
        stack = stack[:-7]
        g, inner = 100, []
        if child not in ("empty", "precompile"):
            pc, s = 0, []
            while True:
                if pc >= len(body):
                    entry(pc, 0, "STOP", s, 2, g, 0)
                    break
                if body[pc] == 0x60:
                    if g < 3:
                        entry(pc, 0x60, "PUSH1", s, 2, g, 3, "OutOfGasError")
                        break
                    entry(pc, 0x60, "PUSH1", s, 2, g, 3)
                    s.append(1)
                    g -= 3
                    pc += 2
                elif body[pc] == 0x00:
                    entry(pc, 0, "STOP", s, 2, g, 0)
                    break
                else:
                    entry(pc, 0x0C, "InvalidOpcode", s, 2, g, 0, "InvalidOpcode")
                    break
        stack.append(0 if error else 1)
    add(0x60, "PUSH1", v)
    stack.append(int.from_bytes(v, "big"))
    add(0x00, "STOP")
    extra = [] if body is None else [(0xCC, k.account(1, 1, body))]
    h = k.Bytes32(b"\x11" * 32)
    ample = 200000

    def message():
        return k.message(world(k, code, extra), k.tx_env(tx_hash=h, index_in_block=k.Uint(0)), code=code, gas=k.Uint(ample))
    o = t.execute(message(), t.tracer)
    same_output(cx, o, t.execute(message(), quiet))
    cx.check("written once", len(t.written) == 1)
    traces = t.written[0][0]
    shown = [e for e in traces[:-1] if not e.precompile]
    compare(cx, shown, want)
    cx.check("a precompile's marks are kept apart", len(traces) - 1 - len(shown) == ((2 if twice else 1) if child == "precompile" else 0))
    # the parent's gas: what one entry leaves is what the next one has
    mine = [e for e in shown if e.depth == 1]
    for a, b in zip(mine, mine[1:]):
        if a.op != 0xF1:
            cx.check_eq("charge", number(cx, a.gas) - number(cx, a.gasCost), number(cx, b.gas))
        else:
            cx.check("a call is charged its gas", number(cx, a.gasCost) >= number(cx, a.gas) - number(cx, b.gas))
            cx.check("of which unused gas returns", number(cx, a.gasCost) - (number(cx, a.gas) - number(cx, b.gas)) == (0 if error else 100 if child == "empty" else 100 - 15 if child == "precompile" else g))
    final(cx, traces[-1], ample - int(o.gas_left), b"", None)
    C = cx.load("ethereum_spec_tools.evm_tools.t8n.evm_trace.count").CountTracer()
    t.execute(message(), C)
    counts = {}
    for w in want:
        ends = w["depth"] == 2 and w["pc"] >= len(body)
        if w["error"] != "InvalidOpcode" and not ends:
            counts[w["name"]] = counts.get(w["name"], 0) + 1
    cx.check("counts", dict(C.results()) == counts)


def h_store(cx, fork):
    """the refund shown is the refund counted so far"""
    t = Traced(cx, fork)
    k = t.k
    call = b"\x60\x00\x60\x00\x60\x00\x60\x00\x60\x00\x60\xcc\x60\x64\xf1"
    code = b"\x60\x00\x60\x07\x55\x60" + cx.bytesn("v", 1) + call + b"\x00"
    h = k.Bytes32(b"\x11" * 32)

    def message():
        be = world(k, code, [(0xCC, k.account(1, 1, b"\x60\x01"))])
        k.state_mod.set_storage(be.state, k.addr(0xAA), k.Bytes32((7).to_bytes(32, "big")), k.U256(5))
        return k.message(be, k.tx_env(tx_hash=h, index_in_block=k.Uint(0)), code=code, gas=k.Uint(100000))
    o = t.execute(message(), t.tracer)
    same_output(cx, o, t.execute(message(), quiet))
    traces = t.written[0][0][:-1]
    cx.check("entries", [e.op for e in traces] == [0x60, 0x60, 0x55, 0x60] + [0x60] * 7 + [0xF1, 0x60, 0, 0])
    cx.check("no refund before", traces[0].refund == 0 and traces[1].refund == 0)
    for e in traces[3:]:
        cx.check("refund after, in every frame", e.refund == int(o.refund_counter) and e.refund > 0)
    mine = traces[:11]
    for a, b in zip(mine, mine[1:]):
        cx.check_eq("charge", number(cx, a.gas) - number(cx, a.gasCost), number(cx, b.gas))


def h_create(cx, fork):
    """the frame of a creation, whose code deposit belongs to no instruction"""
    t = Traced(cx, fork)
    k = t.k
    code = b"\x64\x60\x01\x60\x00\xf3\x60\x00\x52\x60\x05\x60\x1b\x60" + bytes(1) + b"\xf0\x60" + cx.bytesn("v", 1) + b"\x00"
    h = k.Bytes32(b"\x11" * 32)

    def message():
        return k.message(world(k, code), k.tx_env(tx_hash=h, index_in_block=k.Uint(0)), code=code, gas=k.Uint(200000))
    o = t.execute(message(), t.tracer)
    same_output(cx, o, t.execute(message(), quiet))
    traces = t.written[0][0][:-1]
    cx.check("entries", [(e.depth, e.op) for e in traces] == [(1, 0x64), (1, 0x60), (1, 0x52), (1, 0x60), (1, 0x60), (1, 0x60), (1, 0xF0),
                                                             (2, 0x60), (2, 0x60), (2, 0xF3), (1, 0x60), (1, 0)])
    cx.check("charges of the child", [number(cx, e.gasCost) for e in traces[7:10]] == [3, 3, 3])
    cx.check("no error", all(e.error is None for e in traces) and o.error is None)
    cx.check("created", len(traces[10].stack) == 1 and number(cx, traces[10].stack[0]) != 0)
    cx.check_eq("pushed", number(cx, traces[11].stack[1]), int.from_bytes(code[-2:-1], "big"))


def h_again(cx, fork):
    """each transaction has its own trace, and runs that belong to none have none"""
    t = Traced(cx, fork)
    k = t.k
    code = b"\x60" + cx.bytesn("v", 1) + b"\x00"

    def run(h, index):
        t.execute(k.message(world(k, code), k.tx_env(tx_hash=h, index_in_block=index), code=code, gas=k.Uint(1000)), t.tracer)
    run(k.Bytes32(b"\x11" * 32), k.Uint(0))
    if cx.flag("system between"):
        run(None, None) if cx.flag("no index") else run(None, k.Uint(1))
    run(k.Bytes32(b"\x22" * 32), k.Uint(1))
    cx.check("two traces", len(t.written) == 2)
    for i, (traces, index, h, base) in enumerate(t.written):
        cx.check("own entries", len(traces) == 3 and [e.op for e in traces[:-1]] == [0x60, 0x00])
        cx.check("own place", int(index) == i and h == bytes([0x11 * (i + 1)]) * 32)


def h_output(cx, fork):
    """what is printed of an entry"""
    import io
    import types
    E = cx.load("ethereum_spec_tools.evm_tools.t8n.evm_trace.eip3155")
    wide = 2 ** 70
    gas, cost, refund = cx.int("gas", 0, wide), cx.int("cost", 0, wide), cx.int("refund", 0, 2 ** 40)
    tool = cx.load("ethereum_spec_tools.evm_tools.utils")
    stack = [hex(cx.int("item", 0, 2 ** 256 - 1))] if False else ["0x5"]
    pre = cx.flag("precompile")
    err = cx.choice("error", [None, "OutOfGasError"])
    mem = cx.choice("memory", [None, "0x" + "00" * 32])
    seen = []
    cx.stub(E, "json", types.SimpleNamespace(dump=lambda d, f, separators, cls: seen.append((d, f, separators, cls))))
    tx = cx.text_of
    first = E.Trace(pc=1, op=0x60, gas=shown(cx, gas), gasCost=shown(cx, cost), memory=mem, memSize=0, stack=stack, returnData=None, depth=1, refund=refund, opName="PUSH1",
                    precompile=pre, error=err, gasCostTraced=True, errorTraced=True)
    last = E.FinalTrace(7, b"\x01\x02", None)
    out = io.StringIO()
    to_file = cx.flag("to a file")
    opened = []
    E.open = lambda path, mode="r": opened.append((path, mode)) or out
    try:
        E.output_traces([first, last], 4, b"\x11" * 32, "/nowhere" if to_file else out)
    finally:
        del E.open
    cx.check("place", opened == ([("/nowhere/trace-4-0x" + "11" * 32 + ".jsonl", "w")] if to_file else []))
    cx.check("lines", [x[0] for x in seen] == ([] if pre else [first]) + [last])
    cx.check("compact", all(x[2] == (",", ":") and x[1] is out for x in seen))
    enc = E._TraceJsonEncoder()
    d = enc.default(first)
    want = {"pc", "op", "memSize", "stack", "depth", "refund", "opName"}
    if gas < 2 ** 64:
        want.add("gas")
    if cost < 2 ** 64:
        want.add("gasCost")
    if err:
        want.add("error")
    if mem:
        want.add("memory")
    cx.check("fields", set(d) == want)
    cx.check("values", d["op"] == 0x60 and d["pc"] == 1 and d["opName"] == "PUSH1" and d["depth"] == 1 and d["stack"] == stack)
    if "gas" in want:
        cx.check_eq("gas", number(cx, d["gas"]), gas)
    d = enc.default(last)
    cx.check("final", d == {"output": "0102", "gasUsed": "0x7"})


def shown(cx, v):
    """hex(v)"""
    if cx.symbolic:
        from sx.values import shex
        return shex(v)
    return hex(v)


def h_group(cx, fork):
    t = Traced(cx, fork)
    k = t.k
    G = cx.load("ethereum_spec_tools.evm_tools.t8n.evm_trace.group").GroupTracer()
    a, b = [], []
    C = cx.load("ethereum_spec_tools.evm_tools.t8n.evm_trace.count").CountTracer()
    G.add(C)
    G.add(t.tracer)
    code = b"\x60" + cx.bytesn("v", 1) + b"\x00"
    t.execute(k.message(world(k, code), k.tx_env(tx_hash=k.Bytes32(b"\x11" * 32), index_in_block=k.Uint(0)), code=code, gas=k.Uint(1000)), G)
    cx.check("traced", len(t.written) == 1 and len(t.written[0][0]) == 3)
    cx.check("counted", dict(C.results()) == {"PUSH1": 1, "STOP": 1})
    cx.check("tracer restored", t.trace.set_evm_trace(t.trace.discard_evm_trace) is not G)
