"""C10: LOG0 to LOG4."""

ENCODED = ["vm.instructions.log.*", "vm.memory.*", "vm.gas.calculate_gas_extend_memory", "vm.gas.charge_gas"]
BOUNDS = ("every topic, offset, length, gas below 2^64; memory any multiple of 32 bytes up to 2^40 with arbitrary contents; zero or one "
          "earlier log")
ASSUMPTIONS = ["memory is a multiple of 32 bytes before the instruction"]


def jobs(tier):
    from oracle.forks import FORKS
    return [{"harness": "h_log", "params": {"fork": f, "n": n}} for f in FORKS for n in range(5)]


def h_log(cx, fork, n):
    from oracle.kit import Kit
    from oracle.mem import Mem, padded
    k = Kit(cx, fork)
    Log = k.m("blocks").Log
    off, size = cx.u256("off"), cx.u256("size")
    cx.prefer_small(off)
    cx.prefer_small(size)
    topics = [cx.u256("t%d" % i) for i in range(n)]
    me = cx.address("me")
    old = tuple([Log(address=cx.address("old"), topics=(), data=b"\x01")]) if cx.flag("earlier") else ()
    evm = k.frame([off, size] + topics, mem=True, message=k.message(current_target=me, code_address=cx.address("codeat")), logs=old)
    out = k.step(0xA0 + n, evm)
    m = Mem(cx, k.old_mem)
    m.touch(int(off), int(size))
    cost = 375 + 375 * n + 8 * int(size) + m.cost
    if not k.paid(out, cost):
        return
    k.settled(cost, [], m.grown(), allowed=("logs",))
    cx.check("one more log", len(evm.logs) == len(old) + 1)
    for i in range(len(old)):
        cx.check("earlier log kept", evm.logs[i] is old[i] or evm.logs[i] == old[i])
    new = evm.logs[-1]
    cx.check_eq("log address", new.address, me)
    cx.check_eq("log topics", [int.from_bytes(t, "big") for t in new.topics], [int(t) for t in topics])
    cx.check("topics are words", all(len(t) == 32 for t in new.topics))
    cx.check_eq("log data", new.data, padded(cx, k.old_mem, int(off), int(size)))
