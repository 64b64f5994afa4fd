"""C12: CALL, CALLCODE, DELEGATECALL, STATICCALL."""

ENCODED = ["vm.instructions.system.call/callcode/delegatecall/staticcall/generic_call", "vm.gas.calculate_message_call_gas/"
           "calculate_gas_extend_memory/max_message_call_gas/charge_gas", "vm.incorporate_child_on_success/incorporate_child_on_error",
           "vm.eoa_delegation.access_delegation/is_valid_delegation", "vm.memory.memory_read_bytes/memory_write", "state.get_account/"
           "is_account_alive/account_exists", "utils.address.to_address_masked", "vm.stack"]
BOUNDS = ("h_gas: every gas operand, target word, value, input size below 2^32, gas below 2^64 and remaining gas of the child; h_setup: every "
          "target, value, caller balance, depth, static flag and child outcome with 10^6 gas; h_io: every memory content, input and output range below 2^40 (empty or not, growing memory or not) and child "
          "output of any length below 2^40, with a fixed warm target; h_effects: every refund counter, two logs, symbolic accessed and "
          "deleted entries; h_deleg: every 23-byte code of the target and every delegated address")
ASSUMPTIONS = ["the child's execution (process_message) is replaced by a recorder returning an arbitrary outcome (its behaviour is C15/C37)",
               "the caller's own account exists"]

CALL, CALLCODE, DELEGATE, STATIC = 0xF1, 0xF2, 0xF4, 0xFA
NAMES = {CALL: "call", CALLCODE: "callcode", DELEGATE: "delegatecall", STATIC: "staticcall"}


def ops(fork):
    from oracle.forks import ge
    o = [CALL, CALLCODE]
    if ge(fork, "homestead"):
        o.append(DELEGATE)
    if ge(fork, "byzantium"):
        o.append(STATIC)
    return o


def jobs(tier):
    from oracle.forks import FORKS, ge
    out = []
    for f in FORKS:
        for o in ops(f):
            out.append({"harness": "h_gas", "params": {"fork": f, "op": o}, "weight": 4})
            out.append({"harness": "h_setup", "params": {"fork": f, "op": o}, "weight": 4})
            for part in ("in", "out", "grow") + (("all",) if tier == "thorough" else ()):
                out.append({"harness": "h_io", "params": {"fork": f, "op": o, "part": part}, "weight": 3})
            out.append({"harness": "h_effects", "params": {"fork": f, "op": o}})
            if ge(f, "prague"):
                out.append({"harness": "h_deleg", "params": {"fork": f, "op": o}})
    return out


class Child:
    """stands for the execution of the callee"""

    def __init__(self, cx, k, **result):
        self.seen = []
        self.result = result
        cx.stub(k.m("vm.interpreter"), "process_message", self)
        self.cx, self.k = cx, k

    def __call__(self, msg):
        cx, k = self.cx, self.k
        cx.check("one child only", not self.seen)
        self.seen.append(msg)
        self.left = cx.uint("childleft", 2**257)
        cx.assume(int(self.left) <= int(msg.gas))
        kw = dict(gas_left=self.left)
        if hasattr(msg, "accessed_addresses"):
            kw.update(accessed_addresses=msg.accessed_addresses, accessed_storage_keys=msg.accessed_storage_keys)
        kw.update(self.result)
        f = kw.pop("hook", None)
        self.evm = k.evm(msg, **kw)
        if f:
            f(self.evm)
        return self.evm


def world(cx, fork, bal):
    from oracle.kit import Kit
    k = Kit(cx, fork)
    k.st = k.state()
    k.me, k.it = k.addr(0xAA), k.addr(0x77)
    k.state_mod.set_account(k.st, k.me, k.types.Account(nonce=k.Uint(1), balance=bal, code=b"\x5b"))
    k.tenv = k.tx_env()
    return k


def operands(op, g, to, value, a, b, c, d):
    return [g, to] + ([value] if op in (CALL, CALLCODE) else []) + [a, b, c, d]


def child_message(cx, k, msg, evm, op, want):
    """the callee's message"""
    for n in ("caller", "target", "current_target", "value", "data", "code", "code_address", "depth"):
        cx.check_eq("message." + n, getattr(msg, n), want[n])
    cx.check("message.gas", int(msg.gas) == want["gas"])
    cx.check("message.parent", msg.parent_evm is evm)
    cx.check("message.block_env", msg.block_env is evm.message.block_env)
    cx.check("message.tx_env", msg.tx_env is evm.message.tx_env)
    if hasattr(msg, "should_transfer_value"):
        cx.check("message.transfer", bool(msg.should_transfer_value) == (op != DELEGATE))
    if hasattr(msg, "is_static"):
        cx.check("message.static", bool(msg.is_static) == bool(op == STATIC or want["static"]))
    if hasattr(msg, "disable_precompiles"):
        cx.check("message.precompiles", bool(msg.disable_precompiles) == bool(want.get("delegated", False)))


def h_gas(cx, fork, op):
    """what the call costs and how much the child gets"""
    from oracle.forks import ge, lt
    from oracle.costs import account_access
    k = world(cx, fork, k_u256(cx, 2**256 - 1))
    s = k.state_mod
    onone, obal = cx.uint("nonce", 2**64 - 1), cx.u256("obal", 0, 2**255)
    ocode = cx.bytesn("ocode", 2) if op == CALL and cx.flag("hascode") else b""
    other = k.types.Account(nonce=onone, balance=obal, code=ocode)
    s.set_account(k.st, k.it, other)
    k.begin(k.st, k.tenv)
    g, w = cx.u256("g"), cx.u256("to")
    value = cx.u256("value") if op in (CALL, CALLCODE) else k.U256(0)
    child = Child(cx, k, error=None)
    z = k.U256(0)
    access = k.access_sets()
    msg = k.message(k.block_env(k.st), k.tenv, current_target=k.me, target=k.me)
    size = cx.u256("size", 0, 2**32)
    evm = k.frame(operands(op, g, w, value, z, size, z, z), message=msg, **access)
    out = k.step(op, evm)
    to = k.Bytes20((int(w) % 2**160).to_bytes(20, "big"))
    who = None
    extra = account_access(k, to, "call")
    stipend = 0
    if op in (CALL, CALLCODE):
        paid = int(value) != 0
        stipend = cx.ite(paid, 2300, 0)
        extra = extra + cx.ite(paid, 9000, 0)
        if op == CALL:
            isit = cx.eq(to, k.it)
            isme = cx.eq(to, k.me)
            if lt(fork, "spurious_dragon"):
                extra = extra + cx.ite(cx.or_(isit, isme), 0, 25000)
            else:
                dead = cx.and_(int(onone) == 0, int(obal) == 0, len(ocode) == 0)
                alive = cx.or_(isme, cx.and_(isit, cx.not_(dead)))
                extra = extra + cx.ite(cx.and_(paid, cx.not_(alive)), 25000, 0)
    from oracle.mem import words
    w32 = words(int(size))
    extra = extra + 3 * w32 + w32 * w32 // 512
    gas, asked = int(k.gas), int(g)
    given = asked
    if ge(fork, "tangerine_whistle"):
        most = (gas - extra) - (gas - extra) // 64
        given = cx.ite(cx.and_(gas >= extra, most < asked), most, asked)
    if gas < extra + given:
        cx.check("out of gas halts", out == "halt", out)
        cx.check("no child", not child.seen)
        return
    cx.check("succeeds", out == "ok", out)
    cx.check("child ran", len(child.seen) == 1)
    cx.check("child gas", int(child.seen[0].gas) == given + stipend)
    cx.check("gas settled", int(evm.gas_left) == gas - extra - given + int(child.left))
    cx.check("memory size", len(evm.memory) == w32 * 32)
    k.check_access(evm, [to])
    cx.observe("gas", evm.gas_left)


def h_setup(cx, fork, op):
    """the child's message, and the calls that fail before running"""
    from oracle.forks import ge
    bal = cx.u256("bal")
    k = world(cx, fork, bal)
    s = k.state_mod
    ocode = cx.bytesn("ocode", 2)
    s.set_account(k.st, k.it, k.types.Account(nonce=k.Uint(1), balance=k.U256(3), code=ocode))
    k.begin(k.st, k.tenv)
    w = cx.u256("to")
    value = cx.u256("value") if op in (CALL, CALLCODE) else k.U256(0)
    depth = cx.uint("depth", 1024)
    static = cx.flag("static") if ge(fork, "byzantium") and op != STATIC else False
    caller, mvalue = cx.address("caller"), cx.u256("mvalue")
    fails = cx.flag("fails")
    child = Child(cx, k, error=k.m("vm.exceptions").ExceptionalHalt() if fails else None)
    z = k.U256(0)
    access = k.access_sets()
    msg = k.message(k.block_env(k.st), k.tenv, current_target=k.me, target=k.me, depth=depth, is_static=static, caller=caller,
                    value=mvalue)
    evm = k.frame(operands(op, k.U256(5000), w, value, z, z, z, z), message=msg, gas=k.Uint(10**6), **access)
    if hasattr(evm, "return_data"):
        evm.return_data = cx.bytesn("earlier", 3)
    out = k.step(op, evm)
    to = k.Bytes20((int(w) % 2**160).to_bytes(20, "big"))
    if op == CALL and static and int(value) != 0:
        cx.check("halts in a static call", out == "halt", out)
        cx.check("no child", not child.seen)
        return
    cx.check("succeeds", out == "ok", out)
    broke = op in (CALL, CALLCODE) and int(bal) < int(value)
    if broke or int(depth) == 1024:
        cx.check("no child", not child.seen)
        cx.check_eq("stack", evm.stack, [k.below, k.U256(0)])
        if hasattr(evm, "return_data"):
            cx.check("return data cleared", len(evm.return_data) == 0)
        # what a child with the same gas would have returned unused
        cost = k_cost(cx, k, fork, op, to, value)
        stipend = 2300 if op in (CALL, CALLCODE) and int(value) != 0 else 0
        cx.check("gas returned", int(evm.gas_left) == 10**6 - cost + stipend)
    else:
        cx.check("child ran", len(child.seen) == 1)
        code = ocode if cx.eq(to, k.it) else b"\x5b" if cx.eq(to, k.me) else b""
        stipend = 2300 if op in (CALL, CALLCODE) and int(value) != 0 else 0
        child_message(cx, k, child.seen[0], evm, op, dict(
            caller=caller if op == DELEGATE else k.me, target=to if op in (CALL, STATIC) else k.me,
            current_target=to if op in (CALL, STATIC) else k.me, value=mvalue if op == DELEGATE else value, data=cx.B(b""), code=code,
            code_address=to, depth=k.Uint(int(depth) + 1), gas=5000 + stipend, static=static))
        cx.check_eq("stack", evm.stack, [k.below, k.U256(0 if fails else 1)])
        cx.check("gas settled", int(evm.gas_left) == 10**6 - k_cost(cx, k, fork, op, to, value) - 5000 + int(child.left))
        if hasattr(evm, "return_data"):
            cx.check("return data", len(evm.return_data) == 0)
    cx.check("pc", int(evm.pc) == int(k.before["pc"]) + 1)
    cx.check("memory size", len(evm.memory) == 0)
    k.unchanged("frame", evm, k.before, ("stack", "gas_left", "pc", "memory", "return_data", "accessed_addresses", "touched_accounts"))
    cx.check_eq("caller's balance", s.get_account(k.st, k.me).balance, bal)


def k_cost(cx, k, fork, op, to, value):
    """cost of a call to `to` besides the child's gas; it and me are alive, nobody else exists"""
    from oracle.forks import lt
    from oracle.costs import account_access
    cost = account_access(k, to, "call")
    if int(value) != 0:
        cost += 9000
    if op == CALL and (lt(fork, "spurious_dragon") or int(value) != 0):
        if not cx.or_(cx.eq(to, k.it), cx.eq(to, k.me)):
            cost += 25000
    return cost


def h_io(cx, fork, op, part):
    """input bytes, output bytes, memory growth, return data"""
    from oracle.forks import ge
    from oracle.mem import Mem, padded
    k = world(cx, fork, k_u256(cx, 5))
    s = k.state_mod
    s.set_account(k.st, k.it, k.account(nonce=1, code=b"\x00"))
    k.begin(k.st, k.tenv)
    a, c = cx.u256("inpos", 0, 2**40), cx.u256("outpos", 0, 2**40)
    b = k.U256(0) if part == "out" else cx.u256("insize", 0, 2**40)
    d = k.U256(0) if part == "in" else cx.u256("outsize", 0, 2**40)
    cout = cx.B(b"") if part == "grow" else cx.buf("out", 2**40)
    fails = cx.flag("fails")
    child = Child(cx, k, error=k.m("vm.exceptions").ExceptionalHalt() if fails else None, output=cout)
    access = k.access_sets()
    if access:
        access["accessed_addresses"] = set([k.it])
        k.acc_a = [k.it]
    msg = k.message(k.block_env(k.st), k.tenv, current_target=k.me, target=k.me)
    g = k.U256(5000)
    evm = k.frame(operands(op, g, k.U256(0x77), k.U256(0), a, b, c, d), mem=part != "grow", message=msg, gas=k.Uint(2**80), **access)
    old = k.old_mem
    m = Mem(cx, old)
    m.touch(int(a), int(b))
    m.touch(int(c), int(d))
    out = k.step(op, evm)
    base = 100 if ge(fork, "berlin") else 700 if ge(fork, "tangerine_whistle") else 40
    given, gas = 5000, 2**80
    cx.check("succeeds", out == "ok", out)
    cx.check("child ran", len(child.seen) == 1)
    cx.check_eq("input", child.seen[0].data, padded(cx, old, int(a), int(b)))
    cx.check("gas settled", int(evm.gas_left) == gas - base - m.cost - given + int(child.left))
    cx.check_eq("stack", evm.stack, [k.below, k.U256(0 if fails else 1)])
    n = len(cout)
    n = cx.ite(int(d) < n, int(d), n)
    cx.check_eq("memory", bytes(evm.memory), m.written(int(c), cout, n))
    if hasattr(evm, "return_data"):
        cx.check_eq("return data", evm.return_data, cout)
    cx.check("pc", int(evm.pc) == int(k.before["pc"]) + 1)
    cx.observe("size", len(evm.memory))


def k_u256(cx, n):
    return cx.num().U256(n)


def h_effects(cx, fork, op):
    """what a successful or failed child leaves with its caller"""
    from oracle.forks import ge, lt
    k = world(cx, fork, k_u256(cx, 5))
    s = k.state_mod
    itbal = cx.u256("itbal")
    target = cx.choice("target", [k.it, k.addr(3)])
    s.set_account(k.st, target, k.types.Account(nonce=k.Uint(0), balance=itbal, code=b""))
    k.begin(k.st, k.tenv)
    names = ["log0", "log1", "log2"]
    log = [k.m("blocks").Log(address=k.addr(i), topics=(), data=n.encode()) for i, n in enumerate(names)]
    own, kid = cx.address("own"), cx.address("kid")
    r0, r1 = cx.int("refund0", -2**64, 2**64), cx.int("refund1", -2**64, 2**64)
    fails = cx.flag("fails")
    ka = cx.address("kidaddr")
    kk = (cx.address("kidka"), cx.bytes32("kidkk"))
    ta = cx.address("kidtouched")
    t0 = cx.address("touched")
    touch = ge(fork, "spurious_dragon") and lt(fork, "paris")

    def hook(e):
        if k.has_access():
            e.accessed_addresses.add(ka)
            e.accessed_storage_keys.add(kk)
        if touch:
            e.touched_accounts.add(ta)
    child = Child(cx, k, error=k.m("vm.exceptions").ExceptionalHalt() if fails else None, logs=(log[1], log[2]), refund_counter=r1,
                  accounts_to_delete=set([kid]), hook=hook)
    access = k.access_sets()
    if access:
        k.acc_a = [target]
        access["accessed_addresses"] = set([target])
    if touch:
        access["touched_accounts"] = set([t0])
    msg = k.message(k.block_env(k.st), k.tenv, current_target=k.me, target=k.me)
    z = k.U256(0)
    evm = k.frame(operands(op, k.U256(100), k.U256(int.from_bytes(target, "big")), z, z, z, z, z), message=msg, gas=k.Uint(50000),
                  logs=(log[0],), refund_counter=r0, accounts_to_delete=set([own]), **access)
    out = k.step(op, evm)
    cx.check("succeeds", out == "ok", out)
    cx.check("child ran", len(child.seen) == 1)
    cx.check("logs", len(evm.logs) == (1 if fails else 3) and all(x is y for x, y in zip(evm.logs, log)))
    cx.check("refund", evm.refund_counter == r0 + (0 if fails else r1))

    def are(name, have, want):
        for x in want:
            cx.check(name + " include", x in have)
        for x in have:
            cx.check(name + " nothing else", cx.or_(*[cx.eq(x, y) for y in want]))
    are("deletions", evm.accounts_to_delete, [own] + ([] if fails else [kid]))
    if k.has_access():
        are("accessed addresses", evm.accessed_addresses, [target] + ([] if fails else [ka]))
        are("accessed slots", evm.accessed_storage_keys, list(k.acc_k) + ([] if fails else [kk]))
    if touch:
        want = [t0]
        ran = target if op in (CALL, STATIC) else k.me
        empty = ran is target and cx.eq(itbal, k.U256(0))
        three = k.addr(3)
        if not fails:
            want.append(ta)
            if empty:
                want.append(ran)
        else:
            if cx.eq(ta, three):
                want.append(three)
            if empty and cx.eq(ran, three):
                want.append(three)
        are("touched", evm.touched_accounts, want)
    k.unchanged("frame", evm, k.before, ("stack", "gas_left", "pc", "memory", "logs", "refund_counter", "accounts_to_delete",
                                         "accessed_addresses", "accessed_storage_keys", "touched_accounts", "return_data"))


def h_deleg(cx, fork, op):
    """the target's code may be a delegation: the delegated code runs, once, at the price of one more access"""
    k = world(cx, fork, k_u256(cx, 5))
    s = k.state_mod
    n = cx.choice("n", [22, 23, 24])
    code = cx.bytesn("code", n)
    far = k.addr(0x99)
    farcode = cx.bytesn("farcode", 23)
    s.set_account(k.st, k.it, k.types.Account(nonce=k.Uint(1), balance=k.U256(0), code=code))
    s.set_account(k.st, far, k.types.Account(nonce=k.Uint(1), balance=k.U256(0), code=farcode))
    k.begin(k.st, k.tenv)
    child = Child(cx, k, error=None)
    access = k.access_sets(2)
    msg = k.message(k.block_env(k.st), k.tenv, current_target=k.me, target=k.me)
    z = k.U256(0)
    evm = k.frame(operands(op, k.U256(1000), k.U256(0x77), z, z, z, z, z), message=msg, gas=cx.uint("gas", 2**64, 0), **access)
    deleg = n == 23 and cx.and_(code[0] == 0xEF, code[1] == 1, code[2] == 0)
    out = k.step(op, evm)
    cost = 100 if k.warm(k.it) else 2600
    addrs = [k.it]
    runs, runcode = k.it, code
    if deleg:
        to = k.Bytes20(code[3:23])
        known = cx.or_(k.warm(to), cx.eq(to, k.it))
        cost += 100 if known else 2600
        addrs.append(to)
        runs = to
        runcode = code if cx.eq(to, k.it) else farcode if cx.eq(to, far) else b"\x5b" if cx.eq(to, k.me) else b""
    gas, given = int(k.gas), 1000
    if gas >= cost:
        most = gas - cost
        most = most - most // 64
        if most < given:
            given = most
    if not k.paid(out, cost + given):
        cx.check("no child", not child.seen)
        return
    cx.check("child ran", len(child.seen) == 1)
    cm = child.seen[0]
    cx.check_eq("code run", cm.code, runcode)
    cx.check_eq("code address", cm.code_address, runs)
    cx.check_eq("target", cm.target, k.it if op in (CALL, STATIC) else k.me)
    cx.check_eq("current target", cm.current_target, k.it if op in (CALL, STATIC) else k.me)
    cx.check("precompiles off for delegated code", bool(cm.disable_precompiles) == bool(deleg))
    cx.check("child gas", int(cm.gas) == given)
    cx.check("gas", int(evm.gas_left) == gas - cost - given + int(child.left))
    k.check_access(evm, addrs)
