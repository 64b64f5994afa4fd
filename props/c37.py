"""C37: outcome of a top-level message."""

ENCODED = ["vm.interpreter.process_message_call/process_message/process_create_message/execute_code", "state.account_has_code_or_nonce/"
           "account_has_storage/account_exists_and_is_empty", "vm.eoa_delegation.get_delegated_code_address/is_valid_delegation",
           "state.get_account/begin_transaction/commit_transaction/rollback_transaction"]
BOUNDS = ("h_report: every remaining gas, refund counter, one log, one deleted and one touched account of the execution, failed or not, "
          "of a call and of a creation, with an execution standing for any; h_collision: every nonce, balance, storage slot of the account at "
          "the new address and an empty or one-byte code; h_create: every 64-bit gas for creations deploying nothing or 32 bytes; "
          "h_delegated: every 20-byte delegated address and no code, a program or another delegation behind it")
ASSUMPTIONS = ["h_report: process_message and process_create_message are replaced by recorders returning an arbitrary outcome (the real "
               "ones are C15 and h_create)", "refund counters do not exceed 2^64"]


def jobs(tier):
    from oracle.forks import FORKS, since, lt
    out = []
    for f in FORKS:
        for kind in ("call", "create"):
            out.append({"harness": "h_report", "params": {"fork": f, "kind": kind}})
        out.append({"harness": "h_collision", "params": {"fork": f}})
        out.append({"harness": "h_create", "params": {"fork": f}, "weight": 2})
    for f in since("prague"):
        out.append({"harness": "h_authorized", "params": {"fork": f}})
        for what in ("precompile", "chain", "code"):
            out.append({"harness": "h_delegated", "params": {"fork": f, "what": what}})
    return out


def touches(fork):
    from oracle.forks import ge, lt
    return ge(fork, "spurious_dragon") and lt(fork, "paris")


def log(k, cx, name):
    # the log type lives in blocks
    L = k.m("blocks").Log
    return L(address=cx.address(name), topics=(cx.bytes32(name + "t"),), data=cx.bytesn(name + "d", 2))


def h_report(cx, fork, kind):
    from oracle.kit import Kit
    from oracle.forks import ge
    k = Kit(cx, fork)
    it = k.m("vm.interpreter")
    st = k.state()
    s = k.state_mod
    gas = cx.uint("gas", 2**64 - 1)
    left = cx.uint("left", 2**64 - 1)
    cx.assume(int(left) <= int(gas))
    refund = cx.int("refund", 0, 2**64)
    l0 = log(k, cx, "log")
    gone, touched = cx.address("gone"), cx.address("touched")
    tgt = k.addr(0xAA)
    # the account may be there and may be empty
    exists = cx.flag("exists")
    bal = cx.u256("bal")
    if exists:
        s.set_account(st, tgt, k.account(0, 0) if kind == "create" else k.types.Account(nonce=k.Uint(0), balance=bal, code=b""))
    err = cx.choice("error", ["none", "halt", "revert"])
    exc = k.m("vm.exceptions")
    error = None
    if err == "halt":
        error = exc.OutOfGasError()
    elif err == "revert":
        error = exc.Revert() if hasattr(exc, "Revert") else exc.OutOfGasError()
    out = cx.bytesn("out", 3)
    seen = []

    def child(message):
        seen.append(message)
        return k.evm(message, gas_left=left, refund_counter=refund, logs=(l0,), accounts_to_delete={gone}, touched_accounts={touched},
                     output=out, error=error)

    def never(message):
        cx.check("right kind of execution", False)
    cx.stub(it, "process_message", child if kind == "call" else never)
    cx.stub(it, "process_create_message", never if kind == "call" else child)
    be = k.block_env(st)
    kw = dict(accessed_addresses={tgt}) if ge(fork, "berlin") else {}
    msg = k.message(be, k.tx_env(), target=k.Bytes0(b"") if kind == "create" else tgt, current_target=tgt, gas=gas,
                    code_address=None if kind == "create" else tgt, value=cx.u256("value"), **kw)
    r = k.run(it.process_message_call, msg)
    cx.check("returns", r == "ok", r)
    cx.check("one execution", len(seen) == 1)
    cx.check("of this message", seen[0] is msg)
    o = k.ret
    cx.check_eq("gas left", o.gas_left, left)
    cx.check("error", o.error is error)
    if hasattr(o, "return_data"):
        cx.check_eq("return data", o.return_data, out)
    if error is None:
        cx.check("refund", int(o.refund_counter) == refund)
        cx.check("one log", len(o.logs) == 1)
        cx.check_eq("log", o.logs[0], l0)
        cx.check("deletions", len(o.accounts_to_delete) == 1 and gone in o.accounts_to_delete)
    else:
        cx.check("no refund", int(o.refund_counter) == 0)
        cx.check("no logs", len(o.logs) == 0)
        cx.check("no deletions", len(o.accounts_to_delete) == 0)
    if touches(fork):
        t = o.touched_accounts
        if error is not None:
            cx.check("nothing touched", len(t) == 0)
        else:
            both = kind == "call" and exists and int(bal) == 0
            cx.check("touched kept", touched in t)
            if both:
                cx.check("target touched", tgt in t)
            for x in t:
                cx.check("nothing else touched", cx.or_(cx.eq(x, touched), both and cx.eq(x, tgt)))
    cx.observe("gas", o.gas_left)
    cx.observe("refund", o.refund_counter)


def h_collision(cx, fork):
    from oracle.kit import Kit
    k = Kit(cx, fork)
    it = k.m("vm.interpreter")
    st = k.state()
    s = k.state_mod
    new = k.addr(0xDD)
    nonce, bal = cx.uint("nonce", 2**64 - 2), cx.u256("bal", 0, 2**254)
    code = cx.bytesn("code", 1) if cx.flag("hascode") else b""
    key = cx.bytes32("key")
    hasslot = cx.flag("hasslot")
    if cx.flag("exists"):
        s.set_account(st, new, k.types.Account(nonce=nonce, balance=bal, code=code))
        if hasslot:
            s.set_storage(st, new, key, cx.u256("slot", 1))
    else:
        cx.assume(int(nonce) == 0)
        cx.assume(int(bal) == 0)
        if len(code) or hasslot:
            cx.reject()
    before = s.get_account(st, new)
    left = cx.uint("left", 2**64 - 1)
    ran = []

    def child(message):
        ran.append(message)
        return k.evm(message, gas_left=left)
    cx.stub(it, "process_create_message", child)
    msg = k.message(k.block_env(st), k.tx_env(), target=k.Bytes0(b""), current_target=new, code_address=None, code=cx.bytesn("init", 4),
                    gas=cx.uint("gas", 2**64 - 1))
    r = k.run(it.process_message_call, msg)
    cx.check("returns", r == "ok", r)
    o = k.ret
    if cx.or_(int(nonce) != 0, len(code) > 0, hasslot):
        cx.check("does not run", not ran)
        cx.check("consumes all gas", int(o.gas_left) == 0)
        cx.check("an error", o.error is not None and bool(o.error is not False))
        cx.check("no refund", int(o.refund_counter) == 0)
        cx.check("no logs", len(o.logs) == 0)
        cx.check("no deletions", len(o.accounts_to_delete) == 0)
        if hasattr(o, "touched_accounts"):
            cx.check("nothing touched", len(o.touched_accounts) == 0)
        if hasattr(o, "return_data"):
            cx.check("no output", len(o.return_data) == 0)
        cx.check_eq("account kept", s.get_account(st, new), before)
    else:
        cx.check("runs", len(ran) == 1 and ran[0] is msg)
        cx.check("no error", o.error is None)
        cx.check_eq("gas left", o.gas_left, left)


def h_create(cx, fork):
    """a whole creation by a transaction, on the real interpreter"""
    from oracle.kit import Kit
    from oracle.forks import ge, lt
    k = Kit(cx, fork)
    it = k.m("vm.interpreter")
    st = k.state()
    s = k.state_mod
    new, me = k.addr(0xDD), k.addr(0xBB)
    gas = cx.uint("gas", 2**32)
    end = cx.choice("end", ["code", "nothing", "invalid"])
    init = {"code": bytes([0x60, 32, 0x60, 0, 0xF3]), "nothing": b"\x00", "invalid": b"\xfe"}[end]
    value = cx.u256("value", 1, 2**250)
    bal = cx.u256("bal", 1, 2**251)
    cx.assume(int(value) < int(bal))
    had = cx.u256("had", 1, 2**250)
    s.set_account(st, me, k.types.Account(nonce=k.Uint(1), balance=bal, code=b""))
    s.set_account(st, new, k.types.Account(nonce=k.Uint(0), balance=had, code=b""))
    msg = k.message(k.block_env(st), k.tx_env(), caller=me, target=k.Bytes0(b""), current_target=new, code_address=None, code=init, gas=gas,
                    value=value)
    r = k.run(it.process_message_call, msg)
    cx.check("returns", r == "ok", r)
    o = k.ret
    run, n = {"code": (9, 32), "nothing": (0, 0), "invalid": (0, 0)}[end]
    a = s.get_account(st, new)
    if end == "invalid":
        good = False
    elif lt(fork, "homestead") and int(gas) >= run:
        # a creation that cannot pay for its code succeeds without it
        good = True
        if int(gas) < run + 200 * n:
            n = 0
    else:
        good = int(gas) >= run + 200 * n
    if good:
        cx.check("succeeds", o.error is None)
        cx.check("gas left", int(o.gas_left) == int(gas) - run - 200 * n)
        cx.check("code", len(a.code) == n and all(cx.eq(x, 0) for x in a.code))
        cx.check("nonce", int(a.nonce) == (1 if ge(fork, "spurious_dragon") else 0))
        cx.check("balance", int(a.balance) == int(had) + int(value))
        cx.check("paid by the creator", int(s.get_account(st, me).balance) == int(bal) - int(value))
    else:
        cx.check("fails", o.error is not None)
        cx.check("all gas gone", int(o.gas_left) == 0)
        cx.check("no code", len(a.code) == 0)
        cx.check("nonce undone", int(a.nonce) == 0)
        cx.check("balance undone", int(a.balance) == int(had))
        cx.check("creator not charged", int(s.get_account(st, me).balance) == int(bal))


def h_authorized(cx, fork):
    """the refund of authorizations stays even when the execution fails"""
    from oracle.kit import Kit
    k = Kit(cx, fork)
    it = k.m("vm.interpreter")
    st = k.state()
    tgt = k.addr(0xAA)
    given = cx.u256("given", 0, 2**64)
    order = []

    def deleg(message):
        order.append("auth")
        return given
    error = k.m("vm.exceptions").OutOfGasError() if cx.flag("fails") else None
    refund = cx.int("refund", 0, 2**64)

    def child(message):
        order.append("run")
        return k.evm(message, refund_counter=refund, error=error)
    cx.stub(it, "set_delegation", deleg)
    cx.stub(it, "process_message", child)
    auth = fill_auth(k)
    msg = k.message(k.block_env(st), k.tx_env(authorizations=(auth,)), target=tgt, current_target=tgt, code_address=tgt)
    r = k.run(it.process_message_call, msg)
    cx.check("returns", r == "ok", r)
    cx.check("authorizations first", order == ["auth", "run"])
    cx.check("refund", int(k.ret.refund_counter) == int(given) + (0 if error is not None else refund))


def fill_auth(k, **kw):
    from oracle.kit import fill
    d = dict(chain_id=k.U256(0), address=k.addr(1), nonce=k.U64(0), y_parity=k.num.U8(0), r=k.U256(0), s=k.U256(0))
    d.update(kw)
    return fill(k.types.Authorization, **d)


def h_delegated(cx, fork, what):
    """a transaction to an account whose code is a delegation"""
    from oracle.kit import Kit
    k = Kit(cx, fork)
    it = k.m("vm.interpreter")
    s = k.state_mod
    st = k.state()
    me, frm = k.addr(0xAA), k.addr(0xBB)
    s.set_account(st, frm, k.account(1, 1000))
    if what == "precompile":
        to = k.addr(cx.choice("which", [1, 2, 4, 6, 9, 10, 11, 17]))
        code2 = b""
    else:
        to = cx.address("to", 0x1000)
        cx.assume(cx.not_(cx.or_(cx.eq(to, me), cx.eq(to, frm))))
        if what == "chain":
            code2 = b"\xef\x01\x00" + k.addr(0xEEEE)
        else:
            # store 7 in slot 5 of the account the code runs for, and push the address
            code2 = bytes([0x60, 7, 0x60, 5, 0x55, 0x30, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xF3])
        s.set_account(st, to, k.types.Account(nonce=k.Uint(1), balance=k.U256(0), code=code2))
    s.set_account(st, me, k.types.Account(nonce=k.Uint(1), balance=k.U256(5), code=b"\xef\x01\x00" + to))
    value = cx.u256("value", 0, 100)
    gas = cx.uint("gas", 10**6, 10**5)
    msg = k.message(k.block_env(st), k.tx_env(), caller=frm, target=me, current_target=me, code_address=me, gas=gas, value=value,
                    code=s.get_account(st, me).code, data=cx.bytesn("data", 4), accessed_addresses={me, frm})
    r = k.run(it.process_message_call, msg)
    cx.check("returns", r == "ok", r)
    o = k.ret
    cx.check("delegated address warm", to in msg.accessed_addresses)
    balance = int(s.get_account(st, me).balance)
    if what == "chain":
        cx.check("runs the delegation itself as code", o.error is not None)
        cx.check("gas gone", int(o.gas_left) == 0)
        cx.check("value returned", balance == 5)
        return
    cx.check("no error", o.error is None)
    cx.check("value moved", balance == 5 + int(value))
    if what == "precompile":
        cx.check("precompile not run", int(o.gas_left) == int(gas))
        cx.check("no output", len(o.return_data) == 0)
    else:
        key = k.Bytes32((5).to_bytes(32, "big"))
        cx.check("storage of the account", int(s.get_storage(st, me, key)) == 7)
        cx.check("not of the delegate", int(s.get_storage(st, to, key)) == 0)
        cx.check_eq("address is the account's", o.return_data, bytes(12) + me)
