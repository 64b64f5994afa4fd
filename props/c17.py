"""C17: account primitives."""

ENCODED = ["state.get_account/get_account_optional/set_account/modify_state/set_account_balance/increment_nonce/set_code/move_ether/"
           "create_ether/touch_account/destroy_account/destroy_storage/destroy_touched_empty_accounts", "state.account_exists/"
           "account_has_code_or_nonce/account_has_storage/account_exists_and_is_empty/is_account_alive", "trie.trie_get/trie_set"]
BOUNDS = ("two accounts of symbolic addresses (existing or not, with every nonce, balance and an empty or one-byte code, with or without one "
          "storage slot of any key and value), one operation; observed at both addresses, at any third one and at any storage key")
ASSUMPTIONS = ["balances stay below 2^256"]

OPS = ["read", "balance", "nonce", "code", "move", "destroy", "wipe", "slot", "create", "touch", "sweep"]


def has(fork, op):
    from oracle.forks import lt, ge
    if op in ("create", "touch"):
        return lt(fork, "paris")
    if op == "sweep":
        return ge(fork, "spurious_dragon") and lt(fork, "paris")
    return True


def jobs(tier):
    from oracle.forks import FORKS
    return [{"harness": "h_op", "params": {"fork": f, "op": o}} for f in FORKS for o in OPS if has(f, o)]


def h_op(cx, fork, op):
    from oracle.kit import Kit
    from oracle.forks import ge
    k = Kit(cx, fork)
    s = k.state_mod
    st = k.state()
    U, Acc = k.U256, k.types.Account
    blank = (k.Uint(0), U(0), b"")
    A, B = cx.address("A"), cx.address("B")
    cx.assume(cx.not_(cx.eq(A, B)))
    want = []      # per address: None or (nonce, balance, code); slot writes
    slots = []
    for i, a in enumerate((A, B)):
        if (i == 0 and op != "read") or cx.flag("exists%d" % i):
            code = cx.bytesn("c%d" % i, 1) if cx.flag("code%d" % i) else b""
            lo = 0 if op in ("read", "sweep", "touch") else 1
            v = (cx.uint("n%d" % i, 2**64 - 2, 0), cx.u256("b%d" % i, 0, 2**254), code)
            if lo and ge(fork, "paris"):
                cx.assume(cx.not_(cx.and_(int(v[0]) == 0, int(v[1]) == 0, len(code) == 0)))
            s.set_account(st, a, Acc(nonce=v[0], balance=v[1], code=code))
            w = []
            if i == 0 or op in ("destroy", "wipe"):
                if cx.flag("slot%d" % i):
                    w.append((cx.bytes32("k%d" % i), cx.u256("v%d" % i, 1)))
                    s.set_storage(st, a, *w[0])
            want.append(v)
            slots.append(w)
        else:
            want.append(None)
            slots.append([])

    def empty(v):
        return cx.and_(int(v[0]) == 0, int(v[1]) == 0, len(v[2]) == 0)

    def put(i, v):
        """result of modifying account i"""
        if ge(fork, "paris") and empty(v):
            want[i] = None
            slots[i] = []
        else:
            want[i] = v
    at = A
    me = want[0] if want[0] is not None else blank
    if op == "balance":
        x = cx.u256("x", 0, 2**255)
        s.set_account_balance(st, A, x)
        put(0, (me[0], x, me[2]))
    elif op == "nonce":
        s.increment_nonce(st, A)
        put(0, (k.Uint(int(me[0]) + 1), me[1], me[2]))
    elif op == "code":
        c = cx.bytesn("newcode", 2) if cx.flag("some") else b""
        s.set_code(st, A, c)
        put(0, (me[0], me[1], c))
    elif op == "move":
        x = cx.u256("x", 0, 2**254)
        to = cx.choice("to", ["B", "A"])
        out = k.run(s.move_ether, st, A, B if to == "B" else A, x)
        if int(me[1]) < int(x):
            cx.check("refused", out != "ok", out)
            return
        cx.check("moves", out == "ok", out)
        if to == "B":
            put(0, (me[0], U(int(me[1]) - int(x)), me[2]))
            o = want[1] if want[1] is not None else blank
            put(1, (o[0], U(int(o[1]) + int(x)), o[2]))
        elif ge(fork, "paris") and cx.and_(int(me[0]) == 0, len(me[2]) == 0, int(me[1]) == int(x)):
            cx.reject()       # emptied for a moment in between: not specified
    elif op == "destroy":
        s.destroy_account(st, A)
        want[0], slots[0] = None, []
    elif op == "wipe":
        s.destroy_storage(st, A)
        slots[0] = []
    elif op == "slot":
        q, v = cx.bytes32("key"), cx.u256("val")
        s.set_storage(st, A, q, v)
        slots[0].append((q, v))
    elif op == "create":
        x = cx.u256("x", 0, 2**254)
        s.create_ether(st, A, x)
        put(0, (me[0], U(int(me[1]) + int(x)), me[2]))
    elif op == "touch":
        s.touch_account(st, B)
        if want[1] is None:
            want[1] = blank
    elif op == "sweep":
        third = cx.address("C")
        s.destroy_touched_empty_accounts(st, [third, B])
        for i in (0, 1):
            if want[i] is not None and empty(want[i]) and (i == 1 or cx.eq(third, A)):
                want[i], slots[i] = None, []
    key = cx.bytes32("seen")
    other = cx.address("other")
    cx.assume(cx.not_(cx.or_(cx.eq(other, A), cx.eq(other, B))))
    for i, a in enumerate((A, B, other)):
        v = want[i] if i < 2 else None
        w = slots[i] if i < 2 else []
        n = "AB?"[i]
        got, opt = s.get_account(st, a), s.get_account_optional(st, a)
        e = v if v is not None else blank
        cx.check("fields of " + n, cx.and_(got.nonce == e[0], got.balance == e[1], cx.eq(got.code, e[2])))
        cx.check("existence of " + n, bool(s.account_exists(st, a)) == (v is not None))
        cx.check("optional " + n, (opt is not None) == (v is not None))
        cx.check("code or nonce of " + n, bool(s.account_has_code_or_nonce(st, a)) == bool(cx.or_(int(e[0]) != 0, len(e[2]) != 0)))
        now = 0
        for q, x in w:
            now = cx.ite(cx.eq(q, key), int(x), now)
        cx.check("slot of " + n, int(s.get_storage(st, a, key)) == now)
        if op != "slot":
            cx.check("has storage " + n, bool(s.account_has_storage(st, a)) == (len(w) > 0))
        elif i == 0:
            (q, v1) = w[-1]
            some = int(v1) != 0 or len(w) == 2 and not cx.eq(w[0][0], q)
            cx.check("has storage " + n, bool(s.account_has_storage(st, a)) == bool(some))
        if ge(fork, "spurious_dragon"):
            cx.check("empty " + n, bool(s.account_exists_and_is_empty(st, a)) == bool(v is not None and empty(e)))
            cx.check("alive " + n, bool(s.is_account_alive(st, a)) == bool(v is not None and not empty(e)))
