"""C08: SLOAD, SSTORE, TLOAD, TSTORE."""

ENCODED = ["vm.instructions.storage.*", "vm.gas.charge_gas", "state.get_storage/set_storage/get_storage_original/get_transient_storage/"
           "set_transient_storage/begin_transaction", "trie.trie_get/trie_set/copy_trie (mapping part)"]
BOUNDS = ("every key, every original/current/new 256-bit value, gas below 2^64, any refund counter; two slots of the executing account and "
          "one of another account (these two non-zero); one accessed (address, slot) pair; static and non-static; account created in this transaction or not")
ASSUMPTIONS = ["one state transaction is open (as during any transaction)"]


def jobs(tier):
    from oracle.forks import FORKS, since
    out = []
    for f in FORKS:
        out.append({"harness": "h_sload", "params": {"fork": f}})
        out.append({"harness": "h_sstore", "params": {"fork": f}, "weight": 8})
    for f in since("cancun"):
        out.append({"harness": "h_transient", "params": {"fork": f, "op": 0x5C}})
        out.append({"harness": "h_transient", "params": {"fork": f, "op": 0x5D}})
    return out


def setup(cx, fork, **kw):
    """frame of `me`, whose slot key had the value orig before the transaction and has cur now"""
    from oracle.kit import Kit
    k = Kit(cx, fork)
    s = k.state_mod
    st = k.state()
    k.st = st
    k.me, k.other = cx.address("me"), cx.address("other")
    cx.assume(cx.not_(cx.eq(k.me, k.other)))
    k.x = cx.u256("key")
    k.key = k.Bytes32(int(k.x).to_bytes(32, "big"))
    k.key2 = cx.bytes32("key2")
    cx.assume(cx.not_(cx.eq(k.key, k.key2)))
    k.orig, k.cur = cx.u256("orig"), cx.u256("cur")
    k.second, k.theirs = cx.u256("second", 1), cx.u256("theirs", 1)
    for a in (k.me, k.other):
        s.set_account(st, a, k.account(nonce=1))
    s.set_storage(st, k.me, k.key, k.orig)
    s.set_storage(st, k.me, k.key2, k.second)
    s.set_storage(st, k.other, k.key, k.theirs)
    k.tenv = k.tx_env()
    k.begin(st, k.tenv)
    s.set_storage(st, k.me, k.key, k.cur)
    k.created = False
    if hasattr(s, "mark_account_created"):
        k.created = cx.flag("created")
        if k.created:
            s.mark_account_created(st, k.me)
    return k


def others_kept(cx, k):
    s = k.state_mod
    cx.check_eq("other slot kept", s.get_storage(k.st, k.me, k.key2), k.second)
    cx.check_eq("other account's slot kept", s.get_storage(k.st, k.other, k.key), k.theirs)


def h_sload(cx, fork):
    k = setup(cx, fork)
    ekw = k.access_sets()
    evm = k.frame([k.x], message=k.message(k.block_env(k.st), k.tenv, current_target=k.me, target=k.me), **ekw)
    out = k.step(0x54, evm)
    from oracle.forks import ge
    if k.has_access():
        cost = 100 if k.warm_slot(k.me, k.key) else 2100
    else:
        cost = 800 if ge(fork, "istanbul") else 200 if ge(fork, "tangerine_whistle") else 50
    if not k.paid(out, cost):
        return
    k.settled(cost, [k.cur], allowed=("accessed_storage_keys",))
    k.check_access(evm, slots=[(k.me, k.key)])
    cx.check_eq("slot kept", k.state_mod.get_storage(k.st, k.me, k.key), k.cur)
    others_kept(cx, k)


def h_sstore(cx, fork):
    from oracle.forks import ge
    k = setup(cx, fork)
    ekw = k.access_sets()
    new = cx.u256("new")
    static = cx.flag("static") if ge(fork, "byzantium") else False
    refund = cx.int("refund", -2**64, 2**64)
    evm = k.frame([k.x, new], message=k.message(k.block_env(k.st), k.tenv, current_target=k.me, target=k.me, is_static=static),
                  refund_counter=refund, **ekw)
    out = k.step(0x55, evm)
    orig, cur, nv = (0 if k.created else int(k.orig)), int(k.cur), int(new)
    back = 0
    if not ge(fork, "istanbul"):
        cost = 20000 if cx.and_(cur == 0, nv != 0) else 5000
        if cx.and_(cur != 0, nv == 0):
            back = 15000
    else:
        s = 100 if ge(fork, "berlin") else 800
        upd = 2900 if ge(fork, "berlin") else 5000
        clear = 4800 if ge(fork, "london") else 15000
        if cur == nv:
            cost = s
        elif orig == cur:
            if orig == 0:
                cost = 20000
            else:
                cost = upd
                if nv == 0:
                    back = clear
        else:
            cost = s
            if orig != 0:
                if cur == 0:
                    back -= clear
                elif nv == 0:
                    back += clear
            if orig == nv:
                back += (20000 if orig == 0 else upd) - s
        if k.has_access() and not k.warm_slot(k.me, k.key):
            cost += 2100
        if int(k.gas) <= 2300:
            cx.check("no store with the stipend or less", out == "halt", out)
            return
    if static:
        cx.check("no store in a static call", out == "halt", out)
        return
    if not k.paid(out, cost):
        return
    k.settled(cost, allowed=("accessed_storage_keys", "refund_counter"))
    cx.check("refund", evm.refund_counter == refund + back)
    k.check_access(evm, slots=[(k.me, k.key)])
    cx.check_eq("stored", k.state_mod.get_storage(k.st, k.me, k.key), new)
    others_kept(cx, k)
    if ge(fork, "istanbul"):
        cx.check("original kept", int(k.state_mod.get_storage_original(k.st, k.me, k.key)) == orig)


def h_transient(cx, fork, op):
    k = setup(cx, fork)
    s, ts = k.state_mod, k.tenv.transient_storage
    old, old2, theirs = cx.u256("told"), cx.u256("told2", 1), cx.u256("ttheirs", 1)
    s.set_transient_storage(ts, k.me, k.key, old)
    s.set_transient_storage(ts, k.me, k.key2, old2)
    s.set_transient_storage(ts, k.other, k.key, theirs)
    static = cx.flag("static")
    new = cx.u256("new")
    msg = k.message(k.block_env(k.st), k.tenv, current_target=k.me, target=k.me, is_static=static)
    evm = k.frame([k.x] + ([new] if op == 0x5D else []), message=msg, **k.access_sets())
    out = k.step(op, evm)
    if op == 0x5D and static:
        cx.check("no store in a static call", out == "halt", out)
        return
    if not k.paid(out, 100):
        return
    k.settled(100, [old] if op == 0x5C else [])
    cx.check_eq("transient slot", s.get_transient_storage(ts, k.me, k.key), old if op == 0x5C else new)
    cx.check_eq("transient slot 2", s.get_transient_storage(ts, k.me, k.key2), old2)
    cx.check_eq("transient slot of the other", s.get_transient_storage(ts, k.other, k.key), theirs)
    cx.check_eq("storage kept", s.get_storage(k.st, k.me, k.key), k.cur)
    others_kept(cx, k)
