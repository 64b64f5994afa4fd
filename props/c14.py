"""C14: SELFDESTRUCT."""

ENCODED = ["vm.instructions.system.selfdestruct", "state.get_account/set_account_balance/move_ether/is_account_alive/account_exists/"
           "account_exists_and_is_empty", "vm.gas.charge_gas"]
BOUNDS = ("every beneficiary word, executing address, balances, nonces and gas below 2^64; one other account in the state (any address, "
          "with or without code), one warm address, one account already scheduled by the frame and one by one of its 1 to 3 callers")
ASSUMPTIONS = ["balances sum to less than 2^256"]


def jobs(tier):
    from oracle.forks import FORKS
    return [{"harness": "h_sd", "params": {"fork": f}} for f in FORKS]


def h_sd(cx, fork):
    from oracle.kit import Kit
    from oracle.forks import ge, lt
    k = Kit(cx, fork)
    s = k.state_mod
    st = k.state()
    me, holder = cx.address("me"), cx.address("holder")
    cx.assume(cx.not_(cx.eq(me, holder)))
    bal, hbal = cx.u256("bal", 0, 2**255 - 1), cx.u256("hbal", 0, 2**255 - 1)
    mine = k.types.Account(nonce=k.Uint(1), balance=bal, code=b"\xff")
    hcode = b"\x00" if cx.flag("hcode") else b""
    hnonce = cx.uint("hnonce", 2**64 - 1)
    theirs = k.types.Account(nonce=hnonce, balance=hbal, code=hcode)
    s.set_account(st, me, mine)
    s.set_account(st, holder, theirs)
    tenv = k.tx_env()
    k.begin(st, tenv)
    x = cx.u256("x")
    created = False
    if ge(fork, "cancun"):
        created = cx.flag("created")
        if created:
            s.mark_account_created(st, me)
    static = cx.flag("static") if ge(fork, "byzantium") else False
    own, up = cx.address("own"), cx.address("up")
    # the frames above: the account scheduled by one of them
    parent, height, at = None, cx.choice("callers", [1, 2, 3]), 0
    if height > 1:
        at = cx.choice("scheduled by", list(range(height)))
    for i in range(height):
        parent = k.evm(k.message(k.block_env(st), tenv, depth=k.Uint(i), parent_evm=parent), accounts_to_delete=set([up] if i == at else []))
    msg = k.message(k.block_env(st), tenv, current_target=me, target=me, is_static=static, parent_evm=parent, depth=k.Uint(height))
    refund = cx.int("refund", -2**64, 2**64)
    ekw = k.access_sets()
    evm = k.frame([x], message=msg, refund_counter=refund, accounts_to_delete=set([own]), **ekw)
    out = k.step(0xFF, evm)
    ben = k.Bytes20((int(x) % 2**160).to_bytes(20, "big"))
    if cx.eq(ben, me):
        who = "me"
    elif cx.eq(ben, holder):
        who = "holder"
    else:
        who = "none"
    cost = 0
    if ge(fork, "tangerine_whistle"):
        cost = 5000
        if ge(fork, "spurious_dragon"):
            dead = who == "none" or (who == "holder" and cx.and_(int(hnonce) == 0, int(hbal) == 0, len(hcode) == 0))
            if dead and int(bal) != 0:
                cost += 25000
        elif who == "none":
            cost += 25000
    if k.has_access() and not k.warm(ben):
        cost += 2600
    if static:
        cx.check("halts in a static call", out == "halt", out)
        return
    if not k.paid(out, cost):
        return
    k.settled(cost, allowed=("running", "refund_counter", "accounts_to_delete", "touched_accounts", "accessed_addresses"), pc=None)
    cx.check("stopped", evm.running == False)  # noqa: E712
    k.check_access(evm, [ben])
    gone = True if lt(fork, "cancun") else created
    # balances
    if who == "me":
        left, hleft = (0 if gone else int(bal)), int(hbal)
    else:
        left, hleft = 0, int(hbal) + (int(bal) if who == "holder" else 0)
    now, hnow = s.get_account(st, me), s.get_account(st, holder)
    cx.check("own balance", int(now.balance) == left)
    cx.check("own nonce and code", cx.and_(now.nonce == mine.nonce, cx.eq(now.code, mine.code)))
    cx.check("other balance", int(hnow.balance) == hleft)
    cx.check("other nonce and code", cx.and_(hnow.nonce == theirs.nonce, cx.eq(hnow.code, theirs.code)))
    if who == "none":
        cx.check("beneficiary balance", int(s.get_account(st, ben).balance) == int(bal))
        if lt(fork, "spurious_dragon"):
            cx.check("beneficiary exists", s.account_exists(st, ben))
    # deletion
    if gone:
        cx.check("scheduled", me in evm.accounts_to_delete)
    for a in evm.accounts_to_delete:
        cx.check("nothing else scheduled", cx.or_(cx.eq(a, own), cx.eq(a, up), cx.and_(gone, cx.eq(a, me))))
    cx.check("earlier kept", own in evm.accounts_to_delete)
    back = 0
    if lt(fork, "london"):
        if not cx.or_(cx.eq(me, own), cx.eq(me, up)):
            back = 24000
    cx.check("refund", evm.refund_counter == refund + back)
    if ge(fork, "spurious_dragon") and lt(fork, "paris") and who == "none" and int(bal) == 0:
        cx.check("empty beneficiary touched", ben in evm.touched_accounts)
