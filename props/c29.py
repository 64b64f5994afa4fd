"""C29: EIP-7702 authorizations."""

ENCODED = ["vm.eoa_delegation.set_delegation/recover_authority/is_valid_delegation/get_delegated_code_address",
           "vm.interpreter.process_message_call", "state.get_account/account_exists/set_code/increment_nonce", "ethereum_rlp.rlp.encode",
           "calls to delegated accounts: C12 h_deleg and C37 h_delegated"]
BOUNDS = ("h_one: one authorization with every chain id, address, nonce, parity, r and s, for an account that is absent, or has every nonce and "
          "balance and no code, any code of 1, 3, 22, 23 or 24 bytes; the transaction's target the account itself or another; h_two: two "
          "authorizations of one account or of two, every nonce; h_sig: every chain id below 2^64 and above, address and nonce of the signed "
          "payload, lengths of the integers split into 0, 1-127, up to 2, 8 and 32 bytes")
ASSUMPTIONS = ["secp256k1 public key recovery (coincurve) is replaced by a function of its arguments that can fail; keccak256 of symbolic data is "
               "an uninterpreted function", "h_one, h_two: the execution of the message is replaced by a recorder (C15, C37)"]


def jobs(tier):
    from oracle.forks import since
    out = []
    for f in since("prague"):
        for part in ("sig", "account", "target") + (("all",) if tier == "thorough" else ()):
            out.append({"harness": "h_one", "params": {"fork": f, "part": part}, "weight": 4})
        out.append({"harness": "h_two", "params": {"fork": f}, "weight": 3})
        out.append({"harness": "h_sig", "params": {"fork": f}, "weight": 2})
    return out


N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
MARK = b"\xef\x01\x00"


def pub(i):
    return bytes([i]) * 64


def authority(cx, k, i):
    return k.Bytes20(bytes(cx.keccak(pub(i)))[12:])


def make(cx, k, **kw):
    from oracle.kit import fill
    d = dict(chain_id=k.U256(0), address=k.addr(0x99), nonce=k.U64(0), y_parity=k.num.U8(0), r=k.U256(1), s=k.U256(1))
    d.update(kw)
    return fill(k.types.Authorization, **d)


def world(cx, fork):
    from oracle.kit import Kit
    k = Kit(cx, fork)
    k.st = k.state()
    k.seen = []
    it = k.m("vm.interpreter")
    k.err = k.m("vm.exceptions").OutOfGasError() if cx.flag("fails") else None

    def child(message):
        k.seen.append(message)
        return k.evm(message, error=k.err, refund_counter=0)
    cx.stub(it, "process_message", child)
    return k


def recover(cx, k, fn):
    cx.stub(k.m("vm.eoa_delegation"), "secp256k1_recover", fn)


def go(cx, k, auths, target, chain_id):
    be = k.block_env(k.st, chain_id=chain_id)
    k.msg = k.message(be, k.tx_env(authorizations=tuple(auths)), target=target, current_target=target, code_address=target,
                      code=k.state_mod.get_account(k.st, target).code, accessed_addresses={target})
    r = k.run(k.m("vm.interpreter").process_message_call, k.msg)
    cx.check("returns", r == "ok", r)
    cx.check("executed once", len(k.seen) == 1)
    return k.ret


def h_one(cx, fork, part):
    k = world(cx, fork)
    s = k.state_mod
    full = part == "all"
    A = authority(cx, k, 1)
    other, deleg = k.addr(0x77), k.addr(0x99)
    chain = cx.u64("chain")
    sig = part in ("sig", "all")
    acc = part in ("account", "all")
    aid = cx.u256("auth_chain") if sig else k.U256(0)
    nonce = cx.u64("nonce")
    par = k.num.U8(cx.int("parity", 0, 255)) if sig else k.num.U8(1)
    r_, s_ = (cx.u256("r"), cx.u256("s")) if sig else (k.U256(5), k.U256(N // 2))
    to = cx.address("deleg") if acc or full else deleg
    # the signer's account
    kind = cx.choice("account", ["absent", "plain", "code23", "code1", "code3", "code22", "code24", "delegated"]) if acc else "plain"
    anonce, bal = cx.uint("anonce", 2**64 - 2), cx.u256("bal", 1 if kind != "absent" else 0, 2**254)
    code = b""
    if kind == "absent":
        cx.assume(int(anonce) == 0)
    else:
        if kind.startswith("code"):
            code = cx.bytesn("code", int(kind[4:]))
        elif kind == "delegated":
            code = MARK + cx.address("was")
        s.set_account(k.st, A, k.types.Account(nonce=anonce, balance=bal, code=code))
    # some code behind the delegation
    s.set_account(k.st, deleg, k.types.Account(nonce=k.Uint(1), balance=k.U256(0), code=b"\x60\x01"))
    target = A if part == "target" or full and cx.flag("self") else other
    bad_point = cx.flag("badpoint") if sig else False
    Bad = cx.load("ethereum.exceptions").InvalidSignatureError

    def rec(r, s, v, h):
        cx.check("key from r", r == r_)
        cx.check("key from s", s == s_)
        cx.check("key from parity", int(v) == int(par))
        if bad_point:
            raise Bad
        return pub(1)
    recover(cx, k, rec)
    au = make(cx, k, chain_id=aid, address=to, nonce=nonce, y_parity=par, r=r_, s=s_)
    o = go(cx, k, [au], target, chain)
    m = k.seen[0]
    well = cx.and_(cx.or_(int(aid) == 0, int(aid) == int(chain)), int(nonce) < 2**64 - 1, int(par) <= 1, 0 < int(r_), int(r_) < N, 0 < int(s_),
                   int(s_) <= N // 2, not bad_point)
    if not well:
        cx.check("not warmed", A in m.accessed_addresses) if target is A else cx.check("not warmed", A not in m.accessed_addresses)
        ok = False
    else:
        cx.check("signer warm", A in m.accessed_addresses)
        isdel = len(code) == 23 and cx.eq(bytes(code[:3]), MARK)
        ok = bool(cx.and_(cx.or_(len(code) == 0, isdel), int(anonce) == int(nonce)))
    now = s.get_account(k.st, A)
    if ok:
        zero = bool(cx.eq(to, bytes(20)))
        cx.check_eq("code", now.code, b"" if zero else MARK + to)
        cx.check("nonce", int(now.nonce) == int(anonce) + 1)
        cx.check("balance", int(now.balance) == int(bal) if kind != "absent" else int(now.balance) == 0)
        cx.check("refund", int(o.refund_counter) == (0 if kind == "absent" else 12500))
    else:
        cx.check("existence", bool(s.account_exists(k.st, A)) == (kind != "absent"))
        cx.check_eq("code untouched", now.code, code)
        cx.check("nonce untouched", int(now.nonce) == int(anonce))
        cx.check("balance untouched", int(now.balance) == (int(bal) if kind != "absent" else 0))
        cx.check("no refund", int(o.refund_counter) == 0)
    # what runs: the target's code as it is now, one delegation resolved
    if target is A:
        if len(now.code) == 23 and cx.eq(bytes(now.code[:3]), MARK):
            dst = k.Bytes20(bytes(now.code[3:]))
            cx.check_eq("delegated code runs", m.code, s.get_account(k.st, dst).code)
            cx.check("delegate warm", dst in m.accessed_addresses)
            cx.check("no precompile by delegation", bool(m.disable_precompiles))
        else:
            cx.check_eq("own code runs", m.code, now.code)
            cx.check("precompiles as usual", not m.disable_precompiles)
    else:
        cx.check("nothing runs", len(m.code) == 0)
    cx.observe("refund", o.refund_counter)
    cx.observe("code", now.code)


def h_two(cx, fork):
    k = world(cx, fork)
    s = k.state_mod
    A, B = authority(cx, k, 1), authority(cx, k, 2)
    same = cx.flag("same")
    n0, n1 = cx.u64("n0"), cx.u64("n1")
    na, nb = cx.uint("na", 2**64 - 3), cx.uint("nb", 2**64 - 3)
    there = cx.flag("a_exists")
    if there:
        s.set_account(k.st, A, k.types.Account(nonce=na, balance=k.U256(1), code=b""))
    else:
        cx.assume(int(na) == 0)
    s.set_account(k.st, B, k.types.Account(nonce=nb, balance=k.U256(1), code=b""))
    d0, d1 = cx.address("d0"), cx.address("d1", 1)
    recover(cx, k, lambda r, s, v, h: pub(1) if same else pub(int(r)))
    a0 = make(cx, k, address=d0, nonce=n0, r=k.U256(1))
    a1 = make(cx, k, address=d1, nonce=n1, r=k.U256(2))
    o = go(cx, k, [a0, a1], k.addr(0x77), k.U64(1))
    mx = 2**64 - 1
    want = {"A": [int(na), b"", there], "B": [int(nb), b"", True]}
    refund = 0
    for n, d, who in ((n0, d0, "A"), (n1, d1, "A" if same else "B")):
        w = want[who]
        if cx.and_(int(n) < mx, int(n) == w[0]):
            refund = refund + (12500 if w[2] else 0)
            want[who] = [w[0] + 1, b"" if cx.eq(d, bytes(20)) else MARK + d, True]
    for who, adr in (("A", A), ("B", B)):
        now = s.get_account(k.st, adr)
        cx.check("nonce of " + who, int(now.nonce) == want[who][0])
        cx.check_eq("code of " + who, now.code, want[who][1])
    cx.check("refund", int(o.refund_counter) == refund)
    acc = k.seen[0].accessed_addresses
    if int(n0) < mx:
        cx.check("first signer warm", A in acc)
    if int(n1) < mx:
        cx.check("second signer warm", (A if same else B) in acc)


def h_sig(cx, fork):
    """the signed payload"""
    from oracle import rlp
    k = world(cx, fork)
    sizes = [(0, 0), (1, 127), (128, 2**16 - 1), (2**16, 2**64 - 1)]
    lo, hi = cx.choice("chain size", sizes)
    chain = k.U64(cx.int("chain", lo, hi))
    lo, hi = cx.choice("nonce size", sizes)
    nonce = k.U64(cx.int("nonce", lo, min(hi, 2**64 - 2)))
    to = cx.address("to")
    got = []

    def rec(r, s, v, h):
        got.append(h)
        return pub(1)
    recover(cx, k, rec)
    go(cx, k, [make(cx, k, chain_id=k.U256(chain), address=to, nonce=nonce)], k.addr(0x77), chain)
    cx.check("one recovery", len(got) == 1)
    want = cx.keccak(b"\x05" + rlp.seq([rlp.uint(int(chain)), rlp.string(to), rlp.uint(int(nonce))]))
    cx.check_eq("signed hash", got[0], want)
