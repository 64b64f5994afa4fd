"""C19: inclusion rules."""

ENCODED = ["fork.check_transaction", "vm.gas.calculate_total_blob_gas/calculate_blob_gas_price", "state.get_account",
           "vm.eoa_delegation.is_valid_delegation"]
BOUNDS = ("per transaction type, parts that vary together: room (gas limit, block limit, gas used, all below 2^63), fees (base fee, priority fee, max fee or "
          "gas price below 2^64, value and balance below 2^256, gas limit below 2^40), sender (nonces, balance, no code or code of 1, 3, 22, 23 or 24 bytes, "
          "bad signature), blobs (0-3 and 5-10 hashes with symbolic version bytes, blob gas used so far, max blob fee, four excess values), "
          "targets (creation or not, 0-2 authorizations); thorough: fees and sender together")
ASSUMPTIONS = ["recover_sender is replaced by one returning a fixed address or failing (the real one is C21)"]


def parts(fork, kind):
    p = ["room", "fees", "sender"]
    if kind == "blob":
        p += ["blobs", "target"]
    elif kind == "setcode":
        p += ["target"]
    return p


def jobs(tier):
    from oracle.forks import FORKS
    from oracle.txs import kinds
    out = []
    for f in FORKS:
        for kd in kinds(f):
            for p in parts(f, kd) + (["all"] if tier == "thorough" else []):
                out.append({"harness": "h_check", "params": {"fork": f, "kind": kd, "part": p}, "weight": 4 if p == "blobs" else 1})
    return out


def exponential(factor, num, den):
    i, out, acc = 1, 0, factor * den
    while acc > 0:
        out += acc
        acc = acc * num // (den * i)
        i += 1
    return out // den


def h_check(cx, fork, kind, part):
    from oracle.kit import Kit, fill
    from oracle.forks import ge
    from oracle import txs
    from props.c18 import type_of
    k = Kit(cx, fork)
    s = k.state_mod
    st = k.state()
    U = k.Uint
    A = k.addr(0x5E)
    every = part == "all"
    room, fees, send = part in ("room",), part in ("fees", "all"), part in ("sender", "all")
    if room:
        limit, used = cx.uint("limit", 2**63 - 1), cx.uint("used", 2**63 - 1)
        cx.assume(int(used) <= int(limit))
        gas = cx.uint("gas", 2**63 - 1)
    else:
        limit, used = U(2**41), U(2**40)
        gas = cx.uint("gas", 2**40) if fees else U(100000)
    base = cx.uint("basefee", 2**64 - 1) if fees else U(7)
    price = cx.uint("price", 2**64 - 1) if fees else U(10)
    prio = cx.uint("prio", 2**64 - 1) if fees else U(1)
    value = cx.u256("value") if fees or send else k.U256(0)
    bal = cx.u256("balance", 1) if fees or send else k.U256(2**255)
    snonce = cx.uint("sendernonce", 2**64 - 1) if send else U(4)
    N = type_of(k, kind, "nonce")
    tnonce = N(cx.int("txnonce", 0, 2**64 - 1)) if send else N(4)
    code = b""
    if send:
        n = cx.choice("codesize", [0, 1, 3, 22, 23, 24] if ge(fork, "prague") else [0, 1])
        code = cx.bytesn("code", n)
    badsig = cx.flag("badsig") if send else False
    s.set_account(st, A, k.types.Account(nonce=snonce, balance=bal, code=code))
    hashes, bused, bmax, excess = (), 0, k.U256(2**128), 0
    per_block = 0
    if ge(fork, "cancun"):
        per_block = 9 if ge(fork, "prague") else 6
    if kind == "blob":
        nb = cx.choice("blobs", [0, 1, 2, 3, 5, 6, 7, 9, 10]) if part == "blobs" else 1
        hashes = []
        for i in range(nb):
            hashes.append(cx.bytes32("blob%d" % i) if i in (0, nb - 1) and part == "blobs" else k.Bytes32(b"\x01" + bytes(31)))
        hashes = tuple(hashes)
        if part == "blobs":
            bused = cx.int("blobsused", 0, per_block) * 131072
            bmax = cx.u256("bmax")
            excess = cx.choice("excess", [0, 2314058, 10**7, 5 * 10**7])
    create = kind not in ("blob", "setcode") and False
    if part == "target":
        create = cx.flag("create")
    auths = 1
    if kind == "setcode" and part == "target":
        auths = cx.choice("auths", [0, 1, 2])
    be = k.block_env(st, block_gas_limit=limit, base_fee_per_gas=base, excess_blob_gas=k.U64(excess), chain_id=k.U64(1))
    bo = k.vm.BlockOutput()
    bo.block_gas_used = used
    if ge(fork, "cancun"):
        bo.blob_gas_used = k.U64(bused)
    tx = txs.make(k, kind, nonce=tnonce, gas=gas, gas_price=price, max_fee_per_gas=price, max_priority_fee_per_gas=prio, value=value,
                  to=k.Bytes0(b"") if create else k.addr(0x70), blob_versioned_hashes=hashes, max_fee_per_blob_gas=bmax,
                  authorizations=tuple(txs.authorization(k, nonce=k.U64(i)) for i in range(auths if kind == "setcode" else 0)))
    Bad = cx.load("ethereum.exceptions").InvalidSignatureError

    def recover(*args):
        cx.check("the right transaction", args[-1] is tx)
        if ge(fork, "spurious_dragon"):
            cx.check("our chain", int(args[0]) == 1)
        if badsig:
            raise Bad("bad")
        return A
    cx.stub(k.m("fork"), "recover_sender", recover)
    out = k.run(k.m("fork").check_transaction, be, bo, tx)
    # the rules
    market = kind in ("fee", "blob", "setcode")
    ok = [int(gas) <= int(limit) - int(used), not badsig, int(snonce) == int(tnonce)]
    g, p = int(gas), int(price)
    cost = g * p + int(value)
    eff = p
    if ge(fork, "london"):
        ok.append(p >= int(base))
        if market:
            ok.append(int(prio) <= p)
            eff = cx.ite(int(prio) < p - int(base), int(prio) + int(base), p)
    if kind == "blob":
        n = len(hashes)
        ok += [n >= 1, bused + n * 131072 <= per_block * 131072, int(bmax) >= exponential(1, excess, 5007716 if ge(fork, "prague") else 3338477)]
        ok += [cx.eq(h[0], 1) for h in hashes]
        if ge(fork, "osaka"):
            ok.append(n <= 6)
        cost = cost + n * 131072 * int(bmax)
    if kind in ("blob", "setcode"):
        ok.append(not create)
    if kind == "setcode":
        ok.append(auths > 0)
    ok.append(int(bal) >= cost)
    if len(code):
        ok.append(cx.eq(bytes(code[:3]), b"\xef\x01\x00") if ge(fork, "prague") and len(code) == 23 else False)
    if not cx.and_(*ok):
        cx.check("rejected", txs.rejected(cx, out, k.exc), out)
        return
    cx.check("accepted", out == "ok", out)
    r = k.ret
    if not ge(fork, "london"):
        cx.check_eq("sender", r, A)
        return
    cx.check_eq("sender", r[0], A)
    cx.check("effective gas price", int(r[1]) == eff)
    cx.observe("price", r[1])
    if ge(fork, "cancun"):
        cx.check_eq("blob hashes", tuple(r[2]), tuple(hashes))
        cx.check("blob gas", int(r[3]) == 131072 * len(hashes))
