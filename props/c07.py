"""C07: opcodes that push the context of the message, transaction, block or an account."""

ENCODED = ["vm.instructions.environment.*", "vm.instructions.block.*", "vm.gas.charge_gas", "state.get_account",
           "utils.address.to_address_masked", "vm.gas.calculate_blob_gas_price (BLOBBASEFEE)"]
BOUNDS = ("every 256-bit operand, every address, value, block field (number and gas limit below 2^64) and gas below 2^64; one account in "
          "the state at any address, one warm address; BLOCKHASH: recorded hash lists of 0, 1, 3 and 256 symbolic hashes, every block "
          "number (with 256 hashes, quick: distances 1-3, 254 and more; thorough: every distance); BLOBHASH: 0 to 3 blob hashes; "
          "BLOBBASEFEE: the listed excess values (every excess value is C26)")
ASSUMPTIONS = ["the recorded block hashes are those of the most recent blocks, at most 256, and all of them below block 256"]

SIMPLE = {0x30: ("ADDRESS", "frontier"), 0x32: ("ORIGIN", "frontier"), 0x33: ("CALLER", "frontier"), 0x34: ("CALLVALUE", "frontier"),
          0x3A: ("GASPRICE", "frontier"), 0x41: ("COINBASE", "frontier"), 0x42: ("TIMESTAMP", "frontier"), 0x43: ("NUMBER", "frontier"),
          0x44: ("DIFFICULTY", "frontier"), 0x45: ("GASLIMIT", "frontier"), 0x46: ("CHAINID", "istanbul"), 0x48: ("BASEFEE", "london")}


def jobs(tier):
    from oracle.forks import FORKS, since
    out = []
    for b, (n, first) in SIMPLE.items():
        for f in since(first):
            out.append({"harness": "h_simple", "params": {"fork": f, "op": b}})
    for f in FORKS:
        out.append({"harness": "h_balance", "params": {"fork": f, "op": 0x31}, "weight": 3})
        for n in (0, 1, 3, 256):
            out.append({"harness": "h_blockhash", "params": {"fork": f, "n": n, "all": tier != "quick"}, "weight": 12 if n == 256 else 2})
    for f in since("istanbul"):
        out.append({"harness": "h_balance", "params": {"fork": f, "op": 0x47}, "weight": 3})
    for f in since("cancun"):
        for n in (0, 1, 3):
            out.append({"harness": "h_blobhash", "params": {"fork": f, "n": n}})
        out.append({"harness": "h_blobbasefee", "params": {"fork": f}})
    return out


def h_simple(cx, fork, op):
    from oracle.kit import Kit
    from oracle.forks import ge
    k = Kit(cx, fork)
    name = SIMPLE[op][0]
    me, code_at, caller, origin, coinbase = [cx.address(n) for n in ("me", "codeat", "caller", "origin", "coinbase")]
    value = cx.u256("value")
    price, basefee = cx.uint("price"), cx.uint("basefee")
    number, limit, diff = cx.uint("number", 2**64 - 1), cx.uint("limit", 2**64 - 1), cx.uint("difficulty")
    time, chain, randao = cx.u256("time"), cx.u64("chain"), cx.bytes32("randao")
    be = k.block_env(coinbase=coinbase, number=number, block_gas_limit=limit, difficulty=diff, time=time, chain_id=chain,
                     prev_randao=randao, base_fee_per_gas=basefee)
    te = k.tx_env(origin=origin, gas_price=price)
    msg = k.message(be, te, caller=caller, current_target=me, target=me, code_address=code_at, value=value)
    evm = k.frame([], message=msg)
    out = k.step(op, evm)

    def word(b):
        return k.U256(int.from_bytes(b, "big"))
    want = {"ADDRESS": lambda: word(me), "ORIGIN": lambda: word(origin), "CALLER": lambda: word(caller), "CALLVALUE": lambda: value,
            "GASPRICE": lambda: k.U256(int(price)), "COINBASE": lambda: word(coinbase), "TIMESTAMP": lambda: time,
            "NUMBER": lambda: k.U256(int(number)), "GASLIMIT": lambda: k.U256(int(limit)), "CHAINID": lambda: k.U256(int(chain)),
            "BASEFEE": lambda: k.U256(int(basefee)),
            "DIFFICULTY": lambda: word(randao) if ge(fork, "paris") else k.U256(int(diff))}[name]()
    if k.paid(out, 2):
        k.settled(2, [want])


def h_balance(cx, fork, op):
    from oracle.kit import Kit
    from oracle.costs import account_access
    k = Kit(cx, fork)
    holder, me = cx.address("holder"), cx.address("me")
    bal, nonce = cx.u256("balance"), cx.uint("nonce", 2**64 - 1)
    st = k.state()
    k.state_mod.set_account(st, holder, k.types.Account(nonce=nonce, balance=bal, code=b""))
    ekw = k.access_sets()
    msg = k.message(k.block_env(st), current_target=me, target=me)
    args = [cx.u256("x")] if op == 0x31 else []
    evm = k.frame(args, message=msg, **ekw)
    out = k.step(op, evm)
    if op == 0x31:
        a = k.Bytes20((int(args[0]) % 2**160).to_bytes(20, "big"))
        cost = account_access(k, a, "balance")
        touched = [a]
    else:
        a, cost, touched = me, 5, []
    if not k.paid(out, cost):
        return
    want = bal if cx.eq(a, holder) else k.U256(0)
    k.settled(cost, [want], allowed=("accessed_addresses", "accessed_storage_keys") if k.has_access() else ())
    k.check_access(evm, touched)
    cx.check_eq("account kept", k.state_mod.get_account(st, holder), k.types.Account(nonce=nonce, balance=bal, code=b""))


def h_blockhash(cx, fork, n, all):
    from oracle.kit import Kit
    k = Kit(cx, fork)
    hashes = [cx.bytes32("h%d" % i) for i in range(n)]
    number = k.Uint(n) if n < 256 else cx.uint("number", 2**64 - 1, 256)
    x = cx.u256("x")
    if n == 256 and not all:
        d = int(number) - int(x)
        cx.assume(cx.or_(d <= 3, d >= 254))
    evm = k.frame([x], message=k.message(k.block_env(number=number, block_hashes=hashes)))
    out = k.step(0x40, evm)
    if not k.paid(out, 20):
        return
    want = 0
    d = int(number) - int(x)
    if cx.and_(d >= 1, d <= 256):
        for i in range(1, n + 1):
            if d == i:
                want = int.from_bytes(hashes[n - i], "big")
                break
    k.settled(20, [k.U256(want)])


def h_blobhash(cx, fork, n):
    from oracle.kit import Kit
    k = Kit(cx, fork)
    hashes = tuple([cx.bytes32("h%d" % i) for i in range(n)])
    x = cx.u256("x")
    evm = k.frame([x], message=k.message(k.block_env(), k.tx_env(blob_versioned_hashes=hashes)))
    out = k.step(0x49, evm)
    if not k.paid(out, 3):
        return
    want = 0
    for i in range(n):
        if int(x) == i:
            want = int.from_bytes(hashes[i], "big")
            break
    k.settled(3, [k.U256(want)])


def h_blobbasefee(cx, fork):
    from oracle.kit import Kit
    from oracle.forks import ge
    k = Kit(cx, fork)
    frac = 5007716 if ge(fork, "prague") else 3338477
    ex = cx.choice("excess", [0, 1, frac - 1, frac, 2314057, 5_000_000, 10 * 131072, 10**7, 10**8])
    evm = k.frame([], message=k.message(k.block_env(excess_blob_gas=k.U64(ex))))
    out = k.step(0x4A, evm)
    if not k.paid(out, 2):
        return
    i, acc, o = 1, frac, 0
    while acc > 0:
        o += acc
        acc = acc * ex // (frac * i)
        i += 1
    k.settled(2, [k.U256(o // frac)])
