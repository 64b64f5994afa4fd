"""C26: blob gas."""

ENCODED = ["vm.gas.calculate_excess_blob_gas", "vm.gas.calculate_blob_gas_price", "vm.gas.calculate_total_blob_gas", "vm.gas.calculate_data_fee",
           "utils.numeric.taylor_exponential", "fork.validate_header", "fork.check_transaction (blob limits)"]
BOUNDS = ("h_excess: every parent excess and usage below 2^40 (Cancun, Prague), in Osaka every usage up to the block limit and every base fee for each "
          "listed excess around the target and at multiples of the update fraction; parents of the fork itself, of the previous fork and (Cancun) "
          "without blobs; h_price: those excess values; h_limits: 0 to 10 blobs, any whole number of blobs used before")
ASSUMPTIONS = ["other header fields are valid and proof of work absent; h_limits: the signature is recovered to a rich sender"]

TARGET = {"cancun": 3 * 131072, "prague": 6 * 131072, "osaka": 6 * 131072}
MAX = {"cancun": 6 * 131072, "prague": 9 * 131072, "osaka": 9 * 131072}
FRACTION = {"cancun": 3338477, "prague": 5007716, "osaka": 5007716}
PER_TX = {"cancun": 6, "prague": 9, "osaka": 6}


def price(fork, excess):
    from props.c19 import exponential
    return exponential(1, excess, FRACTION[fork])


def excess(fork, before, used, fee):
    if before + used < TARGET[fork]:
        return 0
    if fork == "osaka" and 8192 * fee > 131072 * price(fork, before):
        return before + used * (MAX[fork] - TARGET[fork]) // MAX[fork]
    return before + used - TARGET[fork]


def points(fork):
    t, f = TARGET[fork], FRACTION[fork]
    out = [0, 1, 131071, 131072, t - 1, t, t + 1, f - 1, f, f + 1]
    out += [f * a // b for a, b in ((7, 10), (3, 2), (2, 1), (3, 1), (5, 1), (10, 1), (20, 1), (40, 1))]
    return out


def jobs(tier):
    out = []
    for f in ("cancun", "prague", "osaka"):
        for src in ("own", "previous"):
            if f == "osaka":
                ps = points(f) if tier == "quick" else points(f) + [131072 * i for i in range(2, 400, 3)]
                for c in range(0, len(ps), 6):
                    out.append({"harness": "h_excess", "params": {"fork": f, "parent": src, "at": ps[c:c + 6]}})
            else:
                out.append({"harness": "h_excess", "params": {"fork": f, "parent": src, "at": None}})
        out.append({"harness": "h_price", "params": {"fork": f, "at": points(f) if tier == "quick" else points(f) + [131072 * i for i in range(2, 2000, 7)]},
                    "max_paths": 4000})
        out.append({"harness": "h_blobs", "params": {"fork": f}})
        out.append({"harness": "h_limits", "params": {"fork": f}})
    return out


def h_excess(cx, fork, parent, at):
    from oracle.kit import Kit
    from oracle import headers, txs
    k = Kit(cx, fork)
    U = k.Uint
    hashes = headers.Hashes(cx)
    n = headers.number(fork)
    pf = fork if parent == "own" else headers.before(fork)
    if at is None:
        e, used = cx.u64("excess", 0, 2**40), cx.u64("used", 0, 2**40)
        fee = U(1000)
        a, b = int(e), int(used)
    else:
        e, used = k.U64(cx.choice("excess", at)), cx.u64("used", 0, MAX[fork])
        fee = cx.uint("fee", 2**128)
        a, b = int(e), int(used)
    f = int(fee)
    p = headers.header(cx, k, pf, excess_blob_gas=e, blob_gas_used=used, base_fee_per_gas=fee, number=U(n), timestamp=k.U256(100),
                       gas_limit=U(10**7), gas_used=U(5 * 10**6))
    if parent == "previous" and fork == "cancun":
        want = 0
    else:
        want = excess(fork, a, b, f)
    out = k.run(k.m("vm.gas").calculate_excess_blob_gas, p)
    cx.check("computed", out == "ok", out)
    cx.check_eq("excess", int(k.ret), want)
    said = cx.u64("said")
    h = headers.header(cx, k, fork, excess_blob_gas=said, base_fee_per_gas=fee, number=U(n + 1), timestamp=k.U256(101), gas_limit=U(10**7),
                       parent_hash=hashes.hash(p))
    out = k.run(k.m("fork").validate_header, headers.chain(k, [headers.block(cx, k, pf, p)]), h)
    if int(said) == want:
        cx.check("accepted", out == "ok", out)
    else:
        cx.check("rejected", txs.rejected(cx, out, k.exc), out)
    cx.observe("outcome", out == "ok")


def h_price(cx, fork, at):
    from oracle.kit import Kit
    k = Kit(cx, fork)
    e = cx.choice("excess", at)
    out = k.run(k.m("vm.gas").calculate_blob_gas_price, k.U64(e))
    cx.check("computed", out == "ok", out)
    cx.check_eq("price", int(k.ret), price(fork, e))


def h_blobs(cx, fork):
    from oracle.kit import Kit
    from oracle.forks import ge
    from oracle import txs
    k = Kit(cx, fork)
    kind = cx.choice("kind", txs.kinds(fork))
    n = cx.choice("blobs", [0, 1, 2, 3, 6, 9])
    e = cx.choice("excess", [0, FRACTION[fork], 3 * FRACTION[fork]])
    tx = txs.make(k, kind, blob_versioned_hashes=tuple(cx.bytes32("h%d" % i) for i in range(n)))
    gas = n * 131072 if kind == "blob" else 0
    out = k.run(k.m("vm.gas").calculate_total_blob_gas, tx)
    cx.check("computed", out == "ok", out)
    cx.check_eq("blob gas", int(k.ret), gas)
    out = k.run(k.m("vm.gas").calculate_data_fee, k.U64(e), tx)
    cx.check("computed", out == "ok", out)
    cx.check_eq("fee", int(k.ret), gas * price(fork, e))


def h_limits(cx, fork):
    from oracle.kit import Kit
    from oracle import txs
    k = Kit(cx, fork)
    st = k.state()
    A = k.addr(0x5E)
    k.state_mod.set_account(st, A, k.account(4, 2**255))
    n = cx.choice("blobs", [0, 1, 2, 3, 5, 6, 7, 9, 10])
    used = cx.int("blobsused", 0, MAX[fork] // 131072) * 131072
    tx = txs.make(k, "blob", nonce=k.U64(4) if False else nonce(k, 4), to=k.addr(0x70), max_fee_per_gas=k.Uint(10), max_priority_fee_per_gas=k.Uint(1),
                  max_fee_per_blob_gas=k.U256(10), blob_versioned_hashes=tuple(k.Bytes32(b"\x01" + bytes([i]) * 31) for i in range(n)))
    cx.stub(k.m("fork"), "recover_sender", lambda *a: A)
    bo = k.vm.BlockOutput()
    bo.blob_gas_used = k.U64(used)
    out = k.run(k.m("fork").check_transaction, k.block_env(st, base_fee_per_gas=k.Uint(7)), bo, tx)
    ok = cx.and_(1 <= n, used + n * 131072 <= MAX[fork], n <= PER_TX[fork])
    if ok:
        cx.check("accepted", out == "ok", out)
        cx.check_eq("blob gas", int(k.ret[-1]), n * 131072)
    else:
        cx.check("rejected", txs.rejected(cx, out, k.exc), out)


def nonce(k, n):
    from props.c18 import type_of
    return type_of(k, "blob", "nonce")(n)
