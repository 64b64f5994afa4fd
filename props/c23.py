"""C23: gas limit and base fee."""

ENCODED = ["fork.validate_header", "fork.check_gas_limit", "fork.calculate_base_fee_per_gas"]
BOUNDS = ("every parent gas limit and limit below 2^63, parent gas used up to the parent's limit, base fees below 2^128; the other header fields "
          "are those of one valid header; in London both the fork block (whose parent is a Berlin header) and a later one")
ASSUMPTIONS = ["the parent is a valid block: its gas used is at most its gas limit and its gas limit is at least 5000 (h_header); proof of work "
               "accepts (C32), the RLP encoding of a header is an injective function of it (C24 h_parent)"]


def jobs(tier):
    from oracle.forks import FORKS
    out = []
    for f in FORKS:
        out.append({"harness": "h_limit", "params": {"fork": f}})
        out.append({"harness": "h_header", "params": {"fork": f, "first": False}})
        if f == "london":
            out.append({"harness": "h_header", "params": {"fork": f, "first": True}})
    return out


def h_limit(cx, fork):
    from oracle.kit import Kit
    from oracle import headers
    k = Kit(cx, fork)
    limit, parent = cx.uint("limit"), cx.uint("parent")
    out = k.run(k.m("fork").check_gas_limit, limit, parent)
    cx.check("answers", out == "ok", out)
    cx.check_eq("verdict", k.ret, headers.gas_limit_ok(cx, int(limit), int(parent)))
    cx.observe("verdict", k.ret)


def h_header(cx, fork, first):
    from oracle.kit import Kit
    from oracle.forks import ge
    from oracle import headers, txs
    k = Kit(cx, fork)
    U = k.Uint
    hashes = headers.Hashes(cx)
    headers.no_work(cx, k)
    num = headers.START["london"] if first else headers.number(fork)
    pfork = "berlin" if first else fork
    # parent limit, and usage as a distance from the target
    half, odd = cx.int("target", 2500, 2**62 - 1), cx.int("odd", 0, 1)
    plimit = 2 * half + odd
    where = cx.choice("usage", ["above", "at", "below"])
    off = cx.int("distance", 1, 2**62) if where != "at" else 0
    cx.assume(off <= half + odd if where == "above" else off <= half)
    used = half + off if where == "above" else half - off
    pfee = cx.uint("parentfee", 2**128 - 1)
    limit, fee = cx.uint("limit", 2**63 - 1), cx.uint("fee", 2**129 - 1)
    lim = 2 * plimit if first else plimit
    parent = headers.header(cx, k, pfork, number=U(num - 1), gas_limit=U(plimit), gas_used=U(used), base_fee_per_gas=pfee, timestamp=k.U256(1000))
    kw = {}
    if headers.pow_fork(fork):
        kw["difficulty"] = U(headers.difficulty(cx, fork, headers.bomb(fork, num), 1011, 1000, 10**12, False))
    h = headers.header(cx, k, fork, number=U(num), gas_limit=limit, gas_used=U(0), base_fee_per_gas=fee, timestamp=k.U256(1011),
                       parent_hash=hashes.hash(parent), **kw)
    ch = headers.chain(k, [headers.block(cx, k, pfork, parent)])
    out = k.run(k.m("fork").validate_header, ch, h)
    good = headers.gas_limit_ok(cx, int(limit), lim)
    if ge(fork, "london") and good:
        want = 10**9 if first else headers.base_fee(cx, plimit, used, int(pfee))
        good = int(fee) == want
    if good:
        cx.check("accepted", out == "ok", out)
    else:
        cx.check("rejected", txs.rejected(cx, out, k.exc), out)
    cx.observe("outcome", out == "ok")
