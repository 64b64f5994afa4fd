"""C18: intrinsic gas and static validity."""

ENCODED = ["transactions.validate_transaction/calculate_intrinsic_cost", "vm.gas.init_code_cost"]
BOUNDS = ("every gas limit below 2^64, every nonce, call data of 0, 1, 3, 31-33, 64, 65 and 100 bytes of which up to three are symbolic (zero or "
          "not), creations and calls, five access-list shapes of up to three addresses and four slots, up to three authorizations; init code "
          "of 49151, 49152 and 49153 bytes")
ASSUMPTIONS = []


def jobs(tier):
    from oracle.forks import FORKS, ge
    from oracle.txs import kinds
    out = []
    for f in FORKS:
        for kd in kinds(f):
            for part in ("data", "limits", "lists"):
                if part == "lists" and kd == "legacy":
                    continue
                out.append({"harness": "h_valid", "params": {"fork": f, "kind": kd, "part": part, "deep": tier == "thorough"}, "weight": 2})
        for n in (49151, 49152, 49153):
            if ge(f, "spurious_dragon") and (tier == "thorough" or n > 49151):
                out.append({"harness": "h_long", "params": {"fork": f, "size": n}, "weight": 5})
    return out


def spec(cx, fork, kind, data, create, lists, auths):
    """(intrinsic, floor)"""
    from oracle.forks import ge
    nz = 16 if ge(fork, "istanbul") else 68
    cost = 21000
    tokens = 0
    for b in data:
        z = cx.eq(b, 0) if not isinstance(b, int) else b == 0
        cost = cost + cx.ite(z, 4, nz)
        tokens = tokens + cx.ite(z, 1, 4)
    if create:
        cost = cost + (32000 if ge(fork, "homestead") else 0)
        if ge(fork, "shanghai"):
            cost = cost + 2 * ((len(data) + 31) // 32)
    for n in lists:
        cost = cost + 2400 + 1900 * n
    cost = cost + 25000 * auths
    return cost, (21000 + 10 * tokens if ge(fork, "prague") else 0)


SHAPES = [(), (0,), (1,), (2, 1), (0, 3, 1)]


def h_valid(cx, fork, kind, part, deep):
    from oracle.kit import Kit
    from oracle.forks import ge
    from oracle import txs
    k = Kit(cx, fork)
    create = kind not in ("blob", "setcode") and (part != "lists" and cx.flag("create"))
    if part == "data":
        n = cx.choice("size", [0, 1, 3, 31, 32, 33, 64, 65, 100] + ([6, 8] if deep else []))
        m = min(n, 8 if deep and n < 20 else 3)
        data = cx.bytesn("data", m)
        data = data + (bytes([0, 1, 255]) * 40)[:n - m]
    else:
        data = cx.bytesn("data", 1) if part == "limits" else b"\x01\x00\x02"
    shape = cx.choice("shape", SHAPES) if part == "lists" else ()
    al = []
    for i, s in enumerate(shape):
        a = k.addr(5) if i == 2 else cx.address("a%d" % i)
        al.append(txs.access(k, a, [cx.bytes32("s%d_%d" % (i, j)) for j in range(s)]))
    nauth = 0
    if kind == "setcode":
        nauth = cx.choice("auths", [1, 2, 3, 0]) if part == "lists" else 1
    nonce = cx.int("nonce", 0, 2**64 - 1 if kind == "setcode" or kind == "blob" else 2**256 - 1) if part == "limits" else 5
    N = type_of(k, kind, "nonce")
    gas = cx.uint("gas", 2**64 - 1)
    tx = txs.make(k, kind, nonce=N(nonce), gas=gas, data=data, to=k.Bytes0(b"") if create else k.addr(0x70), access_list=tuple(al),
                  authorizations=tuple(txs.authorization(k) for _ in range(nauth)))
    out = k.run(k.m("transactions").validate_transaction, tx)
    want, floor = spec(cx, fork, kind, list(data), create, shape, nauth)
    need = cx.ite(want < floor, floor, want)
    ok = cx.and_(int(gas) >= need, nonce < 2**64 - 1, int(gas) <= 2**24 if ge(fork, "osaka") else True)
    if not ok:
        cx.check("rejected", txs.rejected(cx, out, k.exc), out)
        return
    cx.check("accepted", out == "ok", out)
    got = k.ret
    if ge(fork, "prague"):
        cx.check("two costs", len(got) == 2)
        cx.check("intrinsic gas", int(got[0]) == want)
        cx.check("floor", int(got[1]) == floor)
    else:
        cx.check("intrinsic gas", int(got) == want)
    cx.observe("cost", got if not isinstance(got, tuple) else got[0])


def type_of(k, kind, field):
    """integer type a field is decoded to"""
    from oracle import txs
    import dataclasses
    m = k.m("transactions")
    cls = (getattr(m, "LegacyTransaction", None) or m.Transaction) if kind == "legacy" else getattr(m, txs.CLASS[kind])
    for f in dataclasses.fields(cls):
        if f.name == field:
            t = f.type
            return t if not isinstance(t, str) else getattr(k.num, t)
    raise KeyError(field)


def h_long(cx, fork, size):
    from oracle.kit import Kit
    from oracle.forks import ge
    from oracle import txs
    k = Kit(cx, fork)
    create = cx.flag("create")
    data = bytes(size)
    gas = cx.uint("gas", 2**64 - 1, 0)
    kind = cx.choice("kind", [x for x in txs.kinds(fork) if x not in ("blob", "setcode")][-1:])
    tx = txs.make(k, kind, gas=gas, data=data, to=k.Bytes0(b"") if create else k.addr(0x70))
    out = k.run(k.m("transactions").validate_transaction, tx)
    nz = size * 4
    want = 21000 + nz + (32000 + (2 * ((size + 31) // 32) if ge(fork, "shanghai") else 0) if create else 0)
    floor = 21000 + 10 * size if ge(fork, "prague") else 0
    ok = cx.and_(int(gas) >= max(want, floor), not (create and ge(fork, "shanghai") and size > 49152),
                 int(gas) <= 2**24 if ge(fork, "osaka") else True)
    if not ok:
        cx.check("rejected", txs.rejected(cx, out, k.exc), out)
        return
    cx.check("accepted", out == "ok", out)
    cx.check("intrinsic gas", int(k.ret[0] if ge(fork, "prague") else k.ret) == want)
