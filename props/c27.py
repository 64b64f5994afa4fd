"""C27: ommers."""

ENCODED = ["fork.validate_ommers", "fork.validate_header", "fork.calculate_block_difficulty", "fork.check_gas_limit",
           "fork.calculate_base_fee_per_gas", "fork.pay_rewards", "state.create_ether/set_account"]
BOUNDS = ("h_one: chains of 1, 3 and 9 blocks, one ommer of any number, parent hash and own hash, built on any block or with a bad difficulty; h_two: "
          "two ommers of any hashes on two listed positions; h_count: 0 to 3 ommers, any commitment in the header; h_rewards: 0 to 2 ommers, ages 1 to 6, "
          "any coinbases (equal or not), any prior balances below 2^254")
ASSUMPTIONS = ["the hash of an ommer is an arbitrary 32-byte word, those of the chain's blocks are distinct, proof of work accepts (C32), the RLP "
               "encoding of headers is replaced by an injective stand-in (C24)"]

REWARD = {"frontier": 5, "byzantium": 3, "constantinople": 2}


def reward(fork):
    from oracle.forks import ge
    return (2 if ge(fork, "constantinople") else 3 if ge(fork, "byzantium") else 5) * 10**18


def jobs(tier):
    from oracle.forks import FORKS
    from oracle import headers
    out = []
    for f in FORKS:
        if not headers.pow_fork(f):
            continue
        for n in (1, 3, 9):
            out.append({"harness": "h_one", "params": {"fork": f, "blocks": n}, "weight": n})
        for a, b in ((1, 1), (1, 6), (5, 6)) + (((2, 3), (6, 6), (3, 1), (7, 1)) if tier != "quick" else ()):
            out.append({"harness": "h_two", "params": {"fork": f, "ages": [a, b]}, "weight": 2})
        out.append({"harness": "h_count", "params": {"fork": f}})
        out.append({"harness": "h_rewards", "params": {"fork": f}})
    return out


class Scene:
    """a chain whose blocks have known hashes, and ommers of any hash"""

    def __init__(self, cx, fork, blocks):
        from oracle.kit import Kit
        from oracle import headers
        self.cx, self.fork = cx, fork
        k = self.k = Kit(cx, fork)
        headers.no_work(cx, k)
        self.hashes = headers.Hashes(cx)
        self.table = []
        m = k.m("fork")
        real = m.keccak256

        def digest(b):
            for t, h in self.table:
                if bytes(t) == bytes(b):
                    return h
            return real(b)
        cx.stub(m, "keccak256", digest)
        first = headers.number(fork)
        self.first = first
        U = k.Uint
        self.heads, self.blocks, self.old = [], [], []
        for i in range(blocks):
            h = headers.header(cx, k, fork, number=U(first + i), timestamp=k.U256(1000 + 20 * i), difficulty=U(10**13 + i * 10**11), gas_limit=U(10**7),
                               gas_used=U(5 * 10**6), base_fee_per_gas=U(1000))
            om = ()
            if i in (blocks - 9, blocks - 8, blocks - 7, blocks - 1):
                o = headers.header(cx, k, fork, number=U(first + i - 1), extra_data=b"old %d" % i if False else b"old" + bytes([i]))
                self.old.append((i, o))
                om = (o,)
            self.heads.append(h)
            self.blocks.append(headers.block(cx, k, fork, h, ommers=om))
        self.chain = headers.chain(k, self.blocks)

    def hash(self, h):
        return self.cx.keccak(self.hashes.encoding(h))

    def free(self, h, name):
        """the hash of this header may be any word"""
        w = self.cx.bytes32(name)
        self.table.append((self.hashes.encoding(h), w))
        return w

    def good(self, at, **kw):
        """a header that may follow block number `at` of the chain"""
        from oracle import headers
        k, cx = self.k, self.cx
        p = self.heads[at]
        d = dict(number=k.Uint(self.first + at + 1), parent_hash=self.hash(p), timestamp=k.U256(int(p.timestamp) + 5), gas_limit=k.Uint(10**7),
                 base_fee_per_gas=k.Uint(1000), extra_data=b"")
        d["difficulty"] = k.Uint(headers.difficulty(cx, self.fork, headers.bomb(self.fork, self.first + at + 1), 5, 0, int(p.difficulty), False))
        d.update(kw)
        if self.fork == "dao_fork":
            d["extra_data"] = d["extra_data"]
        return headers.header(cx, k, self.fork, **d)

    def head(self, ommers, **kw):
        n = len(self.blocks)
        oh = self.cx.keccak(self.hashes.encoding(tuple(ommers)))
        return self.good(n - 1, ommers_hash=oh, **kw)

    def run(self, ommers, h):
        return self.k.run(self.k.m("fork").validate_ommers, tuple(ommers), h, self.chain)

    def known(self, w):
        """is w the hash of one of the last seven blocks, or of an ommer they include?"""
        cx = self.cx
        n = len(self.heads)
        lo = max(0, n - 7)
        return cx.or_(*[cx.eq(w, self.hash(h)) for h in self.heads[lo:]], *[cx.eq(w, self.hash(o)) for i, o in self.old if i >= lo])


def verdict(s, ok, out):
    from oracle import txs
    cx = s.cx
    if ok:
        cx.check("accepted", out == "ok", out)
    else:
        cx.check("rejected", txs.rejected(cx, out, s.k.exc), out)
    cx.observe("outcome", out == "ok")


def h_one(cx, fork, blocks):
    s = Scene(cx, fork, blocks)
    k = s.k
    at = cx.choice("on", list(range(blocks)))
    num = cx.uint("number", 2**64 - 1)
    par = cx.bytes32("parent")
    kw = {}
    bad = cx.flag("bad")
    o = s.good(at, number=num, parent_hash=par, **({"extra_data": bytes(33)} if bad else {}))
    w = s.free(o, "ommerhash")
    h = s.head([o])
    out = s.run([o], h)
    n = len(s.heads)
    me = s.first + n
    # a valid header: follows the block its parent hash names; built for block `at`, it fits no other
    ok = cx.and_(int(num) == s.first + at + 1, cx.eq(par, s.hash(s.heads[at])), not bad)
    age = n - at - 1            # me - (first + at + 1)
    ok = cx.and_(ok, 1 <= age <= 6, cx.not_(s.known(w)), cx.not_(cx.eq(w, s.hash(h))))
    verdict(s, ok, out)


def h_two(cx, fork, ages):
    s = Scene(cx, fork, 9)
    n = 9
    os = [s.good(n - 1 - a, timestamp=s.k.U256(int(s.heads[n - 1 - a].timestamp) + 5)) for a in ages]
    same = cx.flag("same")
    if same:
        os[1] = os[0]
    ws = [s.free(os[0], "h0")]
    ws.append(ws[0] if same else s.free(os[1], "h1"))
    h = s.head(os)
    out = s.run(os, h)
    ok = [cx.not_(cx.eq(ws[0], ws[1]))]
    for w in ws:
        ok += [cx.not_(s.known(w)), cx.not_(cx.eq(w, s.hash(h)))]
    ok.append(all(1 <= a <= 6 for a in ages))
    verdict(s, cx.and_(*ok), out)


def h_count(cx, fork):
    s = Scene(cx, fork, 9)
    n = cx.choice("ommers", [0, 1, 2, 3])
    os = [s.good(3 + i) for i in range(n)]
    for o in os:
        s.hash(o)
    said = cx.bytes32("commitment")
    h = s.good(8, ommers_hash=said)
    out = s.run(os, h)
    right = s.cx.keccak(s.hashes.encoding(tuple(os))) if os else bytes_of(cx, "1dcc4de8dec75d7aab85b567b6ccd41ad312451b948a7413f0a142fd40d49347")
    verdict(s, cx.and_(cx.eq(said, right), n <= 2), out)


def bytes_of(cx, x):
    return bytes.fromhex(x)


def h_rewards(cx, fork):
    from oracle.kit import Kit
    from oracle import headers
    k = Kit(cx, fork)
    sm = k.state_mod
    st = k.state()
    n = cx.choice("ommers", [0, 1, 2])
    num = headers.number(fork)
    who = [cx.address("coinbase")]
    ages, os = [], []
    for i in range(n):
        who.append(cx.address("ommer%d" % i))
        ages.append(cx.int("age%d" % i, 1, 6))
        os.append(headers.header(cx, k, fork, number=k.Uint(num - ages[i]), coinbase=who[-1]))
    other = k.addr(0x77)
    bals = {}
    R = reward(fork)
    had = cx.u256("before", 1, 2**253)
    sm.set_account(st, who[0], k.account(3, int(had)))
    sm.set_account(st, other, k.account(0, 9))
    first = [int(sm.get_account(st, a).balance) for a in who + [other]]
    out = k.run(k.m("fork").pay_rewards, st, k.Uint(num), who[0], tuple(os))
    cx.check("paid", out == "ok", out)
    pay = [(who[0], R + n * (R // 32))] + [(who[i + 1], (8 - ages[i]) * R // 8) for i in range(n)]
    for a, b in zip(who + [other], first):
        want = b
        for c, x in pay:
            want = want + cx.ite(cx.eq(a, c), x, 0)
        cx.check_eq("balance", int(sm.get_account(st, a).balance), want)
    cx.check_eq("nonce", int(sm.get_account(st, who[0]).nonce), cx.ite(cx.eq(who[0], other), 0, 3))
    cx.observe("coinbase", int(sm.get_account(st, who[0]).balance))
