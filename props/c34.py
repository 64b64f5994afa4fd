"""C34: when forks activate, and the DAO fork's irregular state change."""

ENCODED = ["fork_criteria.ByBlockNumber/ByTimestamp/Unscheduled: check and comparison", "<fork>.FORK_CRITERIA", "fork.apply_fork", "dao_fork.dao.apply_dao",
           "state.move_ether/modify_state/get_account/set_account"]
BOUNDS = ("activation points, block numbers and timestamps: every value below 2^256 (2^64 in the ordering of three); DAO: all 116 accounts with every "
          "balance below 2^200, each present or (4 chosen ones) absent, nonce below 2^64, the refund contract present or absent; other forks: one account, "
          "one block")
ASSUMPTIONS = ["mainnet's activation points and the list of drained accounts are those of EIP-779 and of the execution-specs' table of forks"]

SCHEDULE = [
    ("frontier", 0, 0), ("homestead", 0, 1150000), ("dao_fork", 0, 1920000), ("tangerine_whistle", 0, 2463000), ("spurious_dragon", 0, 2675000),
    ("byzantium", 0, 4370000), ("constantinople", 0, 7280000), ("istanbul", 0, 9069000), ("muir_glacier", 0, 9200000), ("berlin", 0, 12244000),
    ("london", 0, 12965000), ("arrow_glacier", 0, 13773000), ("gray_glacier", 0, 15050000), ("paris", 0, 15537394), ("shanghai", 1, 1681338455),
    ("cancun", 1, 1710338135), ("prague", 1, 1746612311), ("osaka", 2, 0),
]


def jobs(tier):
    q = tier == "quick"
    z = {"fork": "frontier"}
    out = []
    for k in range(3):
        out.append({"harness": "h_check", "params": dict(z, kind=k)})
        for j in range(3):
            out.append({"harness": "h_order", "params": dict(z, kinds=[k, j])})
            for i in range(3):
                out.append({"harness": "h_total", "params": dict(z, kinds=[k, j, i])})
    for f, _, _ in SCHEDULE:
        out.append({"harness": "h_schedule", "params": {"fork": f}})
        if f != "dao_fork":
            out.append({"harness": "h_apply", "params": {"fork": f}})
    out.append({"harness": "h_dao", "params": {"fork": "dao_fork", "absent": []}, "weight": 5})
    out.append({"harness": "h_dao", "params": {"fork": "dao_fork", "absent": [0, 1, 60, 115]}, "weight": 5})
    out.append({"harness": "h_dao", "params": {"fork": "dao_fork", "absent": [], "recovery": False}, "weight": 5})
    return out


def make(cx, kind, value):
    m = cx.load("ethereum.fork_criteria")
    return (lambda v: m.ByBlockNumber(v), lambda v: m.ByTimestamp(v), lambda v: m.Unscheduled())[kind](value)


def active(kind, value, number, time):
    return (number >= value, time >= value, False)[kind]


def h_check(cx, fork, kind):
    at, number, time = cx.u256("at"), cx.uint("number"), cx.u256("time")
    c = make(cx, kind, at)
    cx.check("active exactly from its activation point", bool(c.check(number, time)) == active(kind, int(at), int(number), int(time)))


def before(a, b):
    """(kind, value) pairs: block numbers, then times, then the unscheduled"""
    if a[0] != b[0]:
        return a[0] < b[0]
    return a[0] != 2 and a[1] < b[1]


def h_order(cx, fork, kinds):
    a, b = (kinds[0], cx.u256("a")), (kinds[1], cx.u256("b"))
    x, y = make(cx, *a), make(cx, *b)
    a, b = (a[0], int(a[1])), (b[0], int(b[1]))
    lt, gt = before(a, b), before(b, a)
    cx.check("less", bool(x < y) == lt)
    cx.check("greater", bool(x > y) == gt)
    cx.check("at most", bool(x <= y) == (not gt))
    cx.check("at least", bool(x >= y) == (not lt))
    cx.check("equal", bool(x == y) == (not lt and not gt))
    cx.check("different", bool(x != y) == (lt or gt))


def h_total(cx, fork, kinds):
    vs = [(k, cx.u64("v%d" % i)) for i, k in enumerate(kinds)]
    cs = sorted([make(cx, *v) for v in vs])
    cx.check("sorted", all(bool(cs[i] <= cs[j]) for i in range(3) for j in range(i, 3)))
    cx.check("a permutation", all(any(c == make(cx, *v) for c in cs) for v in vs))


def h_schedule(cx, fork):
    m = cx.load("ethereum.%s" % fork)
    kind, at = {f: (k, v) for f, k, v in SCHEDULE}[fork]
    number, time = cx.uint("number"), cx.u256("time")
    cx.check("active exactly when scheduled", bool(m.FORK_CRITERIA.check(number, time)) == active(kind, at, int(number), int(time)))
    names = [f for f, _, _ in SCHEDULE]
    for f in names[:names.index(fork)]:
        cx.check("after " + f, cx.load("ethereum.%s" % f).FORK_CRITERIA < m.FORK_CRITERIA)


def account(cx, k, name, lo=1, bits=200):
    return k.account(nonce=cx.u64(name + "_nonce"), balance=cx.u256(name + "_balance", lo, 2**bits), code=name.encode())


def same_account(cx, label, got, want, balance=None):
    cx.check(label + ": nonce", got.nonce == want.nonce)
    cx.check(label + ": balance", int(got.balance) == (int(want.balance) if balance is None else balance))
    cx.check(label + ": code", got.code == want.code)


def chain_of(cx, k, st, blocks, chain_id):
    return k.m("fork").BlockChain(blocks=blocks, state=st, chain_id=chain_id)


def h_apply(cx, fork):
    from oracle.kit import Kit
    k = Kit(cx, fork)
    st = k.state()
    who = k.addr(0xE1)
    a = account(cx, k, "someone", 0)
    k.state_mod.set_account(st, who, a)
    v = cx.u256("value", lo=1)
    k.state_mod.set_storage(st, who, k.Bytes32(bytes(32)), v)
    mark = object()
    cid = cx.u64("chain")
    new = k.m("fork").apply_fork(chain_of(cx, k, st, [mark], cid))
    cx.check("blocks kept", len(new.blocks) == 1 and new.blocks[0] is mark)
    cx.check("chain id kept", new.chain_id == cid)
    same_account(cx, "account kept", k.state_mod.get_account(new.state, who), a)
    cx.check_eq("storage kept", k.state_mod.get_storage(new.state, who, k.Bytes32(bytes(32))), v)
    cx.check("no other account", len(new.state._main_trie._data) == 1)


def h_dao(cx, fork, absent, recovery=True):
    from oracle.kit import Kit
    from oracle import dao
    k = Kit(cx, fork)
    S = k.state_mod
    st = k.state()
    rec = k.Bytes20(bytes.fromhex(dao.RECOVERY))
    drained = [k.Bytes20(bytes.fromhex(a)) for a in dao.DRAINED]
    accounts = {}
    for i, a in enumerate(drained):
        if i not in absent:
            accounts[i] = account(cx, k, "dao%d" % i, 0)
            S.set_account(st, a, accounts[i])
    r = account(cx, k, "recovery", 0) if recovery else None
    if r is not None:
        S.set_account(st, rec, r)
    other = k.addr(0xE1)
    o = account(cx, k, "other", 0)
    S.set_account(st, other, o)
    v = cx.u256("value", lo=1)
    S.set_storage(st, other, k.Bytes32(bytes(32)), v)
    if 2 in accounts:
        S.set_storage(st, drained[2], k.Bytes32(bytes(32)), v)
    mark = object()
    cid = cx.u64("chain")
    new = k.m("fork").apply_fork(chain_of(cx, k, st, [mark], cid))
    st = new.state
    total = int(r.balance) if r is not None else 0
    for i, a in accounts.items():
        same_account(cx, "drained", S.get_account(st, drained[i]), a, 0)
        total += int(a.balance)
    for i in absent:
        g = S.get_account(st, drained[i])
        cx.check("absent account stays empty", cx.and_(g.nonce == 0, g.balance == 0, g.code == b""))
    same_account(cx, "refund contract", S.get_account(st, rec), r if r is not None else k.account(), total)
    same_account(cx, "bystander", S.get_account(st, other), o)
    cx.check_eq("bystander's storage", S.get_storage(st, other, k.Bytes32(bytes(32))), v)
    if 2 in accounts:
        cx.check_eq("drained account's storage", S.get_storage(st, drained[2], k.Bytes32(bytes(32))), v)
    cx.check("no other account", len(st._main_trie._data) <= 118)
    cx.check("blocks and chain id kept", cx.and_(len(new.blocks) == 1 and new.blocks[0] is mark, new.chain_id == cid))
