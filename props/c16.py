"""C16: nested state transactions."""

ENCODED = ["state.begin_transaction/commit_transaction/rollback_transaction", "state.set_account/get_account/set_storage/get_storage/"
           "destroy_account/destroy_storage/set_account_balance/increment_nonce/set_code/move_ether/mark_account_created/"
           "get_storage_original/get_transient_storage/set_transient_storage", "trie.trie_set/trie_get/copy_trie"]
BOUNDS = ("two nested transactions with one write each (thorough: three writes, two inner transactions in sequence), every kind of write, two "
          "accounts, every storage key and value, observed at both accounts and every key; the state before has one account with one slot")
ASSUMPTIONS = ["storage is written only for existing accounts (asserted by the code)"]


def kinds(fork):
    from oracle.forks import ge
    k = ["slot", "account", "drop", "wipe", "balance", "nonce", "code", "move"]
    if ge(fork, "cancun"):
        k.append("tslot")
    return k


def jobs(tier):
    from oracle.forks import FORKS, since
    out = []
    for f in FORKS:
        for fam in ("accounts", "storage") + (("all",) if tier == "thorough" else ()):
            out.append({"harness": "h_nest", "params": {"fork": f, "family": fam}, "weight": 6})
        if tier == "thorough":
            for a in kinds(f):
                out.append({"harness": "h_two", "params": {"fork": f, "first": a}, "weight": 20, "seconds": 600, "max_paths": 60000})
    out += [{"harness": "h_original", "params": {"fork": f, "part": p}, "weight": 3} for f in since("istanbul")
            for p in ("earlier", "nested") + (("all",) if tier == "thorough" else ())]
    return out


class World:
    """the real state next to its meaning"""

    def __init__(self, cx, fork):
        from oracle.kit import Kit
        k = self.k = Kit(cx, fork)
        self.cx = cx
        self.s = k.state_mod
        self.st = k.state()
        self.tenv = k.tx_env()
        self.A, self.B = k.addr(0xAA), k.addr(0xBB)
        self.acct = {"A": k.types.Account(nonce=k.Uint(cx.int("n", 1, 2**60)), balance=cx.u256("b", 1, 2**250), code=cx.bytesn("c", 1)),
                     "B": None}
        self.store = {"A": [(cx.bytes32("k"), cx.u256("v", 1))], "B": []}
        self.trans = {"A": [], "B": []}
        self.store0 = self.store["A"][0][0]
        self.s.set_account(self.st, self.A, self.acct["A"])
        self.s.set_storage(self.st, self.A, *self.store["A"][0])
        if hasattr(self.s, "TransientStorage"):
            self.trans["A"] = [(cx.bytes32("tk"), cx.u256("tv", 1))]
            self.s.set_transient_storage(self.tenv.transient_storage, self.A, *self.trans["A"][0])
        self.stack = []

    def who(self, n):
        return self.A if n == "A" else self.B

    def copy(self):
        return dict(self.acct), {n: list(l) for n, l in self.store.items()}, {n: list(l) for n, l in self.trans.items()}

    def begin(self):
        self.stack.append(self.copy())
        self.k.begin(self.st, self.tenv)

    def end(self, commit):
        old = self.stack.pop()
        if commit:
            self.k.commit(self.st, self.tenv)
        else:
            self.k.rollback(self.st, self.tenv)
            self.acct, self.store, self.trans = old

    def write(self, kind, n, i):
        cx, k, s, st = self.cx, self.k, self.s, self.st
        a = self.who(n)
        cur = self.acct[n]
        if kind == "slot":
            if cur is None:
                cx.reject()
            key, v = cx.bytes32("key%d" % i), cx.u256("val%d" % i)
            s.set_storage(st, a, key, v)
            self.store[n].append((key, v))
        elif kind == "tslot":
            key, v = cx.bytes32("tkey%d" % i), cx.u256("tval%d" % i)
            s.set_transient_storage(self.tenv.transient_storage, a, key, v)
            self.trans[n].append((key, v))
        elif kind == "account":
            new = k.types.Account(nonce=k.Uint(cx.int("nonce%d" % i, 1, 2**60)), balance=cx.u256("bal%d" % i, 1, 2**250),
                                  code=cx.bytesn("code%d" % i, 2))
            s.set_account(st, a, new)
            self.acct[n] = new
        elif kind == "drop":
            s.destroy_account(st, a)
            self.acct[n] = None
            self.store[n] = []
        elif kind == "wipe":
            s.destroy_storage(st, a)
            self.store[n] = []
        else:
            base = cur if cur is not None else k.types.Account(nonce=k.Uint(0), balance=k.U256(0), code=b"")
            nonce, bal, code = base.nonce, base.balance, base.code
            if kind == "balance":
                bal = cx.u256("bal%d" % i, 1, 2**250)
                s.set_account_balance(st, a, bal)
            elif kind == "nonce":
                s.increment_nonce(st, a)
                nonce = k.Uint(int(nonce) + 1)
            elif kind == "code":
                code = cx.bytesn("code%d" % i, 2)
                s.set_code(st, a, code)
            elif kind == "move":
                m = "B" if n == "A" else "A"
                src = self.acct[n]
                if src is None:
                    cx.reject()
                amount = cx.u256("amount%d" % i, 1, 2**250)
                cx.assume(int(amount) <= int(src.balance))
                s.move_ether(st, a, self.who(m), amount)
                o = self.acct[m]
                o = o if o is not None else k.types.Account(nonce=k.Uint(0), balance=k.U256(0), code=b"")
                self.acct[m] = k.types.Account(nonce=o.nonce, balance=k.U256(int(o.balance) + int(amount)), code=o.code)
                bal = k.U256(int(bal) - int(amount))
            # an account left without nonce, balance and code exists only before Paris; avoided here (C17)
            cx.assume(cx.not_(cx.and_(int(nonce) == 0, int(bal) == 0, len(code) == 0)))
            self.acct[n] = k.types.Account(nonce=nonce, balance=bal, code=code)

    def last(self, writes, key):
        v = 0
        for q, x in writes:
            v = self.cx.ite(self.cx.eq(q, key), int(x), v)
        return v

    def agrees(self, label, key):
        cx, s, st = self.cx, self.s, self.st
        for n in ("A", "B"):
            a = self.who(n)
            want = self.acct[n]
            cx.check(label + " existence " + n, bool(s.account_exists(st, a)) == (want is not None))
            got = s.get_account(st, a)
            if want is None:
                want = self.k.types.Account(nonce=self.k.Uint(0), balance=self.k.U256(0), code=b"")
            cx.check_eq(label + " account " + n, got, want)
            cx.check(label + " slot " + n, int(s.get_storage(st, a, key)) == self.last(self.store[n], key))
            if hasattr(s, "TransientStorage"):
                cx.check(label + " transient slot " + n,
                         int(s.get_transient_storage(self.tenv.transient_storage, a, key)) == self.last(self.trans[n], key))


def h_nest(cx, fork, family):
    w = World(cx, fork)
    stores = ["slot", "drop", "wipe", "tslot"]
    ks = [x for x in kinds(fork) if family == "all" or (x in stores if family == "storage" else x not in stores or x == "drop")]
    w.begin()
    w.write(cx.choice("kind0", ks), cx.choice("at0", ["A", "B"]), 0)
    w.begin()
    w.write(cx.choice("kind1", ks), cx.choice("at1", ["A", "B"] if family == "all" else ["A"]), 1)
    key = w.store0 if family == "accounts" else cx.bytes32("seen")
    w.end(cx.flag("commit1"))
    w.agrees("inner", key)
    w.end(cx.flag("commit0"))
    w.agrees("outer", key)


def h_two(cx, fork, first):
    w = World(cx, fork)
    w.begin()
    w.write(first, cx.choice("at0", ["A", "B"]), 0)
    key = cx.bytes32("seen")
    for i in (1, 2):
        w.begin()
        w.write(cx.choice("kind%d" % i, kinds(fork)), "A", i)
        w.end(cx.flag("commit%d" % i))
        w.agrees("inner %d" % i, key)
    w.end(cx.flag("commit0"))
    w.agrees("outer", key)


def h_original(cx, fork, part):
    """storage values at the start of the transaction"""
    w = World(cx, fork)
    cx_, s, st, k = cx, w.s, w.st, w.k
    at_start = w.copy()[1]
    key = cx.bytes32("seen")
    if part == "earlier" or part == "all" and cx.flag("earlier"):
        # an earlier transaction of the block is over: its writes and its creations count as the start
        w.begin()
        s.mark_account_created(st, w.A)
        w.write("slot", "A", 5)
        w.end(cx.flag("commit5"))
        at_start = w.copy()[1]
    w.begin()
    made = "no" if part == "earlier" else cx.choice("made", ["no", "outer", "inner"])
    if made == "outer":
        s.mark_account_created(st, w.A)

    def look(label):
        want = 0 if marked else w.last(at_start["A"], key)
        cx.check("original value " + label, int(s.get_storage_original(st, w.A, key)) == want)
        cx.check("original value of the other", int(s.get_storage_original(st, w.B, key)) == 0)
    marked = made == "outer"
    look("before")
    w.write(cx.choice("kind0", ["slot", "wipe"] if part == "all" else ["slot"]), "A", 0)
    look("after a write")
    if part == "earlier":
        w.end(cx.flag("commit0"))
        return
    w.begin()
    if made == "inner":
        s.mark_account_created(st, w.A)
        marked = True
    w.write(cx.choice("kind1", ["slot", "wipe"]), "A", 1)
    look("in a nested transaction")
    w.end(cx.flag("commit1"))
    look("after the nested transaction")
    w.end(cx.flag("commit0"))
    # the next transaction starts from what is there now
    now = w.copy()[1]
    w.begin()
    cx.check("original value in the next transaction", int(s.get_storage_original(st, w.A, key)) == w.last(now["A"], key))
    cx.check("nothing marked created", len(st.created_accounts) == 0)
