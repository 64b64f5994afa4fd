"""C33: precompiled contracts."""

ENCODED = ["vm.precompiled_contracts.mapping.PRE_COMPILED_CONTRACTS", "vm.precompiled_contracts.ecrecover/sha256/ripemd160/identity/modexp/alt_bn128/"
           "blake2f/point_evaluation/p256verify/bls12_381", "vm.memory.buffer_read", "vm.gas.charge_gas", "crypto.blake2", "crypto.kzg",
           "crypto.elliptic_curve.is_on_curve_secp256r1/secp256r1_verify"]
BOUNDS = ("hashes, identity, ecrecover, gas of every contract: every input of every length below 2^32 and every gas (modexp gas: every length word and "
          "exponent head, input below 2^32 bytes); modexp result: lengths 0-33 in listed combinations, inputs cut at listed lengths; bn128 and BLS: 0-2 points of any content; blake2: any 213 "
          "bytes, 0-2 rounds (thorough 12); point evaluation, p256: every input of the right length, every other length")
ASSUMPTIONS = ["elliptic-curve group operations, curve membership, pairings and map-to-curve (py_ecc), secp256r1 signature verification and secp256k1 "
               "recovery are arbitrary functions of their arguments; modular exponentiation is a function of its three arguments"]

BN_P = 21888242871839275222246405745257275088696311157297823662689037894645226208583
BN_N = 21888242871839275222246405745257275088548364400416034343698204186575808495617
BLS_P = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
BLS_N = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
K1_N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
R1_N = 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551
R1_P = 0xFFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF
R1_B = 0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B
G1_DISCOUNT = [
    1000, 949, 848, 797, 764, 750, 738, 728, 719, 712, 705, 698, 692, 687, 682, 677, 673, 669, 665, 661, 658, 654, 651, 648, 645, 642, 640, 637,
    635, 632, 630, 627, 625, 623, 621, 619, 617, 615, 613, 611, 609, 608, 606, 604, 603, 601, 599, 598, 596, 595, 593, 592, 591, 589, 588, 586,
    585, 584, 582, 581, 580, 579, 577, 576, 575, 574, 573, 572, 570, 569, 568, 567, 566, 565, 564, 563, 562, 561, 560, 559, 558, 557, 556, 555,
    554, 553, 552, 551, 550, 549, 548, 547, 547, 546, 545, 544, 543, 542, 541, 540, 540, 539, 538, 537, 536, 536, 535, 534, 533, 532, 532, 531,
    530, 529, 528, 528, 527, 526, 525, 525, 524, 523, 522, 522, 521, 520, 520, 519]
G2_DISCOUNT = [
    1000, 1000, 923, 884, 855, 832, 812, 796, 782, 770, 759, 749, 740, 732, 724, 717, 711, 704, 699, 693, 688, 683, 679, 674, 670, 666, 663, 659,
    655, 652, 649, 646, 643, 640, 637, 634, 632, 629, 627, 624, 622, 620, 618, 615, 613, 611, 609, 607, 606, 604, 602, 600, 598, 597, 595, 593,
    592, 590, 589, 587, 586, 584, 583, 582, 580, 579, 578, 576, 575, 574, 573, 571, 570, 569, 568, 567, 566, 565, 563, 562, 561, 560, 559, 558,
    557, 556, 555, 554, 553, 552, 552, 551, 550, 549, 548, 547, 546, 545, 545, 544, 543, 542, 541, 541, 540, 539, 538, 537, 537, 536, 535, 535,
    534, 533, 532, 532, 531, 530, 530, 529, 528, 528, 527, 526, 526, 525, 524, 524]


def table(fork):
    from oracle.forks import ge
    t = [1, 2, 3, 4]
    if ge(fork, "byzantium"):
        t += [5, 6, 7, 8]
    if ge(fork, "istanbul"):
        t += [9]
    if ge(fork, "cancun"):
        t += [10]
    if ge(fork, "prague"):
        t += [11, 12, 13, 14, 15, 16, 17]
    if ge(fork, "osaka"):
        t += [0x100]
    return t


def jobs(tier):
    from oracle.forks import FORKS, ge
    q = tier == "quick"
    out = []
    for f in FORKS:
        def job(h, w=1, **kw):
            out.append({"harness": h, "params": dict(fork=f, **kw), "weight": w})
        job("h_table")
        for which in ("sha256", "ripemd160", "identity"):
            job("h_simple", which=which)
        job("h_ecrecover")
        t = table(f)
        if 5 in t:
            job("h_modexp_gas", 3, part="lengths")
            job("h_modexp_gas", 8, part=[0, 1, 40])
            if not q:
                job("h_modexp_gas", 80, part="any")
            for b, e, m in LENGTHS + ([] if q else MORE_LENGTHS):
                job("h_modexp", 2, lens=[b, e, m], cut=None)
            for cut in ((0, 31, 64, 95, 96, 97, 98, 99, 100) if q else range(0, 102)):
                job("h_modexp", 1, lens=[1, 2, 3], cut=cut)
            job("h_bn_add", 3)
            job("h_bn_mul", 2)
            job("h_bn_pairing", 3, n=1)
            job("h_bn_pairing", 1, n=0)
            job("h_bn_pairing_gas")
            if not q:
                job("h_bn_pairing", 30, n=2)
            elif f in ("byzantium", "osaka"):
                job("h_bn_pairing", 9, n=2, first="good")
        if 9 in t:
            job("h_blake2f", 1, length=213)
            job("h_blake2f", 1, length=None)
        if 10 in t:
            job("h_point", 1)
            job("h_point", 1, hashed=True)
            job("h_point_length")
        if 11 in t:
            for g in (1, 2):
                job("h_bls_add", 6, group=g)
                job("h_bls_msm_gas", 9, group=g)
                job("h_bls_msm", 3, group=g, n=1)
                job("h_bls_map", 1, group=g)
                if not q:
                    job("h_bls_msm", 30, group=g, n=2)
            job("h_bls_msm", 9, group=1, n=2)
            job("h_bls_msm", 9, group=2, n=2, first="good")
            job("h_bls_pairing", 9, n=2, first="good")
            job("h_bls_pairing_gas")
            job("h_bls_pairing", 6, n=1)
            if not q:
                job("h_bls_pairing", 60, n=2)
        if 0x100 in t:
            job("h_p256", 2)
            job("h_p256_length")
    z = {"fork": "osaka"}
    for r in (0, 1, 2) if q else (0, 1, 2, 3, 12):
        out.append({"harness": "h_compress", "params": dict(z, rounds=r), "weight": 3 * r + 1})
    out.append({"harness": "h_sigma", "params": dict(z, rounds=12), "weight": 3})
    out.append({"harness": "h_kzg", "params": dict(z), "weight": 2})
    out.append({"harness": "h_r1_curve", "params": dict(z)})
    out.append({"harness": "h_r1_verify", "params": dict(z)})
    return out


LENGTHS = [(0, 0, 0), (0, 1, 0), (1, 0, 0), (0, 0, 1), (0, 1, 1), (1, 0, 1), (1, 1, 1), (2, 3, 4), (32, 32, 32), (33, 1, 2), (1, 33, 31), (0, 33, 33)]
MORE_LENGTHS = [(b, e, m) for b in (0, 1, 31, 64, 65) for e in (0, 1, 32, 65) for m in (0, 1, 33, 96)]


# -- frames ----------------------------------------------------------------

class Stop(Exception):
    pass


def kit(cx, fork):
    from oracle.kit import Kit
    return Kit(cx, fork)


def contract(k, n):
    m = k.m("vm.precompiled_contracts.mapping")
    return m.PRE_COMPILED_CONTRACTS[k.addr(n)]


def where(k, name):
    return k.m("vm.precompiled_contracts." + name)


def frame(k, data, gas):
    evm = k.evm(message=k.message(data=data), gas_left=gas)
    k.before = k.snap(evm)
    return evm


def finish(k, label, out, evm, gas, cost, output):
    """the contract charged `cost` and returned `output`, or ran out of gas"""
    cx = k.cx
    enough = int(gas) >= cost
    if out != "ok":
        cx.check(label + ": fails only out of gas", cx.and_(out == "halt", cx.not_(enough)))
        return
    cx.check(label + ": enough gas", enough)
    cx.check_eq(label + ": gas left", int(evm.gas_left), int(gas) - cost)
    if output is not None:
        cx.check_eq(label + ": output", evm.output, output)
    k.unchanged(label, evm, k.before, ("gas_left", "output"))


def fails(k, label, out):
    k.cx.check(label + ": fails", out == "halt")


def byte(cx, data, i):
    return cx.at0(data, i)


def word(cx, data, i, n=32):
    """big-endian integer in the n bytes at i, zero-padded"""
    v = 0
    for j in range(n):
        v = v * 256 + byte(cx, data, i + j)
    return v


def words(cx, n, name="word"):
    """n bytes made of independent words"""
    b = cx.B(b"")
    i = 0
    while n:
        w = min(n, 32)
        b = b + cx.bytesn("%s%d" % (name, i), w)
        n -= w
        i += 1
    return b


def any_gas(cx):
    return cx.uint("gas", 2**64 - 1)


def h_table(cx, fork):
    k = kit(cx, fork)
    t = k.m("vm.precompiled_contracts.mapping").PRE_COMPILED_CONTRACTS
    want = table(fork)
    cx.check("number of contracts", len(t) == len(want))
    for n in want:
        cx.check("contract at %d" % n, k.addr(n) in t)


def h_simple(cx, fork, which):
    k = kit(cx, fork)
    data = cx.buf("data", 2**32)
    gas = any_gas(cx)
    n, base, per = {"sha256": (2, 60, 12), "ripemd160": (3, 600, 120), "identity": (4, 15, 3)}[which]
    evm = frame(k, data, gas)
    out = k.run(contract(k, n), evm)
    cost = base + per * ((len_(cx, data) + 31) // 32)
    if out != "ok":
        finish(k, which, out, evm, gas, cost, None)
        return
    if which == "identity":
        want = data
    elif which == "sha256":
        want = cx.hash("sha256", data)
    else:
        want = cx.B(bytes(12)) + cx.hash("ripemd160", data)
    finish(k, which, out, evm, gas, cost, want)


def len_(cx, b):
    if cx.symbolic:
        return cx.V.slen(b)
    return len(b)


def h_ecrecover(cx, fork):
    k = kit(cx, fork)
    m = where(k, "ecrecover")
    data = cx.buf("data", 2**32)
    gas = any_gas(cx)
    bad = cx.load("ethereum.exceptions").InvalidSignatureError

    def key(r, s, v, h):
        a = (int(r), int(s), int(v), h)
        return int.from_bytes(cx.opaque("unrecoverable", 1, *a), "big"), cx.opaque("key", 64, *a)

    def recover(r, s, v, h):
        failed, pk = key(r, s, v, h)
        if failed >= 128:
            raise bad("x")
        return pk
    if hasattr(m, "secp256k1_recover"):
        cx.stub(m, "secp256k1_recover", recover)
    evm = frame(k, data, gas)
    out = k.run(contract(k, 1), evm)
    if out != "ok":
        finish(k, "ecrecover", out, evm, gas, 3000, None)
        return
    h = cx.B(b"")
    for i in range(32):
        h = h + cx.bytes_of(1, lambda j, i=i: byte(cx, data, i))
    v, r, s = word(cx, data, 32), word(cx, data, 64), word(cx, data, 96)
    empty = b""
    if not (v == 27 or v == 28) or not (0 < r and r < K1_N) or not (0 < s and s < K1_N):
        finish(k, "ecrecover malformed", out, evm, gas, 3000, empty)
        return
    failed, pk = key(r, s, v - 27, h)
    if failed >= 128:
        finish(k, "ecrecover unrecoverable", out, evm, gas, 3000, empty)
        return
    finish(k, "ecrecover", out, evm, gas, 3000, cx.B(bytes(12)) + cx.keccak(pk)[12:])


# -- modexp ----------------------------------------------------------------

def modexp_cost(cx, fork, b, e, m, head):
    """b, e, m lengths; head integer in the first min(32, e) bytes of the exponent"""
    from oracle.forks import ge
    n = m if m > b else b
    bits = head.bit_length()
    it = bits - 1 if bits > 0 else 0
    if e > 32:
        it = it + (16 if ge(fork, "osaka") else 8) * (e - 32)
    it = 1 if 1 > it else it
    words_ = (n + 7) // 8
    if ge(fork, "osaka"):
        c = (2 * words_ * words_ if n > 32 else 16) * it
        return c if c > 500 else 500
    if ge(fork, "berlin"):
        c = words_ * words_ * it // 3
        return c if c > 200 else 200
    if n <= 64:
        return n * n * it // 20
    if n <= 1024:
        return (n * n // 4 + 96 * n - 3072) * it // 20
    return (n * n // 16 + 480 * n - 199680) * it // 20


def probe(cx, m, k):
    """stop the contract once it has paid; what it paid"""
    paid = []
    real = m.charge_gas

    def charge(evm, amount):
        real(evm, amount)
        paid.append(amount)
        raise Stop()
    cx.stub(m, "charge_gas", charge)
    return paid


def h_modexp_gas(cx, fork, part):
    from oracle.forks import ge
    k = kit(cx, fork)
    m = where(k, "modexp")
    b, n = cx.u256("base_length"), cx.u256("modulus_length")
    size = cx.choice("size", list(range(33)) if part == "any" else SIZES) if part != "lengths" else 32
    if part == "lengths":
        e = k.U256(cx.choice("exponent", [0, 33, 100, 2**40, 2**255]))
    else:
        e = cx.u256("exponent_length", 32) if size == 32 else k.U256(size)
    if part == "lengths":
        rest = cx.B(b"")
    elif part == "any":
        rest = cx.buf("rest", 2**32)
    else:
        at = cx.choice("base", part)
        rest = cx.B(bytes(at)) + words(cx, 40)
        b = k.U256(at)
        n = k.U256(cx.choice("modulus", [0, 1, 5, 33, 70, 2000]))
    data = b.to_be_bytes32() + e.to_be_bytes32() + n.to_be_bytes32() + rest
    gas = any_gas(cx)
    probe(cx, m, k)
    evm = frame(k, data, gas)
    out = k.run(contract(k, 5), evm)
    b, e, n = int(b), int(e), int(n)
    if ge(fork, "osaka") and (b > 1024 or e > 1024 or n > 1024):
        fails(k, "modexp length", out)
        return
    if part == "lengths":
        head = 0
    elif e >= 32:
        head = word(cx, rest, b)
    else:
        head = word(cx, rest, b, size) if size else 0
    cost = modexp_cost(cx, fork, b, e, n, head)
    if out != "crash:Stop":
        cx.check("modexp fails only out of gas", cx.and_(out == "halt", int(gas) < cost))
        return
    cx.check_eq("modexp gas", int(evm.gas_left), int(gas) - cost)
    cx.check("modexp enough gas", int(gas) >= cost)


SIZES = [0, 1, 31, 32]


def h_modexp(cx, fork, lens, cut):
    k = kit(cx, fork)
    b, e, n = lens
    body = words(cx, b, "base") + words(cx, e, "exp") + words(cx, n, "mod")
    data = cx.B(b.to_bytes(32, "big") + e.to_bytes(32, "big") + n.to_bytes(32, "big")) + body
    if cut is not None:
        data = data[:cut]
    gas = any_gas(cx)
    evm = frame(k, data, gas)
    out = k.run(contract(k, 5), evm)
    # lengths as read from the cut input
    b, e, n = (int_of(word(cx, data, 32 * i)) for i in range(3))
    if max(b, e, n) > 1000:
        fails(k, "modexp length", out) if fork == "osaka" else None
        return
    B, E, M = word(cx, data, 96, b), word(cx, data, 96 + b, e), word(cx, data, 96 + b + e, n)
    head = word(cx, data, 96 + b, min(32, e))
    cost = modexp_cost(cx, fork, b, e, n, head)
    if out != "ok" or (b == 0 and n == 0):
        finish(k, "modexp", out, evm, gas, cost, b"")
        return
    if n == 0 or M == 0:
        finish(k, "modexp zero modulus", out, evm, gas, cost, bytes(n))
        return
    finish(k, "modexp", out, evm, gas, cost, pow(B, E, M).to_bytes(n, "big"))


def int_of(x):
    assert type(x) is int
    return x


# -- a stand-in for the curve libraries --------------------------------------

class Curve:
    def __init__(self, cx, name, p, order):
        self.cx, self.name, self.p, self.order = cx, name, p, order
        curve = self

        class FQ:
            field_modulus = p

            def __init__(self, n):
                self.n = n.n if isinstance(n, FQ) else n

            def __int__(self):
                return self.n

            __index__ = __int__

            def __eq__(self, o):
                return self.n == (o.n if isinstance(o, FQ) else o)

            def __ne__(self, o):
                return not self == o

            def __lt__(self, o):
                return self.n < (o.n if isinstance(o, FQ) else o)

            def __ge__(self, o):
                return not self < o

            def __gt__(self, o):
                return self.n > (o.n if isinstance(o, FQ) else o)

            def __le__(self, o):
                return not self > o

            __hash__ = None

            @classmethod
            def zero(cls):
                return cls(0)

            @classmethod
            def one(cls):
                return cls(1)

        class FQ2:
            field_modulus = p
            degree = 2

            def __init__(self, c):
                self.coeffs = tuple(FQ(x) for x in c)

            def __eq__(self, o):
                return self.coeffs[0] == o.coeffs[0] and self.coeffs[1] == o.coeffs[1]

            def __ne__(self, o):
                return not self == o

            __hash__ = None

            @classmethod
            def zero(cls):
                return cls((0, 0))

            @classmethod
            def one(cls):
                return cls((1, 0))

        class FQ12:
            def __init__(self, f=()):
                self.factors = tuple(f)

            def __mul__(self, o):
                return FQ12(self.factors + o.factors)

            def __eq__(self, o):
                a, b = sorted([self.factors, o.factors], key=len)
                if a:
                    return a is b
                if not b:
                    return True
                return curve.bit("is_one", *[x for f in b for x in f])

            def __ne__(self, o):
                return not self == o

            __hash__ = None

            @classmethod
            def one(cls):
                return cls()
        self.FQ, self.FQ2, self.FQ12 = FQ, FQ2, FQ12

    def flat(self, pt):
        out = []
        for c in pt:
            out += [x.n for x in c.coeffs] if isinstance(c, self.FQ2) else [c.n]
        return out

    def group(self, pt):
        return 2 if isinstance(pt[0], self.FQ2) else 1

    def value(self, name, *args):
        v = int.from_bytes(self.cx.opaque(self.name + "_" + name, 48 if self.p >> 300 else 32, *args), "big")
        self.cx.assume(v < self.p)
        return v

    def bit(self, name, *args):
        return int.from_bytes(self.cx.opaque(self.name + "_" + name, 1, *args), "big") >= 128

    def make(self, g, name, *args):
        if g == 1:
            return tuple(self.FQ(self.value(name + "_" + c, *args)) for c in "xyz")
        return tuple(self.FQ2((self.value(name + "_" + c + "0", *args), self.value(name + "_" + c + "1", *args))) for c in "xyz")

    def is_inf(self, pt):
        return pt[2] == (self.FQ2((0, 0)) if self.group(pt) == 2 else 0)

    def is_on_curve(self, pt, b):
        if self.is_inf(pt):
            return True
        return self.bit("on_curve%d" % self.group(pt), *self.flat(pt))

    def add(self, a, b):
        return self.make(self.group(a), "add%d" % self.group(a), *(self.flat(a) + self.flat(b)))

    def multiply(self, a, n):
        return self.make(self.group(a), "mul%d" % self.group(a), *(self.flat(a) + [int(n)]))

    def normalize(self, a):
        return self.make(self.group(a), "norm%d" % self.group(a), *self.flat(a))[:2]

    def pairing(self, q, p, final_exponentiate=True):
        assert self.group(q) == 2 and self.group(p) == 1
        return self.FQ12((tuple(self.flat(q) + self.flat(p) + [1 if final_exponentiate else 0]),))

    def in_subgroup(self, pt):
        return self.is_inf(self.multiply(pt, self.order))

    def install(self, m):
        for name, v in (("FQ", self.FQ), ("FQ2", self.FQ2), ("FQ12", self.FQ12), ("add", self.add), ("multiply", self.multiply),
                        ("bls12_add", self.add), ("bls12_multiply", self.multiply), ("normalize", self.normalize), ("is_inf", self.is_inf),
                        ("is_on_curve", self.is_on_curve), ("pairing", self.pairing)):
            if hasattr(m, name):
                self.cx.stub(m, name, v)
        for n in dir(m):
            f = getattr(m, n)
            if hasattr(f, "cache_clear"):
                f.cache_clear()

    # decoding, as the protocol defines it; None when malformed
    def point(self, g, xs, ys):
        if any_at_least(self.cx, xs + ys, self.p):
            return None
        zero = self.cx.and_(*[self.cx.eq(v, 0) for v in xs + ys])
        if zero:
            z = [0, 0]
        else:
            z = [1, 0]
        if g == 1:
            pt = (self.FQ(xs[0]), self.FQ(ys[0]), self.FQ(z[0]))
        else:
            pt = (self.FQ2(xs), self.FQ2(ys), self.FQ2(z))
        if z[0] and not self.is_on_curve(pt, None):
            return None
        return pt


def any_at_least(cx, xs, p):
    return bool(cx.or_(*[x >= p for x in xs]))


def same_either(k, label, out, evm, gas, cost, outputs):
    """one of the outputs (group operations commute)"""
    cx = k.cx
    finish(k, label, out, evm, gas, cost, None)
    if out == "ok":
        cx.check(label + ": output", cx.or_(*[cx.eq(evm.output, o) for o in outputs]))


# -- bn128 -------------------------------------------------------------------

def bn_cost(fork, what, n=0):
    from oracle.forks import ge
    if ge(fork, "istanbul"):
        return {"add": 150, "mul": 6000, "pairing": 45000 + 34000 * n}[what]
    return {"add": 500, "mul": 40000, "pairing": 100000 + 80000 * n}[what]


def bn_setup(cx, fork):
    k = kit(cx, fork)
    m = where(k, "alt_bn128")
    c = Curve(cx, "bn", BN_P, BN_N)
    c.install(m)
    return k, m, c


def enc32(cx, pt):
    return int(pt[0]).to_bytes(32, "big") + int(pt[1]).to_bytes(32, "big")


def h_bn_add(cx, fork):
    k, m, c = bn_setup(cx, fork)
    n = cx.choice("length", [128, 0, 100, 160])
    data = words(cx, n)
    gas = any_gas(cx)
    evm = frame(k, data, gas)
    out = k.run(contract(k, 6), evm)
    cost = bn_cost(fork, "add")
    if int(gas) < cost:
        fails(k, "bn128 add", out)
        return
    pts = [c.point(1, [word(cx, data, 64 * i)], [word(cx, data, 64 * i + 32)]) for i in range(2)]
    if pts[0] is None or pts[1] is None:
        fails(k, "bn128 add malformed", out)
        return
    same_either(k, "bn128 add", out, evm, gas, cost, [enc32(cx, c.normalize(c.add(pts[0], pts[1]))), enc32(cx, c.normalize(c.add(pts[1], pts[0])))])


def h_bn_mul(cx, fork):
    k, m, c = bn_setup(cx, fork)
    n = cx.choice("length", [96, 0, 70, 128])
    data = words(cx, n)
    gas = any_gas(cx)
    evm = frame(k, data, gas)
    out = k.run(contract(k, 7), evm)
    cost = bn_cost(fork, "mul")
    if int(gas) < cost:
        fails(k, "bn128 mul", out)
        return
    pt = c.point(1, [word(cx, data, 0)], [word(cx, data, 32)])
    if pt is None:
        fails(k, "bn128 mul malformed", out)
        return
    finish(k, "bn128 mul", out, evm, gas, cost, enc32(cx, c.normalize(c.multiply(pt, word(cx, data, 64)))))


def h_bn_pairing(cx, fork, n, first=None):
    k, m, c = bn_setup(cx, fork)
    data = words(cx, 192 * n)
    gas = any_gas(cx)
    if first:
        cx.assume(word(cx, data, 0) >= 1)
        cx.assume(word(cx, data, 64) >= 1)
        if pair(cx, c, data, 0) is None:
            cx.reject()
    evm = frame(k, data, gas)
    out = k.run(contract(k, 8), evm)
    cost = bn_cost(fork, "pairing", n)
    if int(gas) < cost:
        fails(k, "bn128 pairing", out)
        return
    acc = c.FQ12.one()
    for i in range(n):
        pq = pair(cx, c, data, i)
        if pq is None:
            fails(k, "bn128 pairing malformed", out)
            return
        acc = acc * c.pairing(pq[1], pq[0])
    one = 1 if acc == c.FQ12.one() else 0
    finish(k, "bn128 pairing", out, evm, gas, cost, one.to_bytes(32, "big"))


def pair(cx, c, data, i):
    w = [word(cx, data, 192 * i + 32 * j) for j in range(6)]
    p = c.point(1, [w[0]], [w[1]])
    q = c.point(2, [w[3], w[2]], [w[5], w[4]]) if p is not None else None
    if q is None or not c.in_subgroup(p) or not c.in_subgroup(q):
        return None
    return p, q


def h_bn_pairing_gas(cx, fork):
    k, m, c = bn_setup(cx, fork)
    gas_probe(cx, k, m, 8, lambda n: bn_cost(fork, "pairing", n // 192), lambda n: n % 192 == 0, "bn128 pairing")


def gas_probe(cx, k, m, number, cost, good, label):
    """what the contract charges for an input of every length; inputs of a bad length fail"""
    data = cx.buf("data", 2**32)
    gas = any_gas(cx)
    probe(cx, m, k)
    evm = frame(k, data, gas)
    fn = contract(k, number)
    out = k.run(fn, evm)
    n = len_(cx, data)
    if not good(n):
        if out == "crash:Stop":
            # it paid before looking at the length; let it go on
            cx.stub(m, "charge_gas", k.m("vm.gas").charge_gas)
            out = k.run(fn, frame(k, data, k.Uint(2**80)))
        fails(k, label + " length", out)
        return
    c = cost(n)
    if out != "crash:Stop":
        cx.check(label + " fails only out of gas", cx.and_(out == "halt", int(gas) < c))
        return
    cx.check_eq(label + " gas", int(evm.gas_left), int(gas) - c)
    cx.check(label + " enough gas", int(gas) >= c)


# -- blake2 --------------------------------------------------------------------

def h_blake2f(cx, fork, length):
    k = kit(cx, fork)
    m = where(k, "blake2f")
    if length is None:
        data = cx.buf("data", 2**32)
        cx.assume(len_(cx, data) != 213)
        evm = frame(k, data, any_gas(cx))
        fails(k, "blake2f length", k.run(contract(k, 9), evm))
        return
    data = cx.bytesn("rounds", 4) + words(cx, 64, "h") + words(cx, 128, "m") + words(cx, 16, "t") + cx.bytesn("f", 1)
    gas = any_gas(cx)

    def compress(self, num_rounds, h, mm, t0, t1, f):
        ws = [int(x) for x in list(h) + list(mm)]
        return cx.opaque("F", 64, int(num_rounds), int(t0), int(t1), 1 if f else 0, *ws)
    b2 = cx.load("ethereum.crypto.blake2")
    cls = b2.Blake2
    if "compress" in vars(b2.Blake2b):
        cls = b2.Blake2b
    if hasattr(cls, "compress"):
        cx.stub(cls, "compress", compress)
    evm = frame(k, data, gas)
    out = k.run(contract(k, 9), evm)
    rounds = word(cx, data, 0, 4)
    if int(gas) < rounds:
        fails(k, "blake2f gas", out)
        return
    f = data[212]
    if f == 0 or f == 1:
        h = [le(data[4 + 8 * i:12 + 8 * i]) for i in range(8)]
        mm = [le(data[68 + 8 * i:76 + 8 * i]) for i in range(16)]
        t0, t1 = le(data[196:204]), le(data[204:212])
        finish(k, "blake2f", out, evm, gas, rounds, cx.opaque("F", 64, rounds, t0, t1, 1 if f == 1 else 0, *(h + mm)))
    else:
        fails(k, "blake2f flag", out)


def le(b):
    return int.from_bytes(b, "little")


IV = [0x6A09E667F3BCC908, 0xBB67AE8584CAA73B, 0x3C6EF372FE94F82B, 0xA54FF53A5F1D36F1, 0x510E527FADE682D1, 0x9B05688C2B3E6C1F, 0x1F83D9ABFB41BD6B,
      0x5BE0CD19137E2179]
SIGMA = ["0123456789abcdef", "ea489fd61c02b753", "b8c052fdae367194", "7931dcbe265a40f8", "905724afe1bc683d",
         "2c6a0b834d75fe19", "c51fed4a0763928b", "db7ec13950f4862a", "6fe9b308c2d714a5", "a2847615fb9e3cd0"]
MIX = [(0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)]
W = 2**64


def blake_g(v, a, b, c, d, x, y):
    def rot(z, n):
        return (z >> n) ^ ((z << (64 - n)) % W)
    v[a] = (v[a] + v[b] + x) % W
    v[d] = rot(v[d] ^ v[a], 32)
    v[c] = (v[c] + v[d]) % W
    v[b] = rot(v[b] ^ v[c], 24)
    v[a] = (v[a] + v[b] + y) % W
    v[d] = rot(v[d] ^ v[a], 16)
    v[c] = (v[c] + v[d]) % W
    v[b] = rot(v[b] ^ v[c], 63)


def blake_f(rounds, h, m, t0, t1, f, g=blake_g):
    v = list(h) + list(IV)
    v[12] = v[12] ^ t0
    v[13] = v[13] ^ t1
    if f:
        v[14] = v[14] ^ (W - 1)
    for r in range(rounds):
        s = [int(ch, 16) for ch in SIGMA[r % 10]]
        for i, q in enumerate(MIX):
            g(v, *q, m[s[2 * i]], m[s[2 * i + 1]])
    return [h[i] ^ v[i] ^ v[i + 8] for i in range(8)]


def run_compress(cx, rounds, h, m, t0, t1):
    U = cx.load("ethereum_types.numeric").Uint
    b = cx.load("ethereum.crypto.blake2").Blake2b()
    f = cx.flag("final")
    got = b.compress(U(rounds), [U(x) for x in h], [U(x) for x in m], U(t0), U(t1), U(1) if f else U(0))
    want = blake_f(rounds, h, m, t0, t1, f)
    cx.check("compress: length", len(got) == 64)
    for i, x in enumerate(want):
        cx.check_eq("compress: word %d" % i, int.from_bytes(got[8 * i:8 * i + 8], "little"), x)


def h_compress(cx, fork, rounds):
    h = [cx.int("h%d" % i, 0, W - 1) for i in range(8)]
    m = [cx.int("m%d" % i, 0, W - 1) for i in range(16)]
    run_compress(cx, rounds, h, m, cx.int("t0", 0, W - 1), cx.int("t1", 0, W - 1))


def h_sigma(cx, fork, rounds):
    """the message schedule over many rounds: one message word arbitrary, the others fixed"""
    which = cx.choice("which", list(range(16)))
    m = [(i * 0x9E3779B97F4A7C15 + 1) % W for i in range(16)]
    m[which] = cx.int("m", 0, W - 1)
    h = [(i * 0xC2B2AE3D27D4EB4F + 3) % W for i in range(8)]
    run_compress(cx, rounds, h, m, 5, 6)


# -- point evaluation ------------------------------------------------------------

def h_point(cx, fork, hashed=False):
    k = kit(cx, fork)
    m = where(k, "point_evaluation")
    data = words(cx, 192)
    if hashed:
        data = cx.B(b"\x01") + cx.hash("sha256", data[96:144])[1:] + data[32:]
    gas = any_gas(cx)

    def verdict(c, z, y, p):
        return int.from_bytes(cx.opaque("kzg", 1, c, z, y, p), "big")

    def verify(c, z, y, p):
        v = verdict(c, z, y, p)
        if v >= 200:
            raise AssertionError("x")
        if v >= 100:
            raise ValueError("x")
        return v >= 50
    if hasattr(m, "verify_kzg_proof"):
        cx.stub(m, "verify_kzg_proof", verify)
    evm = frame(k, data, gas)
    out = k.run(contract(k, 10), evm)
    if int(gas) < 50000:
        fails(k, "point evaluation gas", out)
        return
    vh, z, y, c, p = data[:32], data[32:64], data[64:96], data[96:144], data[144:192]
    if not cx.eq(vh, cx.B(b"\x01") + cx.hash("sha256", c)[1:]):
        fails(k, "point evaluation hash", out)
        return
    v = verdict(c, z, y, p)
    if v >= 100 or v < 50:
        fails(k, "point evaluation proof", out)
        return
    finish(k, "point evaluation", out, evm, gas, 50000, (4096).to_bytes(32, "big") + BLS_N.to_bytes(32, "big"))


def h_point_length(cx, fork):
    k = kit(cx, fork)
    m = where(k, "point_evaluation")
    for name, v in (("verify_kzg_proof", True), ("kzg_commitment_to_versioned_hash", None)):
        if hasattr(m, name):
            cx.stub(m, name, lambda *a, v=v: data[:32] if v is None else v)
    data = cx.buf("data", 2**32)
    cx.assume(len_(cx, data) != 192)
    fails(k, "point evaluation length", k.run(contract(k, 10), frame(k, data, any_gas(cx))))


def h_kzg(cx, fork):
    m = cx.load("ethereum.crypto.kzg")
    by = cx.load("ethereum_types.bytes")
    c = Curve(cx, "bls", BLS_P, BLS_N)
    com, proof = cx.bytesn("commitment", 48), cx.bytesn("proof", 48)
    z, y = cx.bytesn("z", 32), cx.bytesn("y", 32)

    def dec(g, b):
        return c.make(g, "decode%d" % g, b)

    def neg(p):
        return c.make(c.group(p), "neg%d" % c.group(p), *c.flat(p))

    def valid(b):
        return c.bit("valid", b)

    class Scheme:
        @staticmethod
        def KeyValidate(b):
            return valid(b)
    g1, g2 = c.make(1, "generator1"), c.make(2, "generator2")

    def final(x):
        return x
    for name, v in (("G1", g1), ("G2", g2), ("add", c.add), ("multiply", c.multiply), ("neg", neg), ("pairing", c.pairing),
                    ("final_exponentiate", final), ("FQ12", c.FQ12), ("signature_to_G2", lambda b: dec(2, b)), ("pubkey_to_G1", lambda b: dec(1, b)),
                    ("G2ProofOfPossession", Scheme)):
        if hasattr(m, name):
            cx.stub(m, name, v)
    kind, out = cx.attempt(m.verify_kzg_proof, by.Bytes48(com), by.Bytes32(z), by.Bytes32(y), by.Bytes48(proof))
    zi, yi = int.from_bytes(z, "big"), int.from_bytes(y, "big")
    inf = cx.B(b"\xc0" + bytes(47))
    bad = False
    for b in (com, proof):
        if not cx.eq(b, inf) and not valid(b):
            bad = True
    if bad or zi >= BLS_N or yi >= BLS_N:
        cx.check("kzg rejects", kind == "exc")
        return
    if kind == "exc":
        raise out
    setup = bytes.fromhex("b5bfd7dd8cdeb128843bc287230af38926187075cbfbefa81009a2ce615ac53d2914e5870cb452d2afaaab24f3499f72185cbfee53492714734429b7b38608e2"
                          "3926c911cceceac9a36851477ba4c60b087041de621000edc98edada20c1def2")
    xz = c.add(dec(2, setup), c.multiply(g2, (BLS_N - zi) % BLS_N))
    py = c.add(dec(1, com), c.multiply(g1, (BLS_N - yi) % BLS_N))
    want = (c.pairing(neg(g2), py, False) * c.pairing(xz, dec(1, proof), False)) == c.FQ12.one()
    cx.check("kzg verdict", bool(out) == bool(want))


# -- p256 --------------------------------------------------------------------------

def h_p256(cx, fork):
    k = kit(cx, fork)
    m = where(k, "p256verify")
    data = words(cx, 160)
    gas = any_gas(cx)
    bad = cx.load("ethereum.exceptions").InvalidSignatureError

    def ok(r, s, x, y, h):
        return int.from_bytes(cx.opaque("signed", 1, int(r), int(s), int(x), int(y), h), "big") >= 128

    def on(x, y):
        return int.from_bytes(cx.opaque("on_curve", 1, int(x), int(y)), "big") >= 128

    def verify(r, s, x, y, h):
        if not ok(r, s, x, y, h):
            raise bad("x")
    for name, v in (("secp256r1_verify", verify), ("is_on_curve_secp256r1", on)):
        if hasattr(m, name):
            cx.stub(m, name, v)
    evm = frame(k, data, gas)
    out = k.run(contract(k, 0x100), evm)
    r, s, x, y = (word(cx, data, 32 * i) for i in range(1, 5))
    good = 0 < r and r < R1_N and 0 < s and s < R1_N and x < R1_P and y < R1_P and on(x, y) and not (x == 0 and y == 0)
    good = good and ok(r, s, x, y, data[:32])
    finish(k, "p256", out, evm, gas, 6900, (1).to_bytes(32, "big") if good else b"")


def h_p256_length(cx, fork):
    k = kit(cx, fork)
    m = where(k, "p256verify")
    for name, v in (("secp256r1_verify", None), ("is_on_curve_secp256r1", True)):
        if hasattr(m, name):
            cx.stub(m, name, lambda *a, v=v: v)
    data = cx.buf("data", 2**32)
    cx.assume(len_(cx, data) != 160)
    gas = any_gas(cx)
    evm = frame(k, data, gas)
    out = k.run(contract(k, 0x100), evm)
    finish(k, "p256 length", out, evm, gas, 6900, b"")


def h_r1_curve(cx, fork):
    m = cx.load("ethereum.crypto.elliptic_curve")
    x, y = cx.u256("x", 0, R1_P - 1), cx.u256("y", 0, R1_P - 1)
    got = m.is_on_curve_secp256r1(x, y)
    x, y = int(x), int(y)
    want = y * y % R1_P == (x * x * x % R1_P + (R1_P - 3) * x % R1_P + R1_B) % R1_P
    cx.check("curve equation", cx.or_(cx.and_(got, want), cx.and_(cx.not_(got), cx.not_(want))))


def h_r1_verify(cx, fork):
    m = cx.load("ethereum.crypto.elliptic_curve")
    r, s, x, y = (cx.u256(n) for n in "rsxy")
    h = cx.bytes32("h")
    rejects = cx.flag("rejects")
    calls = []

    class Invalid(Exception):
        pass

    class Seq:
        def __init__(self, items):
            self.items = [int(i) for i in items]

        def encode(self):
            return ("der", self.items)

    class Key:
        def __init__(self, x, y):
            self.xy = x, y

        def verify(self, sig, msg, alg):
            calls.append((self.xy, sig, msg, alg))
            if rejects:
                raise Invalid()

    class Numbers:
        def __init__(self, x, y, curve):
            self.a = x, y, curve

        def public_key(self, *a):
            assert self.a[2] == "r1"
            return Key(self.a[0], self.a[1])

    class Ec:
        EllipticCurvePublicNumbers = Numbers
        SECP256R1 = staticmethod(lambda: "r1")
        ECDSA = staticmethod(lambda h: ("ecdsa", h))

    class Hashes:
        SHA256 = staticmethod(lambda: "sha256")
    for name, v in (("ec", Ec), ("hashes", Hashes), ("DerSequence", Seq), ("InvalidSignature", Invalid), ("default_backend", lambda: None),
                    ("Prehashed", lambda h: ("prehashed", h))):
        if hasattr(m, name):
            cx.stub(m, name, v)
    kind, out = cx.attempt(m.secp256r1_verify, r, s, x, y, h)
    if kind == "exc":
        cx.check("rejected", cx.and_(rejects, isinstance(out, cx.load("ethereum.exceptions").InvalidSignatureError)))
        return
    cx.check("accepted", cx.and_(not rejects, len(calls) == 1))
    xy, sig, msg, alg = calls[0]
    cx.check("key", cx.and_(cx.eq(int(xy[0]), int(x)), cx.eq(int(xy[1]), int(y))))
    cx.check("signature", cx.and_(sig[0] == "der", cx.eq(sig[1][0], int(r)), cx.eq(sig[1][1], int(s))))
    cx.check_eq("message", msg, h)
    cx.check("algorithm", alg == ("ecdsa", ("prehashed", "sha256")))


# -- bls12-381 -----------------------------------------------------------------------

def bls_setup(cx, fork):
    k = kit(cx, fork)
    c = Curve(cx, "bls", BLS_P, BLS_N)

    def to_curve(g):
        def f(x):
            assert (isinstance(x, c.FQ2) if g == 2 else isinstance(x, c.FQ))
            return c.make(g, "map%d" % g, *c.flat([x]))
        return f

    def clear(g):
        return lambda p: c.make(g, "clear%d" % g, *c.flat(p))
    c.maps = {g: (lambda x, g=g: clear(g)(to_curve(g)(x))) for g in (1, 2)}
    for n in ("bls12_381", "bls12_381.bls12_381_g1", "bls12_381.bls12_381_g2", "bls12_381.bls12_381_pairing"):
        m = where(k, n)
        c.install(m)
        for g in (1, 2):
            for name, v in (("map_to_curve_G%d" % g, to_curve(g)), ("clear_cofactor_G%d" % g, clear(g))):
                if hasattr(m, name):
                    cx.stub(m, name, v)
    return k, c


def bls_point(c, g, data, i):
    cx = c.cx
    w = [word(cx, data, i + 64 * j, 64) for j in range(2 * g)]
    return c.point(g, w[:g], w[g:])


def bls_enc(c, pt):
    b = c.cx.B(b"")
    for v in c.flat(pt):
        b = b + v.to_bytes(64, "big")
    return b


def h_bls_add(cx, fork, group):
    k, c = bls_setup(cx, fork)
    size = 128 * group
    n = cx.choice("length", [2 * size, 0, 2 * size - 1, 2 * size + 1, size])
    data = words(cx, n)
    gas = any_gas(cx)
    evm = frame(k, data, gas)
    out = k.run(contract(k, 11 if group == 1 else 13), evm)
    cost = 375 if group == 1 else 600
    if n != 2 * size or int(gas) < cost:
        fails(k, "bls add", out)
        return
    a = bls_point(c, group, data, 0)
    b = bls_point(c, group, data, size) if a is not None else None
    if b is None:
        fails(k, "bls add malformed", out)
        return
    same_either(k, "bls add", out, evm, gas, cost, [bls_enc(c, c.normalize(c.add(a, b))), bls_enc(c, c.normalize(c.add(b, a)))])


def msm_cost(group, n):
    t = G1_DISCOUNT if group == 1 else G2_DISCOUNT
    return n * (12000 if group == 1 else 22500) * t[min(n, 128) - 1] // 1000


def h_bls_msm_gas(cx, fork, group):
    k, c = bls_setup(cx, fork)
    m = where(k, "bls12_381.bls12_381_g%d" % group)
    unit = 160 if group == 1 else 288
    t = G1_DISCOUNT if group == 1 else G2_DISCOUNT
    per = 12000 if group == 1 else 22500

    def cost(n):
        p = n // unit
        if p > 128:
            return p * per * t[127] // 1000
        for i in range(1, 129):
            if p == i:
                return msm_cost(group, i)
        raise AssertionError
    gas_probe(cx, k, m, 12 if group == 1 else 14, cost, lambda n: n % unit == 0 and n > 0, "bls msm")


def h_bls_msm(cx, fork, group, n, first=None):
    k, c = bls_setup(cx, fork)
    unit = 128 * group + 32
    data = words(cx, n * unit)
    gas = any_gas(cx)
    if first:
        first_good(cx, c, data, (group,))
    evm = frame(k, data, gas)
    out = k.run(contract(k, 12 if group == 1 else 14), evm)
    cost = msm_cost(group, n)
    if int(gas) < cost:
        fails(k, "bls msm", out)
        return
    acc = None
    for i in range(n):
        p = bls_point(c, group, data, i * unit)
        if p is None or not c.in_subgroup(p):
            fails(k, "bls msm malformed", out)
            return
        q = c.multiply(p, word(cx, data, i * unit + 128 * group))
        acc = q if acc is None else c.add(acc, q)
    finish(k, "bls msm", out, evm, gas, cost, bls_enc(c, c.normalize(acc)))


def h_bls_map(cx, fork, group):
    k, c = bls_setup(cx, fork)
    size = 64 * group
    n = cx.choice("length", [size, 0, size - 1, size + 1, 3 * size])
    data = words(cx, n)
    gas = any_gas(cx)
    evm = frame(k, data, gas)
    out = k.run(contract(k, 16 if group == 1 else 17), evm)
    cost = 5500 if group == 1 else 23800
    if n != size or int(gas) < cost:
        fails(k, "bls map", out)
        return
    w = [word(cx, data, 64 * i, 64) for i in range(group)]
    if any_at_least(cx, w, BLS_P):
        fails(k, "bls map malformed", out)
        return
    x = c.FQ(w[0]) if group == 1 else c.FQ2(w)
    finish(k, "bls map", out, evm, gas, cost, bls_enc(c, c.normalize(c.maps[group](x))))


def h_bls_pairing_gas(cx, fork):
    k, c = bls_setup(cx, fork)
    gas_probe(cx, k, where(k, "bls12_381.bls12_381_pairing"), 15, lambda n: 37700 + 32600 * (n // 384), lambda n: n % 384 == 0 and n > 0, "bls pairing")


def first_good(cx, c, data, groups):
    """the first pair is in order (and its points are not the infinity)"""
    i = 0
    for g in groups:
        cx.assume(word(cx, data, i, 64) >= 1)
        p = bls_point(c, g, data, i)
        if p is None or not c.in_subgroup(p):
            cx.reject()
        i += 128 * g


def h_bls_pairing(cx, fork, n, first=None):
    k, c = bls_setup(cx, fork)
    data = words(cx, 384 * n)
    gas = any_gas(cx)
    if first:
        first_good(cx, c, data, (1, 2))
    evm = frame(k, data, gas)
    out = k.run(contract(k, 15), evm)
    cost = 37700 + 32600 * n
    if int(gas) < cost:
        fails(k, "bls pairing", out)
        return
    acc = c.FQ12.one()
    for i in range(n):
        p = bls_point(c, 1, data, 384 * i)
        if p is None or not c.in_subgroup(p):
            fails(k, "bls pairing malformed", out)
            return
        q = bls_point(c, 2, data, 384 * i + 128)
        if q is None or not c.in_subgroup(q):
            fails(k, "bls pairing malformed", out)
            return
        acc = acc * c.pairing(q, p)
    one = 1 if acc == c.FQ12.one() else 0
    finish(k, "bls pairing", out, evm, gas, cost, one.to_bytes(32, "big"))
