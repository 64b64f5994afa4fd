"""C25: proof-of-work difficulty."""

ENCODED = ["fork.calculate_block_difficulty", "fork.validate_header"]
BOUNDS = ("every parent difficulty below 2^200, every parent timestamp and later timestamp (frontier: parent timestamp below 2^256 - 13), uncle flag, "
          "every block number below the bomb, in its periods 0 to 3 and in periods 7, 30, 64 and 200 (thorough: 0 to 120)")
ASSUMPTIONS = ["proof of work accepts (C32)"]


def jobs(tier):
    from oracle.forks import FORKS
    from oracle import headers
    ps = [-1, 0, 1, 2, 3, 7, 30, 64, 200] if tier == "quick" else list(range(-1, 121)) + [200, 255, 256, 1000]
    out = []
    for f in FORKS:
        if headers.pow_fork(f):
            for c in range(0, len(ps), 9):
                out.append({"harness": "h_formula", "params": {"fork": f, "periods": ps[c:c + 9]}})
    return out


def h_formula(cx, fork, periods):
    from oracle.kit import Kit
    from oracle.forks import ge
    from oracle import headers
    k = Kit(cx, fork)
    p = cx.choice("period", periods)
    delay = headers.DELAY.get(fork, 0)
    if p < 0:
        num = cx.uint("number", delay + 200000 - 1)
    else:
        num = k.Uint(delay + 100000 * (p + 2) + cx.int("within", 0, 99999))
    pd = cx.uint("parentdifficulty", 2**200)
    pts = cx.int("parenttime", 0, 2**256 - 20)
    unit = {True: 9, False: 10}[ge(fork, "byzantium")]
    # the time passed, as whole units and a rest
    dt = unit * cx.int("units", 0, 2**250) + cx.int("rest", 0, unit - 1)
    cx.assume(dt >= 1)
    ts = pts + dt
    cx.assume(ts < 2**256)
    args = [num, k.U256(ts), k.U256(pts), pd]
    uncles = False
    if ge(fork, "byzantium"):
        uncles = cx.flag("uncles")
        args.append(uncles)
    out = k.run(k.m("fork").calculate_block_difficulty, *args)
    cx.check("computed", out == "ok", out)
    cx.check_eq("difficulty", int(k.ret), headers.difficulty(cx, fork, p, ts, pts, int(pd), uncles))
    cx.observe("difficulty", int(k.ret))
