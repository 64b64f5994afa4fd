"""C42: the block builder."""

ENCODED = ["evm_tools.b11r.B11R: __init__, build_block, run", "evm_tools.b11r.b11r_types: Body, Header", "evm_tools.utils.parse_hex_or_int", "ethereum.utils.hexadecimal"]
BOUNDS = ("headers of proof-of-work, London and Shanghai blocks with every digit of every hash, root, bloom, address, mix and nonce free and one of the numbers (in turn) any value of up to "
          "8 hexadecimal digits (as text, or given as a number), extra data of 0, 1, 5 or 32 bytes, omitted optional fields; 0 to 2 transactions (a list and a byte string), 0 to 2 ommers, "
          "0 to 2 withdrawals with one free number each in turn")
ASSUMPTIONS = ["documents come in and go out as JSON values: parsing and printing JSON are replaced by recorders", "headers of later forks than Shanghai are not built by this tool"]

NUMBERS = ("difficulty", "number", "gasLimit", "gasUsed", "timestamp", "baseFeePerGas")
PLAIN = {"difficulty": 0x20000, "number": 0x64, "gasLimit": 0x1c9c380, "gasUsed": 0, "timestamp": 0x3e8, "baseFeePerGas": 7}


def jobs(tier):
    out = []
    for era in ("pow", "london", "shanghai"):
        for n in NUMBERS:
            if n == "baseFeePerGas" and era == "pow":
                continue
            for style in ("hex", "int"):
                out.append({"harness": "h_header", "params": {"era": era, "free": n, "style": style}})
        for txs in (0, 1, 2):
            for om in (0, 1, 2):
                out.append({"harness": "h_body", "params": {"era": era, "txs": txs, "ommers": om}})
        out.append({"harness": "h_omitted", "params": {"era": era}})
    for n in (0, 1, 2):
        for free in ("index", "validatorIndex", "amount"):
            out.append({"harness": "h_withdrawals", "params": {"n": n, "free": free}})
    out.append({"harness": "h_root_without_fee", "params": {}})
    out.append({"harness": "h_where", "params": {}})
    return out


class Run:
    def __init__(self, cx, doc, withdrawals=False, **options):
        import io
        import types
        self.T = cx.load("ethereum_spec_tools.evm_tools.b11r")
        self.Y = cx.load("ethereum_spec_tools.evm_tools.b11r.b11r_types")
        o = {"input_header": "stdin", "input_ommers": "stdin", "input_txs": "stdin", "input_withdrawals": "stdin" if withdrawals else None,
             "output_basedir": None, "output_block": "stdout"}
        o.update(options)
        self.files = {}
        self.out = []
        fake = types.SimpleNamespace(load=lambda f: f.doc, dump=lambda d, f, **kw: self.out.append((d, f)))
        cx.stub(self.T, "json", fake)
        cx.stub(self.Y, "json", fake)
        cx.stub(self.T, "get_stream_logger", lambda n: types.SimpleNamespace(info=lambda *a, **k: None))
        self.printed = io.StringIO()
        self.tool = self.T.B11R(types.SimpleNamespace(**o), self.printed, types.SimpleNamespace(doc=doc))

    def run(self):
        self.code = self.tool.run()
        assert len(self.out) == 1
        return self.out[0][0]


def header(cx, era, free=None, style="hex", extra=0):
    """document, and the encoded items it stands for"""
    from oracle import rlp
    doc, it = {}, {}

    def raw(key, size, out=None):
        doc[key], v = cx.hextext(key, 2 * size)
        it[key] = rlp.string(v.to_bytes(size, "big")) if size else b"\x80"
    for key in ("parentHash", "ommersHash", "stateRoot", "transactionsRoot", "receiptsRoot", "mixHash"):
        raw(key, 32)
    raw("miner", 20)
    raw("logsBloom", 256)
    raw("nonce", 8)
    doc["extraData"], v = cx.hextext("extra", 2 * extra)
    it["extraData"] = rlp.string(v.to_bytes(extra, "big")) if extra > 1 else rlp.string(bytes(0)) if not extra else one(v)
    for n in NUMBERS:
        if n == "baseFeePerGas" and era == "pow":
            continue
        if n == free:
            if style == "hex":
                doc[n], v = cx.hextext(n, 8)
            else:
                doc[n] = v = cx.int(n, 0, 2**32 - 1)
        else:
            v = PLAIN[n]
            doc[n] = hex(v) if style == "hex" else str(v)
        it[n] = rlp.uint(v)
    names = ["parentHash", "ommersHash", "miner", "stateRoot", "transactionsRoot", "receiptsRoot", "logsBloom", "difficulty", "number", "gasLimit",
             "gasUsed", "timestamp", "extraData", "mixHash", "nonce"]
    if era != "pow":
        names.append("baseFeePerGas")
    if era == "shanghai":
        raw("withdrawalsRoot", 32)
        names.append("withdrawalsRoot")
    return doc, it, names


def one(v):
    """one byte as a string"""
    b = v.to_bytes(1, "big")
    return b if v < 128 else b"\x81" + b


def hb(cx, text):
    return cx.load("ethereum.utils.hexadecimal").hex_to_bytes(text)


def compare(cx, run, out, items, body):
    from oracle import rlp
    head = rlp.seq(items)
    cx.check("finished", run.code == 0 and sorted(out) == ["hash", "rlp"])
    cx.check_eq("block hash", hb(cx, out["hash"]), cx.keccak(head))
    cx.check_eq("block", hb(cx, out["rlp"]), rlp.seq([head] + body))


def h_header(cx, era, free, style):
    extra = cx.choice("extra size", [0, 1, 5, 32])
    doc, it, names = header(cx, era, free, style, extra)
    run = Run(cx, {"header": doc, "txs": cx.choice("no transactions", ["", "0xc0"]), "ommers": [], "withdrawals": []}, withdrawals=era == "shanghai")
    compare(cx, run, run.run(), [it[n] for n in names], [b"\xc0", b"\xc0"] + ([b"\xc0"] if era == "shanghai" else []))


def text(cx, b):
    """0x... of symbolic bytes"""
    return "0x" + b.hex() if type(b) is bytes else cx.text_of(int.from_bytes(b, "big"), 2 * len(b))


def h_body(cx, era, txs, ommers):
    from oracle import rlp
    doc, it, names = header(cx, era)
    items = []
    for i in range(txs):
        if i:
            items.append(rlp.string(cx.bytesn("typed", 60)))
        else:
            items.append(rlp.seq([rlp.string(cx.bytesn("a", 20)), rlp.string(b""), rlp.seq([]), rlp.string(cx.bytesn("b", 32))]))
    heads = [rlp.seq([rlp.string(cx.bytesn("hash%d" % i, 32)), rlp.string(b"\x05"), rlp.string(cx.bytesn("x%d" % i, 3))]) for i in range(ommers)]
    if cx.flag("ommers hash derived"):
        del doc["ommersHash"]
        it["ommersHash"] = rlp.string(cx.keccak(rlp.seq(heads)))
    blocks = [text(cx, rlp.seq([h, rlp.seq([]), rlp.seq([])])) for h in heads]
    whole = {"header": doc, "txs": text(cx, rlp.seq(items)), cx.choice("called", ["ommers", "uncles"]): blocks, "withdrawals": []}
    run = Run(cx, whole, withdrawals=era == "shanghai")
    compare(cx, run, run.run(), [it[n] for n in names], [rlp.seq(items), rlp.seq(heads)] + ([b"\xc0"] if era == "shanghai" else []))


def h_omitted(cx, era):
    """values the document may leave out"""
    from oracle import rlp
    doc, it, names = header(cx, era)
    empty = rlp.string(bytes.fromhex("56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421"))
    for key, v in (("miner", rlp.string(bytes(20))), ("transactionsRoot", empty), ("receiptsRoot", empty), ("difficulty", b"\x80"), ("extraData", b"\x80"),
                   ("nonce", rlp.string(bytes(8)))):
        if cx.flag("without " + key):
            del doc[key]
            it[key] = v
    whole = {"header": doc, "txs": "", "ommers": []}
    if cx.flag("list given"):
        whole["withdrawals"] = []
    run = Run(cx, whole, withdrawals=era == "shanghai")
    compare(cx, run, run.run(), [it[n] for n in names], [b"\xc0", b"\xc0"] + ([b"\xc0"] if era == "shanghai" else []))


def h_root_without_fee(cx):
    """a header with a withdrawals root has a base fee"""
    doc, it, names = header(cx, "shanghai")
    del doc["baseFeePerGas"]
    it["baseFeePerGas"] = b"\x80"
    run = Run(cx, {"header": doc, "txs": "", "ommers": []}, withdrawals=True)
    compare(cx, run, run.run(), [it[n] for n in names], [b"\xc0", b"\xc0", b"\xc0"])


def h_withdrawals(cx, n, free):
    from oracle import rlp
    doc, it, names = header(cx, "shanghai")
    docs, enc = [], []
    for i in range(n):
        d, e = {}, []
        for key, plain in (("index", 3 + i), ("validatorIndex", 0), ("address", None), ("amount", 300)):
            if key == "address":
                d[key], v = cx.hextext("address%d" % i, 40)
                e.append(rlp.string(v.to_bytes(20, "big")))
                continue
            if key == free:
                d[key], v = cx.hextext("%s%d" % (key, i), 6)
            else:
                v = plain
                d[key] = hex(v) if i else str(v)
            e.append(rlp.uint(v))
        docs.append(d)
        enc.append(rlp.seq(e))
    run = Run(cx, {"header": doc, "txs": "", "ommers": [], "withdrawals": docs}, withdrawals=True)
    compare(cx, run, run.run(), [it[k] for k in names], [b"\xc0", b"\xc0", rlp.seq(enc)])


def h_where(cx):
    """each part is read from, and the block written to, the place named"""
    import types
    from oracle import rlp
    doc, it, names = header(cx, "shanghai")
    w = {"index": "0x1", "validatorIndex": "0x2", "address": "0x" + "77" * 20, "amount": "0x3"}
    tx = rlp.seq([rlp.string(cx.bytesn("a", 20))])
    om = rlp.seq([rlp.string(cx.bytesn("h", 32))])
    parts = {"header": doc, "txs": text(cx, rlp.seq([tx])), "ommers": [text(cx, rlp.seq([om, rlp.seq([]), rlp.seq([])]))], "withdrawals": [w]}
    names_of = {}
    stdin = {}
    for p in parts:
        if cx.flag(p + " in a file"):
            names_of["input_" + p] = p + ".json"
        else:
            stdin[p] = parts[p]
    to_file = cx.flag("to a file")
    if to_file:
        names_of["output_block"] = "block.json"
    opened = []

    class F:
        def __init__(self, path):
            self.path = path
            self.doc = parts.get(path.split(".")[0])

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    def fake_open(path, mode="r", *a, **kw):
        opened.append((path, mode))
        return F(path)
    T, Y = cx.load("ethereum_spec_tools.evm_tools.b11r"), cx.load("ethereum_spec_tools.evm_tools.b11r.b11r_types")
    T.open = Y.open = fake_open
    try:
        # without any of the first three on standard input the tool reads none
        if all("input_" + p in names_of for p in ("header", "txs", "ommers")) and "input_withdrawals" not in names_of:
            return
        run = Run(cx, stdin, withdrawals=True, **names_of)
        out = run.run()
    finally:
        del T.open, Y.open
    head = rlp.seq([it[n] for n in names])
    wd = rlp.seq([rlp.uint(1), rlp.uint(2), rlp.string(bytes.fromhex("77" * 20)), rlp.uint(3)])
    cx.check_eq("block", hb(cx, out["rlp"]), rlp.seq([head, rlp.seq([tx]), rlp.seq([om]), rlp.seq([wd])]))
    want = sorted([(v, "r") for k, v in names_of.items() if k.startswith("input")] + ([("block.json", "w")] if to_file else []))
    cx.check("places", sorted(opened) == want)
    cx.check("written there", (run.out[0][1] is run.printed) == (not to_file))
