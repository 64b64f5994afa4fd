"""Running the transition tool on a symbolic document."""

import io
import types

NAME = {"constantinople": "ConstantinopleFix", "tangerine_whistle": "EIP150", "spurious_dragon": "EIP158", "paris": "Merge"}


class Run:
    """a tool made from a document; .run() yields the document it prints"""

    def __init__(self, cx, fork, doc, name=None, listdir=(), **options):
        self.cx = cx
        self.T = cx.load("ethereum_spec_tools.evm_tools.t8n")
        self.removed = []
        self.out = None
        o = {"input_env": "stdin", "input_alloc": "stdin", "input_txs": "stdin", "output_alloc": "stdout", "output_result": "stdout",
             "output_body": "stdout", "output_basedir": "/nowhere", "state_chainid": 1, "state_reward": None, "trace": False, "opcode_count": None,
             "state_test": False, "state_fork": name or NAME.get(fork) or "".join(x.title() for x in fork.split("_"))}
        o.update(options)
        self.options = types.SimpleNamespace(**o)
        import os.path
        cx.stub(self.T, "json", types.SimpleNamespace(load=lambda f: f.doc, dump=self.dump))
        cx.stub(self.T, "os", types.SimpleNamespace(listdir=lambda p: list(listdir), path=os.path, remove=self.removed.append))
        cx.stub(self.T, "get_stream_logger", lambda n: types.SimpleNamespace(warning=lambda *a, **k: None, error=lambda *a, **k: None,
                                                                             info=lambda *a, **k: None))
        if fork == "dao_fork":
            # the irregular transfers are C41's; every run of the tool would make them
            cx.stub(cx.load("ethereum.dao_fork.dao"), "apply_dao", lambda st: None)
        self.printed = io.StringIO()
        self.tool = self.T.T8N(self.options, self.printed, types.SimpleNamespace(doc=doc))

    def dump(self, doc, f, **k):
        assert f is self.printed and self.out is None
        self.out = doc

    def run(self):
        self.code = self.tool.run()
        return self.out


def env(cx, fork, **kw):
    """an environment document with every value the fork needs; kw overrides, None removes"""
    from oracle.forks import ge
    d = {"currentCoinbase": "0x" + "c0" * 20, "currentGasLimit": "0x1c9c380", "currentNumber": "0x64", "currentTimestamp": "0x3e8"}
    if ge(fork, "paris"):
        d["currentRandom"] = "0x" + "5a" * 32
    else:
        d["currentDifficulty"] = "0x20000"
    if ge(fork, "london"):
        d["currentBaseFee"] = "0x7"
    if ge(fork, "shanghai"):
        d["withdrawals"] = []
    if ge(fork, "cancun"):
        d["parentBeaconBlockRoot"] = "0x" + "b7" * 32
        d["currentExcessBlobGas"] = "0x0"
    if ge(fork, "prague"):
        d["parentHash"] = "0x" + "aa" * 32
        d["blockHashes"] = {"0x63": "0x" + "aa" * 32}
    for n, v in kw.items():
        if v is None:
            d.pop(n, None)
        else:
            d[n] = v
    return d


def tx(kind="legacy", **kw):
    """a signed transaction document"""
    d = {"nonce": "0x1", "gas": "0x5208", "input": "0x", "to": "0x" + "70" * 20, "value": "0x1", "v": "0x1b", "r": "0x1", "s": "0x1"}
    if kind in ("legacy", "access"):
        d["gasPrice"] = "0xa"
    else:
        d["maxFeePerGas"] = "0xa"
        d["maxPriorityFeePerGas"] = "0x1"
    if kind != "legacy":
        d["accessList"] = []
        d["chainId"] = "0x1"
        d["v"] = "0x0"
    if kind == "blob":
        d["maxFeePerBlobGas"] = "0x1"
        d["blobVersionedHashes"] = ["0x01" + "00" * 31]
    if kind == "setcode":
        d["authorizationList"] = [{"chainId": "0x1", "nonce": "0x0", "address": "0x" + "01" * 20, "v": "0x0", "r": "0x1", "s": "0x1"}]
    d.update(kw)
    return d
