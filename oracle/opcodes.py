"""The instruction set: byte -> (name, items taken, items pushed, first fork)."""

OPCODES = {
    0x00: ("STOP", 0, 0, "frontier"), 0x01: ("ADD", 2, 1, "frontier"), 0x02: ("MUL", 2, 1, "frontier"),
    0x03: ("SUB", 2, 1, "frontier"), 0x04: ("DIV", 2, 1, "frontier"), 0x05: ("SDIV", 2, 1, "frontier"),
    0x06: ("MOD", 2, 1, "frontier"), 0x07: ("SMOD", 2, 1, "frontier"), 0x08: ("ADDMOD", 3, 1, "frontier"),
    0x09: ("MULMOD", 3, 1, "frontier"), 0x0A: ("EXP", 2, 1, "frontier"), 0x0B: ("SIGNEXTEND", 2, 1, "frontier"),
    0x10: ("LT", 2, 1, "frontier"), 0x11: ("GT", 2, 1, "frontier"), 0x12: ("SLT", 2, 1, "frontier"),
    0x13: ("SGT", 2, 1, "frontier"), 0x14: ("EQ", 2, 1, "frontier"), 0x15: ("ISZERO", 1, 1, "frontier"),
    0x16: ("AND", 2, 1, "frontier"), 0x17: ("OR", 2, 1, "frontier"), 0x18: ("XOR", 2, 1, "frontier"),
    0x19: ("NOT", 1, 1, "frontier"), 0x1A: ("BYTE", 2, 1, "frontier"), 0x1B: ("SHL", 2, 1, "constantinople"),
    0x1C: ("SHR", 2, 1, "constantinople"), 0x1D: ("SAR", 2, 1, "constantinople"), 0x1E: ("CLZ", 1, 1, "osaka"),
    0x20: ("KECCAK256", 2, 1, "frontier"),
    0x30: ("ADDRESS", 0, 1, "frontier"), 0x31: ("BALANCE", 1, 1, "frontier"), 0x32: ("ORIGIN", 0, 1, "frontier"),
    0x33: ("CALLER", 0, 1, "frontier"), 0x34: ("CALLVALUE", 0, 1, "frontier"), 0x35: ("CALLDATALOAD", 1, 1, "frontier"),
    0x36: ("CALLDATASIZE", 0, 1, "frontier"), 0x37: ("CALLDATACOPY", 3, 0, "frontier"),
    0x38: ("CODESIZE", 0, 1, "frontier"), 0x39: ("CODECOPY", 3, 0, "frontier"), 0x3A: ("GASPRICE", 0, 1, "frontier"),
    0x3B: ("EXTCODESIZE", 1, 1, "frontier"), 0x3C: ("EXTCODECOPY", 4, 0, "frontier"),
    0x3D: ("RETURNDATASIZE", 0, 1, "byzantium"), 0x3E: ("RETURNDATACOPY", 3, 0, "byzantium"),
    0x3F: ("EXTCODEHASH", 1, 1, "constantinople"),
    0x40: ("BLOCKHASH", 1, 1, "frontier"), 0x41: ("COINBASE", 0, 1, "frontier"), 0x42: ("TIMESTAMP", 0, 1, "frontier"),
    0x43: ("NUMBER", 0, 1, "frontier"), 0x44: ("PREVRANDAO", 0, 1, "frontier"), 0x45: ("GASLIMIT", 0, 1, "frontier"),
    0x46: ("CHAINID", 0, 1, "istanbul"), 0x47: ("SELFBALANCE", 0, 1, "istanbul"), 0x48: ("BASEFEE", 0, 1, "london"),
    0x49: ("BLOBHASH", 1, 1, "cancun"), 0x4A: ("BLOBBASEFEE", 0, 1, "cancun"),
    0x50: ("POP", 1, 0, "frontier"), 0x51: ("MLOAD", 1, 1, "frontier"), 0x52: ("MSTORE", 2, 0, "frontier"),
    0x53: ("MSTORE8", 2, 0, "frontier"), 0x54: ("SLOAD", 1, 1, "frontier"), 0x55: ("SSTORE", 2, 0, "frontier"),
    0x56: ("JUMP", 1, 0, "frontier"), 0x57: ("JUMPI", 2, 0, "frontier"), 0x58: ("PC", 0, 1, "frontier"),
    0x59: ("MSIZE", 0, 1, "frontier"), 0x5A: ("GAS", 0, 1, "frontier"), 0x5B: ("JUMPDEST", 0, 0, "frontier"),
    0x5C: ("TLOAD", 1, 1, "cancun"), 0x5D: ("TSTORE", 2, 0, "cancun"), 0x5E: ("MCOPY", 3, 0, "cancun"),
    0x5F: ("PUSH0", 0, 1, "shanghai"),
    0xF0: ("CREATE", 3, 1, "frontier"), 0xF1: ("CALL", 7, 1, "frontier"), 0xF2: ("CALLCODE", 7, 1, "frontier"),
    0xF3: ("RETURN", 2, 0, "frontier"), 0xF4: ("DELEGATECALL", 6, 1, "homestead"),
    0xF5: ("CREATE2", 4, 1, "constantinople"), 0xFA: ("STATICCALL", 6, 1, "byzantium"),
    0xFD: ("REVERT", 2, 0, "byzantium"), 0xFF: ("SELFDESTRUCT", 1, 0, "frontier"),
}
for _n in range(1, 33):
    OPCODES[0x5F + _n] = ("PUSH%d" % _n, 0, 1, "frontier")
for _n in range(1, 17):
    OPCODES[0x7F + _n] = ("DUP%d" % _n, _n, _n + 1, "frontier")
    OPCODES[0x8F + _n] = ("SWAP%d" % _n, _n + 1, _n + 1, "frontier")
for _n in range(5):
    OPCODES[0xA0 + _n] = ("LOG%d" % _n, 2 + _n, 0, "frontier")


def exists(byte, fork):
    from oracle.forks import ge
    return byte in OPCODES and ge(fork, OPCODES[byte][3])
