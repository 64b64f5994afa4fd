"""A reference interpreter for the opcodes whose effect is confined to the stack and the program counter."""
from oracle.mem import mem_cost
from oracle.opcodes import OPCODES, exists

GAS = {0x00: 0, 0x56: 8, 0x57: 10, 0x58: 2, 0x5A: 2, 0x5B: 1, 0x50: 2, 0x01: 3, 0x5F: 2}


def jumpdests(code, fork):
    """positions of JUMPDEST bytes that are instructions"""
    out = []
    i = 0
    while i < len(code):
        b = code[i]
        if b == 0x5B:
            out.append(i)
        if 0x60 <= b and b <= 0x7F:
            i += b - 0x5F
        i += 1
    return out


def run(code, gas, fork, limit=200):
    """code: list of concrete ints except push data, which may be symbolic; returns (status, gas left, stack)"""
    pc = 0
    stack = []
    dests = jumpdests(code, fork)
    for _ in range(limit):
        if pc >= len(code):
            return "ok", gas, stack
        b = code[pc]
        if b == 0xFD and exists(b, fork):
            if len(stack) < 2:
                return "halt", 0, stack
            off, size = stack.pop(), stack.pop()
            cost = mem_cost(off + size) if size != 0 else 0
            if gas < cost:
                return "halt", 0, stack
            return "revert", gas - cost, stack
        if not exists(b, fork):
            return "halt", 0, stack
        name, pops, pushes, first = OPCODES[b]
        if len(stack) < pops:
            return "halt", 0, stack
        cost = 3 if 0x60 <= b and b <= 0x7F else GAS[b]
        if gas < cost:
            return "halt", 0, stack
        gas = gas - cost
        args = []
        for _i in range(pops):
            args.append(stack.pop())
        npc = pc + 1
        if name == "STOP":
            return "ok", gas, stack
        if name == "JUMP" or name == "JUMPI":
            if name == "JUMP" or args[1] != 0:
                hit = None
                for d in dests:
                    if args[0] == d:
                        hit = d
                        break
                if hit is None:
                    return "halt", 0, stack
                npc = hit
        elif name == "PC":
            stack.append(pc)
        elif name == "GAS":
            stack.append(gas)
        elif name == "ADD":
            stack.append((args[0] + args[1]) % 2**256)
        elif 0x5F <= b and b <= 0x7F:
            n = b - 0x5F
            w = 0
            for j in range(n):
                w = w * 256 + (code[pc + 1 + j] if pc + 1 + j < len(code) else 0)
            stack.append(w)
            npc = pc + 1 + n
        pc = npc
    raise AssertionError("reference ran past its bound")
