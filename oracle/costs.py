"""Access prices by fork."""
from oracle.forks import ge


def account_access(k, addr, kind):
    """price of touching an account by BALANCE ('balance'), EXTCODESIZE/EXTCODECOPY ('ext'), EXTCODEHASH ('hash'),
    the CALL family ('call'); forks on the access set from Berlin"""
    f = k.fork
    if ge(f, "berlin"):
        return 100 if k.warm(addr) else 2600
    if kind == "balance":
        return 700 if ge(f, "istanbul") else 400 if ge(f, "tangerine_whistle") else 20
    if kind == "hash":
        return 700 if ge(f, "istanbul") else 400
    if kind == "ext":
        return 700 if ge(f, "tangerine_whistle") else 20
    if kind == "call":
        return 700 if ge(f, "tangerine_whistle") else 40
    raise AssertionError(kind)
