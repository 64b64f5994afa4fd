"""Fork order and protocol feature predicates (independent of the code)."""

FORKS = [
    "frontier", "homestead", "dao_fork", "tangerine_whistle", "spurious_dragon", "byzantium", "constantinople",
    "istanbul", "muir_glacier", "berlin", "london", "arrow_glacier", "gray_glacier", "paris", "shanghai", "cancun",
    "prague", "osaka",
]
IDX = {f: i for i, f in enumerate(FORKS)}


def ge(fork, other):
    return IDX[fork] >= IDX[other]


def lt(fork, other):
    return IDX[fork] < IDX[other]


def since(other):
    return [f for f in FORKS if ge(f, other)]


def until(other):
    return [f for f in FORKS if lt(f, other)]
