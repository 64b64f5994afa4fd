"""Memory and copying rules (independent of the code)."""


def words(n):
    """number of 32-byte words holding n bytes; forks on divisibility (products of word counts then stay simple)"""
    if n % 32 == 0:
        return n // 32
    return n // 32 + 1


def mem_cost(n):
    w = words(n)
    return 3 * w + w * w // 512


class Mem:
    """what memory must look like after the accesses of one instruction"""

    def __init__(self, cx, old):
        self.cx = cx
        self.old = old            # bytes before
        self.size0 = len(old)
        self.size = len(old)
        self.cost = 0

    def touch(self, offset, n):
        """account for an access of n bytes at offset; forks on n == 0 and on growth"""
        if n == 0:
            return
        end = words(offset + n) * 32
        if end > self.size:
            self.cost = self.cost + mem_cost(end) - mem_cost(self.size)
            self.size = end

    def grown(self):
        """old contents, zero extended"""
        cx, old = self.cx, self.old
        return cx.bytes_of(self.size, lambda i: cx.at0(old, i))

    def written(self, offset, data, n):
        """old contents with data (n bytes) at offset"""
        cx, old = self.cx, self.old

        def f(i):
            inside = cx.and_(offset <= i, i < offset + n)
            return cx.ite(inside, cx.at0(data, i - offset), cx.at0(old, i))
        return cx.bytes_of(self.size, f)


def padded(cx, src, start, n):
    """n bytes of src from start, zeros past its end"""
    return cx.bytes_of(n, lambda i: cx.at0(src, start + i))
