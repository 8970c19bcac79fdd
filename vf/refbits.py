"""Reference bit image, written from the format description (little endian,
least significant bit first) and not from dustmaker's code."""


class BitsOut:
    """Append-only bit string."""

    def __init__(self):
        self.acc = 0
        self.n = 0

    def u(self, bits, val):
        if not 0 <= val < (1 << bits):
            raise ValueError("reference: %d does not fit %d bits" % (val, bits))
        self.acc |= val << self.n
        self.n += bits

    def s(self, bits, val):
        self.u(bits, val & ((1 << bits) - 1))

    def raw(self, data):
        self.acc |= int.from_bytes(data, "little") << self.n
        self.n += 8 * len(data)

    def align(self):
        self.n = (self.n + 7) & ~7

    def bytes(self):
        return self.acc.to_bytes((self.n + 7) // 8, "little")


class FastOut:
    """Same interface, chunked so that large outputs stay linear."""

    def __init__(self):
        self.parts = []
        self.acc = 0
        self.k = 0
        self.base = 0

    @property
    def n(self):
        return self.base + self.k

    def u(self, bits, val):
        if not 0 <= val < (1 << bits):
            raise ValueError("reference: %d does not fit %d bits" % (val, bits))
        self.acc |= val << self.k
        self.k += bits
        if self.k >= 4096:
            self._spill()

    def _spill(self):
        nb = self.k >> 3
        self.parts.append((self.acc & ((1 << (8 * nb)) - 1)).to_bytes(nb, "little"))
        self.acc >>= 8 * nb
        self.k -= 8 * nb
        self.base += 8 * nb

    def s(self, bits, val):
        self.u(bits, val & ((1 << bits) - 1))

    def raw(self, data):
        if self.k & 7 == 0:
            self._spill()
            self.parts.append(bytes(data))
            self.base += 8 * len(data)
        else:
            self.acc |= int.from_bytes(data, "little") << self.k
            self.k += 8 * len(data)
            self._spill()

    def align(self):
        self.k = (self.k + 7) & ~7
        self._spill()

    def bytes(self):
        tail = self.acc.to_bytes((self.k + 7) // 8, "little")
        return b"".join(self.parts) + tail


class RefFormatError(Exception):
    """The bytes do not follow the format."""


class BitsIn:
    """Random-access bit reader over bytes."""

    def __init__(self, data, pos=0):
        self.data = bytes(data)
        self.pos = pos

    def u(self, bits):
        a, b = self.pos, self.pos + bits
        if b > 8 * len(self.data):
            raise RefFormatError("reference: read past the end (%d > %d bits)" % (b, 8 * len(self.data)))
        v = int.from_bytes(self.data[a >> 3:(b + 7) >> 3], "little") >> (a & 7)
        self.pos = b
        return v & ((1 << bits) - 1)

    def s(self, bits):
        v = self.u(bits)
        return v - (1 << bits) if bits and v >> (bits - 1) else v

    def raw(self, n):
        if self.pos & 7 == 0:
            a = self.pos >> 3
            if a + n > len(self.data):
                raise RefFormatError("reference: read past the end")
            self.pos += 8 * n
            return self.data[a:a + n]
        return self.u(8 * n).to_bytes(n, "little")

    def align(self, zero=False):
        p = (self.pos + 7) & ~7
        if zero and self.u(p - self.pos):
            raise RefFormatError("reference: non-zero padding")
        self.pos = p
