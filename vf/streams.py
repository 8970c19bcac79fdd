"""Underlying streams for the workloads: kinds, taps and injected faults."""
import io
import os
import tempfile


class WriteOnly(io.BufferedIOBase):
    """A non-seekable sink (socket-like)."""

    def __init__(self):
        self.buf = bytearray()

    def writable(self):
        return True

    def write(self, b):
        if self.closed:
            raise ValueError("write to closed")
        self.buf += b
        return len(b)


class ReadOnly(io.BufferedIOBase):
    """A non-seekable source."""

    def __init__(self, data):
        self.data, self.p = bytes(data), 0

    def readable(self):
        return True

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data) - self.p
        b = self.data[self.p:self.p + n]
        self.p += len(b)
        return b


class Far(io.BytesIO):
    """A window far into a huge stream: positions start at `base`."""

    def __init__(self, data, base):
        super().__init__(data)
        self.base = base

    def tell(self):
        return super().tell() + self.base

    def seek(self, p, w=0):
        return super().seek(p - self.base if w == 0 else p, w) + self.base


class NoSeek(io.BytesIO):
    """Knows its position but cannot seek (a tape, a response body)."""

    def seekable(self):
        return False

    def seek(self, *a):
        raise io.UnsupportedOperation("seek")


class RawSink(io.RawIOBase):
    """Raw (unbuffered) stream over memory, seekable, counts closes."""

    def __init__(self, initial=b"", pos=0):
        self.b = io.BytesIO(initial)
        self.b.seek(pos)
        self.closes = 0

    def writable(self):
        return True

    def readable(self):
        return True

    def seekable(self):
        return True

    def write(self, d):
        if self.closed:
            raise ValueError("write to closed raw stream")
        return self.b.write(bytes(d))

    def readinto(self, b):
        d = self.b.read(len(b))
        b[:len(d)] = d
        return len(d)

    def seek(self, p, w=0):
        return self.b.seek(p, w)

    def tell(self):
        return self.b.tell()

    def close(self):
        if not self.closed:
            self.closes += 1
        super().close()


class FaultyBuffered(io.BytesIO):
    """Buffered stream whose k-th write call fails."""

    def __init__(self, fail_at, initial=b""):
        super().__init__(initial)
        self.calls, self.fail_at, self.close_calls = 0, fail_at, 0

    def write(self, d):
        if len(d):
            self.calls += 1
            if self.calls == self.fail_at:
                raise OSError("injected write failure")
        return super().write(d)

    def close(self):
        self.close_calls += 1
        super().close()


class Scratch:
    """Temporary directory that is always removed."""

    def __enter__(self):
        self.t = tempfile.TemporaryDirectory(prefix="vf-")
        return self.t.name

    def __exit__(self, *a):
        self.t.cleanup()
        return False


def getbytes(path):
    with open(path, "rb") as f:
        return f.read()


def putbytes(path, data):
    with open(path, "wb") as f:
        f.write(data)
    return path


def over(ctx, pre, body, write, what):
    """Writing onto a stream that holds older content (a file opened for
    update) gives the same bytes and leaves what follows alone."""
    rng = ctx.rng
    old = bytes([rng.choice([255, 0, 0x5a])]) * (len(body) + 9) if rng.random() < 0.5 else rng.randbytes(len(body) + rng.choice([0, 1, 40]))
    old = old[:rng.randrange(len(old) + 1)] if rng.random() < 0.3 else old
    buf = io.BytesIO(pre + old)
    buf.seek(len(pre))
    write(buf)
    got = buf.getvalue()
    ctx.equal(got[:len(pre)], pre, "%s over older content: bytes before" % what)
    ctx.equal(got[len(pre):len(pre) + len(body)], body, "%s over older content: bytes written" % what)
    ctx.equal(got[len(pre) + len(body):], old[len(body):], "%s over older content: bytes after" % what)
    ctx.count("over_older_content")
