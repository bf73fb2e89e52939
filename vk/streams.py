"""Byte sources and sinks with controlled delivery, and with fuel against endless reads."""
import io
from vk.core import Violation


class Source(object):
    """A read-only byte stream over `data`.
    sizes: at most sizes[k % len] bytes are returned by the k-th read ([] = as asked)
    seek / tell: whether these work.  start: initial position."""
    def __init__(self, data, sizes=(), seek=False, tell=False, start=0, line=True):
        self.data, self.pos, self.sizes, self.k = data, start, list(sizes), 0
        self.can_seek, self.can_tell = seek, tell
        self.closed = False
        self.max_pos = start
        self.fuel = 40 * len(data) + 20000
        self.eofs = 0
        self.max_ask = 0         # most bytes asked for by one read; -1 for all
        if not line:
            self.readline = None

    def _burn(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Violation('the library keeps reading without end')

    def read(self, n=-1):
        self._burn()
        if self.closed:
            raise ValueError('read of closed source')
        left = len(self.data) - self.pos
        if self.max_ask >= 0:
            self.max_ask = -1 if n is None or n < 0 else max(self.max_ask, n)
        n = left if n is None or n < 0 else min(n, left)
        # beyond 400 short reads only the tail is delivered piecemeal (cost)
        if self.sizes and n and (self.k < 400 or left < 100):
            n = max(1, min(n, self.sizes[self.k % len(self.sizes)]))
            self.k += 1
        out = self.data[self.pos:self.pos + n]
        self.pos += n
        self.max_pos = max(self.max_pos, self.pos)
        return out

    def readline(self, n=-1):
        self._burn()
        end = self.data.find(b'\n', self.pos)
        end = len(self.data) if end < 0 else end + 1
        if n is not None and n >= 0:
            end = min(end, self.pos + n)
        out = self.data[self.pos:end]
        self.pos = end
        self.max_pos = max(self.max_pos, self.pos)
        return out

    def tell(self):
        if not self.can_tell:
            raise io.UnsupportedOperation('tell')
        return self.pos

    def seek(self, pos, whence=0):
        if not self.can_seek:
            raise io.UnsupportedOperation('seek')
        self.pos = pos if whence == 0 else self.pos + pos if whence == 1 else len(self.data) + pos
        return self.pos

    def seekable(self):
        return self.can_seek

    def readable(self):
        return True

    def close(self):
        self.closed = True


REFUSE = [io.UnsupportedOperation, OSError, AttributeError, NotImplementedError, ValueError, TypeError, Exception]


class Refusing(Source):
    """tell and seek are there, but end in an error of some kind"""
    def tell(self):
        raise REFUSE[len(self.data) % len(REFUSE)]('tell')

    def seek(self, pos, whence=0):
        raise REFUSE[len(self.data) % len(REFUSE)]('seek')


class NoTell(Source):
    """No seek and no tell attribute at all (like some network objects)."""
    tell = property(lambda self: (_ for _ in ()).throw(AttributeError('tell')))
    seek = property(lambda self: (_ for _ in ()).throw(AttributeError('seek')))


def source(data, mode, sizes=(), start=0):
    """mode: 'bytesio' | 'file' semantics | 'tell' | 'none' | 'noattr' | 'seek'"""
    if mode == 'bytesio':
        s = io.BytesIO(data)
        s.seek(start)
        return s
    if mode == 'seek':
        return Source(data, sizes, True, True, start)
    if mode == 'tell':
        return Source(data, sizes, False, True, start)
    if mode == 'none':
        return Refusing(data, sizes, False, False, start)
    if mode == 'noattr':
        return NoTell(data, sizes, False, False, start)
    raise ValueError(mode)


class Sink(object):
    """Append-only output that knows what has been flushed, and can fail."""
    def __init__(self, fail_at=None, exc=None, partial=0):
        self.buf, self.flushed, self.nwrites, self.nflush = bytearray(), 0, 0, 0
        self.fail_at, self.exc, self.partial = fail_at, exc, partial
        self.closed = False

    def write(self, b):
        self.nwrites += 1
        if self.fail_at is not None and self.nwrites == self.fail_at:
            self.buf += bytes(b)[:self.partial]
            raise self.exc
        self.buf += bytes(b)
        return len(b)

    def flush(self):
        self.nflush += 1
        self.flushed = len(self.buf)

    def tell(self):
        return len(self.buf)

    def getvalue(self):
        return bytes(self.buf)
