"""Reference encoders and parsers, written from the formats' specifications and
independent of warcio: the oracles of the property modules."""
import base64, hashlib, struct, zlib

from vk.core import Violation


# ---------------------------------------------------------------------------- digests
def b32(data, algo='sha1'):
    return '%s:%s' % (algo, base64.b32encode(hashlib.new(algo, data).digest()).decode())


# ---------------------------------------------------------------------------- gzip
def gz(data, level=9, name=None, extra=None, comment=None, hcrc=False, mtime=0, xos=(0, 255), cuts=()):
    """One gzip member with the given optional header fields; `cuts` inserts sync flushes."""
    flags = (4 if extra is not None else 0) | (8 if name is not None else 0) | \
            (16 if comment is not None else 0) | (2 if hcrc else 0)
    head = b'\x1f\x8b\x08' + struct.pack('<BIBB', flags, mtime, xos[0], xos[1])
    if extra is not None:
        head += struct.pack('<H', len(extra)) + extra
    if name is not None:
        head += name + b'\0'
    if comment is not None:
        head += comment + b'\0'
    if hcrc:
        head += struct.pack('<H', zlib.crc32(head) & 0xffff)
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    body, last = b'', 0
    for k in sorted(cuts):
        k = min(k, len(data))
        body += c.compress(data[last:k]) + c.flush(zlib.Z_SYNC_FLUSH)
        last = k
    body += c.compress(data[last:]) + c.flush()
    return head + body + struct.pack('<II', zlib.crc32(data) & 0xffffffff, len(data) & 0xffffffff)


def members(raw, what='archive'):
    """[(offset, stored length, data)]; every byte must belong to a complete member."""
    out, pos = [], 0
    while pos < len(raw):
        d = zlib.decompressobj(31)
        try:
            data = d.decompress(raw[pos:]) + d.flush()
        except zlib.error as e:
            raise Violation('%s: bytes at %d are not a gzip member: %s (%r)' % (what, pos, e, raw[pos:pos + 40]))
        if not d.eof:
            raise Violation('%s: gzip member at %d is incomplete' % (what, pos))
        used = len(raw) - pos - len(d.unused_data)
        out.append((pos, used, data))
        pos += used
    return out


# ---------------------------------------------------------------------------- WARC
class Rec(object):
    """One record as stored: version, [(name, value)] text pairs, block bytes."""
    __slots__ = ('version', 'headers', 'block', 'offset', 'length', 'head')

    def all(self, name):
        return [v for n, v in self.headers if n.lower() == name.lower()]

    def get(self, name):
        v = self.all(name)
        return v[0] if v else None

    @property
    def type(self):
        return self.get('WARC-Type')


def parse_warc(data, what='output', base=0):
    """Strict parse of a plain archive: records end in exactly CRLF CRLF."""
    recs, pos = [], 0
    while pos < len(data):
        r = Rec()
        end = data.find(b'\r\n\r\n', pos)
        if end < 0:
            raise Violation('%s: no end of record header at %d: %r' % (what, pos, data[pos:pos + 80]))
        lines = data[pos:end].split(b'\r\n')
        r.head = data[pos:end + 4]
        if not lines[0].startswith(b'WARC/') or lines[0].strip() != lines[0] or b' ' in lines[0]:
            raise Violation('%s: bad version line at %d: %r' % (what, pos, lines[0][:80]))
        r.version = lines[0].decode('ascii')
        r.headers = []
        for line in lines[1:]:
            if b'\n' in line or b'\r' in line:
                raise Violation('%s: bare CR or LF in a record header: %r' % (what, line[:80]))
            n, sep, v = line.partition(b':')
            if not sep or not n or n != n.strip():
                raise Violation('%s: bad record header line %r' % (what, line[:80]))
            if v and not v.startswith(b' '):
                raise Violation('%s: bad record header line %r' % (what, line[:80]))
            r.headers.append((n.decode('utf-8'), v[1:].decode('utf-8')))
        cl = r.all('Content-Length')
        if len(cl) != 1 or not cl[0].isdigit():
            raise Violation('%s: Content-Length of record at %d is %r' % (what, pos, cl))
        n = int(cl[0])
        b = end + 4
        r.block = data[b:b + n]
        if len(r.block) != n:
            raise Violation('%s: record at %d has Content-Length %d but only %d block bytes' % (what, pos, n, len(r.block)))
        if data[b + n:b + n + 4] != b'\r\n\r\n':
            raise Violation('%s: record at %d: %d block bytes not followed by CRLF CRLF but %r' % (
                what, pos, n, data[b + n:b + n + 12]))
        r.offset, r.length = base + pos, b + n - pos
        recs.append(r)
        pos = b + n + 4
    return recs


def parse_any(raw, gzipped, what='output'):
    """Parse a written archive; in gzip mode exactly one record per member."""
    if not gzipped:
        return parse_warc(raw, what)
    out = []
    for off, length, data in members(raw, what):
        rs = parse_warc(data, what)
        if len(rs) != 1:
            raise Violation('%s: gzip member at %d holds %d records' % (what, off, len(rs)))
        rs[0].offset, rs[0].length = off, length
        out += rs
    return out


def split_http(block):
    """(first line, [(name, value)], payload) of a CRLF-formatted HTTP message, bytes."""
    end = block.find(b'\r\n\r\n')
    if end < 0:
        raise Violation('no HTTP header end in block %r' % block[:80])
    lines = block[:end].split(b'\r\n')
    heads = []
    for l in lines[1:]:
        n, sep, v = l.partition(b':')
        if not sep:
            raise Violation('bad HTTP header line %r' % l[:80])
        heads.append((n, v[1:] if v.startswith(b' ') else v))
    return lines[0], heads, block[end + 4:]


def warc_bytes(version, headers, block, nl=b'\r\n', tail=b'\r\n\r\n'):
    """headers include Content-Length."""
    return (version.encode() + nl + b''.join(n.encode('utf-8') + b': ' + v.encode('utf-8') + nl for n, v in headers)
            + nl + block + tail)


def http_bytes(first, headers):
    """The HTTP header block, ASCII/latin-1/utf-8 text given as str (utf-8) or bytes."""
    enc = lambda x: x if isinstance(x, bytes) else x.encode('utf-8')
    return enc(first) + b'\r\n' + b''.join(enc(n) + b': ' + enc(v) + b'\r\n' for n, v in headers) + b'\r\n'


# ---------------------------------------------------------------------------- content / transfer encodings
def chunk(data, sizes, upper=False, zeros=0, ext=b''):
    """chunked body; sizes are cycled (each >= 1)"""
    out, pos, k = [], 0, 0
    while pos < len(data):
        n = sizes[k % len(sizes)] if sizes and k < 600 else len(data)     # bounded number of chunks
        part = data[pos:pos + max(1, n)]
        h = b'%X' % len(part) if upper else b'%x' % len(part)
        out.append(b'0' * zeros + h + ext + b'\r\n' + part + b'\r\n')
        pos += len(part)
        k += 1
    out.append(b'0' * (zeros + 1) + ext + b'\r\n\r\n')
    return b''.join(out)


def raw_deflate(data, level=6):
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    return c.compress(data) + c.flush()


def encode(data, enc, level=6):
    if enc == 'gzip':
        return gz(data, level)
    if enc == 'deflate':
        return zlib.compress(data, level)
    if enc == 'rawdeflate':
        return raw_deflate(data, level)
    if enc == 'br':
        import brotli
        return brotli.compress(data, quality=min(level, 5))
    return data
