"""What a reader must deliver for generated archives, and comparing it with what warcio delivers."""
import io
from vk.core import eq, req, fail, Violation
from vk.streams import source


def iterate(data, dl=None, start=0, cls=None, **kw):
    from warcio.archiveiterator import ArchiveIterator
    dl = dl or {'mode': 'bytesio', 'sizes': []}
    return (cls or ArchiveIterator)(source(data, dl['mode'], dl['sizes'], start), **kw)


def check_head(rec, b, what, parsed=True):
    """record and HTTP headers of a WARC record"""
    eq(rec.format, 'warc', what + ' format')
    eq(rec.rec_type, b.type, what + ' type')
    eq(rec.rec_headers.protocol, b.version, what + ' version')
    eq(rec.rec_headers.headers, b.headers, what + ' WARC headers')
    eq(rec.length, len(b.block), what + ' length')
    if b.http and parsed:
        req(rec.http_headers is not None, '%s: HTTP headers not parsed', what)
        eq(rec.http_headers.protocol, b.http[0], what + ' HTTP protocol')
        eq(rec.http_headers.statusline, b.http[1], what + ' HTTP statusline')
        eq(rec.http_headers.headers, b.http[2], what + ' HTTP headers')
    else:
        eq(rec.http_headers, None, what + ' HTTP headers')


def drain(f, n=8192):
    out = []
    while True:
        x = f.read(n)
        if not x:
            return b''.join(out)
        out.append(x)


def check_raw(rec, b, what, parsed=True):
    eq(drain(rec.raw_stream), b.payload if parsed else b.block, what + ' raw payload')


def check_content(rec, b, what, parsed=True):
    eq(drain(rec.content_stream()), b.content if parsed else b.block, what + ' content')


def snapshot(it, mode):
    """Everything delivered, as literals; mode 'raw' or 'content'."""
    out = []
    for rec in it:
        h = rec.http_headers
        body = drain(rec.raw_stream if mode == 'raw' else rec.content_stream())
        out.append((rec.format, rec.rec_type, rec.rec_headers.protocol, tuple(rec.rec_headers.headers), rec.content_type, rec.length,
                    h and (h.protocol, h.statusline, tuple(h.headers)), body,
                    rec.digest_checker.passed, tuple(rec.digest_checker.problems)))
    return out
