import io
from hypothesis import strategies as st
from vk import gen, ref
from vk.core import sub, eq, req, fail
from vk.views import iterate, drain

stamp = st.builds(lambda y, mo, d, h, mi, s: '%04d%02d%02d%02d%02d%02d' % (y, mo, d, h, mi, s), st.integers(1990, 2030), st.integers(1, 12), st.integers(1, 28),
                  st.integers(0, 23), st.integers(0, 59), st.integers(0, 59))
cases = st.builds(lambda a, stm, d, bs, n, dig, e: {'a': a, 'stamps': stm, 'dl': d, 'bs': bs, 'nrp': n, 'dig': dig, 'ens': e}, gen.arcs(max_size=5), st.lists(stamp, max_size=4), gen.delivery,
                  gen.block_size, st.booleans(), st.booleans(), st.booleans())


def iso(d):
    return '%s-%s-%sT%s:%s:%sZ' % (d[:4], d[4:6], d[6:8], d[8:10], d[10:12], d[12:14])


def http(rec, b, what, nrp, ens=False):
    if b.http and not nrp:
        req(rec.http_headers is not None, '%s: HTTP headers not parsed', what)
        eq((rec.http_headers.protocol, rec.http_headers.statusline, rec.http_headers.headers), b.http, what + ' HTTP headers')
        return b.payload
    if not ens:
        eq(rec.http_headers, None, what + ' HTTP headers')
    return b.block


@sub('C14', 'arc', cases, 8000,
     rule='generated ARC files: URLs with spaces, any dates/types/blocks/separators, plain or gzipped; read as ARC and as WARC, and written out; non-trivial: >= 2 records')
def arc(case, stats):
    from warcio.archiveiterator import ArchiveIterator, WARCIterator, ARCIterator
    from warcio.exceptions import ArchiveLoadFailed
    from warcio.warcwriter import BufferWARCWriter
    a = dict(case['a'])
    a['more'] = [dict(m) for m in a.get('more', ())]
    if case['stamps']:
        for m in [a] + a.get('more', []):
            m['recs'] = [dict(r, date=case['stamps'][i % len(case['stamps'])]) for i, r in enumerate(m['recs'])]
    data, bs = gen.assemble_arc(a)
    kw = dict(block_size=case['bs'], no_record_parse=case['nrp'], check_digests=case['dig'])
    nrp = case['nrp']
    stats.nontrivial(len(bs) >= 2)
    stats.label('gzip', bool(a['gz']))
    stats.label('header record', a['header'])
    stats.label('files put together', bool(a['more']))
    for cls in (ArchiveIterator, ARCIterator):
        n = 0
        it = iterate(data, case['dl'], cls=cls, **kw)
        for rec in it:
            req(n < len(bs), 'more records than stored')
            b = bs[n]
            what = 'ARC record %d (%s)' % (n, cls.__name__)
            eq(rec.format, 'arc', what + ' format')
            eq(rec.rec_type, b.kind, what + ' type')
            eq([rec.rec_headers.get_header(k) for k in ('uri', 'ip-address', 'archive-date', 'content-type', 'length')],
               [b.url, b.ip, b.date, b.ctype, str(b.length_field)], what + ' header fields')
            eq(len(rec.rec_headers.headers), 5, what + ' number of fields')
            eq(rec.length, len(b.block), what + ' length')
            eq(rec.content_type, b.ctype, what + ' content type')
            want = http(rec, b, what, nrp)
            eq(drain(rec.raw_stream), want, what + ' content')
            eq(rec.digest_checker.passed, None, what + ' verdict')
            n += 1
        eq(n, len(bs), 'records delivered (%s)' % cls.__name__)
        eq(it.err_count, 0, 'errors')
    # on-the-fly conversion
    it = iterate(data, case['dl'], arc2warc=True, **kw)
    w = BufferWARCWriter(gzip=False)
    n, ids = 0, []
    for rec in it:
        req(n < len(bs), 'more converted records than stored')
        b = bs[n]
        what = 'converted record %d' % n
        eq(rec.format, 'warc', what + ' format')
        eq(rec.rec_type, 'warcinfo' if b.kind == 'arc_header' else 'response', what + ' type')
        h = rec.rec_headers
        eq(h.protocol, 'WARC/1.0', what + ' version')
        eq(h.get_header('WARC-Type'), rec.rec_type, what + ' WARC-Type')
        i = h.get_header('WARC-Record-ID')
        req(i.startswith('<urn:uuid:') and i.endswith('>') and i not in ids, '%s: record ID %r', what, i)
        ids.append(i)
        eq(h.get_header('WARC-Date'), iso(b.date), what + ' date')
        eq(h.get_header('WARC-IP-Address'), b.ip, what + ' IP address')
        if b.kind == 'arc_header':
            eq(h.get_header('WARC-Filename'), b.url[len('filedesc://'):], what + ' file name')
            eq(h.get_header('WARC-Target-URI'), None, what + ' target URI')
            eq(h.get_header('Content-Type'), b.ctype, what + ' content type')
        else:
            eq(h.get_header('WARC-Target-URI'), b.url.replace(' ', '%20'), what + ' target URI')
            eq(rec.content_type.replace(' ', ''), 'application/http;msgtype=response', what + ' content type')
            eq(h.get_header('Content-Type'), rec.content_type, what + ' content type header')
        eq(rec.length, len(b.block), what + ' length')
        want = http(rec, b, what, nrp)
        if n % 2 == 0 or not case['ens']:
            w.write_record(rec)
        else:
            eq(drain(rec.raw_stream), want, what + ' content')
        n += 1
    eq(n, len(bs), 'converted records')
    # what was written is valid WARC with the same content
    keep = [(b, i) for k, (b, i) in enumerate(zip(bs, ids)) if k % 2 == 0 or not case['ens']]
    out = ref.parse_warc(w.get_contents(), 'written conversion')
    eq(len(out), len(keep), 'records written')
    for (b, i), r in zip(keep, out):
        eq(r.block, b.block, 'block of the written conversion of %s' % b.url)
        eq(r.get('WARC-Record-ID'), i, 'record ID')
        eq(r.get('WARC-Date'), iso(b.date), 'date')
        eq(r.all('WARC-Block-Digest'), [ref.b32(b.block)], 'block digest')
        eq(r.type, 'warcinfo' if b.kind == 'arc_header' else 'response', 'type')
    for rec, (b, i) in zip(ArchiveIterator(io.BytesIO(w.get_contents())), keep):
        eq(drain(rec.content_stream()), b.payload, 'content read from the conversion')
    # the wrong kind of iterator
    if bs:
        for c2, d2, in ((WARCIterator, data), (ARCIterator, WARC), (ARCIterator, ref.gz(WARC))):
            try:
                list(iterate(d2, case['dl'], cls=c2, **kw))
                fail('%s accepted the other format', c2.__name__)
            except ArchiveLoadFailed:
                pass


WARC = ref.warc_bytes('WARC/1.0', [('WARC-Type', 'resource'), ('WARC-Record-ID', '<urn:uuid:1>'), ('WARC-Date', '2000-01-01T00:00:00Z'), ('Content-Length', '3')], b'abc')
