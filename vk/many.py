"""Archives that are unusual by quantity: thousands of header lines, very long lines, hundreds of records, thousands of
chunks, blank lines or empty gzip members.  Sub-check `many` of several properties."""
import io, json, os
from hypothesis import strategies as st
from vk import core, ref, gen, cli
from vk.core import sub, eq, req
from vk.views import iterate, drain, check_head

KINDS = {'http headers': 4000, 'record headers': 4000, 'long http value': 400000, 'long record value': 400000, 'long uri': 100000, 'long name': 100000, 'long status': 200000, 'continuation': 3000,
         'records': 500, 'chunks': 6000, 'chunk ext': 50, 'blank lines': 3000, 'empty members': 800, 'flushes': 800, 'lines': 6000}
size = st.one_of(st.sampled_from([99, 100, 101, 128, 255, 256, 257, 300, 500, 512, 999, 1000, 1001, 1024, 1025, 2000, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 131072]), st.integers(1, 400000))
cases = st.builds(lambda k, n, g, bs, dl, p, d: {'kind': k, 'n': (n - 1) % KINDS[k] + 1, 'gz': g, 'bs': bs, 'dl': dl, 'parse': p, 'dig': d},
                  st.sampled_from(sorted(KINDS)), size, st.booleans(), st.sampled_from([16384, 16384, 1000, 70000]), st.sampled_from(['bytesio', 'bytesio', 'noattr']), st.sampled_from([True, True, False]), st.booleans())


class Big(object):
    """one record, with the attributes that vk.gen gives records"""
    def __init__(self, i, extra=(), http=(), status='200 OK', body=b'abc', stored=None, uri=None, raw_head=None, version='WARC/1.0'):
        self.type, self.version = 'response', version
        self.http = ('HTTP/1.1', status, [tuple(h) for h in http])
        self.head = ref.http_bytes('HTTP/1.1 ' + status, self.http[2]) if raw_head is None else raw_head
        self.content, self.payload = body, body if stored is None else stored
        self.block = self.head + self.payload
        self.headers = [('WARC-Type', 'response'), ('WARC-Record-ID', '<urn:uuid:00000000-0000-4000-8000-%012d>' % i), ('WARC-Target-URI', uri or 'http://example.com/%d' % i), ('WARC-Date', '2020-01-01T00:00:00Z'),
                        ('WARC-Payload-Digest', ref.b32(self.payload)), ('WARC-Block-Digest', ref.b32(self.block))] + list(extra) + \
                       [('Content-Type', 'application/http; msgtype=response'), ('Content-Length', str(len(self.block)))]
        self.raw = ref.warc_bytes(version, self.headers, self.block)
        self.canonical = raw_head is None
        self.tail = b''         # after the record
        self.gz = {}


def build(case):
    """-> archive bytes, records with their offset and length"""
    k, n = case['kind'], case['n']
    mid = {
        'http headers': lambda: Big(1, http=[('X-%d' % (j % 7), str(j)) for j in range(n)]),
        'record headers': lambda: Big(1, extra=[('X-%d' % (j % 7), str(j)) for j in range(n)]),
        'long http value': lambda: Big(1, http=[('A', 'b'), ('X', 'y' * n), ('Z', 'z')]),
        'long record value': lambda: Big(1, extra=[('X', 'y' * n), ('Z', 'z')]),
        'long uri': lambda: Big(1, uri='http://example.com/' + 'u' * n),
        'long name': lambda: Big(1, extra=[('N' * n, 'y')], http=[('M' * n, 'y'), ('Z', 'z')]),
        'long status': lambda: Big(1, status='200 ' + 's' * n, http=[('Z', 'z')]),
        'continuation': lambda: Big(1, http=[('X', 'a' + ' %s' * n % tuple(str(j % 10) for j in range(n))), ('Z', 'z')], raw_head=b'HTTP/1.1 200 OK\r\nX: a\r\n' + b''.join(b' %d\r\n' % (j % 10) for j in range(n)) + b'Z: z\r\n\r\n'),
        'chunks': lambda: Big(1, http=[('Transfer-Encoding', 'chunked')], body=bytes(j % 251 for j in range(n)), stored=b''.join(b'1\r\n%c\r\n' % (j % 251) for j in range(n)) + b'0\r\n\r\n'),
        'chunk ext': lambda: Big(1, http=[('Transfer-Encoding', 'chunked')], body=b'abc', stored=b'3;' + b'e' * n + b'\r\nabc\r\n0\r\n\r\n'),
        'lines': lambda: Big(1, body=b'\r\n' * n),
    }.get(k, lambda: Big(1))()
    bs = [Big(0), mid] + [Big(j) for j in range(2, n if k == 'records' else 3)]
    if k == 'blank lines':
        bs[0].tail = bs[1].tail = b'\r\n' * n
    out, pos = [], 0
    for b in bs:
        b.offset = pos
        if case['gz']:
            stored = ref.gz(b.raw + b.tail, cuts=range(0, n, max(1, n // 800)) if k == 'flushes' and b is mid else ())
            b.length = len(stored)
        else:
            stored = b.raw + b.tail
            b.length = len(b.raw) - 4
        out.append(stored)
        pos += len(stored)
        if k == 'empty members' and case['gz'] and b is not bs[-1]:
            b.empties = ref.gz(b'') * n
            out.append(b.empties)
            pos += len(b.empties)
    return b''.join(out), bs


def reads(case, stats, **kw):
    data, bs = build(case)
    stats.nontrivial(case['n'] >= 50)
    stats.label(case['kind'])
    it = iterate(data, {'mode': case['dl'], 'sizes': []}, block_size=case['bs'], no_record_parse=not case['parse'], check_digests=case['dig'], **kw)
    got = 0
    for i, rec in enumerate(it):
        req(i < len(bs), 'more records than the %d there are', len(bs))
        b, what = bs[i], 'record %d' % i
        check_head(rec, b, what, parsed=case['parse'])
        yield rec, b, what, it
        got += 1
    eq(got, len(bs), 'records')
    eq(it.err_count, 0, 'error count')


def read_all(case, stats):
    for rec, b, what, it in reads(case, stats):
        if case['n'] % 2:
            eq(drain(rec.content_stream()), b.content if case['parse'] else b.block, what + ' content')
        else:
            eq(drain(rec.raw_stream), b.payload if case['parse'] else b.block, what + ' payload')
        if case['dig']:
            eq(rec.digest_checker.passed, True, what + ' verdict')


def offsets(case, stats):
    data, bs = build(case)
    want = [(b.offset, b.length) for b in bs]
    got = [it.get_record_offset() == b.offset and it.get_record_length() == b.length for rec, b, what, it in reads(case, stats)]
    if case['kind'] == 'empty members' and case['gz']:
        # empty members may count as part of the record before or be skipped: only what is at the offsets matters
        from warcio.archiveiterator import ArchiveIterator
        for rec, b, what, it in reads(case, stats):
            off, n = it.get_record_offset(), it.get_record_length()
            r = next(iter(ArchiveIterator(io.BytesIO(data[off:off + n]))))
            eq(r.rec_headers.headers, b.headers, what + ' at its offset')
        return
    eq(got, [True] * len(bs), 'offsets and lengths as in %r' % want[:4])


def written(case, stats):
    """through a writer and back"""
    from warcio.warcwriter import BufferWARCWriter
    from warcio.statusandheaders import StatusAndHeaders
    data, bs = build(case)
    w = BufferWARCWriter(gzip=case['gz'])
    for b in bs:
        w.write_record(w.create_warc_record('', 'response', warc_headers=StatusAndHeaders('', [h for h in b.headers], protocol=b.version), payload=io.BytesIO(b.payload), length=len(b.payload),
                                            http_headers=StatusAndHeaders(b.http[1], list(b.http[2]), protocol=b.http[0]), warc_content_type='application/http; msgtype=response'))
    out = w.get_contents()
    recs = ref.parse_any(out, case['gz'])
    eq(len(recs), len(bs), 'records written')
    for i, (r, b) in enumerate(zip(recs, bs)):
        what = 'record %d' % i
        if b.canonical:
            eq(r.headers, b.headers, what + ' headers')
            eq(r.block, b.block, what + ' block')
        else:
            eq(r.block, ref.http_bytes('HTTP/1.1 ' + b.http[1], b.http[2]) + b.payload, what + ' block')
    it = iterate(out, {'mode': case['dl'], 'sizes': []}, block_size=case['bs'])
    n = 0
    for rec, b in zip(it, bs):
        eq(rec.http_headers.headers, b.http[2], 'HTTP headers read back')
        eq(rec.http_headers.statusline, b.http[1], 'status line read back')
        eq(drain(rec.raw_stream), b.payload, 'payload read back')
        n += 1
    eq(n, len(bs), 'records read back')
    stats.nontrivial(case['n'] >= 50)
    stats.label(case['kind'])


def copied(case, stats):
    from warcio.warcwriter import BufferWARCWriter
    w = BufferWARCWriter(gzip=case['gz'])
    bs = []
    for rec, b, what, it in reads(case, stats):
        w.write_record(rec)
        bs.append(b)
    out = w.get_contents()
    for i, (r, b) in enumerate(zip(ref.parse_any(out, case['gz']), bs)):
        what = 'record %d' % i
        if b.canonical or not case['parse']:
            eq(r.headers, b.headers, what + ' headers')
            eq(r.block, b.block, what + ' block')
        else:
            eq(r.block, ref.http_bytes('HTTP/1.1 ' + b.http[1], b.http[2]) + b.payload, what + ' block')
            eq(r.get('WARC-Block-Digest'), ref.b32(r.block), what + ' block digest')
            eq(r.get('Content-Length'), str(len(r.block)), what + ' length')


def headers(case, stats):
    """only the header parser"""
    from warcio.statusandheaders import StatusAndHeadersParser
    data, bs = build(case)
    for b in bs[:3]:
        for head, want, names in ((b.head, b.http, ['HTTP/1.0', 'HTTP/1.1']), (b.raw[:len(b.raw) - len(b.block) - 4], (b.version, '', b.headers), ['WARC/1.0'])):
            f = io.BytesIO(head + b'rest')
            h = StatusAndHeadersParser(names).parse(f)
            eq((h.protocol, h.statusline, h.headers), want, 'parsed')
            eq(f.read(), b'rest', 'rest')
            eq(h.total_len, len(head), 'total_len')
            if b.canonical or names == ['WARC/1.0']:
                eq(h.to_bytes(), head, 'serialised')
    stats.nontrivial(case['n'] >= 50)
    stats.label(case['kind'])


def tool(name):
    def fn(case, stats):
        data, bs = build(case)
        with cli.scratch() as d:
            p = cli.write(os.path.join(d, 'a.warc'), data)
            if name == 'index':
                rc, out, err = cli.run(['index', '-f', 'warc-record-id,http:z,http:x-0,offset', p])
                eq(rc, 0, 'exit status')
                rows = [json.loads(l) for l in out.decode().split('\n') if l]
                first = lambda b, n: next((v for a, v in b.http[2] if a.lower() == n), None)
                want = [{k: v for k, v in (('warc-record-id', b.headers[1][1]), ('http:z', first(b, 'z')), ('http:x-0', first(b, 'x-0')), ('offset', str(b.offset))) if v is not None} for b in bs]
                if case['kind'] == 'empty members' and case['gz']:
                    for r in rows + want:
                        r.pop('offset')
                eq(rows, want, 'index')
            elif name == 'check':
                bad = bs[-1].raw.replace(b'WARC-Block-Digest: sha1:', b'WARC-Block-Digest: sha1:' + (b'A' if bs[-1].headers[5][1][5] != 'A' else b'B'), 1)
                i = bad.index(b'WARC-Block-Digest: sha1:') + len(b'WARC-Block-Digest: sha1:')
                bad = bad[:i + 1] + bad[i + 2:]
                rc, out, err = cli.run(['check', p])
                eq((rc, out), (0, b''), 'check of right digests')
                q = cli.write(os.path.join(d, 'b.warc'), data[:bs[-1].offset] + (ref.gz(bad) if case['gz'] else bad))
                rc, out, err = cli.run(['check', q, p])
                eq(rc, 1, 'check of a wrong digest')
                eq([bs.index(b) for b in bs if b.headers[1][1].encode() in out], [len(bs) - 1], 'records named')
            elif name == 'extract':
                for b in {bs[0], bs[1], bs[-1]}:
                    if case['kind'] == 'empty members' and case['gz'] and b is not bs[0]:
                        continue
                    rc, out, err = cli.run(['extract', p, str(b.offset)])
                    eq(rc, 0, 'exit status')
                    if b.canonical:
                        eq(out, b.raw[:-4], 'extract')
                    rc, out, err = cli.run(['extract', '--payload', p, str(b.offset)])
                    eq(out, b.content, 'extract --payload')
            else:
                o = os.path.join(d, 'o.warc.gz')
                rc, out, err = cli.run(['recompress', p, o])
                eq(rc, 0, 'exit status')
                recs = ref.parse_any(cli.read(o), True)
                eq(len(recs), len(bs), 'records')
                eq([r.get('WARC-Record-ID') for r in recs], [b.headers[1][1] for b in bs], 'records')
                for r, b in zip(recs, bs):
                    if b.canonical:
                        eq((r.headers, r.block), (b.headers, b.block), 'record')
                req(out.decode().startswith('%d records read and recompressed' % len(bs)), 'message %r', out)
        stats.nontrivial(case['n'] >= 50)
        stats.label(case['kind'])
    return fn


CHECKS = {'C01': (written, 500), 'C02': (written, 300), 'C05': (offsets, 500), 'C06': (read_all, 300), 'C11': (headers, 500), 'C15': (tool('recompress'), 300), 'C16': (tool('index'), 300),
          'C17': (tool('extract'), 300), 'C18': (tool('check'), 300), 'C22': (read_all, 500), 'C25': (copied, 500)}


def add(prop):
    if prop in CHECKS:
        fn, n = CHECKS[prop]
        sub(prop, 'many', cases, n, n * 20, 'archives unusual by quantity (thousands of header lines, chunks, blank lines or empty members, hundreds of records, lines of up to 400 KB); non-trivial: 50 or more of them')(fn)
