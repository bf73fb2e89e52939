import bisect, io, os, sys, gc, zlib, hashlib, tracemalloc
from hypothesis import strategies as st
from vk import gen, ref, wgen, cli
from vk.core import sub, eq, req, fail, Violation, deterministic
from vk.streams import Source

MB = 1 << 20
LIMIT = 4 * MB                  # far above what is needed (0.1 - 1.5 MB), far below the size of the records
MAXREQ = 2 * MB                 # largest single request or write


class Peak(object):
    """peak of the memory allocated within the block, above what there was before"""
    def __enter__(self):
        gc.collect()
        tracemalloc.start()
        self.base = tracemalloc.get_traced_memory()[0]
        return self

    def __exit__(self, *a):
        self.peak = tracemalloc.get_traced_memory()[1] - self.base
        tracemalloc.stop()


class BigSource(Source):
    """a source that must be read in pieces"""
    def __init__(self, data, sizes=(), seek=False, tell=False, start=0):
        Source.__init__(self, data, sizes, seek, tell, start)
        self.fuel = 1 << 40
        self.maxreq = 0

    def read(self, n=-1):
        if n is None or n < 0:
            # all of the rest, whatever that is
            self.maxreq = max(self.maxreq, len(self.data) - self.pos)
        else:
            self.maxreq = max(self.maxreq, n)
        return Source.read(self, n)


class BigSink(object):
    """an output the memory of which exists beforehand"""
    def __init__(self, size):
        self.buf, self.n, self.maxw = bytearray(size), 0, 0

    def write(self, b):
        k = len(b)
        self.maxw = max(self.maxw, k)
        if self.n + k > len(self.buf):
            raise Violation('more than %d bytes are written' % len(self.buf))
        memoryview(self.buf)[self.n:self.n + k] = b
        self.n += k
        return k

    def flush(self):
        pass

    def close(self):
        pass

    def tell(self):
        return self.n

    def getvalue(self):
        return bytes(memoryview(self.buf)[:self.n])


def _peak(stats, p):
    stats.label('peak %s MB' % next((x for x in (0.25, 0.5, 1, 2, 3) if p.peak < x * MB), 4))


def bounded(p, what):
    req(p.peak <= LIMIT, '%s: %.1f MB of memory are allocated', what, p.peak / MB)


_cache = {}


def big(kind, size):
    """a payload that does not compress much"""
    k = kind, size
    if k not in _cache:
        if len(_cache) > 3:
            _cache.clear()
        data = hashlib.shake_128(b'%s' % kind.encode()).digest(size)
        if kind == 'text':
            data = data.translate(gen._LINES)
        elif kind == 'oneline':
            data = data.replace(b'\n', b'x')
        _cache[k] = data
    return _cache[k]


bigsize = st.builds(lambda m, d: m * MB + d, st.integers(7, 9), st.integers(-3, 70000))
shape = st.builds(lambda t, k, n, e, te, dig, small: {'t': t, 'kind': k, 'n': n, 'enc': e, 'te': te, 'dig': dig, 'small': small},
                  st.sampled_from(['response', 'response', 'response', 'resource', 'request', 'arc']), st.sampled_from(['random', 'random', 'text']), bigsize,
                  st.sampled_from([None, None, 'gzip', 'deflate', 'rawdeflate', 'br']), st.sampled_from([None, None, 1000, 30000, 300000]), st.booleans(), st.booleans())


class Big(object):
    pass


def build(s):
    """one big record, maybe followed by a small one -> bytes as stored, description"""
    b = Big()
    body = b.content = big(s['kind'], s['n'])
    b.head = b''
    if s['t'] != 'resource':
        hs = [('Content-Type', 'text/plain')]
        if s['enc'] and s['t'] != 'arc':
            body = ref.encode(body, s['enc'], 1)
            hs.append(('Content-Encoding', s['enc'].replace('raw', '')))
        if s['te']:
            body = ref.chunk(body, [s['te']])if len(body) // s['te'] < 500 else _chunk(body, s['te'])
            hs.append(('Transfer-Encoding', 'chunked'))
        b.head = ref.http_bytes('GET / HTTP/1.1' if s['t'] == 'request' else 'HTTP/1.1 200 OK', hs)
    b.payload = body
    if s['t'] == 'arc':
        b.wire = b'http://e.com/ 1.2.3.4 20200101000000 text/plain %d\n' % (len(b.head) + len(body)) + b.head + body
        b.raws = [b.wire + b'\n']
        if s['small']:
            b.raws.append(b'http://e.com/2 1.2.3.4 20200101000000 text/plain 22\nHTTP/1.1 200 OK\r\n\r\nabc\n')
        return b
    hs = [('WARC-Type', s['t']), ('WARC-Record-ID', '<urn:uuid:1>'), ('WARC-Date', '2020-01-01T00:00:00Z'), ('WARC-Target-URI', 'http://e.com/')]
    if s['dig']:
        d = hashlib.sha1(b.head)
        d.update(body)
        hs += [('WARC-Block-Digest', 'sha1:' + d.hexdigest()), ('WARC-Payload-Digest', 'sha1:' + hashlib.sha1(body).hexdigest())]
    hs.append(('Content-Length', str(len(b.head) + len(body))))
    b.wire = ref.warc_bytes('WARC/1.0', hs, b.head + body, tail=b'')
    b.raws = [b.wire + b'\r\n\r\n']
    if s['small']:
        b.raws.append(ref.warc_bytes('WARC/1.0', [('WARC-Type', 'resource'), ('WARC-Record-ID', '<urn:uuid:2>'), ('WARC-Date', '2020-01-01T00:00:00Z'), ('Content-Length', '3')], b'abc'))
    return b


def _chunk(data, n):
    out = []
    for k in range(0, len(data), n):
        part = data[k:k + n]
        out += [b'%x\r\n' % len(part), part, b'\r\n']
    return b''.join(out) + b'0\r\n\r\n'


def stored(b, gz):
    return b''.join(ref.gz(r, level=1) if gz else r for r in b.raws)


# ---------------------------------------------------------------------------- reading
rcases = st.builds(lambda s, g, v, n, bs, m, z, d, a: {'rec': s, 'gz': g, 'view': v, 'n': n, 'bs': bs, 'mode': m, 'sizes': z, 'dig': d, 'conv': a}, shape, st.booleans(),
                   st.sampled_from(['raw', 'content', 'content', 'content', 'skip', 'end', 'line', 'contentline', 'head']), st.sampled_from([1000, 8192, 16384, 65536, 200000]),
                   st.sampled_from([None, None, 4096, 65536]), st.sampled_from(['seek', 'tell', 'none']), st.sampled_from([[], [], [5000], [100000, 1]]), st.booleans(), st.booleans())


@sub('C32', 'read', rcases, 120, rule='a record of 7-9 MB read through every kind of stream in pieces, by lines, skipped or only its head; all are non-trivial')
def read(case, stats):
    from warcio.archiveiterator import ArchiveIterator
    s = case['rec']
    if 'line' in case['view']:
        s = dict(s, kind='random')      # not too many lines
    b = build(s)
    data = stored(b, case['gz'])
    mode = case['mode']
    f = BigSource(data, case['sizes'], mode == 'seek', mode in ('seek', 'tell'))
    kw = {'check_digests': case['dig'], 'arc2warc': case['conv']}
    if case['bs']:
        kw['block_size'] = case['bs']
    view = case['view']
    want = hashlib.sha1(b.content if view.startswith('content') else b.payload).digest()
    got, types, passed = hashlib.sha1(), [], None
    with Peak() as p:
        it = ArchiveIterator(f, **kw)
        for k, rec in enumerate(it):
            types.append(rec.rec_type)
            if k:
                continue
            if view == 'head':
                req(f.max_pos <= 200000, 'only the head of a record of %d bytes was asked for, but %d bytes are read', len(data), f.max_pos)
                break
            if view == 'skip':
                continue
            if view == 'end':
                it.get_record_length()
            else:
                x = rec.content_stream() if view.startswith('content') else rec.raw_stream
                while True:
                    d = x.readline(case['n']) if 'line' in view else x.read(case['n'])
                    if not d:
                        break
                    got.update(d)
                eq(got.digest(), want, 'sha1 of what is read')
                while rec.raw_stream.read(16384):
                    pass
            passed = rec.digest_checker.passed
    bounded(p, 'reading a record of %d bytes (%s)' % (s['n'], view))
    req(f.maxreq <= MAXREQ, 'reading asks for %d bytes at once', f.maxreq)
    if view != 'head':
        eq(len(types), len(b.raws), 'number of records')
    if view not in ('head', 'skip'):
        eq(passed, True if case['dig'] and s['dig'] and s['t'] != 'arc' else None, 'digest verdict')
    stats.nontrivial()
    stats.label('view ' + view)
    stats.label('gzip', case['gz'])
    stats.label('content encoding %s' % s['enc'], s['t'] not in ('resource', 'arc'))
    stats.label('chunked', bool(s['te']) and s['t'] != 'resource')
    _peak(stats, p)


# ---------------------------------------------------------------------------- writing
wcases = st.builds(lambda t, k, n, m, z, l, h, g, e, kind, lead: {'t': t, 'kind': k, 'n': n, 'mode': m, 'sizes': z, 'len': l, 'how': h, 'gz': g, 'ens': e, 'lead': lead, 'given': kind},
                   st.sampled_from(['response', 'response', 'resource', 'request', 'metadata', 'conversion', 'warcinfo']), st.sampled_from(['random', 'text', 'oneline']), bigsize,
                   st.sampled_from(['seek', 'tell', 'none']), st.sampled_from([[], [], [3000], [100000, 7]]), st.booleans(), st.sampled_from(['sep', 'inline']), st.booleans(),
                   st.booleans(), st.booleans(), st.sampled_from([0, 0, 5]))


@sub('C32', 'write', wcases, 120, rule='a record with a payload of 7-9 MB built and written, its length known or not, its payload seekable or not, plain or gzip; all are non-trivial')
def write(case, stats):
    from warcio.warcwriter import WARCWriter
    from warcio.recordbuilder import RecordBuilder
    from warcio.statusandheaders import StatusAndHeaders
    body = big(case['kind'], case['n'])
    http = case['t'] in ('response', 'request')
    first = 'GET / HTTP/1.1' if case['t'] == 'request' else 'HTTP/1.1 200 OK'
    head = ref.http_bytes(first, [('A', 'b')]) if http else b''
    inline = http and case['how'] == 'inline'
    mode = case['mode'] if not (inline and case['len']) else 'seek'
    data = (head if inline else b'') + body
    f = BigSource(b'x' * case['lead'] + data, case['sizes'], mode == 'seek', mode in ('seek', 'tell'), case['lead'])
    out = BigSink(len(data) + 100000 + len(data) // 50)
    kw = {}
    if http and not inline:
        kw['http_headers'] = StatusAndHeaders('GET / HTTP/1.1', [('A', 'b')], is_http_request=True) if case['t'] == 'request' else StatusAndHeaders('200 OK', [('A', 'b')], protocol='HTTP/1.1')
    if case['len']:
        kw['length'] = len(data)
    if case['given']:
        kw['warc_headers_dict'] = {'WARC-Payload-Digest': 'sha1:' + 'A' * 32, 'WARC-Block-Digest': 'sha1:' + 'B' * 32}
    with Peak() as p:
        w = WARCWriter(out, gzip=case['gz'])
        r = w.create_warc_record('http://e.com/', case['t'], payload=f, **kw)
        if case['ens']:
            w.ensure_digest(r)
        w.write_record(r)
    bounded(p, 'writing a record of %d bytes' % case['n'])
    req(f.maxreq <= MAXREQ, '%d bytes of the payload are asked for at once', f.maxreq)
    req(out.maxw <= MAXREQ, '%d bytes are written at once', out.maxw)
    rs = ref.parse_any(out.getvalue(), case['gz'])
    eq(len(rs), 1, 'records written')
    req(rs[0].block == head + body, 'block written differs')
    if not case['given'] or not case['len']:
        eq(rs[0].all('WARC-Block-Digest'), [ref.b32(head + body)], 'block digest')
    stats.nontrivial()
    stats.label('length %s' % ('known' if case['len'] else 'unknown'))
    stats.label('payload ' + mode)
    stats.label('gzip', case['gz'])
    stats.label('headers inline', inline)
    _peak(stats, p)


# ---------------------------------------------------------------------------- copying and tools
class BigOut(object):
    encoding = 'utf-8'

    def __init__(self, size):
        self.buffer = BigSink(size)

    def write(self, s):
        self.buffer.write(s.encode('utf-8'))
        return len(s)

    def flush(self):
        pass


_warm = []


def warm():
    """what is imported or set up on first use is not counted"""
    if _warm:
        return
    _warm.append(1)
    with cli.scratch() as d:
        path = cli.write(os.path.join(d, 'a'), ref.warc_bytes('WARC/1.0', [('WARC-Type', 'resource'), ('WARC-Record-ID', '<urn:uuid:2>'), ('WARC-Date', '2020-01-01T00:00:00Z'), ('Content-Length', '3')], b'abc'))
        for args in (['index', path], ['check', '-v', path], ['extract', path, '0'], ['recompress', path, path + 'b']):
            tool(args, BigOut(MB))


def tool(args, out):
    from warcio.cli import main
    old = sys.stdout
    rc = 0
    sys.stdout = out
    try:
        main(args)
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    finally:
        sys.stdout = old
    return rc, out.buffer


tcases = st.builds(lambda s, g, t, w: {'rec': s, 'gz': g, 'tool': t, 'wgz': w}, shape, st.booleans(), st.sampled_from(['copy', 'copy', 'index', 'check', 'extract', 'payload', 'headers', 'recompress', 'whole']),
                   st.booleans())


@sub('C32', 'tools', tcases, 120, rule='an archive with a record of 7-9 MB copied, indexed, checked, extracted from and recompressed (also one that is a single gzip member); all are non-trivial')
def tools(case, stats):
    from warcio.archiveiterator import ArchiveIterator
    from warcio.warcwriter import WARCWriter
    s, t = case['rec'], case['tool']
    b = build(s)
    room = len(b.head) + len(b.payload) + len(b.content) + MB
    stats.nontrivial()
    stats.label(t)
    if t == 'copy':
        f = BigSource(stored(b, case['gz']))
        out = BigSink(room)
        with Peak() as p:
            w = WARCWriter(out, gzip=case['wgz'])
            for rec in ArchiveIterator(f, arc2warc=True):
                w.write_record(rec)
        bounded(p, 'copying a record of %d bytes' % s['n'])
        req(f.maxreq <= MAXREQ and out.maxw <= MAXREQ, '%d bytes are read or %d bytes written at once', f.maxreq, out.maxw)
        rs = ref.parse_any(out.getvalue(), case['wgz'])
        eq(len(rs), len(b.raws), 'records copied')
        req(rs[0].block == b.head + b.payload, 'block of the copy differs')
        return
    warm()
    with cli.scratch() as d:
        data = ref.gz(b''.join(b.raws), level=1) if t == 'whole' else stored(b, case['gz'])
        path = cli.write(os.path.join(d, 'a.warc'), data)
        n = len(data)
        del data
        to = os.path.join(d, 'b.warc.gz')
        args = {'index': ['index', '-f', 'offset,length,warc-type,http:status', path], 'check': ['check', '-v', path], 'extract': ['extract', path, '0'], 'payload': ['extract', '--payload', path, '0'],
                'headers': ['extract', '--headers', path, '0'], 'recompress': ['recompress', path, to], 'whole': ['recompress', path, to]}[t]
        big_out = BigOut(room)
        with Peak() as p:
            rc, out = tool(args, big_out)
        bounded(p, 'warcio %s on a record of %d bytes' % (t, s['n']))
        _peak(stats, p)
        req(out.maxw <= MAXREQ, '%d bytes are written at once', out.maxw)
        eq(rc, 0, 'exit status of ' + t)
        v = out.getvalue()
        if t == 'index':
            eq(v.count(b'\n'), len(b.raws), 'lines of the index')
        elif t == 'payload':
            req(v == b.content if s['t'] != 'resource' else v == b.payload, 'payload extracted differs')
        elif t == 'extract':
            req(v.endswith(b.payload), 'record extracted differs')
        elif t == 'headers':
            req(v.endswith(b.head) and len(v) < 2000, 'headers extracted differ')
        elif t in ('recompress', 'whole'):
            rs = ref.parse_any(cli.read(to), True)
            eq(len(rs), len(b.raws), 'records after recompress')
            req(rs[0].block == b.head + b.payload, 'block after recompress differs')


# ---------------------------------------------------------------------------- capture
ccases = st.builds(lambda n, m, k, f, r, g, z, h: {'n': n, 'req': m, 'kind': k, 'f': f, 'read': r, 'gz': g, 'sizes': z, 'send': h}, bigsize, st.booleans(), st.sampled_from(['random', 'text']),
                   st.sampled_from(['cl', 'chunked', 'close']), st.sampled_from([1000, 16384, 100000]), st.booleans(), st.sampled_from([[], [4000], [60000, 3]]), st.sampled_from(['request', 'send', 'iter']))


@sub('C32', 'capture', ccases, 60, rule='an exchange with a body of 7-9 MB (sent or received) captured; all are non-trivial')
def capture(case, stats):
    from vk import fakenet
    from warcio.capture_http import capture_http
    from warcio.warcwriter import WARCWriter

    class Sock(fakenet.FakeSock):
        def __init__(self, *a):
            fakenet.FakeSock.__init__(self, *a)
            self.out, self.pos, self.wire = BigSink(case['n'] + MB), 0, b''

        def sendall(self, data):
            self.out.write(data)

        def recv_into(self, buf, nbytes=0, flags=0):
            n = min(len(buf), len(self.wire) - self.pos)
            if case['sizes'] and n:
                n = min(n, case['sizes'][self.k % len(case['sizes'])])
                self.k += 1
            buf[:n] = memoryview(self.wire)[self.pos:self.pos + n]
            self.pos += n
            return n
    body = big(case['kind'], case['n'])
    small = b'small'
    rq, resp = (body, small) if case['req'] else (small, body)
    hs = {'cl': [('Content-Length', str(len(resp)))], 'chunked': [('Transfer-Encoding', 'chunked')], 'close': [('Connection', 'close')]}[case['f']]
    wire = ref.http_bytes('HTTP/1.1 200 OK', hs) + (_chunk(resp, 50000) if case['f'] == 'chunked' else resp)
    sock = Sock('127.0.0.1')
    sock.wire = wire
    out = BigSink(len(wire) + len(rq) + MB)
    src = BigSource(rq)
    got = hashlib.sha1()
    conn = None
    with Peak() as p:
        with capture_http(WARCWriter(out, gzip=case['gz'])):
            conn = fakenet.HTTPConnection('e.com')
            conn._create_connection = lambda *a, **k: sock
            if case.get('send', 'request') == 'request':
                conn.request('POST', '/', body=src, headers={'Content-Length': str(len(rq))})
            else:
                conn.putrequest('POST', '/')
                conn.putheader('Content-Length', str(len(rq)))
                conn.endheaders()
                conn.send(src if case['send'] == 'send' else iter(lambda: src.read(50000), b''))
            r = conn.getresponse()
            while True:
                d = r.read(case['read'])
                if not d:
                    break
                got.update(d)
            conn.close()
    bounded(p, 'capturing an exchange of %d bytes' % case['n'])
    req(out.maxw <= MAXREQ and src.maxreq <= MAXREQ, '%d bytes are written or %d bytes read at once', out.maxw, src.maxreq)
    eq(got.digest(), hashlib.sha1(resp).digest(), 'body the client read')
    rs = ref.parse_any(out.getvalue(), case['gz'])
    eq([x.type for x in rs], ['response', 'request'], 'records')
    req(rs[0].block == wire, 'response captured differs')
    req(rs[1].block == sock.out.getvalue(), 'request captured differs')
    req(rs[1].block.endswith(rq), 'request sent differs')
    stats.nontrivial()
    stats.label('sent by ' + case.get('send', 'request'))
    stats.label('big request' if case['req'] else 'big response')
    stats.label('framing ' + case['f'])
    _peak(stats, p)


# ---------------------------------------------------------------------------- reading while it arrives
class Live(object):
    """A stream that has only delivered `avail` bytes so far: asking for more is a failure of the
    reader if it already has all it needs."""
    def __init__(self, data, sizes):
        self.data, self.sizes, self.pos, self.k = data, sizes, 0, 0
        self.reads = []

    def read(self, n=-1):
        left = len(self.data) - self.pos
        n = left if n is None or n < 0 else min(n, left)
        if n:
            n = max(1, min(n, self.sizes[self.k % len(self.sizes)]))
            self.k += 1
        out = self.data[self.pos:self.pos + n]
        self.pos += n
        self.reads.append(self.pos)
        return out

    def excess(self, need):
        """reads begun although `need` bytes had arrived"""
        return [p for q, p in zip([0] + self.reads, self.reads) if q >= need]


def arrival(member):
    """[bytes decompressed after the first k bytes of the member]"""
    d, out, n = zlib.decompressobj(31), [0], 0
    for k in range(len(member)):
        n += len(d.decompress(member[k:k + 1]))
        out.append(n)
    return out


lcases = st.builds(lambda a, s, n, r: {'a': a, 'sizes': s, 'nrp': n, 'ops': r}, st.one_of(gen.archives(gen.records(pay=gen.payload), min_size=1, max_size=4, gz=st.just(False)), gen.arcs(min_size=1, gz=st.just(False)),
                                                                                                 gen.archives(gen.records(pay=gen.payload_small), min_size=1, max_size=3, gz=st.just(True))),
                   st.one_of(st.just([1]), st.lists(st.integers(1, 60), min_size=1, max_size=4), st.lists(st.integers(1, 20000), min_size=1, max_size=3)), st.booleans(),
                   st.lists(st.integers(1, 300), min_size=1, max_size=4))


@sub('C32', 'arriving', lcases, 1300, rule='plain and gzipped archives that arrive piece by piece: a record is delivered once its head has arrived, payload bytes once they have; non-trivial: >= 1 record whose end is not in the same piece')
def arriving(case, stats):
    from warcio.archiveiterator import ArchiveIterator
    arc = bool(case['a'].get('arc'))
    data, bs = (gen.assemble_arc if arc else gen.assemble)(case['a'])
    f = Live(data, case['sizes'])
    gz = bool(case['a']['gz'])
    it = ArchiveIterator(f, no_record_parse=case['nrp'])
    n = 0
    for rec in it:
        b = bs[n]
        parsed = bool(b.http) and not case['nrp']
        there = arrival(b.stored) if gz else None
        start = len(b.wire) - len(b.block) + (len(b.head) if parsed else 0)

        def after(k):
            # how much of the archive has the first k bytes of the record
            return b.offset + (bisect.bisect_left(there, k) if gz else k)
        need = after(start)
        x = f.excess(need)
        req(not x, 'record %d is complete up to its payload after %d bytes, but more is read (up to %s) before it is delivered', n, need, x)
        stats.nontrivial(f.pos < after(len(b.wire)))
        at, k = start, 0
        end = len(b.wire)
        while at < end and k < 400:
            want = case['ops'][k % len(case['ops'])]
            k += 1
            d = rec.raw_stream.read(want)
            req(d, 'record %d: payload ends at %d, not %d', n, at, end)
            at += len(d)
            x = f.excess(after(at))
            req(not x, 'record %d: %d payload bytes are there after %d bytes, but more is read (up to %s) before they are delivered', n, len(d), after(at), x)
        n += 1
    eq(n, len(bs), 'records')
    stats.label('ARC', arc)
    stats.label('gzip', gz)
