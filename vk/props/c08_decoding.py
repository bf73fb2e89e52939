import io
from hypothesis import strategies as st
from vk import core, gen, ref
from vk.core import sub, eq, req, fail
from vk.views import iterate, drain, check_head

from vk.props.c07_partial import Model, op

content = st.one_of(gen.payload, gen.payload_small, st.lists(gen.segment(st.integers(0, 400)), min_size=1, max_size=4),
                    st.lists(gen.segment(st.one_of(gen.sizes_edge, st.integers(0, 120000))), min_size=1, max_size=2))
enc = st.sampled_from(['gzip', 'gzip', 'deflate', 'rawdeflate', 'br', None, 'unknown', 'gzip unsupported', 'deflate unsupported'])
NOT = ['gzip, identity', 'gzip,gzip', 'x-gzip', 'gzip;q=1', ',gzip', 'identity', 'zstd', 'deflate, gzip', '"gzip"']
CASES = {'gzip': ['gzip', 'GZIP', 'Gzip', 'gZiP'], 'deflate': ['deflate', 'Deflate', 'DEFLATE'], 'rawdeflate': ['deflate', 'DEFLATE'],
         'br': ['br', 'BR', 'Br'], 'unknown': ['identity', 'x-gzip2', 'compress', 'gzip2', 'zstd', 'none', ''], None: [None],
         'gzip unsupported': NOT, 'deflate unsupported': NOT + ['x-deflate', 'deflate, br', 'zlib']}
te = st.one_of(st.none(), st.builds(lambda s, u, z, e, n: {'sizes': s, 'up': u, 'z': z, 'ext': e, 'name': n},
               st.one_of(st.lists(st.integers(1, 40), max_size=4), st.lists(st.integers(1, 20000), max_size=2), st.just([1])), st.booleans(),
               st.integers(0, 6), st.sampled_from([b'', b'', b';a', b';a=b', b' ; x="y z;\\""', b';' + b'e' * 30]),
               st.sampled_from(['chunked', 'chunked', 'Chunked', 'CHUNKED'])))
cases = st.builds(lambda c, e, n, l, g, t, ops, dl, bs, hn, gzo, typ, other, pl: {
    'content': c, 'enc': e, 'ename': CASES[e][n % len(CASES[e])], 'level': l, 'gz': g, 'te': t, 'ops': ops, 'dl': dl, 'bs': bs, 'hname': hn,
    'gzopt': gzo, 'type': typ, 'other': other, 'place': pl},
    content, enc, st.integers(0, 9), st.integers(1, 9), st.booleans(), te, st.lists(op, max_size=10), gen.delivery, gen.block_size,
    st.integers(0, 2), gen.gz_opts, st.sampled_from(['response', 'response', 'request']), gen.http_headers, st.integers(0, 3))


def make(case):
    data = gen.expand(case['content'])
    e = case['enc']
    if e and ' ' in e:
        e = e.split(' ')[0]
    body = ref.gz(data, **dict({'level': case['level']}, **case['gzopt'])) if e == 'gzip' else ref.encode(data, e, case['level'])
    if e == 'br' and core.BARE or e != case['enc']:
        data = body                             # not supported without the package
    hh = []
    cz = [lambda s: s, str.lower, str.upper][case['hname']]
    if case['ename'] is not None:
        hh.append((cz('Content-Encoding'), case['ename']))
    if case['te']:
        t = case['te']
        body = ref.chunk(body, t['sizes'], t['up'], t['z'], t['ext'])
        hh.append((cz('Transfer-Encoding'), t['name']))
    oth = [tuple(x) for x in case['other']]
    k = case['place'] % (len(oth) + 1)
    hh = oth[:k] + hh + oth[k:]
    first = 'HTTP/1.1 200 OK' if case['type'] == 'response' else 'POST / HTTP/1.1'
    block = ref.http_bytes(first, hh) + body
    rec = ref.warc_bytes('WARC/1.0', [('WARC-Type', case['type']), ('WARC-Target-URI', 'http://e.com/'),
                                      ('WARC-Payload-Digest', ref.b32(body)), ('WARC-Block-Digest', ref.b32(block)),
                                      ('Content-Length', str(len(block)))], block)
    follow = ref.warc_bytes('WARC/1.0', [('WARC-Type', 'resource'), ('Content-Length', '3')], b'end')
    return data, body, (ref.gz(rec) + ref.gz(follow) if case['gz'] else rec + follow)


@sub('C08', 'decode', cases, 6000,
     rule='content x encoding x chunking x delivery x read pattern; non-trivial: non-empty content that is encoded or chunked')
def decode(case, stats):
    data, stored, raw = make(case)
    it = iterate(raw, case['dl'], block_size=case['bs'], check_digests=True)
    rec = next(it)
    f = rec.content_stream()
    m = Model(data)
    done = 0
    for j, o in enumerate(case['ops']):
        got, want = gen.do_read(f, o), m.apply(o)
        eq(got, want, 'decoded content: read %d %r after %d bytes' % (j, o, done))
        done += len(got)
    eq(drain(f), m.f.read(), 'decoded content from %d on' % done)
    eq(f.read(7), b'', 'exhausted content')
    eq(f.readline(), b'', 'exhausted content')
    # decoding consumes exactly the stored payload (nothing after it), and everything the digests need
    drain(rec.raw_stream)
    eq(rec.digest_checker.passed, True, 'digest verdict after decoding')
    nxt = next(it)
    eq(nxt.rec_type, 'resource', 'record after the decoded one')
    eq(nxt.raw_stream.read(), b'end', 'record after the decoded one')
    # the raw stream is the payload as stored
    rec = next(iterate(raw, case['dl'], block_size=case['bs']))
    eq(drain(rec.raw_stream), stored, 'raw payload')
    stats.label('encoding %s' % case['enc'])
    stats.label('chunked', bool(case['te']))
    stats.label('multi-chunk', bool(case['te']) and len(stored) > 2 * len(data) // 3 and bool(case['te']['sizes']))
    stats.nontrivial(len(data) > 0 and (case['enc'] in ('gzip', 'deflate', 'rawdeflate', 'br') or bool(case['te'])))


# the readers used directly, as documented
direct = st.builds(lambda c, e, l, t, ops, dl, bs, strict, di: {'content': c, 'enc': e, 'level': l, 'te': t, 'ops': ops, 'dl': dl, 'bs': bs, 'strict': strict, 'direct': di},
                   content, st.sampled_from(['gzip', 'deflate', 'rawdeflate', 'br', None]), st.integers(1, 9), te, st.lists(op, max_size=8),
                   gen.delivery, gen.block_size, st.booleans(), st.booleans())


@sub('C08', 'readers', direct, 3000,
     rule='ChunkedDataReader / BufferedReader on their own; non-trivial: non-empty content that is encoded or chunked')
def readers(case, stats):
    from warcio.bufferedreaders import BufferedReader, ChunkedDataReader
    from vk.streams import source
    data = gen.expand(case['content'])
    body = ref.encode(data, case['enc'], case['level'])
    dt = {'rawdeflate': 'deflate'}.get(case['enc'], case['enc'])
    if case['te']:
        t = case['te']
        body = ref.chunk(body, t['sizes'], t['up'], t['z'], t['ext'])
        src = source(body, case['dl']['mode'], case['dl']['sizes'])
        if not case.get('direct'):
            src = BufferedReader(src, block_size=case['bs'])
        f = ChunkedDataReader(src, raise_exceptions=case['strict'], decomp_type=dt)
    else:
        f = BufferedReader(source(body, case['dl']['mode'], case['dl']['sizes']), block_size=case['bs'], decomp_type=dt)
    m = Model(data)
    for j, o in enumerate(case['ops']):
        eq(gen.do_read(f, o), m.apply(o), 'read %d %r' % (j, o))
    eq(drain(f), m.f.read(), 'remaining content')
    stats.label('chunks from short reads', bool(case['te'] and case.get('direct') and case['dl']['sizes']))
    stats.label('strict', case['strict'] and bool(case['te']))
    stats.nontrivial(len(data) > 0 and bool(case['enc'] or case['te']))
