import io, re, zlib
from hypothesis import strategies as st
from vk import gen, ref
from vk.core import sub, eq, req, fail
from vk.views import iterate, drain
from vk.streams import source
from vk.props.c07_partial import op
from vk.props.c08_decoding import content, te

SIZELINE = re.compile(rb'^[0-9a-fA-F]')
HEXLINE = re.compile(rb'^[0-9a-fA-F]+[ \t]*(;[^\r\n]*)?\r\n')


def record(case, body, enc, chunked):
    hh = []
    if enc:
        hh.append(('Content-Encoding', enc))
    if chunked:
        hh.append(('Transfer-Encoding', 'chunked'))
    block = ref.http_bytes('HTTP/1.1 200 OK', hh) + body
    rec = ref.warc_bytes('WARC/1.0', [('WARC-Type', 'response'), ('WARC-Target-URI', 'http://e.com/'), ('Content-Length', str(len(block)))], block)
    return ref.gz(rec) if case['gz'] else rec


def reads(f, ops):
    """all bytes the consumer gets from any mixture of reads"""
    out = []
    for o in ops:
        out.append(gen.do_read(f, o))
    while True:
        x = f.read(5000)
        if not x:
            break
        out.append(x)
    req(f.read(3) == b'' and f.readline() == b'', 'content continues after its end')
    return b''.join(out)


common = dict(ops=st.lists(op, max_size=6), dl=gen.delivery, bs=gen.block_size, gz=st.booleans())
NOTCHUNK = [b'hello world\r\n', b'<html>', b'-5\r\nabcdefgh\r\n', b'\r\n', b'g\r\nxxx', b'5\nabcde\n', b'{"a": 1}', b'zz;a\r\n', b';5\r\nabcde\r\n', b'5x\r\nabcde\r\n',
            b'f' * 70 + b'\r\nabc', b'fffffffffffff\r\nabc', b'ABCDE' * 20, b'deadbeef', b'12', b'5\r', b'\n5\r\nabcde\r\n0\r\n\r\n', b'80000001\r\n']
notch = st.one_of(content, st.builds(lambda a, b: [a] + list(b), st.sampled_from(NOTCHUNK), content), gen.payload_small)


@sub('C09', 'not_chunked', st.fixed_dictionaries(dict(common, body=notch, enc=st.sampled_from([None, None, 'identity', 'x-foo']))), 2500,
     rule='declared chunked, but the body does not start with a chunk-size line; non-trivial: non-empty body')
def not_chunked(case, stats):
    body = gen.expand(case['body'])
    line = body[:64].split(b'\n')[0] + b'\n' if b'\n' in body[:64] else body[:64]
    try:
        starts = line.endswith(b'\r\n') and 0 <= int(line[:-2].split(b';')[0], 16) <= 2**31
    except ValueError:
        starts = False
    if starts:
        stats.exclude('body starts like a chunk')
        return
    rec = next(iterate(record(case, body, case['enc'], True), case['dl'], block_size=case['bs']))
    eq(reads(rec.content_stream(), case['ops']), body, 'content declared chunked that is not chunked')
    stats.nontrivial(bool(body))


def starts_in_format(body, enc):
    """True if a decoder accepts the first bytes, i.e. the body may be in the format."""
    if enc == 'gzip':
        d = zlib.decompressobj(31)
        ds = [d]
    elif enc == 'deflate':
        ds = [zlib.decompressobj(), zlib.decompressobj(-15)]
    else:
        import brotli
        ds = [brotli.Decompressor()]
    for d in ds:
        try:
            for i in range(len(body)):
                out = d.decompress(body[i:i + 1])
                if out:
                    return True
        except Exception:
            continue
        return True     # accepted to the end: maybe a truncated stream
    return False


@sub('C09', 'not_compressed', st.fixed_dictionaries(dict(common, body=content, enc=st.sampled_from(['gzip', 'deflate', 'br', 'GZIP']), te=te)), 3500,
     rule='declared compressed, but no decoder accepts the data before giving output; non-trivial: those, non-empty')
def not_compressed(case, stats):
    body = gen.expand(case['body'])
    if case['enc'].lower() == 'br' and len(body) > 60:
        body = body[:60]
    if not body or starts_in_format(body, case['enc'].lower()):
        stats.exclude('may be in the declared format')
        return
    stored = body
    if case['te']:
        t = case['te']
        stored = ref.chunk(body, t['sizes'], t['up'], t['z'], t['ext'])
    rec = next(iterate(record(case, stored, case['enc'], bool(case['te'])), case['dl'], block_size=case['bs']))
    eq(reads(rec.content_stream(), case['ops']), body, 'content declared %s that is not' % case['enc'])
    stats.nontrivial()
    stats.label('declared ' + case['enc'].lower())
    stats.label('chunked', bool(case['te']))


cut_enc = st.sampled_from([None, None, 'gzip', 'deflate', 'rawdeflate', 'br'])


@sub('C09', 'cut_off', st.fixed_dictionaries(dict(common, body=content, enc=cut_enc, level=st.integers(1, 9), te=te, cut=st.floats(0, 1), cutend=st.integers(0, 12),
                                                  fromend=st.booleans(), strict=st.booleans())), 5000,
     rule='correctly encoded content cut at any byte after the first chunk-size line; non-trivial: cut strictly inside a non-empty encoded body')
def cut_off(case, stats):
    from warcio.bufferedreaders import BufferedReader, ChunkedDataReader, ChunkedDataException
    data = gen.expand(case['body'])
    enc = case['enc']
    comp = ref.encode(data, enc, case['level'])
    name = {'rawdeflate': 'deflate'}.get(enc, enc)
    t = case['te']
    body = ref.chunk(comp, t['sizes'], t['up'], t['z'], t['ext']) if t else comp
    k = max(0, len(body) - case['cutend']) if case['fromend'] else int(case['cut'] * len(body))
    if t and k < body.index(b'\r\n') + 2:
        stats.exclude('cut before the end of the first chunk-size line')
        return
    cutb = body[:k]
    if t and case['strict']:
        f = ChunkedDataReader(BufferedReader(source(cutb, case['dl']['mode'], case['dl']['sizes']), block_size=case['bs']),
                              raise_exceptions=True, decomp_type=name)
        try:
            got = reads(f, case['ops'])
        except ChunkedDataException:
            req(k < len(body), 'strict reader raised on well-formed input')
        else:
            req(k == len(body), 'strict reader accepts input cut at %d of %d bytes: %r', k, len(body), cutb[-30:])
            eq(got, data, 'content')
        stats.label('strict')
    else:
        rec = next(iterate(record(case, cutb, name, bool(t)), case['dl'], block_size=case['bs']))
        got = reads(rec.content_stream(), case['ops'])
        req(data.startswith(got), 'content of truncated data is not a prefix of the original: after %d bytes %r',
            next((i for i, (a, b) in enumerate(zip(got, data)) if a != b), len(data)), got[-40:])
        if enc is None:
            if t:
                # everything of the chunks present
                want, pos = b'', 0
                while True:
                    e = cutb.find(b'\r\n', pos)
                    if e < 0:
                        break
                    n = int(cutb[pos:e].split(b';')[0], 16)
                    want += cutb[e + 2:e + 2 + n]
                    pos = e + 2 + n + 2
                    if n == 0 or pos > len(cutb):
                        break
                eq(got, want, 'data of the chunks that are present')
            else:
                eq(got, cutb, 'unencoded content')
        elif enc != 'br':
            # whatever a decoder can get out of the bytes present
            pass
        if k == len(body):
            eq(got, data, 'complete content')
    stats.label('enc %s' % enc)
    stats.label('chunked', bool(t))
    stats.nontrivial(0 < k < len(body) and bool(enc or t))


mal = st.fixed_dictionaries(dict(common, body=content, te=te.filter(bool), kind=st.sampled_from(['term', 'size', 'final', 'none']), where=st.integers(0, 8),
                                 junk=st.sampled_from([b'xx', b'\n\r', b'\r', b'ab', b'\n', b'\r\r', b' \r'])))


@sub('C09', 'malformed_chunks', mal, 2500,
     rule='one chunk terminator, size line or final line replaced by junk; strict must raise, default must not; all but "none" are non-trivial')
def malformed(case, stats):
    from warcio.bufferedreaders import BufferedReader, ChunkedDataReader, ChunkedDataException
    data = gen.expand(case['body']) or b'x'
    t = case['te']
    good = ref.chunk(data, t['sizes'], t['up'], t['z'], t['ext'])
    # positions of the framing parts
    parts, pos = [], 0
    while True:
        e = good.index(b'\r\n', pos)
        n = int(good[pos:e].split(b';')[0], 16)
        if n == 0:
            parts.append((pos, e, e + 2))
            break
        parts.append((pos, e, e + 2 + n))
        pos = e + 2 + n + 2
    i = case['where'] % len(parts)
    s, e, t2 = parts[i]
    kind = case['kind']
    junk = case['junk']
    if kind == 'none':
        bad = good
    elif kind == 'size':
        bad = good[:s] + b'zz' + good[e:]
    elif kind == 'final' or i == len(parts) - 1:
        s, e, t2 = parts[-1]
        if (junk + b'\r\n')[:2] == b'\r\n':
            junk = b'xx'
        bad = good[:t2] + junk[:2]
        if len(junk) < 2:
            bad = good[:t2] + junk + b'!'
    else:
        j2 = (junk + b'!!')[:2]
        bad = good[:t2] + j2 + good[t2 + 2:]
    src = lambda: BufferedReader(source(bad, case['dl']['mode'], case['dl']['sizes']), block_size=case['bs'])
    try:
        got = reads(ChunkedDataReader(src(), raise_exceptions=True), case['ops'])
        raised = False
    except ChunkedDataException:
        raised = True
    eq(raised, kind != 'none', 'strict reader raises ChunkedDataException for a malformed chunk (%s)' % kind)
    lax = reads(ChunkedDataReader(src()), case['ops'])
    if kind == 'none':
        eq(got, data, 'content')
        eq(lax, data, 'content')
    else:
        stats.nontrivial()
        # the chunks before the damage are delivered
        if kind == 'size':
            want = b''.join(good[pe + 2:pt] for ps, pe, pt in parts[:i])
            req(lax.startswith(want), 'chunks before the malformed one are not delivered')
    stats.label(kind)
