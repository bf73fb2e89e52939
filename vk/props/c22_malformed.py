import io, re, zlib
from hypothesis import strategies as st
from vk import gen, ref
from vk.core import sub, eq, req, fail
from vk.views import iterate, drain, check_head

pay = gen.payload_small
warch = st.one_of(gen.archives(gen.records(pay=pay), min_size=1, max_size=3), gen.archives(gen.records(pay=pay, http_only=True), min_size=1, max_size=3))
aarch = gen.arcs(min_size=0, max_size=3)
arch = st.one_of(warch, warch, aarch)
LENGTHS = [b'-1', b'-5', b'', b'x', b'0', b'1', b'00012', b'+3', b'1e3', b'0x10', b'99999999999999999999999', b'9' * 5000, b'2147483648', b'4.0', b'1 2', b'1,2', b' 7',
           b'\xd9\xa3', b'1_0', b'nan', b'None', b'\xff', b'-0', b'18446744073709551617']
WORDS = [b'WARC/1.0', b'WARC/1.1', b'warc/1.0', b'WARC/', b'WARC/0.17', b'HTTP/1.1 200 OK', b'HTTP/1.0', b'GET / HTTP/1.1', b'POST', b'Content-Length: 5', b'Content-Length: -5', b'Content-Length: 0',
         b'Content-Length:', b'WARC-Type: response', b'WARC-Type: request', b'WARC-Type: revisit', b'WARC-Type: warcinfo', b'WARC-Target-URI: http://a/', b'WARC-Target-URI: <http://a b/>', b'WARC-Target-URI: <',
         b'WARC-Target-URI:', b'WARC-Target-URI: >', b'WARC-Record-ID: <urn:uuid:1>', b'WARC-Date: 2000', b'WARC-Block-Digest: sha1:A', b'WARC-Block-Digest: x', b'WARC-Block-Digest: :', b'WARC-Block-Digest: md5:', b'WARC-Block-Digest: md5\0:A',
         b'WARC-Payload-Digest: sha256:' + b'A' * 52, b'WARC-Payload-Digest: shake_128:AA', b'WARC-Segment-Number: 2', b'Content-Type: a', b'Content-Encoding: gzip', b'Content-Encoding: br', b'Content-Encoding: deflate',
         b'Transfer-Encoding: chunked', b'Transfer-Encoding:', b'filedesc://a 0.0.0.0 2000 text/plain 10', b'http://a/ 1.2.3.4 20000101000000 text/html 5', b'a b c d e', b'a b c d -5', b'http://a/ 1.2.3.4 x text/html y',
         b'http://a/ 1.2.3.4 99999999999999 text/html 5', b'1 0 x', b': ', b'a:', b':b', b' folded', b'\t', b'\x1f\x8b', b'\x1f\x8b\x08\0\0\0\0\0\0\xff', b'\xff\xfe', b'5', b'0', b'-1', b'ffffffff', b'80000001', b'a;b=c', b'\0', b'\xc3\xa9',
         b'X' * 70, b'Y' * 300]
word = st.one_of(st.sampled_from(WORDS), st.sampled_from(WORDS), st.binary(max_size=10))
soup = st.lists(st.tuples(word, st.sampled_from([b'\r\n', b'\r\n', b'\r\n', b'\n', b'\r\n\r\n', b'\r\n\r\n', b'', b' ', b'\r'])), max_size=14)
head_words = [w for w in WORDS if b':' in w]
soup = st.one_of(soup, st.builds(lambda v, hs, b: [(v, b'\r\n')] + [(h, b'\r\n') for h in hs] + [(b'', b'\r\n')] + b, st.sampled_from([b'WARC/1.0', b'WARC/1.1', b'warc/0.18']),
                                 st.lists(st.sampled_from(head_words), max_size=6), soup),
                 st.builds(lambda t, h, v, hs, b: [(b'WARC/1.0', b'\r\n'), (b'WARC-Type: ' + t, b'\r\n'), (b'WARC-Target-URI: http://a/', b'\r\n')] + h + [(b'', b'\r\n'), (v, b'\r\n')] + [(h, b'\r\n') for h in hs] + [(b'', b'\r\n')] + b,
                           st.sampled_from([b'response', b'request', b'revisit']), st.one_of(st.just([]), st.builds(lambda n: [(b'Content-Length: %d' % n, b'\r\n')], st.integers(0, 200))), st.sampled_from([b'HTTP/1.1 200 OK', b'GET / HTTP/1.0', b'', b'x']),
                           st.lists(st.sampled_from(head_words), max_size=5), soup))
pos = st.integers(0, 10**6)
mut = st.one_of(
    st.tuples(st.just('set'), pos, st.integers(0, 255)), st.tuples(st.just('set'), pos, st.sampled_from(list(b'\0\t\n\r :;<>\x0b\x1c\x85\xa0\xff'))), st.tuples(st.just('flip'), pos, st.integers(0, 7)),
    st.tuples(st.just('del'), pos, st.integers(1, 60)), st.tuples(st.just('ins'), pos, st.binary(min_size=1, max_size=8)), st.tuples(st.just('ins'), pos, st.sampled_from(WORDS)),
    st.tuples(st.just('dup'), pos, st.integers(1, 200), pos), st.tuples(st.just('cut'), pos),
    st.tuples(st.just('len'), st.integers(0, 5), st.sampled_from(LENGTHS)), st.tuples(st.just('len'), st.integers(0, 5), st.integers(0, 400).map(lambda n: b'%d' % n)),
    st.tuples(st.just('line'), st.integers(0, 60), st.sampled_from(WORDS)), st.tuples(st.just('dline'), st.integers(0, 60)), st.tuples(st.just('swap'), st.integers(0, 60), st.integers(0, 60)),
    st.tuples(st.just('nl'), st.integers(0, 60)))
opts = st.builds(lambda d, b, m, v, n, c, e, g, k, ops: {'dl': d, 'bs': b, 'mode': m, 'verify': v, 'nrp': n, 'conv': c, 'ens': e, 'dig': g, 'cls': k, 'ops': ops},
                 gen.delivery, gen.block_size, st.sampled_from(['raw', 'content', 'content', 'skip', 'ops']), st.booleans(), st.booleans(), st.booleans(), st.booleans(),
                 st.sampled_from([True, False, 'log', 'raise']), st.sampled_from(['any', 'any', 'any', 'warc', 'arc']), gen.read_ops)


def mutate(d, m):
    if not d:
        return m[2] if m[0] == 'ins' else d
    k = m[0]
    p = m[1] % (len(d) + 1)
    if k == 'set':
        p %= len(d)
        return d[:p] + bytes([m[2]]) + d[p + 1:]
    if k == 'flip':
        p %= len(d)
        return d[:p] + bytes([d[p] ^ (1 << m[2])]) + d[p + 1:]
    if k == 'del':
        return d[:p] + d[p + m[2]:]
    if k == 'ins':
        return d[:p] + m[2] + d[p:]
    if k == 'dup':
        q = m[3] % (len(d) + 1)
        return d[:q] + d[p:p + m[2]] + d[q:]
    if k == 'cut':
        return d[:p]
    if k == 'len':
        fs = list(re.finditer(rb'(?i)(content-length: *)([^\r\n]*)|( )(\d+)(?=\n)', d))
        if not fs:
            return d
        f = fs[m[1] % len(fs)]
        g = 2 if f.group(2) is not None else 4
        return d[:f.start(g)] + m[2] + d[f.end(g):]
    lines = d.split(b'\n')
    i = m[1] % len(lines)
    if k == 'line':
        lines[i] = m[2] + b'\r'
    elif k == 'dline':
        del lines[i]
    elif k == 'nl':
        lines[i] = lines[i][:-1] if lines[i].endswith(b'\r') else lines[i] + b'\r'
    else:
        j = m[2] % len(lines)
        lines[i], lines[j] = lines[j], lines[i]
    return b'\n'.join(lines)


def plain_view(data):
    """what the bytes hold when the gzip members at the front are decompressed (as far as that goes)"""
    out = []
    while data[:2] == b'\x1f\x8b':
        d = zlib.decompressobj(31)
        got, k = [], 0
        try:
            for k in range(0, len(data), 64):
                got.append(d.decompress(data[k:k + 64]))
                if d.eof:
                    break
        except zlib.error:
            # a byte at a time up to the error
            d = zlib.decompressobj(31)
            got = []
            try:
                for j in range(len(data)):
                    got.append(d.decompress(data[j:j + 1]))
            except zlib.error:
                pass
            out.append(b''.join(got))
            break
        out.append(b''.join(got))
        if not d.eof:
            return b''.join(out)
        data = d.unused_data + data[k + 64:]
    else:
        out.append(data)
        return b''.join(out)
    out.append(data)
    return b''.join(out)


def consume(data, o, stats, keep=None):
    """read everything; -> [(headers, http, raw or content, offset, length)], how it ended, iterator"""
    from warcio.exceptions import ArchiveLoadFailed
    from warcio.statusandheaders import StatusAndHeadersParserException
    from warcio.archiveiterator import ArchiveIterator, WARCIterator, ARCIterator
    cls = {'any': ArchiveIterator, 'warc': WARCIterator, 'arc': ARCIterator}[o['cls']]
    out, end, it = [], 'done', None
    limit = 4 * len(data) + 64
    gz = data[:2] == b'\x1f\x8b'
    if gz:
        limit += 2 * len(plain_view(data))
    try:
        it = iterate(data, o['dl'], cls=cls, no_record_parse=o['nrp'], verify_http=o['verify'], arc2warc=o['conv'], ensure_http_headers=o['ens'], block_size=o['bs'], check_digests=o['dig'])
        for rec in it:
            req(len(out) < limit, 'more than %d records from %d bytes', limit, len(data))
            h = rec.http_headers
            e = [rec.format, rec.rec_type, rec.rec_headers.protocol, list(rec.rec_headers.headers), h and (h.protocol, h.statusline, list(h.headers)), None, None, rec.length]
            out.append(e)
            if o['mode'] == 'raw':
                e[5] = drain(rec.raw_stream)
            elif o['mode'] == 'content':
                s = rec.content_stream()
                got = []
                total = 0
                while True:
                    x = s.read(8192)
                    if not x:
                        break
                    got.append(x)
                    total += len(x)
                    req(total < 64 << 20, 'content without end')
                e[5] = b''.join(got)
                eq(s.read(10), b'', 'reading on after the end of the content')
            elif o['mode'] == 'ops':
                s = rec.raw_stream
                e[5] = b''.join([gen.do_read(s, op) for op in o['ops']]) + drain(s)
            e[6] = (it.get_record_offset(), it.get_record_length())
    except ArchiveLoadFailed:
        end = 'load failed'
    except StatusAndHeadersParserException:
        req(o['verify'] and not o['nrp'], 'the header parser\'s exception escapes though HTTP verification was not asked for')
        end = 'http failed'
    stats.label('end: ' + end)
    stats.label('records', len(out))
    return out, end, it


def not_twice(data, out, o):
    """raw contents are disjoint pieces of the input, in order"""
    view = plain_view(data)
    p = 0
    for k, e in enumerate(out):
        if e[5]:
            q = view.find(e[5], p)
            req(q >= 0, 'content of record %d (%d bytes) is not found in the input after the end of the previous one: %r', k, len(e[5]), e[5][:80])
            p = q + len(e[5])


mcases = st.builds(lambda a, b, ms, om, o, pre: {'a': a, 'b': b, 'muts': ms, 'outer': om, 'o': o, 'gz': pre}, arch, st.one_of(st.none(), st.none(), arch), st.lists(mut, max_size=3), st.lists(mut, max_size=2), opts,
                   st.sampled_from(['as is', 'as is', 'as is', 'whole', 'twice']))


def start(a):
    return (gen.assemble_arc if a.get('arc') else gen.assemble)(a)


@sub('C22', 'mutated', mcases, 10000,
     rule='1-2 generated archives with up to 3 mutations before and 2 after compression, all reading options; non-trivial: some mutation and some record delivered or an error')
def mutated(case, stats):
    a = case['a']
    inner = dict(a, gz=None)
    data, bs = start(inner)
    for m in case['muts']:
        data = mutate(data, m)
    if a['gz']:
        # members end where the records (of the unmutated archive) ended
        cuts = sorted(set(min(len(data), b.offset + len(b.stored)) for b in bs))
        pieces = [data[x:y] for x, y in zip([0] + cuts, cuts + [len(data)])]
        data = b''.join(ref.gz(x, **dict(a['gz'][i % len(a['gz'])])) for i, x in enumerate(pieces) if x)
    if case['b']:
        data += start(case['b'])[0]
    for m in case['outer']:
        data = mutate(data, m)
    if case['gz'] == 'whole':
        data = ref.gz(data)
    elif case['gz'] == 'twice':
        data = ref.gz(ref.gz(data))
    out, end, it = consume(data, case['o'], stats)
    if case['o']['mode'] in ('raw', 'ops'):
        not_twice(data, out, case['o'])
    stats.nontrivial(bool(case['muts'] or case['outer']) and (bool(out) or end != 'done'))
    stats.label('format mixed', bool(case['b']) and bool(case['b'].get('arc')) != bool(a.get('arc')))


@sub('C22', 'soup', st.builds(lambda s, z, o: {'s': s, 'gz': z, 'o': o}, soup, st.sampled_from([None, None, 'one', 'each']), opts), 10000,
     rule='sequences of 0-14 fragments of headers, ARC lines, chunk and gzip bytes; non-trivial: a record is delivered')
def soup_(case, stats):
    parts = [a + b for a, b in case['s']]
    data = b''.join(parts)
    if case['gz'] == 'one':
        data = ref.gz(data)
    elif case['gz'] == 'each':
        data = b''.join(ref.gz(p) for p in parts)
    out, end, it = consume(data, case['o'], stats)
    if case['o']['mode'] in ('raw', 'ops'):
        not_twice(data, out, case['o'])
    stats.nontrivial(bool(out))


@sub('C22', 'bytes', st.builds(lambda b, p, o: {'b': p + b, 'o': o}, st.binary(max_size=200), st.sampled_from([b'', b'\x1f\x8b', b'\x1f\x8b\x08', b'WARC/1.0\r\n', b'a b c d 5\n', b'\n', b'\x1f\x8b\x08\x04\0\0\0\0\0\xff']), opts), 4000,
     rule='arbitrary bytes, some after the start of a gzip member or header; non-trivial: not empty')
def bytes_(case, stats):
    out, end, it = consume(case['b'], case['o'], stats)
    if case['o']['mode'] in ('raw', 'ops'):
        not_twice(case['b'], out, case['o'])
    stats.nontrivial(len(case['b']) > 2)


# ---------------------------------------------------------------------------- records before the damage
bcases = st.builds(lambda a, k, ms, o: {'a': a, 'k': k, 'muts': ms, 'o': dict(o, cls='any', verify=False, mode='raw' if o['mode'] == 'ops' else o['mode'])},
                   st.one_of(gen.archives(gen.records(pay=pay), min_size=2, max_size=4), gen.arcs(min_size=2, max_size=3)), st.integers(0, 5), st.lists(mut, min_size=1, max_size=3), opts)


@sub('C22', 'before', bcases, 4000, rule='archives mutated from the start of one record on; non-trivial: a record lies before the damage')
def before(case, stats):
    a, o = case['a'], case['o']
    data, bs = start(a)
    k = case['k'] % len(bs)
    p = bs[k].offset
    tail = data[p:]
    if a['gz'] and case['k'] % 2:
        # damage inside the compressed data
        d = zlib.decompressobj(31)
        inner = d.decompress(tail)
        for m in case['muts']:
            inner = mutate(inner, m)
        tail = ref.gz(inner) + d.unused_data
    else:
        for m in case['muts']:
            tail = mutate(tail, m)
    want = consume(data, o, type(stats)())[0][:k]
    got = consume(data[:p] + tail, o, stats)[0]
    if a.get('arc') and o['conv']:
        for e in want + got:
            e[3] = [h for h in e[3] if h[0] != 'WARC-Record-ID']
    req(len(got) >= k, 'only %d of the %d records before the damage are delivered', len(got), k)
    for j in range(k):
        if k and j == k - 1 and tail[:1] not in (b'W', b'h', b'd', b'f', b'\x1f') and not a['gz']:
            # blank or other lines that now follow belong to the separator
            eq(got[j][:6] + [got[j][6][0]], want[j][:6] + [want[j][6][0]], 'record %d before the damage' % j)
        else:
            eq(got[j], want[j], 'record %d before the damage' % j)
    stats.nontrivial(k > 0)


# ---------------------------------------------------------------------------- lengths
lcases = st.builds(lambda a, k, n, o: {'a': a, 'k': k, 'n': n, 'o': o}, gen.archives(gen.records(pay=gen.payload_small, digests=False, encodings=False), min_size=1, max_size=3), st.integers(0, 5),
                   st.one_of(st.sampled_from([b'-1', b'-5', b'x', b'', b'1e3', b'0x10', b'4.0', b'1 2', b'nan', b'--3', b'-99999999999999999999', b'5;', b'5 bytes', b'\xc3\xa9']), st.integers(-30, 30), st.integers(-300, 300)), opts)


@sub('C22', 'lengths', lcases, 6000,
     rule='one record of an archive gets an invalid, negative, too small or too large length; non-trivial: the length is wrong')
def lengths(case, stats):
    from warcio.exceptions import ArchiveLoadFailed
    a = case['a']
    data, bs = gen.assemble(dict(a, gz=None))
    k = case['k'] % len(bs)
    b = bs[k]
    if isinstance(case['n'], int):
        n = max(0, len(b.block) + case['n'])
        text = b'%d' % n
    else:
        n, text = 0, case['n']
    # the length field is at the place gen.build put it
    head = b.wire[:len(b.wire) - len(b.block)]
    new, cnt = re.subn(rb'(?i)(\r\ncontent-length: )\d+(?=\r\n)', lambda m: m.group(1) + text, head)
    eq(cnt, 1, 'harness: one length field')
    pre = data[:b.offset]
    rest = b.block + b'\r\n\r\n' + data[b.offset + len(b.stored):]
    inner = new + (b.block + b'\r\n\r\n' if a['gz'] else rest)
    if a['gz']:
        full = b''.join(ref.gz(x.raw) for x in bs[:k]) + ref.gz(inner) + b''.join(ref.gz(x.raw) for x in bs[k + 1:])
    else:
        full = pre + inner
    after = inner[len(new):]
    want, follow = after[:n], after[n:]
    line = follow.split(b'\n', 1)[0]
    o = case['o']
    it = iterate(full, o['dl'], no_record_parse=True, block_size=o['bs'])
    seen = 0
    try:
        for rec in it:
            if seen == k:
                eq(rec.length, n, 'length of the record with length field %r' % text)
                eq(drain(rec.raw_stream), want, 'content of the record with length field %r' % text)
                errs = it.err_count
                eq(errs, 0, 'errors counted before the record')
                it.get_record_length()
                bad = bool(line.strip())
                eq(it.err_count, 1 if bad else 0, 'errors counted for a record followed by %r' % follow[:20])
                stats.label('flagged', bad)
                stats.label('invalid', not isinstance(case['n'], int))
                seen += 1
                break
            if o['mode'] != 'skip':
                eq(drain(rec.raw_stream), bs[seen].block, 'record before the one with the wrong length')
            seen += 1
    except ArchiveLoadFailed as e:
        fail('the record with length field %r is not delivered: %s', text, e)
    eq(seen, k + 1, 'records delivered')
    stats.nontrivial(n != len(b.block) or not isinstance(case['n'], int))


# ---------------------------------------------------------------------------- each of them is counted and warned of
fcases = st.builds(lambda a, js, o, g: {'a': a, 'junk': js, 'o': o, 'gz': g}, gen.archives(gen.records(pay=gen.payload_small, digests=False, encodings=False), min_size=1, max_size=5),
                   st.lists(st.one_of(st.none(), st.sampled_from([b'x', b'junk', b'0', b'</html>', b'WARC/1.0', b'  y', b'\xff\x00z', b'a' * 400]), gen.token.map(str.encode)), min_size=5, max_size=5), opts, st.booleans())


@sub('C22', 'flags', fcases, 2500, rule='1-5 records, some with a length that leaves out the last line of the block; non-trivial: at least one')
def flags(case, stats):
    from contextlib import redirect_stderr
    _, bs = gen.assemble(dict(case['a'], gz=None))
    full, want = b'', []
    for b, j in zip(bs, case['junk']):
        rec = b.wire
        if j is not None:
            if not case['gz']:
                want.append((len(full) + len(rec), j))
            else:
                want.append((None, j))
            rec += j + b'\r\n'
        rec += b'\r\n\r\n'
        full += ref.gz(rec) if case['gz'] else rec
    err = io.StringIO()
    o = case['o']
    with redirect_stderr(err):
        it = iterate(full, o['dl'], no_record_parse=o['nrp'], block_size=o['bs'])
        got, counts = [], []
        for rec in it:
            counts.append(it.err_count)
            if o['mode'] != 'skip':
                got.append(drain(rec.raw_stream))
            else:
                got.append(None)
        counts.append(it.err_count)
    eq(len(got), len(bs), 'records delivered')
    if o['nrp'] and o['mode'] != 'skip':
        eq(got, [b.block for b in bs], 'blocks')
    exp, n = [], 0
    for k in range(len(bs)):
        exp.append(n)
        n += case['junk'][k] is not None
    eq(counts, exp + [n], 'errors counted when each record is delivered and at the end')
    text = err.getvalue()
    at = 0
    for off, j in want:
        if off is not None:
            m = re.compile(r'(?<!\d)%d(?!\d)' % off).search(text, at)
            req(m, 'no warning tells the offset %d of data that belongs to no record: %r', off, text)
            at = m.end()
    req(bool(text) == bool(want), 'warnings %r for %d records with a wrong length', text, len(want))
    stats.nontrivial(bool(want))
    stats.label('%d flagged' % len(want))
