import io
from hypothesis import strategies as st
from vk import gen, ref
from vk.core import sub, eq, req, fail
from vk.views import iterate, drain, check_head, check_raw
from vk.streams import source

when = st.sampled_from(['before', 'after', 'mid', 'twice', 'len-first', 'next-only'])
arch = st.one_of(gen.archives(gen.records(digests=False, encodings=False), max_size=5),
                 gen.archives(gen.records(digests=False, encodings=False), max_size=5), gen.arcs())
cases = st.builds(lambda a, d, bs, w, ops, pre, nrp, cv, k: {'a': a, 'dl': d, 'bs': bs, 'when': w, 'ops': ops, 'pre': pre, 'nrp': nrp, 'conv': cv, 'k': k},
                  arch, gen.delivery, gen.block_size, st.lists(when, min_size=1, max_size=3), st.lists(gen.read_ops, min_size=1, max_size=3),
                  st.sampled_from([0, 0, 1, 17, 16384, 20000]), st.booleans(), st.booleans(), st.integers(0, 5))


def collect(it, case):
    """[(offset, length, record type, raw bytes read so far ...)]"""
    got = []
    i = 0
    for rec in it:
        w = case['when'][i % len(case['when'])]
        ops = case['ops'][i % len(case['ops'])]
        if w == 'before':
            pass
        elif w in ('after', 'twice'):
            drain(rec.raw_stream)
        else:
            for op in ops:
                gen.do_read(rec.raw_stream, op)
        if w == 'len-first':
            l = it.get_record_length()
            o = it.get_record_offset()
        else:
            o = it.get_record_offset()
            l = it.get_record_length()
        if w == 'twice':
            eq((it.get_record_offset(), it.get_record_length()), (o, l), 'asking again for offset and length of record %d' % i)
        got.append((o, l))
        i += 1
    return got


@sub('C05', 'offsets', cases, 5000,
     rule='generated WARC/ARC archives, any delivery/block size/start position/time of asking; non-trivial: >= 2 records and gzip or a non-default delivery')
def offsets(case, stats):
    a = case['a']
    arc = a.get('arc')
    data, bs = (gen.assemble_arc if arc else gen.assemble)(a)
    pre = b'\0' * case['pre']
    kw = {'no_record_parse': case['nrp'], 'arc2warc': case['conv'], 'block_size': case['bs']}
    base = case['pre'] if case['dl']['mode'] in ('bytesio', 'seek', 'tell') else 0
    it = iterate(pre + data, case['dl'], start=case['pre'], **kw)
    got = collect(it, case)
    want = [(b.offset + base, b.length) for b in bs]
    eq(got, want, 'offsets and lengths of all records')
    stats.nontrivial(len(bs) >= 2 and bool(a['gz'] or case['dl']['mode'] != 'bytesio' or case['bs'] != gen.BLK))
    stats.label('gzip', bool(a['gz']))
    stats.label('arc', bool(arc))
    stats.label('start > 0', base > 0)
    stats.label('records', len(bs))
    if not bs:
        return
    # random access at one reported offset: same record, then all following ones
    k = case['k'] % len(bs)
    off = got[k][0] - base
    f = io.BytesIO(data)
    f.seek(off)
    from warcio.archiveiterator import ArchiveIterator
    it2 = ArchiveIterator(f, **kw)
    sub_got = []
    for j, rec in enumerate(it2):
        req(k + j < len(bs), 'seeking to the offset of record %d delivers extra records', k)
        check(rec, bs[k + j], 'record %d after seeking to the offset of record %d' % (k + j, k), case, arc)
        sub_got.append((it2.get_record_offset(), it2.get_record_length()))
    eq(sub_got, [(b.offset, b.length) for b in bs[k:]], 'offsets after seeking to record %d' % k)
    # the slice read on its own is exactly that record
    it3 = ArchiveIterator(io.BytesIO(data[off:off + got[k][1]]), **kw)
    n = 0
    for rec in it3:
        req(n == 0, 'slice of record %d delivers more than one record', k)
        check(rec, bs[k], 'slice of record %d' % k, case, arc)
        n += 1
    eq(n, 1, 'records in the slice [offset, offset+length) of record %d' % k)


def check(rec, b, what, case, arc):
    if not arc:
        check_head(rec, b, what, parsed=not case['nrp'])
    else:
        eq(rec.format, 'warc' if case['conv'] else 'arc', what + ' format')
        eq(rec.length, len(b.block), what + ' length')
        name = 'uri' if not case['conv'] else 'WARC-Target-URI'
        if b.kind == 'response':
            eq(rec.rec_headers.get_header(name), b.url if not case['conv'] else b.url.replace(' ', '%20'), what + ' url')
    eq(drain(rec.raw_stream), b.block if case['nrp'] or not b.http else b.payload, what + ' raw content')


# blank lines where a record is expected are no record
blank = st.lists(st.sampled_from([b'\n', b'\r\n', b'\r\n\r\n', b'\n\n\n', b'']), min_size=1, max_size=3)
blanks = st.builds(lambda a, bl, d, bs: {'a': a, 'blank': bl, 'dl': d, 'bs': bs},
                   st.one_of(gen.archives(gen.records(digests=False, encodings=False), min_size=1, max_size=4), gen.arcs(min_size=1)), blank, gen.delivery, gen.block_size)


@sub('C05', 'blank_lines', blanks, 1500,
     rule='archives with blank lines before the first record of the file or of a gzip member (for plain ones also further ones between records); non-trivial: there are some')
def blank_lines(case, stats):
    a = case['a']
    arc = a.get('arc')
    _, bs = (gen.assemble_arc if arc else gen.assemble)(a)
    out, pos, want = [], 0, []
    for i, b in enumerate(bs):
        lead = case['blank'][i % len(case['blank'])]
        if a['gz']:
            tail = b'\n' * b.tail if arc else b'\r\n\r\n'
            x = ref.gz(lead + b.wire + tail, **dict(a['gz'][i % len(a['gz'])]))
            want.append((pos, len(x)))
        else:
            x = lead + b.stored
            want.append((pos + len(lead), b.length))
        out.append(x)
        pos += len(x)
    it = iterate(b''.join(out), case['dl'], block_size=case['bs'])
    got = []
    for rec in it:
        req(len(got) < len(bs), 'more records delivered than stored')
        b = bs[len(got)]
        eq(rec.length, len(b.block), 'length of record %d' % len(got))
        eq(drain(rec.raw_stream), b.payload, 'content of record %d' % len(got))
        got.append((it.get_record_offset(), it.get_record_length()))
    eq(got, want, 'offsets and lengths')
    stats.nontrivial(any(case['blank'][i % len(case['blank'])] for i in range(len(bs))))
    stats.label('gzip', bool(a['gz']))
    stats.label('arc', bool(arc))


# ---------------------------------------------------------------------------- positions and lengths beyond 32 bits
class Shifted(io.BytesIO):
    """the part of a huge file that starts at position `base`"""
    def __init__(self, data, base):
        io.BytesIO.__init__(self, data)
        self.base = base

    def tell(self):
        return io.BytesIO.tell(self) + self.base

    def seek(self, pos, whence=0):
        return io.BytesIO.seek(self, pos - self.base if whence == 0 else pos, whence) + self.base


bases = st.one_of(st.builds(lambda b, d: 2 ** b + d, st.sampled_from([31, 32, 33, 40, 53, 62]), st.integers(-3000, 3000)), st.integers(1, 10 ** 15))
far = st.builds(lambda a, b, bs, w, o, cv: {'a': a, 'base': b, 'bs': bs, 'when': w, 'ops': o, 'conv': cv}, arch, bases, gen.block_size,
                st.lists(when, min_size=1, max_size=3), st.lists(gen.read_ops, min_size=1, max_size=3), st.booleans())


@sub('C05', 'far', far, 1500, rule='archives that start at a position around powers of two up to 2**62 in their stream; non-trivial: >= 2 records')
def far_away(case, stats):
    from warcio.archiveiterator import ArchiveIterator
    a, base = case['a'], case['base']
    arc = a.get('arc')
    data, bs = (gen.assemble_arc if arc else gen.assemble)(a)
    want = [(b.offset + base, b.length) for b in bs]
    kw = {'block_size': case['bs'], 'arc2warc': case['conv']}
    f = Shifted(data, base)
    eq(collect(ArchiveIterator(f, **kw), case), want, 'offsets and lengths')
    for k, (o, l) in enumerate(want):
        f.seek(o)
        it = ArchiveIterator(f, **kw)
        eq(collect(it, dict(case, when=['before'])), want[k:], 'offsets and lengths after seeking to record %d' % k)
    stats.nontrivial(len(bs) >= 2)
    stats.label('gzip', bool(a['gz']))


class Zeros(object):
    """head, n zero bytes, tail: a stream that is not held in memory"""
    zeros = bytes(1 << 16)

    def __init__(self, head, n, tail):
        self.parts, self.pos = [head, n, tail], 0
        self.ends = [len(head), len(head) + n, len(head) + n + len(tail)]

    def tell(self):
        return self.pos

    def read(self, n):
        for part, end in zip(self.parts, self.ends):
            if self.pos < end:
                left = min(n, end - self.pos)
                if isinstance(part, int):
                    out = self.zeros[:left]
                else:
                    k = self.pos - end + len(part)
                    out = part[k:k + left]
                self.pos += len(out)
                return out
        return b''


giant = st.builds(lambda n, d, r, h, arc, after: {'size': n + d, 'read': r, 'http': h, 'arc': arc, 'after': after}, st.sampled_from([2 ** 31, 2 ** 32]), st.integers(-70000, 70000), st.integers(0, 100000),
                  st.booleans(), st.sampled_from([False, False, True]), st.integers(0, 30))


@sub('C05', 'giant', giant, 8, rule='a record of around 2 or 4 GB (never in memory), WARC or ARC, part of which is read, and one after it; non-trivial: any')
def giant_record(case, stats):
    from warcio.archiveiterator import ArchiveIterator
    n = case['size']
    http = b'HTTP/1.1 200 OK\r\nA: b\r\n\r\n' if case['http'] or case['arc'] else b''
    second = b'x' * case['after']
    if case['arc']:
        head = b'http://a.b/ 1.2.3.4 20200101000000 text/html %d\n' % (n + len(http)) + http
        tail = b'\n' + b'http://a.b/c 1.2.3.4 20200101000000 text/html %d\n' % (len(second) + len(http)) + http + second
        end = len(tail) - 1
    else:
        h = 'WARC/1.0\r\nWARC-Type: response\r\nWARC-Record-ID: <urn:uuid:0>\r\nWARC-Target-URI: %s://a.b/\r\nContent-Length: %d\r\n\r\n'
        scheme = 'http' if case['http'] else 'ftp'
        head = (h % (scheme, n + len(http))).encode() + http
        tail = b'\r\n\r\n' + (h % (scheme, len(second) + len(http))).encode() + http + second + b'\r\n\r\n'
        end = len(tail) - 8
    it = ArchiveIterator(Zeros(head, n, tail))
    got = []
    for k, rec in enumerate(it):
        req(k < 2, 'more records than stored')
        eq(rec.length, (n, len(second))[k] + len(http), 'length of record %d' % k)
        d = rec.raw_stream.read(case['read'])
        eq(rec.raw_stream.tell(), len(d) + len(http), 'position in record %d' % k)
        if k:
            eq(d, second[:case['read']], 'content of the record after it')
        else:
            req(d == bytes(case['read']), 'wrong content of the giant record')
        got.append((it.get_record_offset(), it.get_record_length()))
    sep = 1 if case['arc'] else 4
    eq(got, [(0, len(head) + n), (len(head) + n + sep, end)], 'offsets and lengths')
    stats.nontrivial()
