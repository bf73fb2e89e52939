import io, zlib
from hypothesis import strategies as st
from vk.views import drain
from vk import gen, ref
from vk.core import sub, eq, req, fail
from vk.streams import source
from vk.props.c07_partial import Model, op

neg = st.one_of(st.tuples(st.just('r'), st.integers(-3, -1)), st.tuples(st.just('l'), st.integers(-3, -1)))
ops = st.lists(st.one_of(op, op, op, neg, st.just(('next', 0))), max_size=14)
data = st.one_of(gen.payload, gen.payload, st.lists(gen.segment(st.one_of(st.integers(0, 200), gen.sizes_edge)), min_size=1, max_size=3))
bcases = st.builds(lambda k, ms, o, dl, bs, al, gzo, sd, fin: {'kind': k, 'members': ms, 'ops': o, 'dl': dl, 'bs': bs, 'all': al, 'gz': gzo, 'sd': sd, 'fin': fin},
                   st.sampled_from(['plain', 'plain-decomp', 'gzip', 'gzip', 'gzip', 'gzip-default', 'zlib', 'deflate_alt', 'br']),
                   st.lists(data, min_size=1, max_size=3), ops, gen.delivery, gen.block_size, st.booleans(),
                   st.lists(gen.gz_opts, min_size=1, max_size=2), st.sampled_from([None, None, 0, 1, 3, 20]), st.sampled_from(['loop', 'read', 'line', 'none']))


def plainly(o, f):
    k, n = o
    return gen.do_read(f, (k, n))


@sub('C10', 'buffered', bcases, 12000,
     rule='sequences of reads on Buffered/DecompressingBufferedReader over any delivery; non-trivial: more than one block or member and >= 2 calls')
def buffered(case, stats):
    from warcio.bufferedreaders import BufferedReader, DecompressingBufferedReader
    kind = case['kind']
    ms = [gen.expand(m) for m in case['members']]
    if not kind.startswith('gzip'):
        ms = [b''.join(ms)]
    if kind == 'plain-decomp' and (ms[0][:1] == b'\x1f' or len(ms[0]) < 2):
        ms = [b'xy' + ms[0]]
    if kind.startswith('gzip'):
        stored = [ref.gz(m, **dict(case['gz'][i % len(case['gz'])])) for i, m in enumerate(ms)]
    elif kind == 'zlib':
        stored = [zlib.compress(ms[0])]
    elif kind == 'deflate_alt':
        stored = [ref.raw_deflate(ms[0])]
    elif kind == 'br':
        stored = [ref.encode(ms[0], 'br')]
    else:
        stored = list(ms)
    raw = b''.join(stored)
    src = source(raw, 'seek' if case['dl']['mode'] == 'bytesio' else case['dl']['mode'], case['dl']['sizes'])
    kw = {'block_size': case['bs']}
    sd = None
    if case['sd'] is not None:
        sd = raw[:case['sd']]
        src.pos = len(sd)
        kw['starting_data'] = sd
    if case['all']:
        kw['read_all_members'] = True
    if kind == 'plain':
        rd = BufferedReader(src, **kw)
    elif kind in ('plain-decomp', 'gzip-default'):
        rd = DecompressingBufferedReader(src, **kw)
    else:
        name = {'zlib': 'deflate'}.get(kind, kind)
        rd = BufferedReader(src, decomp_type=name.upper() if len(case['ops']) % 3 == 1 else name, **kw)
    multi = kind.startswith('gzip') and len(ms) > 1
    if case['all']:
        ms, stored = [b''.join(ms)], [raw]
    cur = 0
    m = Model(ms[0])
    total = len(b''.join(ms))
    consumed, sent = 0, 0
    ended = False
    gz = kind not in ('plain', 'plain-decomp')

    def check(what):
        req(rd.tell() >= consumed, '%s: position %r but %d bytes were returned', what, rd.tell(), consumed)
        req(rd.tell() <= total, '%s: position %r of %d', what, rd.tell(), total)
        taken = src.pos
        if not gz:
            eq(consumed + rd.rem_length(), taken, what + ': consumed + remainder')
            eq(rd.tell(), taken, what + ': position')
        elif ended and not case['all'] and kind != 'br':
            # all of this member consumed and its end seen
            eq(taken - rd.rem_length(), sum(len(x) for x in stored[:cur + 1]), what + ': bytes taken minus remainder at the end of member %d' % cur)
            eq(rd.tell(), consumed, what + ': position at the end of member')
    for j, o in enumerate(case['ops']):
        what = 'call %d %r on %s after %d bytes of member %d' % (j, o, kind, m.f.tell(), cur)
        if o[0] == 'next':
            if not ended or case['all'] or not gz:
                continue
            r = rd.read_next_member()
            eq(bool(r), cur + 1 < len(ms) and kind.startswith('gzip'), what + ': next member')
            if r:
                cur += 1
                m = Model(ms[cur])
                ended = False
            continue
        if o == ('r', 0) or o == ('l', 0):
            eq(gen.do_read(rd, o), b'', what)
            continue
        mo = ({'r': 'R', 'l': 'L'}[o[0]], 0) if o[1] < 0 else o
        want = m.apply(mo)
        got = gen.do_read(rd, o)
        eq(got, want, what)
        consumed += len(got)
        if not want:
            ended = True
        check(what)
    # the rest
    fin = case['fin']
    while fin != 'none':
        while True:
            want = m.f.read(7000) if fin == 'loop' else m.f.read() if fin == 'read' else m.f.readline()
            got = rd.read(7000) if fin == 'loop' else rd.read() if fin == 'read' else rd.readline()
            eq(got, want, 'reading the rest of member %d (%s)' % (cur, kind))
            consumed += len(got)
            if not got:
                break
        ended = True
        check('at the end of member %d' % cur)
        eq(rd.read(10), b'', 'after the end')
        eq(rd.readline(), b'', 'after the end')
        more = rd.read_next_member() if gz and not case['all'] else False
        eq(bool(more), kind.startswith('gzip') and not case['all'] and cur + 1 < len(ms), 'whether there is a member after %d' % cur)
        if not more:
            break
        cur += 1
        m = Model(ms[cur])
        ended = False
    req(0 <= src.max_ask <= case['bs'], 'a reader with block size %d asked the stream for %d bytes', case['bs'], src.max_ask)
    rd.close()
    req(src.closed, 'close() left the underlying stream open')
    rd.close()
    stats.nontrivial((len(raw) > case['bs'] or bool(case['dl']['sizes']) or multi) and len(case['ops']) >= 2)
    stats.label(kind)
    stats.label('several members', multi)
    stats.label('all members', case['all'])


lcases = st.builds(lambda d, n, o, u, sz, w, pre: {'data': d, 'n': n, 'ops': o, 'under': u, 'sizes': sz, 'wrap': w, 'pre': pre},
                   data, st.one_of(st.integers(0, 60), st.integers(0, 40000)), st.lists(st.one_of(op, op, neg), max_size=12),
                   st.sampled_from(['bytesio', 'buffered', 'source', 'limit', 'wrap', 'wrapstr']), st.lists(st.integers(1, 9), max_size=3),
                   st.one_of(st.none(), st.integers(0, 60)), st.integers(0, 10))


@sub('C10', 'limited', lcases, 10000, rule='sequences of calls on a LimitReader; non-trivial: the limit cuts the data and >= 2 calls')
def limited(case, stats):
    from warcio.limitreader import LimitReader
    from warcio.bufferedreaders import BufferedReader
    d = gen.expand(case['data'])
    n, u = case['n'], case['under']
    base = io.BytesIO(d)
    lim = n
    if u == 'buffered':
        under = BufferedReader(base, block_size=7)
        r = LimitReader(under, n)
    elif u == 'source':
        under = base = source(d, 'tell', case['sizes'])
        r = LimitReader(under, n)
    elif u == 'limit':
        under = base
        r = LimitReader(LimitReader(base, n), n + 5 if case['wrap'] is None else case['wrap'])
        lim = min(n, n + 5 if case['wrap'] is None else case['wrap'])
    elif u in ('wrap', 'wrapstr'):
        r0 = LimitReader.wrap_stream(base, n if u == 'wrap' else str(n))
        pre = r0.read(case['pre'])
        eq(pre, d[:min(n, case['pre'])], 'before nesting')
        r = r0
        if case['wrap'] is not None:
            w = case['wrap']
            r = LimitReader.wrap_stream(r0, w if u == 'wrap' else str(w))
            lim = len(pre) + min(n - len(pre), w)
            eq(r.tell(), len(pre), 'position after nesting limits %d and %d having consumed %d' % (n, w, len(pre)))
        for bad in (None, 'abc', '', -1, '-4', '1.5', 'x1'):
            s = io.BytesIO(b'')
            req(LimitReader.wrap_stream(s, bad) is s, 'wrap_stream with limit %r does not return the stream', bad)
            req(LimitReader.wrap_stream(r, bad) is r and True, 'wrap_stream with limit %r', bad)
    else:
        r = LimitReader(base, n)
    m = Model(d[:lim])
    done = 0
    if u in ('wrap', 'wrapstr'):
        m.f.read(len(pre))
        done = len(pre)
    for j, o in enumerate(case['ops']):
        what = 'call %d %r (limit %d of %d, %d consumed)' % (j, o, lim, len(d), done)
        got = gen.do_read(r, o)
        if u == 'source' and case['sizes'] and o[0] in 'rR':
            # short reads of the underlying stream pass through
            left = m.f.getvalue()[done:]
            want_max = left if o[1] < 0 or o[0] == 'R' else left[:o[1]]
            req(want_max.startswith(got) and (got or not want_max), '%s: got %r, the next bytes are %r', what, got[:50], want_max[:50])
            m.f.seek(done + len(got))
        else:
            mo = ({'r': 'R', 'l': 'L'}[o[0]], 0) if o[1] < 0 else o
            eq(got, m.apply(mo), what)
        done += len(got)
        eq(r.tell(), done, what + ': position')
        if u == 'source':
            req(base.max_pos <= lim, '%s: consumed %d bytes of the underlying stream, limit %d', what, base.max_pos, lim)
        elif u != 'buffered':
            req(base.tell() <= lim, '%s: consumed %d bytes of the underlying stream, limit %d', what, base.tell(), lim)
    r.close()
    req(base.closed, 'close() left the underlying stream open')
    stats.nontrivial(len(d) > lim and len(case['ops']) >= 2)
    stats.label(u)


@sub('C10', 'chunked_lines', st.builds(lambda d, s, o, dl, bs, di: {'d': d, 's': s, 'ops': o, 'dl': dl, 'bs': bs, 'direct': di}, data,
                                       st.lists(st.integers(1, 60), max_size=3), ops, gen.delivery, gen.block_size, st.booleans()), 4000,
     rule='sequences of reads on a strict ChunkedDataReader over well-formed chunks; non-trivial: >= 2 chunks and >= 2 calls')
def chunked_lines(case, stats):
    from warcio.bufferedreaders import ChunkedDataReader, BufferedReader
    d = gen.expand(case['d'])
    raw = ref.chunk(d, case['s'])
    follow = b'NEXT RESPONSE\r\n'
    under = source(raw + follow, case['dl']['mode'], case['dl']['sizes'])
    if not case.get('direct'):
        under = BufferedReader(under, block_size=case['bs'])
    rd = ChunkedDataReader(under, raise_exceptions=True, block_size=case['bs'])
    m = Model(d)
    for j, o in enumerate(case['ops']):
        if o[0] == 'next':
            continue
        mo = ({'r': 'R', 'l': 'L'}[o[0]], 0) if o[1] < 0 else o
        eq(gen.do_read(rd, o), m.apply(mo), 'call %d %r' % (j, o))
    eq(rd.read(), m.f.read(), 'the rest')
    eq(rd.read(5), b'', 'after the end')
    # never takes bytes of what follows the last chunk
    eq(drain(under), follow, 'bytes after the chunked data')
    stats.nontrivial(len(case['s']) >= 1 and len(d) > 60 and len(case['ops']) >= 2)
