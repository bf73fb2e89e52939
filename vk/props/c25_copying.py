import re
from hypothesis import strategies as st
from vk import gen, ref
from vk.core import sub, eq, req, fail
from vk.streams import Sink
from vk.views import iterate, drain

# HTTP header blocks as found in the wild: first line, lines, line ends
_first = st.sampled_from([b'HTTP/1.1 200 OK', b'HTTP/1.0 404 Not Found', b'HTTP/1.1 200', b'HTTP/1.1', b'', b'HTTP/1.1  200  OK', b'http/1.1 200 ok', b'HTTP/1.1 200 OK ', b'GET / HTTP/1.1', b'POST /a b HTTP/1.0',
                          b'ICY 200 OK', b'nonsense', b'HTTP/1.1 200 \xc3\xa9t\xe9', b'HTTP/1.1 200 \xe9', b'SSH-2.0', b'HTTP/1.1\t200 OK', b'HTTP/2 200'])
_line = st.one_of(
    st.builds(lambda n, s, v: n.encode() + s + v.encode('utf-8'), gen.http_name, st.sampled_from([b': ', b': ', b':', b' : ', b':  ', b':\t']), st.one_of(gen.ascii_value, gen.uni_value)),
    st.builds(lambda n, v: n.encode() + b': ' + v.encode('latin-1'), gen.http_name, gen.latin_value), st.builds(lambda n: n.encode() + b':', gen.http_name),
    st.sampled_from([b'no colon here', b' folded', b'\tfolded too', b'X-A: b ', b'x-a:b', b'X:', b': v', b'Content-Length: 5', b'a: b: c']))
rawhead = st.builds(lambda f, ls, nl, e: {'f': f, 'ls': ls, 'nl': nl, 'end': e}, _first, st.lists(_line, max_size=4), st.sampled_from([b'\r\n', b'\r\n', b'\n', 'mixed']), st.sampled_from([True, True, True, True, False]))
wrong = st.one_of(st.none(), st.none(), st.sampled_from(['sha1:AAAA', 'sha1:' + 'B' * 32, 'md5:x', 'junk', 'sha256:' + 'a' * 64]))
one = st.builds(lambda c, h, bw, pw: dict(c, raw=h, bw=bw, pw=pw), gen.records(types=gen.TYPES + ['request', 'response', 'revisit']), st.one_of(st.none(), rawhead), wrong, wrong)
step = st.sampled_from(['copy'] * 6 + ['skip', 'partial', 'ensure', 'offset', 'look', 'look'])
cases = st.builds(lambda rs, s, g, o, og, p, d, dl, bs, ops, wv: {'recs': rs, 'steps': s, 'gz': g, 'gzo': o, 'outgz': og, 'nrp': p, 'dig': d, 'dl': dl, 'bs': bs, 'ops': ops, 'wv': wv},
                  st.lists(one, min_size=1, max_size=4), st.lists(step, min_size=1, max_size=4), st.booleans(), st.lists(gen.gz_opts, min_size=1, max_size=2), st.booleans(), st.booleans(),
                  st.sampled_from([False, True, 'log']), gen.delivery, gen.block_size, gen.read_ops, st.sampled_from([None, None, '1.1', '1.0', 'WARC/1.1', 1.1]))


def build(c):
    b = gen.build(c)
    b.canonical = True
    b.http_ok = b.http is not None
    uri = c.get('uri') or ''
    b.httpish = b.type in ('response', 'request', 'revisit') and uri.startswith(('http:', 'https:'))
    if c.get('raw') and b.httpish:
        h = c['raw']
        lines = [h['f']] + list(h['ls'])
        if not lines[0]:
            lines = lines[:1]       # an empty first line ends the header block
        nls = [h['nl'] if h['nl'] != 'mixed' else (b'\n', b'\r\n')[k % 2] for k in range(len(lines) + 1)]
        head = b''.join(l + n for l, n in zip(lines, nls))
        if h['f']:
            head += nls[-1] if h['end'] else b''
        body = b.payload if h['end'] else b''
        if b.type == 'revisit' and h['end'] and h['f']:
            body = gen.expand(c['body'])    # a body of a revisit record is not written (again)
        if not h['end'] and not h['f']:
            body = b''
        if body.startswith((b'\r', b'\n')) and not h['f']:
            body = b'x' + body
        b.head, b.payload, b.block = head, body, head + body
        b.canonical = False
    hs = []
    for n, v in b.headers:
        if n.lower() == 'content-length':
            v = str(len(b.block))
        hs.append((n, v))
    for k, nm, dat in (('bw', 'WARC-Block-Digest', b.block), ('pw', 'WARC-Payload-Digest', b.payload)):
        if any(n.lower() == nm.lower() for n, v in hs):
            right = gen.digest_text(c['bd' if k == 'bw' else 'pd'], dat)
            hs = [(n, (c.get(k) or right) if n.lower() == nm.lower() else v) for n, v in hs]
        elif c.get(k):
            hs.append((nm, c[k]))
    b.headers = hs
    b.wire = ref.warc_bytes(c['v'], hs, b.block, tail=b'')
    b.raw = b.wire + b'\r\n\r\n'
    return b


def look(rec, i):
    """what does not read nor change a record"""
    rec.content_stream()
    for h in (rec.rec_headers, rec.http_headers):
        if h is not None:
            str(h), repr(h), bool(h), h.to_str(), h.to_bytes(), 'x-a' in h, h['content-encoding']
            h.get_header('Content-Type'), h.get('transfer-encoding', '')
    rec.raw_stream.tell()
    rec.content_stream()


def copy(data, case, gz, steps=('copy',)):
    from warcio.warcwriter import WARCWriter
    out = Sink()
    w = WARCWriter(out, gzip=gz, warc_version=case.get('wv'))
    it = iterate(data, case['dl'], no_record_parse=case['nrp'], check_digests=case['dig'], block_size=case['bs'])
    heads = []
    for i, rec in enumerate(it):
        s = steps[i % len(steps)]
        h = rec.http_headers
        heads.append(h and (h.protocol, h.statusline, list(h.headers)))
        if s == 'partial':
            for op in case['ops']:
                gen.do_read(rec.raw_stream, op)
        elif s != 'skip':
            if s == 'ensure':
                w.ensure_digest(rec)
            if s == 'look':
                look(rec, i)
            w.write_record(rec)
            if s == 'offset':
                it.get_record_offset()
    return out.getvalue(), heads


def ascii_part(h):
    """what is not ASCII is percent-encoded on writing (C13)"""
    f = lambda x: x if x.isascii() else None
    return h and ((f(h[0]), f(h[1])) if h[0].isascii() and h[1].isascii() and not re.search('%[0-9A-F][0-9A-F]', h[0] + h[1]) else None, [(n, f(v) if not re.search('%[0-9A-F][0-9A-F]', v) else None) for n, v in h[2]])


DIG = ('warc-block-digest', 'warc-payload-digest', 'content-length')


@sub('C25', 'copying', cases, 5000,
     rule='1-4 records of any type with canonical or merely valid HTTP headers, right/wrong/absent digests, copied, skipped or partly read; non-trivial: two records copied or a non-canonical block')
def copying(case, stats):
    bs = [build(c) for c in case['recs']]
    data = b''.join(ref.gz(b.raw, **case['gzo'][i % len(case['gzo'])]) if case['gz'] else b.raw for i, b in enumerate(bs))
    out, heads = copy(data, case, case['outgz'], case['steps'])
    eq(len(heads), len(bs), 'records read')
    kept = [b for i, b in enumerate(bs) if case['steps'][i % len(case['steps'])] not in ('skip', 'partial')]
    recs = ref.parse_any(out, case['outgz'], 'the copy')
    eq(len(recs), len(kept), 'records in the copy')
    kheads = [h for i, h in enumerate(heads) if case['steps'][i % len(case['steps'])] not in ('skip', 'partial')]
    for i, (b, r) in enumerate(zip(kept, recs)):
        what = 'record %d (%s)' % (i, b.type)
        eq(r.version, b.version, what + ' version')
        eq([h for h in r.headers if h[0].lower() not in DIG], [h for h in b.headers if h[0].lower() not in DIG], what + ' WARC headers')
        eq([n for n, v in r.headers if n in dict(b.headers)], [n for n, v in b.headers], what + ' order of the WARC headers')
        eq(r.get('Content-Length'), str(len(r.block)), what + ' Content-Length')
        if b.canonical or case['nrp'] or not b.httpish:
            eq(r.block, b.block, what + ' block')
        else:
            kept_payload = b.payload if b.type != 'revisit' else b''
            req(r.block.endswith(kept_payload), '%s payload: %r is not the end of %r', what, kept_payload[:60], r.block[-80:])
            h = r.block[:len(r.block) - len(kept_payload)]
            req(not h or h.endswith(b'\r\n\r\n') or not b.block or kheads[i] in (('', '', []), None), '%s HTTP headers do not end in an empty line: %r', what, h)
        given = [v for n, v in b.headers if n.lower() == 'warc-block-digest']
        if given and r.block == b.block:
            eq(r.all('WARC-Block-Digest'), given, what + ' block digest')
        else:
            eq(r.all('WARC-Block-Digest'), [ref.b32(r.block)], what + ' block digest')
        given = [v for n, v in b.headers if n.lower() == 'warc-payload-digest']
        if given:
            eq(r.all('WARC-Payload-Digest'), given, what + ' payload digest')
        elif b.type in ('warcinfo', 'revisit'):
            eq(r.all('WARC-Payload-Digest'), [], what + ' payload digest')
        elif case['nrp'] and b.httpish and b.block:
            # cannot be known without parsing the HTTP headers
            req(r.all('WARC-Payload-Digest') in ([], [ref.b32(b.payload)]), '%s gets payload digest %r, which is not the payload\'s', what, r.all('WARC-Payload-Digest'))
        else:
            eq(r.all('WARC-Payload-Digest'), [ref.b32(b.payload)], what + ' payload digest')
    # the HTTP headers read from the copy are those read from the source
    again, heads2 = copy(out, case, case['outgz'])
    eq([ascii_part(h) for h in heads2], [ascii_part(h) for h in kheads], 'HTTP headers read from the copy')
    eq(again, out, 'copy of the copy')
    stats.nontrivial(len(kept) > 1 or any(not b.canonical for b in kept))
    stats.label('HTTP headers parsed', not case['nrp'])
    for b in kept:
        stats.label('canonical' if b.canonical else 'merely valid')
        stats.label('type ' + b.type)
    for s in case['steps']:
        stats.label('step ' + s)
