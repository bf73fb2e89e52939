import io
from hypothesis import strategies as st
from vk import gen, ref, wgen
from vk.core import sub, eq, req, fail
from vk.streams import source
from vk.props import c25_copying as c25

variant = st.builds(lambda l, s, h, ld, b, e, fh: {'len': l, 'src': s, 'how': h, 'lead': ld, 'builder': b, 'ens': e, 'file': fh}, st.booleans(), gen.delivery,
                    st.sampled_from(['sep', 'inline']), st.sampled_from([0, 0, 3, 9000, 20000]), st.sampled_from(['writer', 'builder', 'other']),
                    st.sampled_from(['', '', 'b', 'p', 'bp', 'b,p', 'bp,bp']), st.booleans())
cases = st.builds(lambda c, v, w, n: {'rec': c, 'vs': v, 'w': w, 'follow': n}, wgen.wrecords(pay=st.one_of(gen.payload, gen.payload, gen.payload_big)),
                  st.lists(variant, min_size=2, max_size=4), wgen.writer_opts, st.booleans())


@sub('C26', 'supply', cases, 5000,
     rule='one record supplied in 2-4 ways (length known or not, seekable/unseekable/short-reading/positioned streams, HTTP headers separate or inline, built by writer or RecordBuilder, digests ensured before); '
          'non-trivial: non-empty payload and two different ways')
def supply(case, stats):
    from warcio.recordbuilder import RecordBuilder
    c = dict(case['rec'])
    if c['via'] == 'none':
        c['via'] = 'dict'
    c.setdefault('id', 7)
    c.setdefault('date', '2001-02-03T04:05:06Z')
    if c.get('ctype') and c['ctwhere'] == 'header':
        c['ctwhere'] = 'arg'
    head, payload = wgen.expected(c)
    outs = []
    for v in case['vs']:
        over = dict(len=v['len'], src=v['src'], lead=v['lead'])
        if c.get('http') and c['t'] != 'revisit':
            over['how'] = v['how']
        if c['t'] == 'revisit':
            over['len'] = True
        if v['src']['mode'] in ('none', 'noattr') and over.get('how', c.get('how')) == 'inline':
            over['lead'] = 0 if over['len'] else over['lead']
        w, get = wgen.open_writer(case['w'])
        kw = {} if case['w']['version'] is None else {'warc_version': case['w']['version']}
        b = {'writer': w, 'builder': RecordBuilder(**kw), 'other': wgen.open_writer(case['w'])[0]}[v['builder']]
        r = wgen.make(b, c, over.items())
        for op in (v['ens'].split(',') if v['ens'] and c['t'] != 'revisit' else []):
            b.ensure_digest(r, block='b' in op, payload='p' in op)
        w.write_record(r)
        if case['follow']:
            w.write_record(w.create_warc_record('urn:x', 'resource', payload=io.BytesIO(b'next'), warc_headers_dict={'WARC-Record-ID': '<urn:uuid:9>', 'WARC-Date': '2000-01-01T00:00:00Z'}))
        outs.append(get())
        stats.label('length unknown', not over['len'])
        stats.label('builder ' + v['builder'])
    rs = ref.parse_any(outs[0], case['w']['gzip'])
    eq(len(rs), 1 + bool(case['follow']), 'records written')
    r = rs[0]
    eq(r.block, head + payload, 'block')
    eq(r.all('WARC-Block-Digest'), [ref.b32(head + payload)], 'block digest')
    if c['t'] not in ('warcinfo', 'revisit'):
        eq(r.all('WARC-Payload-Digest'), [ref.b32(payload)], 'payload digest')
    for k, o in enumerate(outs[1:]):
        if o != outs[0]:
            a, b = [ref.parse_any(x, case['w']['gzip']) for x in (outs[0], o)]
            eq(b[0].block, a[0].block, 'block of variant %d %r' % (k + 1, case['vs'][k + 1]))
            eq(sorted(b[0].headers), sorted(a[0].headers), 'headers of variant %d %r against %r' % (k + 1, case['vs'][k + 1], case['vs'][0]))
            eq(b[0].headers, a[0].headers, 'header order of variant %d %r against %r' % (k + 1, case['vs'][k + 1], case['vs'][0]))
            eq(o, outs[0], 'bytes of variant %d' % (k + 1))
    stats.nontrivial(bool(payload) and len(set(repr(v) for v in case['vs'])) > 1)
    stats.label('beyond the spool limit', len(payload) > gen.SPOOL)


scases = st.builds(lambda c, w, d, p, e, n: {'rec': c, 'w': w, 'dl': d, 'parse': p, 'ens': e, 'nrp': n}, gen.records(pay=st.one_of(gen.payload, gen.payload, gen.payload_big), encodings=False), wgen.writer_opts,
                   gen.delivery, st.booleans(), st.booleans(), st.booleans())


@sub('C26', 'streaming', scases, 3000, rule='a record read from a source without Content-Length and written; non-trivial: non-empty block')
def streaming(case, stats):
    from warcio.recordloader import ArcWarcRecordLoader
    from warcio.archiveiterator import ArchiveIterator
    b = gen.build(case['rec'])
    hs = [h for h in b.headers if h[0].lower() != 'content-length']
    src = ref.warc_bytes(b.version, hs, b.block, tail=b'')
    if case['parse']:
        rec = next(ArchiveIterator(source(src, case['dl']['mode'], case['dl']['sizes']), no_record_parse=case['nrp']))
    else:
        rec = ArcWarcRecordLoader().parse_record_stream(io.BytesIO(src), no_record_parse=case['nrp'])
    eq(rec.length, None, 'length of a record without Content-Length')
    w, get = wgen.open_writer(case['w'])
    if case['ens']:
        w.ensure_digest(rec)
    w.write_record(rec)
    rs = ref.parse_any(get(), case['w']['gzip'])
    eq(len(rs), 1, 'records')
    r = rs[0]
    eq(r.block, b.block, 'block')
    eq(r.all('WARC-Block-Digest'), [ref.b32(b.block)], 'block digest')
    if b.type == 'revisit':
        want = [v for n, v in b.headers if n.lower() == 'warc-payload-digest']
    elif b.type == 'warcinfo':
        want = []
    else:
        want = [ref.b32(b.payload)]
    if b.http and case['nrp'] and not r.all('WARC-Payload-Digest'):
        want = want if b.type == 'revisit' else []       # cannot be known without parsing the HTTP headers
    eq(r.all('WARC-Payload-Digest'), want, 'payload digest')
    drop = ('content-length', 'content-type', 'warc-block-digest', 'warc-payload-digest')
    eq([h for h in r.headers if h[0].lower() not in drop], [h for h in b.headers if h[0].lower() not in drop], 'other headers')
    eq(r.get('Content-Type'), case['rec'].get('ctype'), 'content type')
    stats.nontrivial(bool(b.block))


# HTTP headers at the front of the payload that are not in the usual form
iraw = st.builds(lambda t, h, b, vs, w: {'t': t, 'raw': h, 'body': b, 'vs': vs, 'w': w}, st.sampled_from(['response', 'response', 'request', 'revisit']), c25.rawhead, gen.payload,
                 st.lists(variant, min_size=2, max_size=3), wgen.writer_opts)


@sub('C26', 'inline_raw', iraw, 2000,
     rule='HTTP records whose payload starts with HTTP headers in an unusual form (or an empty line), supplied in 2-3 ways; non-trivial: accepted and with a body')
def inline_raw(case, stats):
    from warcio.recordbuilder import RecordBuilder
    from warcio.statusandheaders import StatusAndHeadersParserException
    h = case['raw']
    lines = [h['f']] + (list(h['ls']) if h['f'] else [])
    nls = [h['nl'] if h['nl'] != 'mixed' else (b'\n', b'\r\n')[k % 2] for k in range(len(lines) + 1)]
    data = b''.join(l + n for l, n in zip(lines, nls))
    if h['f'] and h['end']:
        data += nls[-1]
    body = gen.expand(case['body']) if h['end'] else b''
    if not h['f'] and body[:1] in (b'\r', b'\n'):
        body = b'x' + body
    outs = []
    for v in case['vs']:
        w, get = wgen.open_writer(case['w'])
        kw = {} if case['w']['version'] is None else {'warc_version': case['w']['version']}
        b = {'writer': w, 'builder': RecordBuilder(**kw), 'other': wgen.open_writer(case['w'])[0]}[v['builder']]
        lead = b'x' * v['lead']
        mode = v['src']['mode']
        if v['len'] and mode in ('none', 'noattr'):
            mode = 'tell'
        f = source(lead + data + body, mode, v['src']['sizes'], start=len(lead))
        try:
            r = b.create_warc_record('http://e.com/', case['t'], payload=f, length=len(data + body) if v['len'] else None,
                                     warc_headers_dict={'WARC-Record-ID': '<urn:uuid:1>', 'WARC-Date': '2000-01-01T00:00:00Z'})
        except StatusAndHeadersParserException:
            outs.append('rejected')
            continue
        for op in (v['ens'].split(',') if v['ens'] and case['t'] != 'revisit' else []):
            b.ensure_digest(r, block='b' in op, payload='p' in op)
        w.write_record(r)
        rs = ref.parse_any(get(), case['w']['gzip'])
        eq(len(rs), 1, 'records')
        r = rs[0]
        # of a revisit record only the HTTP headers are written
        req(r.block.endswith(body) or case['t'] == 'revisit', 'payload %r is not the end of the block %r', body[:60], r.block[:200])
        if not h['f'] and case['t'] != 'revisit':
            eq(r.block, b'\r\n' + body, 'block that starts with an empty line')
        eq(r.all('WARC-Block-Digest'), [ref.b32(r.block)], 'block digest')
        eq(r.all('WARC-Payload-Digest'), [] if case['t'] == 'revisit' else [ref.b32(body)], 'payload digest')
        outs.append((r.block, sorted(r.headers)))
    for o, v in zip(outs[1:], case['vs'][1:]):
        eq(o, outs[0], 'record of variant %r against %r' % (v, case['vs'][0]))
    stats.nontrivial(bool(body) and outs[0] != 'rejected')
    stats.label('rejected', outs[0] == 'rejected')


# one record written several times, changed in between
FILTERS = [None, None, lambda h: None if len(h[0]) % 2 else h, lambda h: (h[0].lower(), h[1] + '!'), lambda h: None]
edit = st.one_of(st.tuples(st.just('write'), st.sampled_from(range(len(FILTERS))), wgen.writer_opts),
                 st.tuples(st.just('write'), st.sampled_from(range(len(FILTERS))), wgen.writer_opts),
                 st.tuples(st.just('ens'), st.booleans(), st.booleans()),
                 st.tuples(st.sampled_from(['add', 'replace', 'remove', 'status', 'warc']), st.sampled_from(['X-Edit', 'Set-Cookie', 'Via']), gen.ascii_value))
rcases = st.builds(lambda c, o: {'rec': c, 'ops': o}, wgen.wrecords(pay=gen.payload_small, types=['response', 'response', 'request', 'revisit', 'resource', 'metadata']),
                   st.lists(edit, min_size=1, max_size=6))


@sub('C26', 'rewritten', rcases, 2500,
     rule='one record written several times by writers with different header filters, with digests ensured and headers changed in between; non-trivial: two writes that differ in the HTTP headers')
def rewritten(case, stats):
    c = dict(case['rec'])
    c['src'] = dict(c['src'], mode='seek')
    c['len'] = True
    r = wgen.make(wgen.open_writer({'gzip': False, 'version': None, 'kind': 'stream'})[0], c)
    head, payload = wgen.expected(c)
    start = c.get('lead', 0) + (len(head) if c.get('http') and c['how'] == 'inline' else 0)
    rev = c['t'] == 'revisit'
    hh = first = None
    if c.get('http'):
        first = (' '.join(c['http']['first'])).strip()
        hh = [tuple(x) for x in c['http']['h']]
    blocks, added = set(), []
    for op in list(case['ops']) + [('write', 0, {'gzip': False, 'version': None, 'kind': 'stream'})]:
        k = op[0]
        if k == 'ens':
            if not rev:
                wgen.open_writer({'gzip': False, 'version': None, 'kind': 'stream'})[0].ensure_digest(r, block=op[1], payload=op[2])
        elif k == 'warc':
            r.rec_headers.add_header('X-Added', op[2])
            added.append(op[2])
        elif k == 'write':
            f = FILTERS[op[1]]
            w, get = wgen.open_writer(op[2], header_filter=f)
            w.write_record(r)
            rs = ref.parse_any(get(), op[2]['gzip'])
            eq(len(rs), 1, 'records written')
            block = payload
            if hh is not None:
                block = ref.http_bytes(first, [h for h in (f(h) if f else h for h in hh) if h]) + payload
            eq(rs[0].block, block, 'block written')
            eq(rs[0].all('WARC-Block-Digest'), [ref.b32(block)], 'block digest')
            if not rev:
                eq(rs[0].all('WARC-Payload-Digest'), [ref.b32(payload)], 'payload digest')
            eq(rs[0].all('X-Added'), added, 'added WARC headers')
            blocks.add(block)
            if not rev:
                r.raw_stream.seek(start)
        elif hh is not None:
            name, v = op[1], op[2]
            idx = [i for i, h in enumerate(hh) if h[0].lower() == name.lower()]
            if k == 'add':
                r.http_headers.add_header(name, v)
                hh.append((name, v))
            elif k == 'replace':
                r.http_headers.replace_header(name, v)
                if idx:
                    hh[idx[-1]] = (hh[idx[-1]][0], v)
                else:
                    hh.append((name, v))
            elif k == 'remove':
                r.http_headers.remove_header(name)
                if idx:
                    del hh[idx[-1]]
            elif c['t'] == 'response':
                r.http_headers.statusline = '599 Edited'
                first = c['http']['first'][0] + ' 599 Edited'
    stats.nontrivial(len(blocks) > 1)
