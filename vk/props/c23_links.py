import io
from collections import OrderedDict
from hypothesis import strategies as st
from vk import gen, ref, wgen
from vk.core import sub, eq, req, fail
from vk.views import iterate, drain

http11 = {'WARC/1.0': 'http://netpreserve.org/warc/1.0/revisit/identical-payload-digest', 'WARC/1.1': 'http://netpreserve.org/warc/1.1/revisit/identical-payload-digest'}
digest = st.one_of(st.builds(lambda n: ref.b32(b'%d' % n), st.integers(0, 99)), st.sampled_from(['sha256:' + 'ab' * 32, 'md5:x', 'x', 'sha1:AAAA=', 'urn:sha1:Q']))
anyuri = st.one_of(gen.http_uri, gen.other_uri)

rev = st.builds(lambda u, d, ru, rd, h, rl, ex, w, x: {'uri': u, 'dig': d, 'ruri': ru, 'rdate': rd, 'http': h, 'first': rl, 'extra': ex, 'w': w, 'second': x},
                anyuri, digest, st.one_of(anyuri, st.just('')), st.one_of(gen.date, st.just('')), st.one_of(st.none(), gen.http_headers), gen.statusline, gen.warc_extra, wgen.writer_opts, st.booleans())


@sub('C23', 'revisit', rev, 6000, rule='revisit records with any digest, URIs, dates, HTTP headers or none, extra headers; non-trivial: with HTTP headers')
def revisit(case, stats):
    from warcio.statusandheaders import StatusAndHeaders
    w, get = wgen.open_writer(case['w'])
    v = wgen.version_of(case['w'])
    hs = None if case['http'] is None else [tuple(x) for x in case['http']]
    http = None if hs is None else StatusAndHeaders(case['first'], hs, protocol='HTTP/1.1')
    extra = OrderedDict(tuple(x) for x in case['extra'])
    kw = {'warc_headers_dict': extra} if extra or case['second'] else {}
    for bad in ('', None):
        try:
            w.create_revisit_record(case['uri'], bad, case['ruri'], case['rdate'], http_headers=http)
        except Exception:
            pass
        else:
            fail('revisit record without a digest accepted')
    rec = w.create_revisit_record(case['uri'], case['dig'], case['ruri'], case['rdate'], http_headers=http, **kw)
    w.write_record(rec)
    if case['second']:
        w.write_record(w.create_warc_record('urn:x', 'resource', payload=io.BytesIO(b'next')))
    rs = ref.parse_any(get(), case['w']['gzip'])
    eq(len(rs), 1 + case['second'], 'records')
    r = rs[0]
    want = b'' if hs is None else ref.http_bytes(('HTTP/1.1 ' + case['first']).strip(), hs)
    eq(r.block, want, 'revisit block')
    for n, val in (('WARC-Type', 'revisit'), ('WARC-Target-URI', case['uri']), ('WARC-Payload-Digest', case['dig']), ('WARC-Refers-To-Target-URI', case['ruri']),
                   ('WARC-Refers-To-Date', case['rdate']), ('WARC-Profile', http11[v]), ('WARC-Block-Digest', ref.b32(want)), ('Content-Type', 'application/http; msgtype=response')):
        eq(r.all(n), [val], n)
    mine = [h for h in r.headers if h in list(extra.items())]
    eq([h for h in mine if h[0].lower() not in gen.RESERVED], list(extra.items()), 'extra headers')
    # reading it back
    back = next(iterate(get()))
    eq(back.rec_type, 'revisit', 'type read')
    body = drain(back.content_stream())
    if hs is not None and case['uri'].replace(' ', '%20').startswith(('http:', 'https:')):
        eq(back.http_headers.headers, hs, 'HTTP headers read')
        eq(body, b'', 'payload of a revisit')
    else:
        eq(back.http_headers, None, 'HTTP headers read')
        eq(body, want, 'block of a revisit')
    stats.nontrivial(hs is not None)
    stats.label('http headers', hs is not None)
    stats.label(v)


fieldname = st.one_of(st.sampled_from(['software', 'format', 'operator', 'conformsTo', 'robots', 'isPartOf', 'http-header-user-agent']), gen.token)
val = st.one_of(gen.ascii_value, gen.uni_value, st.sampled_from(['', None, 'a: b', 'x' * 300]), st.integers(1, 10**9), st.floats(1, 2, width=16),
                st.sampled_from([' ', '  lead', 'trail ', '\ttab\t', True, False, 0, 0.0, 'a\u00a0', 'UTF-8', 'a; b', '%41', '-', 'None']))
info = st.builds(lambda f, m, n, w: {'file': f, 'info': m, 'next': n, 'w': w}, st.one_of(st.just(''), st.none(), gen.ascii_value, gen.uni_value), st.lists(st.tuples(fieldname, val), max_size=6),
                 st.booleans(), wgen.writer_opts)


@sub('C23', 'warcinfo', info, 6000, rule='warcinfo records with any field maps and file names; non-trivial: an empty and a non-empty field')
def warcinfo(case, stats):
    w, get = wgen.open_writer(case['w'])
    m = OrderedDict((n, v) for n, v in case['info'])
    rec = w.create_warcinfo_record(case['file'], m)
    w.write_record(rec)
    if case['next']:
        w.write_record(w.create_warc_record('urn:x', 'resource', payload=io.BytesIO(b'next')))
    rs = ref.parse_any(get(), case['w']['gzip'])
    eq(len(rs), 1 + case['next'], 'records')
    r = rs[0]
    want = ''.join('%s: %s\r\n' % (n, v) for n, v in m.items() if v).encode('utf-8')
    eq(r.block, want, 'warcinfo block')
    eq(r.type, 'warcinfo', 'type')
    eq(r.all('WARC-Filename'), [case['file']] if case['file'] else [], 'file name')
    eq(r.all('Content-Type'), ['application/warc-fields'], 'content type')
    eq(r.all('WARC-Target-URI'), [], 'target URI')
    eq(r.all('WARC-Payload-Digest'), [], 'payload digest')
    eq(r.all('WARC-Block-Digest'), [ref.b32(want)], 'block digest')
    eq(r.version, wgen.version_of(case['w']), 'version')
    back = next(iterate(get()))
    eq((back.rec_type, drain(back.content_stream())), ('warcinfo', want), 'warcinfo read back')
    eq(back.rec_headers.get_header('WARC-Filename'), case['file'] or None, 'file name read')
    stats.nontrivial(any(m.values()) and not all(m.values()))


pair = st.builds(lambda a, b, w, src, kt, rep: {'resp': a, 'req': b, 'w': w, 'read': src, 'link': kt, 'n': rep},
                 wgen.wrecords(types=['response', 'response', 'revisit', 'resource', 'metadata'], uris=st.tuples(gen.http_uri, gen.other_uri)),
                 wgen.wrecords(types=['request']), wgen.writer_opts, st.booleans(), st.integers(0, 3), st.integers(1, 2))


@sub('C23', 'pair', pair, 6000, rule='a request and a response (or revisit) written together, built or read from an archive; non-trivial: their URIs or dates differ')
def pairs(case, stats):
    w, get = wgen.open_writer(case['w'])
    o = case['w']
    cr, cq = case['resp'], case['req']
    want = []
    for k in range(case['n']):
        resp, rq = wgen.make(w, cr), wgen.make(w, cq)
        if case['read']:
            # records read from another archive
            t, tget = wgen.open_writer(dict(o, kind='buffer'))
            t.write_record(wgen.make(t, cr))
            t.write_record(wgen.make(t, cq))
            it = iterate(tget())
            resp = next(it)
            from warcio.archiveiterator import ArchiveIterator
            it2 = iterate(tget())
            next(it2)
            rq = next(it2)
        before = [h for h in resp.rec_headers.headers]
        qbefore = [h for h in rq.rec_headers.headers]
        uri = resp.rec_headers.get_header('WARC-Target-URI')
        if uri is None:
            stats.exclude('response without target URI')
            return
        w.write_request_response_pair(rq, resp)
        want.append((before, qbefore))
    rs = ref.parse_any(get(), o['gzip'])
    eq(len(rs), 2 * case['n'], 'records')
    auto = ('content-length', 'content-type', 'warc-block-digest', 'warc-payload-digest')
    for k, (before, qbefore) in enumerate(want):
        p, q = rs[2 * k], rs[2 * k + 1]
        eq(p.type, cr['t'], 'first record')
        eq(q.type, 'request', 'second record')
        head, payload = wgen.expected(cr)
        eq(p.block, head + payload, 'response block')
        head, payload = wgen.expected(cq)
        eq(q.block, head + payload, 'request block')
        eq([h for h in p.headers if h[0].lower() not in auto], [h for h in before if h[0].lower() not in auto], "response's headers")
        eq(q.get('WARC-Target-URI'), p.get('WARC-Target-URI'), "request's URI")
        eq(q.get('WARC-Date'), p.get('WARC-Date'), "request's date")
        same = ('warc-target-uri', 'warc-date', 'warc-concurrent-to') + auto
        eq([h for h in q.headers if h[0].lower() not in same], [h for h in qbefore if h[0].lower() not in same], "request's other headers")
        old = [v for n, v in qbefore if n.lower() == 'warc-concurrent-to']
        eq(q.all('WARC-Concurrent-To'), old + [p.get('WARC-Record-ID')], 'reference to the response')
        eq(len(q.all('WARC-Target-URI')), 1, 'number of target URIs')
        eq(len(q.all('WARC-Date')), 1, 'number of dates')
        stats.nontrivial(dict(qbefore).get('WARC-Date') != dict(before).get('WARC-Date'))
