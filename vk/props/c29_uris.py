import io, json, os
from hypothesis import strategies as st
from vk import gen, ref, cli
from vk.core import sub, eq, req, fail
from vk.streams import Sink
from vk.views import iterate, drain

_ch = list("abc/:.?#=&%<>[]{}|\\\"'^`~;,") + [' '] * 4 + ['%', '%', '+', '\t'] + list('\xe9\xdf\u03bb\u6f22\u2028\xa0')
body = st.lists(st.one_of(st.sampled_from(_ch), st.sampled_from(_ch), st.sampled_from(['%20', '  ', '%C3%A9'])), max_size=14).map(''.join)
scheme = st.sampled_from(['http://', 'http://', 'https://', 'http:', 'https:', 'ftp://', 'dns:', 'httpx://', 'httpss:', 'htt', 'urn:', 'whois://', 'file:///', '', 'metadata:http://', 'http', 'https', '//', 'xhttp:'])
uri = st.builds(lambda w, s, b: w[0] + s + b + w[1], st.sampled_from([('', '')] * 4 + [('<', '>')] * 4 + [('<', ''), ('', '>'), ('<<', '>>'), ('< ', ' >'), ('<', '> '), (' <', '>'), ('<', '>x'), ('%3C', '%3E'), ('"<', '>"')]), scheme, body)
others = st.lists(st.tuples(st.sampled_from(['WARC-Refers-To-Target-URI', 'WARC-Concurrent-To', 'X-URI', 'WARC-Target-URI-Original', 'WARC-Filename', 'WARC-Profile', 'X-WARC-Target-URI']),
                            st.builds(lambda u: u.strip(), uri)), max_size=3)
blocks = st.sampled_from([b'HTTP/1.1 200 OK\r\nContent-Type: text/html\r\nContent-Length: 3\r\n\r\nabc', b'HTTP/1.0 404 Not Found\r\n\r\n', b'GET /x y HTTP/1.1\r\nHost: h\r\n\r\nbody',
                          b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n', b'HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\n\r\n' + ref.gz(b'data'),
                          b'POST / HTTP/1.1\r\nContent-Encoding: gzip\r\n\r\n' + ref.gz(b'data')])
rec = st.builds(lambda t, u, o, b, n, p, i: {'t': t, 'uri': u, 'others': o, 'block': b, 'name': n, 'place': p, 'id': i}, st.sampled_from(gen.TYPES + ['response', 'request', 'resource']),
                st.one_of(uri, uri, uri, uri, uri, st.none()), others, blocks, st.sampled_from(['WARC-Target-URI', 'WARC-Target-URI', 'warc-target-uri', 'Warc-Target-Uri']), st.integers(0, 6), st.integers(0, 99))
cases = st.builds(lambda rs, g, p, e, dl, bs, m: {'recs': rs, 'gz': g, 'nrp': p, 'ver': e, 'dl': dl, 'bs': bs, 'mode': m}, st.lists(rec, min_size=1, max_size=3), st.booleans(), st.booleans(), st.sampled_from(['WARC/1.0', 'WARC/1.1']),
                  gen.delivery, gen.block_size, st.sampled_from(['raw', 'content']))


def normal(u):
    if u is None:
        return None
    if u[:1] == '<' and u[-1:] == '>' and len(u) > 1:
        u = u[1:-1]
    return '%20'.join(u.split(' '))


def parts(block):
    first, heads, pay = ref.split_http(block)
    a, _, b = first.decode().partition(' ')
    return a, b, [(n.decode(), v.decode()) for n, v in heads], pay


@sub('C29', 'uris', cases, 9000,
     rule='1-3 records with URIs in brackets, with spaces, Unicode and any scheme; all kinds of records; read, indexed, extracted and copied; non-trivial: some URI is changed by normalisation')
def uris(case, stats):
    from warcio.warcwriter import WARCWriter
    built, pos = [], 0
    for c in case['recs']:
        # whitespace around a header value is not part of it
        u = c['uri'] if c['uri'] is None else c['uri'].strip()
        hs = [('WARC-Type', c['t']), ('WARC-Record-ID', '<urn:uuid:%d>' % c['id']), ('WARC-Date', '2020-01-01T00:00:00Z')] + [tuple(x) for x in c['others']] + [('Content-Length', str(len(c['block'])))]
        at = min(c['place'], len(hs))
        if u is not None:
            hs.insert(at, (c['name'], u))
        n = normal(u)
        want = [(k, n if k == c['name'] and i == at and u is not None else v) for i, (k, v) in enumerate(hs)]
        raw = ref.warc_bytes(case['ver'], hs, c['block'])
        stored = ref.gz(raw) if case['gz'] else raw
        http = n is not None and n.startswith(('http:', 'https:')) and c['t'] in ('response', 'request', 'revisit')
        built.append((c, n, hs, want, http, pos, stored))
        pos += len(stored)
        stats.nontrivial(n != u)
        stats.label('brackets removed', u is not None and u.startswith('<') and u.endswith('>'))
        stats.label('spaces', u is not None and ' ' in u)
        stats.label('HTTP headers parsed' if http else 'whole block')
    data = b''.join(b[6] for b in built)
    out = Sink()
    w = WARCWriter(out, gzip=False)
    it = iterate(data, case['dl'], no_record_parse=case['nrp'], block_size=case['bs'])
    k = 0
    for r in it:
        req(k < len(built), 'more records read than stored')
        c, n, hs, want, http, off, stored = built[k]
        what = 'record %d (%s, %r)' % (k, c['t'], c['uri'])
        eq(r.rec_headers.headers, want, what + ' WARC headers')
        eq(r.rec_headers.get_header('WARC-Target-URI'), n, what + ' target URI')
        block = c['block']
        if http and not case['nrp']:
            p, s, heads, pay = parts(block)
            req(r.http_headers is not None, '%s: HTTP headers not parsed', what)
            eq((r.http_headers.protocol, r.http_headers.statusline, r.http_headers.headers), (p, s, heads), what + ' HTTP headers')
            if case['mode'] == 'raw':
                eq(drain(r.raw_stream), pay, what + ' payload')
        else:
            eq(r.http_headers, None, what + ' HTTP headers')
            eq(drain(r.raw_stream if case['mode'] == 'raw' else r.content_stream()), block, what + ' content')
        k += 1
    eq(k, len(built), 'records read')
    # copies hold the normalised URI
    for r in iterate(data, case['dl'], no_record_parse=case['nrp'], block_size=case['bs']):
        w.write_record(r)
    recs = ref.parse_any(out.getvalue(), False)
    eq(len(recs), len(built), 'records copied')
    dig = ('warc-block-digest', 'warc-payload-digest')
    for (c, n, hs, want, http, off, stored), r in zip(built, recs):
        if c['t'] == 'revisit' and http and not case['nrp']:
            # the block of a revisit is its HTTP headers
            eq(r.block, c['block'][:c['block'].index(b'\r\n\r\n') + 4], 'block of the copied revisit')
            want = [x if x[0] != 'Content-Length' else ('Content-Length', str(len(r.block))) for x in want]
        else:
            eq(r.block, c['block'], 'copied block (%s, %r)' % (c['t'], c['uri']))
        eq([h for h in r.headers if h[0].lower() not in dig], want, 'copied WARC headers')
    # tools
    with cli.scratch() as d:
        p = cli.write(os.path.join(d, 'x'), data)
        rc, o, err = cli.run(['index', '-f', 'offset,warc-target-uri,WARC-Target-URI,http:status,x-uri', p])
        eq(rc, 0, 'exit status of index')
        got = [json.loads(l) for l in o.decode().split('\n')[:-1]]
        exp = []
        for c, n, hs, want, http, off, stored in built:
            e = {'offset': str(off)}
            if n is not None:
                e['warc-target-uri'] = e['WARC-Target-URI'] = n
            if http and c['t'] in ('response', 'revisit'):
                e['http:status'] = parts(c['block'])[1].split(' ')[0]
            x = [v for k, v in hs if k.lower() == 'x-uri']
            if x:
                e['x-uri'] = x[0]
            exp.append(e)
        eq(got, exp, 'index')
        c, n, hs, want, http, off, stored = built[-1]
        rc, o, err = cli.run(['extract', '--headers', p, str(off)])
        full = ref.warc_bytes(case['ver'], want, b'', tail=b'')
        if http:
            full += c['block'][:c['block'].index(b'\r\n\r\n') + 4]
        eq(o, full, 'extract --headers')
        stats.label('type ' + c['t'])
