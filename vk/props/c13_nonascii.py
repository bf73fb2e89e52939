import io
from urllib.parse import unquote
from hypothesis import strategies as st
from vk import gen, ref, wgen
from vk.core import sub, eq, req, fail
from vk.views import iterate, drain

SP = '\x85\xa0\u2028\u2029\u200b\u3000'
ok_edge = lambda s: s == s.strip()
plainv = st.one_of(gen.uni_value, gen.latin_value, gen.ascii_value, st.sampled_from(['\u6f22', 'caf\xe9', '100% caf\xe9', '%C3%A9 \xe9', '/a/\xe9?b=\xe9', '\xe9=\xe9', "'\xe9'", '"\xe9"', '\xe9,\xe8', '\U0001f600'])).map(
    lambda s: s.replace(';', ',')).filter(ok_edge)
ptext = st.one_of(gen.uni_value, gen.latin_value, gen.ascii_value, st.sampled_from(['\u0438\u0441.txt', 'a=\xe9', 'x y\xe9', '\xe9%20', "l'\xe9t\xe9", "'\xe9'", "a'b", "UTF-8''\xe9", '(\xe9)', '\xe9/\\x'])).map(
    lambda s: ''.join(c for c in s if c not in ';"').strip()).filter(lambda s: s and ok_edge(s))
pname = st.sampled_from(['filename', 'name', 'charset', 'a', 'X', 'filename*', 'x-y'])
paramv = st.builds(lambda h, ps: {'head': h, 'params': ps}, st.sampled_from(['attachment', 'text/html', 'form-data', 'x/y']),
                   st.lists(st.tuples(pname, ptext, st.booleans()), min_size=1, max_size=3)).map(lambda v: quoted(v))
freev = st.one_of(gen.uni_value, gen.latin_value).map(lambda s: ('a;' + s.replace('%', '')).strip()).filter(ok_edge)
val = st.one_of(st.tuples(st.just('plain'), plainv), st.tuples(st.just('plain'), plainv), st.tuples(st.just('ascii'), gen.ascii_value), st.tuples(st.just('param'), paramv),
                st.tuples(st.just('free'), freev))
hname = st.one_of(gen.http_name, gen.http_name, gen.http_name, gen.http_name, st.sampled_from(['N\xe9', '\u6f22', 'X-\xfc']))
heads = st.lists(st.tuples(hname, val), max_size=5)
stat = st.one_of(gen.statusline, gen.statusline, gen.statusline, st.sampled_from(['200 \u6210\u529f', '404 Introuv\xe9', '200 \xe9']))
FILTERS = ['none', 'none', 'none', 'drop', 'rewrite', 'dropall', 'mix']
cases = st.builds(lambda t, s, h, p, how, w, f, ln, src, ens: {'t': t, 'status': s, 'h': h, 'body': p, 'how': how, 'w': w, 'filter': f, 'len': ln, 'src': src, 'ens': ens},
                  st.sampled_from(['response', 'response', 'request', 'revisit']), stat, heads, gen.payload,
                  st.sampled_from(['sep', 'sep', 'inline8', 'inline1', 'copy8', 'copy1', 'sepbytes']), wgen.writer_opts, st.sampled_from(FILTERS), st.booleans(), gen.delivery, st.booleans())


def text_of(kind, v):
    if kind != 'param':
        return v
    return '; '.join([v['head']] + ['%s=%s' % (n, '"%s"' % t if q else t) for n, t, q in v['params']])


def quoted(v):
    """an apostrophe at the beginning of an unquoted value would be a quote"""
    return dict(v, params=[(n, t, q or t.startswith("'")) for n, t, q in v['params']])


def flt(kind):
    if kind == 'none':
        return None
    if kind == 'drop':
        return lambda h: None if h[0].lower() in ('set-cookie', 'server') or h[0] == 'X-Custom' else h
    if kind == 'rewrite':
        return lambda h: ('X-' + h[0], h[1] + '+') if h[0].lower() in ('date', 'etag', 'vary', 'content-type') else h
    if kind == 'dropall':
        return lambda h: None
    return lambda h: None if len(h[0]) % 2 else (h[0].lower(), h[1])


def nonascii(s):
    return ''.join(c for c in s if ord(c) > 127)


def check_value(kind, v, raw, out, what):
    """out: the text written for a header whose value was `raw`"""
    req(out.isascii(), '%s is not ASCII: %r', what, out)
    if raw.isascii():
        eq(out, raw, what + ' (ASCII, must not change)')
    elif kind == 'plain' and ';' not in raw:
        eq(unquote(out), raw, what + ' decoded')
    elif kind == 'param':
        parts = out.split('; ')
        eq(parts[0], v['head'], what + ' before the parameters')
        eq(len(parts) - 1, len(v['params']), what + ' number of parameters in %r' % out)
        for p, (n, t, q) in zip(parts[1:], v['params']):
            if p.startswith(n + "*=UTF-8''"):
                eq(unquote(p[len(n) + 9:]), t, what + ' parameter decoded from %r' % p)
            else:
                req(t.isascii(), '%s: parameter %r written as %r', what, t, p)
                eq(p, '%s=%s' % (n, '"%s"' % t if q else t), what + ' ASCII parameter')
    else:
        eq(nonascii(unquote(out)), nonascii(raw), what + ' non-ASCII characters recovered from %r' % out)


@sub('C13', 'encoded', cases, 9000,
     rule='records whose HTTP headers hold any Unicode/Latin-1 text, given as objects, inline, or read from another archive, with and without header filters; non-trivial: some header is not ASCII')
def encoded(case, stats):
    from warcio.statusandheaders import StatusAndHeaders
    from warcio.archiveiterator import ArchiveIterator
    f = flt(case['filter'])
    w, get = wgen.open_writer(case['w'], header_filter=f)
    t, how = case['t'], case['how']
    hs = [(n, k, v, text_of(k, v)) for n, (k, v) in case['h']]
    latin = how in ('inline1', 'copy1', 'sepbytes')
    if latin:
        lat = lambda s: all(ord(c) < 256 for c in s)
        hs = [h for h in hs if lat(h[0]) and lat(h[3])]
    status = case['status'] if not latin or all(ord(c) < 256 for c in case['status']) else '200 OK'
    proto = 'HTTP/1.1'
    if t == 'request':
        proto, status = 'GET', '/' + ('\xe9' if 'x' in status else '') + ' HTTP/1.1'
    wire = ref.http_bytes(proto + ' ' + status, [(n, x) for n, k, v, x in hs])
    if latin:
        wire = wire.decode('utf-8').encode('latin-1')

        def seen(s):            # a reader takes what happens to be UTF-8 as such (per line)
            return s
        for line in wire.split(b'\r\n'):
            try:
                if line.decode('utf-8') != line.decode('latin-1'):
                    stats.exclude('Latin-1 text that is also UTF-8')
                    return
            except UnicodeDecodeError:
                pass
    payload = gen.expand(case['body']) if t != 'revisit' else b''
    if how in ('sep', 'sepbytes') or t == 'revisit' and how.startswith('inline'):
        how = 'sep' if t == 'revisit' and how.startswith('inline') else how
        hl = [(n, x) for n, k, v, x in hs]
        if how == 'sepbytes':
            hl = [(n.encode('latin-1'), x.encode('latin-1')) for n, x in hl]
        ho = StatusAndHeaders(status, hl, protocol=proto)
        if t == 'revisit':
            r = w.create_revisit_record('http://e.com/', 'sha1:ABC', 'http://e.com/', '2000-01-01T00:00:00Z', http_headers=ho)
        else:
            src = gen.expand(case['body'])
            from vk.streams import source
            kw = {'length': len(src)} if case['len'] else {}
            r = w.create_warc_record('http://e.com/', t, payload=source(src, case['src']['mode'], case['src']['sizes']), http_headers=ho, **kw)
        recs = [r]
    elif how.startswith('inline'):
        kw = {'length': len(wire + payload)} if case['len'] else {}
        recs = [w.create_warc_record('http://e.com/', t, payload=io.BytesIO(wire + payload), **kw)]
    else:
        block = wire + payload
        heads = [('WARC-Type', t), ('WARC-Record-ID', '<urn:uuid:1>'), ('WARC-Target-URI', 'http://e.com/'), ('WARC-Date', '2000-01-01T00:00:00Z'),
                 ('WARC-Block-Digest', ref.b32(block)), ('X-Set-Cookie', 'r\xe9sum\xe9; a=\xe9'), ('Server', '\u6f22'), ('Content-Type', 'application/http')]
        if t != 'revisit':
            heads.insert(2, ('WARC-Payload-Digest', ref.b32(payload)))
        recs = ArchiveIterator(io.BytesIO(ref.warc_bytes('WARC/1.0', heads + [('Content-Length', str(len(block)))], block)))
    n = 0
    for r in recs:
        if case['ens'] and t != 'revisit':
            w.ensure_digest(r)
        w.write_record(r)
        n += 1
    eq(n, 1, 'records')
    out = ref.parse_any(get(), case['w']['gzip'])
    eq(len(out), 1, 'records written')
    o = out[0]
    if how.startswith('copy'):
        eq([h for h in o.headers if h[0].lower() not in ('content-length', 'warc-block-digest')], [h for h in heads if h[0] != 'WARC-Block-Digest'], 'WARC headers of the copy (%s filter)' % case['filter'])
    first, lines, body = ref.split_http(o.block)
    req(o.block[:len(o.block) - len(body)].isascii(), 'HTTP header block is not ASCII: %r', o.block[:200])
    eq(body, payload, 'payload')
    eq(o.all('WARC-Block-Digest'), [ref.b32(o.block)], 'block digest')
    if t != 'revisit':
        eq(o.all('WARC-Payload-Digest'), [ref.b32(payload)], 'payload digest')
    first = first.decode('ascii')
    if (proto + status).isascii():
        eq(first, (proto + ' ' + status).strip(), 'first line')
    else:
        eq(unquote(first), proto + ' ' + status, 'first line decoded')
    # every header the filter keeps, in order, with the name it gives
    want = []
    for n_, k, v, x in hs:
        h = f((n_, 'v')) if f else (n_, 'v')
        if h:
            want.append((h[0], k, v, x, h[1] != 'v'))
    eq(len(lines), len(want), 'number of HTTP headers written %r' % (lines,))
    for (n_, k, v, x, changed), (gn, gv) in zip(want, lines):
        gn, gv = gn.decode('ascii'), gv.decode('ascii')
        if n_.isascii():
            eq(gn, n_, 'header name')
        else:
            eq(unquote(gn), n_, 'header name decoded')
        if changed:
            req(gv.endswith('+'), 'header %r not rewritten by the filter: %r', gn, gv)
            gv = gv[:-1]
        check_value(k, v, x, gv, 'value of %r (%r)' % (gn, x))
    # reading it back and writing it again changes nothing more
    w2, get2 = wgen.open_writer(dict(case['w'], version=None))
    for r in ArchiveIterator(io.BytesIO(get()), check_digests='raise'):
        w2.write_record(r)
    eq(get2(), get(), 'second copy')
    stats.nontrivial(not all(x.isascii() and n_.isascii() for n_, k, v, x in hs) or not status.isascii())
    stats.label(how)
    stats.label('filter ' + case['filter'])
    for _, k, v, x in hs:
        stats.label('non-ASCII ' + k, not x.isascii())
