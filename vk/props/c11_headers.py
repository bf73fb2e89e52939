import io
from hypothesis import strategies as st
from vk import gen, ref
from vk.core import sub, eq, req, fail
from vk.streams import source

NAMES = ['A', 'Content-Type', 'content-type', 'X Y', 'Set-Cookie', 'WARC-Type', 'Nom\xe9', '\u6f22', 'x.y', 'a\tb', '-', '1', '(x)']
name = st.one_of(st.sampled_from(NAMES), gen.token)
text = st.one_of(gen.ascii_value, gen.uni_value, gen.latin_value, st.sampled_from(['', 'a:b', ':', '::x', 'a  b', 'a\tb', 'http://x:80/', 'x' * 70, 'HTTP/1.1 200 OK']))
ws = st.sampled_from(['', ' ', ' ', ' ', '  ', '\t', ' \t '])
nl = st.sampled_from(['\r\n', '\r\n', '\n'])
SPACES = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000'
edge = lambda s: s == s.strip(SPACES) and s == s.strip()
text = text.filter(edge)
# one logical line and how it is spelled
item = st.one_of(
    st.builds(lambda n, v, b, a, t, e, lt: {'k': 'h', 'n': n, 'v': v, 'b': b, 'a': a, 't': t, 'nl': e, 'latin': lt}, name.filter(edge), text, st.sampled_from(['', '', '', ' ', '\t', ' \t']), ws,
              st.sampled_from(['', '', ' ', '\t ']), nl, st.booleans()),
    st.builds(lambda n, v, b, a, t, e, lt: {'k': 'h', 'n': n, 'v': v, 'b': b, 'a': a, 't': t, 'nl': e, 'latin': lt}, name.filter(edge), text, st.just(''), st.just(' '), st.just(''), nl, st.booleans()),
    st.builds(lambda v, i, e, lt: {'k': 'c', 'v': v, 'i': i, 'nl': e, 'latin': lt}, text.filter(bool), st.sampled_from([' ', '\t', '  ', ' \t']), nl, st.booleans()),
    st.builds(lambda v, e: {'k': 'x', 'v': v, 'nl': e}, st.sampled_from(['no colon here', 'junk', 'HTTP/1.1 200 OK', '=', '\xe9t\xe9']), nl))
PREFIXES = [['HTTP/1.0', 'HTTP/1.1'], ['WARC/1.1', 'WARC/1.0', 'WARC/0.17', 'WARC/0.18'], ['GET', 'POST', 'PUT'], ['HTTP/'], ['A', 'AB'], []]
firsts = st.sampled_from(['HTTP/1.1 200 OK', 'HTTP/1.0 404 Not  Found', 'http/1.1 200 ok', 'Http/1.1   200   OK', 'WARC/1.0', 'warc/1.1', 'WARC/0.17', 'WARC/1.9',
                          'GET /a/b HTTP/1.1', 'get / HTTP/1.0', 'POST http://x/\xe9 HTTP/1.1', 'HTTP/1.1', 'HTTP/1.1 ', 'HTTP/2 200', 'garbage', 'abx y', 'X-Foo: bar', ':', 'HTTP/1.1 \u6f22'])
cases = st.builds(lambda f, e, its, end, pre, body, s, bs, how: {'first': f, 'nl': e, 'items': its, 'end': end, 'pre': pre, 'body': body, 'stream': s, 'bs': bs, 'how': how},
                  firsts, nl, st.lists(item, max_size=7), st.sampled_from(['\r\n', '\r\n', '\n', ' \r\n', None]), st.integers(0, len(PREFIXES) - 1), gen.payload_small,
                  st.sampled_from(['bytesio', 'buffered', 'limit']), gen.block_size, st.sampled_from(['stream', 'stream', 'str', 'bytes']))


def enc(s, latin):
    if latin:
        try:
            return s.encode('latin-1')
        except UnicodeEncodeError:
            pass
    return s.encode('utf-8')


def dec(b):
    try:
        return b.decode('utf-8')
    except UnicodeDecodeError:
        return b.decode('latin-1')


def open_stream(case, data, tail):
    from warcio.bufferedreaders import BufferedReader
    from warcio.limitreader import LimitReader
    if case['stream'] == 'bytesio':
        return io.BytesIO(data + tail)
    if case['stream'] == 'buffered':
        return BufferedReader(io.BytesIO(data + tail), block_size=case['bs'])
    return LimitReader(BufferedReader(io.BytesIO(data + tail + b'beyond: limit\r\n'), block_size=case['bs']), len(data + tail))


@sub('C11', 'parse', cases, 12000,
     rule='header blocks with LF/CRLF, folding, odd white space, non-UTF-8 bytes, colon-less lines, any prefix list; non-trivial: >= 2 header lines of which one is not in canonical form')
def parse(case, stats):
    from warcio.statusandheaders import StatusAndHeadersParser, StatusAndHeadersParserException
    first = case['first']
    lines = [enc(first, False) + case['nl'].encode()]
    # expected, from the statement
    want, cur, odd, nh = [], None, False, 0
    its = list(case['items'])
    while its and its[0]['k'] == 'c':
        its.pop(0)              # a continuation needs a header line before it
    for it in its:
        if it['k'] == 'h':
            raw = enc(it['n'] + it['b'] + ':' + it['a'] + it['v'] + it['t'], it['latin'])
            d = dec(raw).split(':', 1)
            n, v = d[0].strip(' \t'), d[1].strip()
            cur = len(want)
            want.append([n, v])
            nh += 1
            odd = odd or it['b'] or it['a'] != ' ' or it['nl'] != '\r\n' or it['latin']
        elif it['k'] == 'c':
            raw = enc(it['i'] + it['v'], it['latin'])
            if cur is not None:
                want[cur][1] = (want[cur][1] + dec(raw).rstrip()).lstrip()
            odd = True
        else:
            raw = enc(it['v'], False)
            cur = None
            odd = True
        lines.append(raw + it['nl'].encode())
    tail = gen.expand(case['body'])
    if case['end'] is None:
        data = b''.join(lines)
        tail = b''
    else:
        data = b''.join(lines) + case['end'].encode()
    want = [tuple(x) for x in want]
    stats.nontrivial(nh >= 2 and bool(odd))
    prefixes = PREFIXES[case['pre']]
    status = first.strip()
    ok = any(status.upper().startswith(p) for p in prefixes)

    def run(p):
        f = open_stream(case, data, tail)
        if case['how'] == 'stream':
            return p.parse(f), f
        line = f.readline()
        return p.parse(f, line if case['how'] == 'bytes' else dec(line)), f
    # verifying
    p = StatusAndHeadersParser(prefixes)
    try:
        h, f = run(p)
        req(ok, 'first line %r accepted for prefixes %r', first, prefixes)
        pl = next(len(x) for x in prefixes if status.upper().startswith(x))
        eq(h.protocol, status[:pl].upper(), 'protocol')
        eq(h.statusline, status[pl:].strip(), 'status line')
        eq(h.headers, want, 'headers')
        eq(f.read(), tail, 'what follows the headers')
    except StatusAndHeadersParserException as e:
        req(not ok, 'first line %r refused for prefixes %r', first, prefixes)
        eq((e.statusline or '').strip(), status, 'statusline of the exception')
    stats.label('verified' if ok else 'refused')
    # not verifying
    h, f = run(StatusAndHeadersParser(prefixes, verify=False))
    eq(h.protocol, status.split(' ')[0], 'protocol (no verify)')
    eq(h.statusline, status[len(status.split(' ')[0]):].strip(), 'status line (no verify)')
    eq(h.headers, want, 'headers (no verify)')
    eq(f.read(), tail, 'what follows the headers (no verify)')
    # serialising and parsing again changes nothing
    out = h.to_bytes()
    eq(h.to_str().encode('utf-8') + b'\r\n', out, 'to_bytes and to_str')
    if not any(n == '' for n, v in want):
        g = io.BytesIO(out + b'TAIL')
        h2 = StatusAndHeadersParser(prefixes, verify=False).parse(g)
        eq((h2.protocol, h2.statusline, h2.headers), (h.protocol, h.statusline, h.headers), 'parsed again')
        eq(g.read(), b'TAIL', 'after parsing again')
        eq(h2.to_bytes(), out, 'serialised again')
        req(h2 == h and not (h2 != h), 'parsed again: not equal')


scases = st.builds(lambda p, s, hs, ps, b: {'proto': p, 'status': s, 'h': hs, 'bytes': b},
                   st.sampled_from(['HTTP/1.0', 'HTTP/1.1', 'WARC/1.0', 'WARC/1.1', 'GET', 'PROPFIND']), st.one_of(st.sampled_from(['', '200 OK', '404  x', '/ HTTP/1.0', '200 \u6f22\xe9']), text),
                   st.lists(st.tuples(name.filter(edge), text), max_size=8), st.none(), st.booleans())


@sub('C11', 'roundtrip', scases, 6000, rule='StatusAndHeaders -> bytes -> StatusAndHeaders; non-trivial: >= 2 headers')
def roundtrip(case, stats):
    from warcio.statusandheaders import StatusAndHeadersParser, StatusAndHeaders
    hs = [tuple(x) for x in case['h']]
    h = StatusAndHeaders(case['status'], hs, protocol=case['proto'])
    out = h.to_bytes()
    eq(out, ref.http_bytes((case['proto'] + ' ' + case['status']) if case['status'] else case['proto'], hs), 'serialised')
    for verify in (True, False):
        f = io.BytesIO(out + b'\r\n: rest\r\n')
        g = StatusAndHeadersParser([case['proto']], verify=verify).parse(f)
        eq((g.protocol, g.statusline, g.headers), (case['proto'], case['status'], hs), 'parsed (verify=%s)' % verify)
        eq(f.read(), b'\r\n: rest\r\n', 'rest of the stream')
    req(g == h, 'not equal after a round trip')
    # encodings other than UTF-8
    try:
        l = h.to_bytes(encoding='latin-1')
    except UnicodeEncodeError:
        l = None
    if l is not None:
        eq(l, out.decode('utf-8').encode('latin-1'), 'to_bytes(latin-1)')
        g = StatusAndHeadersParser([case['proto']]).parse(io.BytesIO(l))
        want = [tuple(dec((n + ': ' + v).encode('latin-1')).split(':', 1)) for n, v in hs]
        eq(g.headers, [(a, b.strip()) for a, b in want], 'Latin-1 headers')
    stats.nontrivial(len(hs) >= 2)
    for v in (True, False):
        for empty in (io.BytesIO(b''),):
            try:
                StatusAndHeadersParser([case['proto']], verify=v).parse(empty)
                fail('an empty stream did not raise EOFError')
            except EOFError:
                pass
