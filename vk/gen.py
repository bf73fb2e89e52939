"""Hypothesis strategies.  Every generated case is a plain literal; builders turn the
literals into bytes and into the view a reader must deliver."""
import base64, hashlib, io, string

from hypothesis import strategies as st

from vk import core, ref

BLK = 16384
SPOOL = 512 * 1024


# ---------------------------------------------------------------------------- payload bytes
_LINES = bytes.maketrans(bytes(range(256)), (b'abcdefgh :;=,<>0123456789' * 8 + b'\n\n\n\r\n\r\n \t' * 7)[:256])


def expand(desc):
    """literal payload descriptor -> bytes"""
    if isinstance(desc, bytes):
        return desc
    out = []
    for seg in desc:
        if isinstance(seg, bytes):
            out.append(seg)
        else:
            k, a, n = seg
            if k == 'r':
                out.append((a * (n // max(1, len(a)) + 1))[:n])
            elif k == 'p':
                out.append(hashlib.shake_128(b'%d' % a).digest(n))
            elif k == 'l':
                out.append(hashlib.shake_128(b'l%d' % a).digest(n).translate(_LINES))
    return b''.join(out)


_inner = (b'WARC/1.0\r\nWARC-Type: resource\r\nWARC-Record-ID: <urn:uuid:0>\r\n'
          b'WARC-Date: 2000-01-01T00:00:00Z\r\nContent-Length: 3\r\n\r\nabc\r\n\r\n')
NASTY = [b'\r\n', b'\n', b'\r\n\r\n', b'\r', b'WARC/1.0\r\n', b'WARC/1.0\r\nContent-Length: 5\r\n\r\nabcde\r\n\r\n',
         _inner, ref.gz(_inner), b'\x1f\x8b', b'\x1f\x8b\x08\0\0\0\0\0\0\xff', b'HTTP/1.1 200 OK\r\nA: b\r\n\r\n', b'GET / HTTP/1.1\r\n\r\n',
         b'0\r\n\r\n', b'5\r\nabcde\r\n', b'http://x.y/ 1.2.3.4 20200101000000 text/html 3\n',
         b'filedesc://a 0.0.0.0 20200101000000 text/plain 3\n', b' ', b'\0', b'\xff', b'\xc3\xa9', b'%20', b': ', b'\t']

sizes_small = st.integers(0, 80)
sizes_edge = st.builds(lambda k, d: max(0, BLK * k + d), st.integers(1, 3), st.integers(-3, 3))
size = st.one_of(sizes_small, sizes_small, st.integers(0, 3000), sizes_edge)
size_big = st.one_of(size, st.builds(lambda d: SPOOL + d, st.integers(-2, 2)), st.integers(SPOOL, SPOOL + 60000))
chunk_unit = st.one_of(st.sampled_from(NASTY), st.binary(max_size=12))


def segment(sz):
    return st.one_of(
        chunk_unit, chunk_unit,
        st.tuples(st.just('r'), st.sampled_from([b'a', b'ab\r\n', b'\n', b'\r\n\r\n', b'\0', b'xyz' * 7 + b'\n', b'\xc3\xa9 ']), sz),
        st.tuples(st.just('p'), st.integers(0, 99), sz),
        st.tuples(st.just('l'), st.integers(0, 99), sz))


payload_small = st.lists(segment(sizes_small), max_size=4)
payload = st.one_of(payload_small, payload_small, st.lists(segment(size), max_size=3))
payload_big = st.lists(segment(size_big), max_size=2)

# ---------------------------------------------------------------------------- text
ASCII = ''.join(chr(c) for c in range(33, 127))
_plain = list(ASCII) + [' '] * 6 + list(';:=",<>%&?') * 2
_uni = list('éüß§¡ÿñ') + list('λжשم') + list('漢字語') + ['\U0001f600', '\u200b', '\xa0', '\u0301', '\u2028', '\x85', '\x7f']
ascii_value = st.text(st.sampled_from(_plain), max_size=24).map(lambda s: s.strip())
uni_value = st.text(st.sampled_from(_plain + _uni * 3), max_size=16).map(lambda s: s.strip())
latin_value = st.text(st.sampled_from(_plain + list('éüß§¡ÿñÄ') * 4), max_size=16).map(lambda s: s.strip())
_tok = string.ascii_letters + string.digits + "-_.!#$&'*+^`|~"
token = st.text(st.sampled_from(_tok), min_size=1, max_size=10)

HTTP_NAMES = ['Content-Type', 'content-length', 'Set-Cookie', 'Server', 'Location', 'X-Custom', 'x-custom', 'Date', 'ETag',
              'Cache-Control', 'Vary', 'Content-Disposition', 'Host', 'User-Agent', 'Accept', 'COOKIE']
http_name = st.one_of(st.sampled_from(HTTP_NAMES), token).filter(
    lambda n: n.lower() not in ('content-encoding', 'transfer-encoding'))
http_headers = st.lists(st.tuples(http_name, ascii_value), max_size=5)
uni_http_headers = st.lists(st.tuples(http_name, st.one_of(ascii_value, uni_value)), max_size=5)

RESERVED = {'warc-type', 'warc-record-id', 'warc-date', 'content-length', 'content-type', 'warc-block-digest',
            'warc-payload-digest', 'warc-segment-number', 'warc-target-uri', 'warc-profile', 'warc-refers-to-target-uri',
            'warc-refers-to-date'}
WARC_NAMES = ['WARC-Concurrent-To', 'WARC-IP-Address', 'WARC-Warcinfo-ID', 'WARC-Refers-To', 'WARC-Truncated',
              'WARC-Identified-Payload-Type', 'WARC-Filename', 'X-Extra', 'x-extra', 'WARC-Protocol', 'WARC-Cipher-Suite']
warc_name = st.one_of(st.sampled_from(WARC_NAMES), token.filter(lambda n: n.lower() not in RESERVED))
# values these headers have in practice
USUAL = [('WARC-Truncated', 'length'), ('WARC-Truncated', 'disconnect'), ('WARC-Truncated', 'time'), ('WARC-Identified-Payload-Type', 'text/html'), ('WARC-IP-Address', '127.0.0.1'),
         ('WARC-Warcinfo-ID', '<urn:uuid:00000000-0000-4000-8000-00000000aaaa>'), ('WARC-Concurrent-To', '<urn:uuid:00000000-0000-4000-8000-00000000bbbb>'), ('WARC-Filename', 'a b.warc.gz'),
         ('WARC-Refers-To', '<urn:uuid:00000000-0000-4000-8000-00000000cccc>'), ('WARC-Segment-Origin-ID', '<urn:uuid:00000000-0000-4000-8000-00000000dddd>'), ('WARC-Segment-Total-Length', '1000'),
         ('Content-Encoding', 'gzip'), ('Transfer-Encoding', 'chunked'), ('Content-Language', 'en'), ('WARC-Page-ID', '7'), ('WARC-JSON-Metadata', '{"a": "b: c"}'), ('WARC-Protocol', 'http/1.1'), ('WARC-Resource-Type', 'document')]
warc_extra = st.lists(st.one_of(st.tuples(warc_name, st.one_of(ascii_value, uni_value)), st.tuples(warc_name, st.one_of(ascii_value, uni_value)), st.sampled_from(USUAL)), max_size=4)
# for records that are written: segments too
warc_extra_w = st.one_of([warc_extra] * 5 + [st.builds(lambda e, n, c: [(c('WARC-Segment-Number'), n)] + e, warc_extra, st.sampled_from(['1', '2', '17']), st.sampled_from([str, str.lower, str.upper]))])

_path = list(string.ascii_letters + string.digits + "-._~:/?#[]@!$&'()*+,;=%|\\^{}\"`<>") + list('éλ漢')
uri_tail = st.text(st.sampled_from(_path), max_size=16)
host = st.sampled_from(['example.com', 'a.b', 'localhost:8080', '[::1]', 'ex%20ample', 'h'])
http_uri = st.builds(lambda s, h, t: s + '://' + h + '/' + t, st.sampled_from(['http', 'https']), host, uri_tail)
other_uri = st.one_of(
    st.builds(lambda s, t: s + t, st.sampled_from(['dns:', 'whois://w/', 'ftp://f/', 'urn:uuid:', 'metadata://m/', 'file:///',
                                                   'httpx://h/', 'htt://', 'news:', '//h/', 'data:,', 'x']), uri_tail))
date = st.sampled_from(['2000-01-01T00:00:00Z', '2019-12-31T23:59:59Z', '2024-02-29T12:30:45.123456Z', '1999-01-01T01:01:01.5Z',
                        '2020-06-15T10:00:00Z', '2020-06-15', '2020-06-15T10:00:00.999999999Z', '2020-06-15T10:00:00+02:00', '0001-01-01T00:00:00Z'])
statusline = st.sampled_from(['200 OK', '404 Not Found', '301 Moved Permanently', '204 No Content', '200', '999 x: y', '302 ',
                              '500 A B  C', '206 Partial Content', '304 Not Modified', '100 Continue', '401 Unauthorized']).map(str.strip)
http_proto = st.sampled_from(['HTTP/1.0', 'HTTP/1.1'])
reqline = st.builds(lambda v, p, h: (v, p + ' ' + h), st.sampled_from(['GET', 'POST', 'HEAD', 'PUT', 'DELETE', 'OPTIONS', 'PATCH', 'TRACE', 'CONNECT']),
                    st.sampled_from(['/', '/a/b?c=d', 'http://e.com/x', '*', 'e.com:443', '/%C3%A9', '/?a=http://b/', '//a//b', '/a;b']), http_proto)

# ---------------------------------------------------------------------------- stored records (reading side)
TYPES = ['response'] * 5 + ['request'] * 2 + ['revisit'] * 2 + [ 'warcinfo', 'metadata', 'resource', 'conversion', 'continuation', 'x-unknown', 'X-Type', 'Response']
DIGENC = ['b32', 'b32', 'hex', 'HEX', 'b64', 'b64url']
ALGOS = ['sha1', 'sha1', 'sha256', 'md5', 'sha512', 'sha224', 'sha384', 'blake2s', 'sha3_256', 'blake2b', 'sha3_384']
digest_spec = st.one_of(st.none(), st.none(), st.just(('sha1', 'b32')), st.tuples(st.sampled_from(ALGOS), st.sampled_from(DIGENC)))


def digest_text(spec, data):
    algo, enc = spec
    d = hashlib.new(algo, data).digest()
    if enc == 'b32':
        v = base64.b32encode(d).decode()
    elif enc == 'hex':
        v = d.hex()
    elif enc == 'HEX':
        v = d.hex().upper()
    elif enc == 'b64':
        v = base64.b64encode(d).decode()
    else:
        v = base64.urlsafe_b64encode(d).decode()
    return algo + ':' + v


def _mk(t, is_http, uri, v, style, order, extra, dt, ident, ctype, proto, stat, rl, hh, body, enc, te, bd, pd, seg, nourl):
    c = {'t': t, 'v': v, 'style': style, 'order': order, 'extra': extra, 'date': dt, 'id': ident, 'body': body}
    if ctype:
        c['ctype'] = ctype
    if not nourl:
        c['uri'] = uri[0] if (is_http and t in ('response', 'request', 'revisit')) else uri[1]
    if is_http and t in ('response', 'request', 'revisit') and not nourl:
        c['http'] = {'first': (proto, stat) if t != 'request' else rl, 'h': hh}
        if enc:
            c['enc'] = enc
        if te:
            c['te'] = te
    if bd:
        c['bd'] = bd
    if pd:
        c['pd'] = pd
    if seg:
        c['seg'] = seg
    return c


te_spec = st.one_of(st.none(), st.none(), st.builds(
    lambda sizes, up, z, ext, tail: dict({'sizes': sizes, 'up': up, 'z': z, 'ext': ext}, **({'tail': tail} if tail else {})),
    st.lists(st.integers(1, 40), max_size=3), st.booleans(), st.integers(0, 3), st.sampled_from([b'', b'', b';a=b', b'; x="y;z"']),
    st.sampled_from([b''] * 5 + [b'\r\n', b'x', b'5\r\nextra\r\n0\r\n\r\n', b'bytes after the last chunk\n' * 3])))
# encodings that are not supported; of data that is encoded in some way all the same
UNKNOWN = {'unknown': ('x-foo', None), 'identity': ('identity', None), 'two': ('gzip, identity', 'gzip'), 'twice': ('gzip,gzip', 'gzip'), 'x-gzip': ('x-gzip', 'gzip'), 'other': ('zstd', 'deflate'), 'comma': (',gzip', 'gzip')}
enc_spec = st.sampled_from([None] * 6 + ['gzip', 'deflate', 'rawdeflate', 'br', 'unknown', 'GZIP', 'Deflate'] * 2 + sorted(UNKNOWN))


def records(types=TYPES, pay=payload, digests=True, encodings=True, http_only=False, heads=http_headers):
    return st.builds(
        _mk, st.sampled_from(types), st.just(True) if http_only else st.sampled_from([True, True, True, False]),
        st.tuples(http_uri, other_uri),
        st.sampled_from(['WARC/1.0', 'WARC/1.1', 'WARC/1.0', 'WARC/0.17', 'WARC/0.18']),
        st.integers(0, 2), st.integers(0, 5), warc_extra, date, st.integers(0, 2**32 - 1),
        st.sampled_from([None, 'application/http; msgtype=response', 'text/plain', 'application/warc-fields']),
        http_proto, statusline, reqline, heads, pay,
        enc_spec if encodings else st.none(), te_spec if encodings else st.none(),
        digest_spec if digests else st.none(), digest_spec if digests else st.none(),
        st.sampled_from([None, None, None, None, '1', '2']) if digests else st.none(),
        st.sampled_from([False, False, False, False, False, False, False, True]))


class Built(object):
    """raw: stored bytes incl. trailing separator; the rest: what a reader must deliver."""
    pass


def _case(name, style):
    return name if style == 0 else name.lower() if style == 1 else name.upper()


def rec_id(n):
    return {11: '<urn:x:%d>', 12: 'urn:uuid:%08X-0000-4000-8000-000000000000', 13: '<http://example.com/%d?a b>'}.get(n % 16, '<urn:uuid:%08x-0000-4000-8000-000000000000>') % n


def build(c):
    b = Built()
    b.spec = c
    b.type = c['t']
    content = expand(c['body'])
    b.http = None
    stored, head = content, b''
    if c.get('http'):
        hh = [tuple(x) for x in c['http']['h']]
        enc, te = c.get('enc'), c.get('te')
        if enc:
            stored = ref.encode(content, UNKNOWN[enc][1] if enc in UNKNOWN else enc.lower())
            if enc in UNKNOWN:
                content = stored
            if enc == 'br' and core.BARE:
                content = stored                # not supported without the package
            nm = UNKNOWN[enc][0] if enc in UNKNOWN else 'deflate' if enc == 'rawdeflate' else enc
            hh.append(('Content-Encoding', nm))
        if te:
            stored = ref.chunk(stored, te['sizes'], te['up'], te['z'], te['ext']) + te.get('tail', b'')
            hh.append(('Transfer-Encoding', 'chunked'))
        p, s = c['http']['first']
        head = ref.http_bytes((p + ' ' + s).strip(), hh)
        b.http = (p, s, hh)
        if b.type == 'revisit':
            stored = content = b''
    elif b.type == 'revisit':
        stored = content = b''
    b.payload, b.content = stored, content
    b.head, b.block = head, head + stored
    sty = c.get('style', 0)
    hs = [('WARC-Type', b.type), ('WARC-Record-ID', rec_id(c['id'])), ('WARC-Date', c['date'])]
    if c.get('uri') is not None:
        hs.append(('WARC-Target-URI', c['uri']))
    if c.get('ctype'):
        hs.append(('Content-Type', c['ctype']))
    if c.get('seg'):
        hs.append(('WARC-Segment-Number', c['seg']))
    checked = False
    if c.get('bd'):
        hs.append(('WARC-Block-Digest', digest_text(c['bd'], b.block)))
        checked = b.type != 'revisit'
    if c.get('pd'):
        hs.append(('WARC-Payload-Digest', digest_text(c['pd'], b.payload)))
        checked = checked or (b.type != 'revisit' and not c.get('seg'))
    b.verdict = True if checked else None
    hs += [tuple(x) for x in c['extra']]
    hs.append(('Content-Length', str(len(b.block))))
    k = c.get('order', 0)
    # only a rotation: keeps duplicates in their order
    k %= len(hs)
    hs = hs[k:] + hs[:k]
    b.headers = [(_case(n, sty), v) for n, v in hs]
    b.version = c['v']
    b.wire = ref.warc_bytes(c['v'], b.headers, b.block, tail=b'')
    b.raw = b.wire + b'\r\n\r\n'
    return b


# ---------------------------------------------------------------------------- archives
gz_opts = st.one_of(
    st.just({}), st.builds(lambda l: {'level': l}, st.integers(0, 9)),
    st.builds(lambda l, n, e, c, h, m, cuts: dict([kv for kv in (('level', l), ('name', n), ('extra', e), ('comment', c), ('hcrc', h),
                                                               ('mtime', m), ('cuts', cuts)) if kv[1]]),
              st.integers(1, 9), st.sampled_from([None, b'a.warc', b'\xe9']), st.one_of(st.none(), st.binary(min_size=1, max_size=40)),
              st.sampled_from([None, b'comment']), st.booleans(), st.integers(0, 2**32 - 1), st.lists(st.integers(0, 400), max_size=3)))


def archives(rec=None, min_size=0, max_size=5, gz=st.sampled_from([False, True])):
    rec = rec if rec is not None else records()
    return st.builds(lambda rs, g, o: {'recs': rs, 'gz': g and o or None} if not g else {'recs': rs, 'gz': o},
                     st.lists(rec, min_size=min_size, max_size=max_size), gz, st.lists(gz_opts, min_size=1, max_size=3))


def assemble(a):
    """-> (bytes, [Built with .offset, .length])"""
    out, pos, bs = [], 0, []
    for i, c in enumerate(a['recs']):
        b = build(c)
        if a['gz']:
            o = dict(a['gz'][i % len(a['gz'])])
            stored = ref.gz(b.raw, **o)
            b.length = len(stored)
        else:
            stored = b.raw
            b.length = len(b.wire)
        b.offset, b.stored = pos, stored
        out.append(stored)
        pos += len(stored)
        bs.append(b)
    return b''.join(out), bs


# ---------------------------------------------------------------------------- ARC
arc_url = st.one_of(http_uri, st.builds(lambda u, t: u + ' ' + t, http_uri, st.text(st.sampled_from(list('ab c1')), min_size=1, max_size=6).map(
    lambda s: ' '.join(s.split()) or 'x')), http_uri.map(lambda u: u + ' '), http_uri.map(lambda u: u + '  x'), st.builds(lambda t: 'dns:' + t, st.sampled_from(['a.b', 'example.com'])))
arc_date = st.sampled_from(['20000101000000', '20191231235959', '20240229123045', '19990101010101'])
ip = st.sampled_from(['1.2.3.4', '0.0.0.0', '255.255.255.255', '::1'])


def _arc_rec(url, ipa, dt, ct, proto, stat, hh, body, tail):
    c = {'url': url, 'ip': ipa, 'date': dt, 'ctype': ct, 'body': body, 'tail': tail}
    if url.startswith('http'):
        c['http'] = {'first': (proto, stat), 'h': hh}
    return c


arc_records = st.builds(_arc_rec, arc_url, ip, arc_date, st.sampled_from(['text/html', 'text/dns', 'no-type', 'image/png', 'text/html;charset=utf-8']),
                        http_proto, statusline, http_headers, payload, st.integers(0, 3))


def arcs(min_size=0, max_size=4, gz=st.sampled_from([False, True])):
    one = st.builds(lambda nm, d, extra, rs, g, o, hd, tail, og: {
        'arc': True, 'origin': og, 'name': nm, 'date': d, 'info': extra, 'recs': rs, 'gz': o if g else None, 'header': hd, 'htail': tail},
        st.sampled_from(['a.arc', 'IAH-2008.arc.gz', 'x', 'dir/a.arc', '/tmp/a.arc', 'a b.arc', 'a%20b.arc', 'http://a/b.arc', '\xe9.arc']), arc_date, payload_small, st.lists(arc_records, min_size=min_size, max_size=max_size),
        gz, st.lists(gz_opts, min_size=1, max_size=3), st.booleans(), st.integers(0, 3),
        st.sampled_from([b'InternetArchive', b'InternetArchive', 'Biblioth\xe8que \u6f22'.encode(), b'Biblioth\xe8que', b'x', b'a\r']))
    return st.one_of([one] * 5 + [st.builds(lambda a, m: dict(a, more=m), one, st.lists(one, min_size=1, max_size=2))])


def assemble_arc(a):
    """-> (bytes, [Built]); Built: url, ip, date, ctype, length_field, block, head, payload, http"""
    items = arc_items(a)
    for m in a.get('more', ()):
        items += arc_items(m)       # files put together
    out, pos = [], 0
    for i, b in enumerate(items):
        last = i == len(items) - 1
        tail = b.tail
        if not a['gz'] and not last:
            tail = max(1, tail)     # records of a plain ARC are separated by a newline
        wire = b.line + b.block
        if a['gz']:
            stored = ref.gz(wire + b'\n' * tail, **dict(a['gz'][i % len(a['gz'])]))
            b.length = len(stored)
        else:
            stored = wire + b'\n' * tail
            b.length = len(wire)
        b.offset, b.stored, b.wire = pos, stored, wire
        out.append(stored)
        pos += len(stored)
    return b''.join(out), items


def arc_items(a):
    items = []
    if a['header']:
        b = Built()
        lines = b'1 0 ' + a.get('origin', b'InternetArchive') + b'\nURL IP-address Archive-date Content-type Archive-length\n'
        b.kind, b.url, b.ip, b.date, b.ctype = 'arc_header', 'filedesc://' + a['name'], '0.0.0.0', a['date'], 'text/plain'
        b.payload = b.block = b.content = expand(a['info'])
        b.http, b.head = None, b''
        b.length_field = len(lines) + len(b.block)
        b.line = ('%s %s %s %s %d\n' % (b.url, b.ip, b.date, b.ctype, b.length_field)).encode() + lines
        b.tail = a['htail']
        items.append(b)
    for c in a['recs']:
        b = Built()
        b.kind, b.url, b.ip, b.date, b.ctype = 'response', c['url'], c['ip'], c['date'], c['ctype']
        b.payload = b.content = expand(c['body'])
        b.http, b.head = None, b''
        if c.get('http'):
            p, s = c['http']['first']
            hh = [tuple(x) for x in c['http']['h']]
            b.head = ref.http_bytes((p + ' ' + s).strip(), hh)
            b.http = (p, s, hh)
        b.block = b.head + b.payload
        b.length_field = len(b.block)
        b.line = ('%s %s %s %s %d\n' % (b.url, b.ip, b.date, b.ctype, b.length_field)).encode('utf-8')
        b.tail = c['tail']
        items.append(b)
    return items


# ---------------------------------------------------------------------------- delivery
delivery = st.builds(lambda m, s: {'mode': m, 'sizes': s}, st.sampled_from(['bytesio', 'seek', 'tell', 'none', 'noattr']),
                     st.one_of(st.just([]), st.just([1]), st.lists(st.integers(1, 7), min_size=1, max_size=4),
                               st.lists(st.integers(1, 5000), min_size=1, max_size=3)))
block_size = st.one_of(st.just(BLK), st.integers(1, 40), st.sampled_from([64, 100, 1000, BLK - 1, BLK + 1, 1 << 20]))
read_op = st.one_of(st.tuples(st.just('r'), st.integers(1, 50)), st.tuples(st.just('r'), st.integers(1, 20000)), st.just(('R', 0)),
                    st.tuples(st.just('l'), st.integers(1, 40)), st.just(('L', 0)), st.just(('r', 0)), st.just(('l', 0)))
read_ops = st.lists(read_op, max_size=6)


def do_read(f, op):
    k, n = op
    if k == 'r':
        return f.read(n)
    if k == 'R':
        return f.read()
    if k == 'l':
        return f.readline(n)
    return f.readline()
