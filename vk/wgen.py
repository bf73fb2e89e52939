"""Writing side: literals describing records to be made through the public builder API."""
import io
from hypothesis import strategies as st

from vk import gen, ref
from vk.gen import expand
from vk.streams import source

DEFAULT_CT = {'warcinfo': 'application/warc-fields', 'response': 'application/http; msgtype=response',
              'revisit': 'application/http; msgtype=response', 'request': 'application/http; msgtype=request',
              'metadata': 'application/warc-fields'}
HTTPT = ('response', 'request', 'revisit')
MANAGED = {'warc-type', 'warc-record-id', 'warc-date', 'content-length', 'content-type', 'warc-block-digest',
           'warc-payload-digest', 'warc-target-uri'}


def _mk(t, is_http, uris, via, extra, dt, ident, ctype, ctwhere, proto, stat, rl, hh, how, body, known, src, lead, isreq, ncase, over):
    http = is_http and t in HTTPT
    c = {'t': t, 'uri': uris[0] if http else uris[1], 'via': via, 'extra': extra, 'body': body, 'len': known, 'src': src}
    if dt and via != 'none':
        c['date'] = dt
    if ident and via != 'none':
        c['id'] = ident
    if ctype:
        c['ctype'] = ctype
        c['ctwhere'] = ctwhere
    if http:
        c['http'] = {'first': (proto, stat) if t != 'request' else rl, 'h': hh}
        c['how'] = how
        c['isreq'] = isreq
    if lead:
        c['lead'] = lead
    if ncase:
        c['ncase'] = ncase
    if over and via == 'dict':
        c['over'] = over
    if t == 'revisit':
        c['body'] = []
        if http:
            c['how'] = 'sep'
        c['len'] = True
    return c


def wrecords(types=gen.TYPES, pay=gen.payload, http_headers=gen.http_headers, uris=None, extra=None, lead=False):
    return st.builds(
        _mk, st.sampled_from(types), st.sampled_from([True, True, False]),
        uris if uris is not None else st.tuples(gen.http_uri, st.one_of(gen.other_uri, st.just(''))),
        st.sampled_from(['dict', 'headers', 'none']), extra if extra is not None else gen.warc_extra_w,
        st.one_of(st.none(), gen.date), st.one_of(st.none(), st.integers(0, 2**32 - 1)),
        st.sampled_from([None, None, 'text/plain', 'image/png; a="b c"', 'application/http;msgtype=response', 'x']),
        st.sampled_from(['arg', 'header']),
        gen.http_proto, gen.statusline, gen.reqline, http_headers, st.sampled_from(['sep', 'inline']),
        pay, st.booleans(), gen.delivery, st.sampled_from([0, 0, 0, 5, 20000]) if lead else st.just(0), st.booleans(),
        st.sampled_from([0, 0, 0, 1, 2, 3]), st.sampled_from([None, None, None, None, 'WARC-Type', 'Content-Length', 'WARC-Target-URI']))


def given_headers(c):
    """caller-given extra WARC headers in order (a mapping cannot hold a name twice)"""
    ex = [tuple(x) for x in c['extra']]
    if c['via'] == 'dict':
        return list(dict(ex).items())
    if c['via'] == 'none':
        return []
    return ex


def http_obj(c):
    from warcio.statusandheaders import StatusAndHeaders
    p, s = c['http']['first']
    hh = [tuple(x) for x in c['http']['h']]
    if c['t'] == 'request' and c.get('isreq'):
        return StatusAndHeaders(p + ' ' + s, hh, is_http_request=True)
    return StatusAndHeaders(s, hh, protocol=p)


def http_wire(c):
    p, s = c['http']['first']
    return ref.http_bytes((p + ' ' + s).strip(), [tuple(x) for x in c['http']['h']])


def make(builder, c, over=()):
    """Build the record through the public API. over: replacements for the supply options."""
    from warcio.statusandheaders import StatusAndHeaders
    c = dict(c, **dict(over))
    body = expand(c['body'])
    kw = {}
    ex = given_headers(c)
    fixed = []
    if c.get('date') is not None:
        fixed.append(('WARC-Date', c['date']))
    if c.get('id') is not None:
        fixed.append(('WARC-Record-ID', gen.rec_id(c['id'])))
    if c.get('ctype') and c['ctwhere'] == 'header' and c['via'] != 'none':
        fixed.append(('Content-Type', c['ctype']))
    elif c.get('ctype'):
        kw['warc_content_type'] = c['ctype']
    for k in ('bd', 'pd'):
        if c.get(k):
            fixed.append(({'bd': 'WARC-Block-Digest', 'pd': 'WARC-Payload-Digest'}[k], c[k]))
    # names in any letter case; a value given for what the call states itself is overridden
    case = {0: str, 1: str.lower, 2: str.upper, 3: str.title}[c.get('ncase', 0)]
    if c.get('over') and (c['over'] != 'WARC-Target-URI' or c['uri']):
        fixed.insert(len(fixed) // 2, (c['over'], '77'))
    fixed = [(case(n), v) for n, v in fixed]
    if c['via'] == 'dict':
        kw['warc_headers_dict'] = dict(fixed + ex)
    elif c['via'] == 'headers':
        hs = [('WARC-Type', c['t'])]
        if not c.get('id'):
            hs.append(('WARC-Record-ID', '<urn:uuid:ffffffff-0000-4000-8000-%012x>' % (hash(repr(ex)) & 0xffffffff)))
        if not c.get('date'):
            hs.append(('WARC-Date', '2001-01-01T00:00:00Z'))
        if c['uri']:
            hs.append(('WARC-Target-URI', c['uri']))
        hs = [(case(n), v) for n, v in hs]
        kw['warc_headers'] = StatusAndHeaders('', hs + fixed + ex, protocol=builder.warc_version)
    if c.get('http'):
        if c['how'] == 'inline':
            body = http_wire(c) + body
        else:
            kw['http_headers'] = http_obj(c)
    if c['t'] == 'revisit':
        return builder.create_warc_record(c['uri'], 'revisit', **kw)
    lead = b'GARBAGE\r\n' * (c.get('lead', 0) // 9 + 1) if c.get('lead') else b''
    lead = lead[:c.get('lead', 0)]
    mode = c['src']['mode']
    if c.get('http') and c['how'] == 'inline' and c['len'] and mode in ('none', 'noattr'):
        mode = 'tell'       # a length covering HTTP headers to be split off needs a stream that can tell
    kw['payload'] = source(lead + body, mode, c['src']['sizes'], start=len(lead))
    if c['len']:
        kw['length'] = len(body)
    return builder.create_warc_record(c['uri'], c['t'], **kw)


def expected(c):
    """the block and payload bytes that must be written"""
    payload = expand(c['body']) if c['t'] != 'revisit' else b''
    head = http_wire(c) if c.get('http') else b''
    return head, payload


writer_opts = st.builds(lambda g, v, k: {'gzip': g, 'version': v, 'kind': k}, st.booleans(),
                        st.sampled_from([None, '1.0', 'WARC/1.0', '1.1', 'WARC/1.1', 1.1, 1.0]), st.sampled_from(['stream', 'buffer']))


def version_of(o):
    v = o['version']
    return 'WARC/1.0' if v is None else v if str(v).startswith('WARC/') else 'WARC/%s' % v


def open_writer(o, **kw):
    from warcio.warcwriter import WARCWriter, BufferWARCWriter
    kw = dict(kw, gzip=o['gzip'])
    if o['version'] is not None:
        kw['warc_version'] = o['version']
    if o['kind'] == 'buffer':
        w = BufferWARCWriter(**kw)
        return w, w.get_contents
    out = io.BytesIO()
    return WARCWriter(out, **kw), out.getvalue
