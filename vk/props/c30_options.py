import io
from hypothesis import strategies as st
from vk import gen, ref
from vk.core import sub, eq, req, fail
from vk.views import iterate, drain
from vk.streams import source

HTTPT = ('response', 'request', 'revisit')
VERBS = ['GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'TRACE', 'OPTIONS', 'CONNECT', 'PATCH']
FIRST = ['HTTP/1.0', 'HTTP/1.1']

opts = st.fixed_dictionaries({'nrp': st.booleans(), 'verify': st.booleans(), 'conv': st.booleans(), 'ens': st.booleans(), 'bs': gen.block_size,
                              'dig': st.sampled_from([False, True, 'raise', 'log']), 'cls': st.sampled_from(['any', 'any', 'own'])})


def kwargs(o):
    return dict(no_record_parse=o['nrp'], verify_http=o['verify'], arc2warc=o['conv'], ensure_http_headers=o['ens'], block_size=o['bs'], check_digests=o['dig'])


def is_warc(b):
    return not hasattr(b, 'kind')


def check_http(rec, b, o, what):
    """-> the bytes the stream must give"""
    h = rec.http_headers
    if b.http and not o['nrp']:
        req(h is not None, '%s: HTTP headers not parsed', what)
        eq((h.protocol, h.statusline, h.headers), (b.http[0], b.http[1], list(b.http[2])), what + ' HTTP headers')
        return b.payload
    if o['ens']:
        req(h is not None, '%s: no HTTP headers are supplied', what)
        ct = rec.content_type
        eq((h.protocol, h.statusline, h.headers), ('HTTP/1.0', '200 OK', ([('Content-Type', ct)] if ct else []) + [('Content-Length', str(len(b.block)))]),
           what + ' supplied HTTP headers')
    else:
        eq(h, None, what + ' HTTP headers')
    return b.block


def check_record(rec, b, o, what):
    if is_warc(b):
        eq((rec.format, rec.rec_type, rec.rec_headers.protocol), ('warc', b.type, b.version), what)
        eq(rec.rec_headers.headers, b.headers, what + ' WARC headers')
        eq(rec.content_type, b.spec.get('ctype'), what + ' content type')
    elif not o['conv']:
        eq((rec.format, rec.rec_type), ('arc', b.kind), what)
        eq([v for n, v in rec.rec_headers.headers], [b.url, b.ip, b.date, b.ctype, str(b.length_field)], what + ' ARC headers')
        eq(rec.content_type, b.ctype, what + ' content type')
    else:
        eq((rec.format, rec.rec_type), ('warc', 'warcinfo' if b.kind == 'arc_header' else 'response'), what)
        eq(rec.rec_headers.get_header('WARC-IP-Address'), b.ip, what + ' IP address')
        eq(rec.content_type, rec.rec_headers.get_header('Content-Type'), what + ' content type')
    eq(rec.length, len(b.block), what + ' length')
    want = check_http(rec, b, o, what)
    return want


def verdict(b, o):
    if not o['dig'] or not is_warc(b) or b.type == 'revisit':
        return None
    unknown_payload = o['nrp'] and b.type in HTTPT and (b.spec.get('uri') or '').startswith(('http:', 'https:'))
    if b.spec.get('bd') or (b.spec.get('pd') and not b.spec.get('seg') and not unknown_payload):
        return True
    return None


anyarch = st.one_of(gen.archives(max_size=4), gen.archives(max_size=4), gen.arcs(max_size=4))
cases = st.builds(lambda a, os, d, c: {'a': a, 'os': os, 'dl': d, 'content': c}, anyarch, st.lists(opts, min_size=2, max_size=4), gen.delivery, st.booleans())


@sub('C30', 'options', cases, 4000, rule='one archive read with 2-4 generated combinations of all options, each against the model; non-trivial: >= 1 record and two different combinations')
def options(case, stats):
    from warcio.archiveiterator import ArchiveIterator, WARCIterator, ARCIterator
    arc = bool(case['a'].get('arc'))
    data, bs = (gen.assemble_arc if arc else gen.assemble)(case['a'])
    for o in case['os']:
        cls = ArchiveIterator if o['cls'] == 'any' else ARCIterator if arc else WARCIterator
        it = iterate(data, case['dl'], cls=cls, **kwargs(o))
        n = 0
        for rec in it:
            req(n < len(bs), 'more records delivered than stored')
            b = bs[n]
            what = 'record %d with %r' % (n, o)
            want = check_record(rec, b, o, what)
            plain = not (b.http and not o['nrp'])
            if case['content'] and not (is_warc(b) and not plain):
                eq(drain(rec.content_stream()), want, what + ' content')
            elif case['content']:
                eq(drain(rec.content_stream()), b.content, what + ' content')
                drain(rec.raw_stream)
            else:
                eq(drain(rec.raw_stream), want, what + ' payload')
            eq(rec.digest_checker.passed, verdict(b, o), what + ' digest verdict')
            eq((it.get_record_offset(), it.get_record_length()), (b.offset, b.length), what + ' offset and length')
            n += 1
            stats.label('headers supplied', plain and o['ens'])
            stats.label('HTTP headers left unparsed', bool(b.http) and o['nrp'])
        eq(n, len(bs), 'records delivered with %r' % o)
        eq(it.err_count, 0, 'errors with %r' % o)
    stats.nontrivial(len(bs) >= 1 and len(set(map(repr, case['os']))) > 1)
    stats.label('ARC', arc)
    stats.label('gzip', bool(case['a']['gz']))


# ---------------------------------------------------------------------------- both formats in one file
mixed = st.builds(lambda s, g, o, d: {'segs': s, 'gz': g, 'o': o, 'dl': d},
                  st.lists(st.one_of(gen.archives(gen.records(pay=gen.payload_small), min_size=1, max_size=2), gen.arcs(min_size=1, max_size=2)), min_size=1, max_size=4),
                  st.booleans(), opts, gen.delivery)


@sub('C30', 'mixed', mixed, 3000, rule='WARC and ARC records in one file; non-trivial: both formats occur')
def mixed_(case, stats):
    from warcio.archiveiterator import ArchiveIterator
    from warcio.exceptions import ArchiveLoadFailed
    out, bs, pos = [], [], 0
    for s in case['segs']:
        s = dict(s, gz=(s['gz'] or [{}]) if case['gz'] else None)
        data, b = (gen.assemble_arc if s.get('arc') else gen.assemble)(s)
        if s.get('arc') and not case['gz'] and b and b[-1].tail == 0:
            data += b'\n'
        for x in b:
            x.offset += pos
        out.append(data)
        pos += len(data)
        bs += b
    o = dict(case['o'], cls='any')
    good = bs
    if not o['conv'] and bs:
        k = next((k for k, b in enumerate(bs) if is_warc(b) != is_warc(bs[0])), len(bs))
        good = bs[:k]
    it = iterate(b''.join(out), case['dl'], **kwargs(o))
    n, raised = 0, False
    try:
        for rec in it:
            req(n < len(good), 'record %d of the other format is delivered', n)
            what = 'record %d with %r' % (n, o)
            eq(drain(rec.raw_stream), check_record(rec, good[n], o, what), what + ' payload')
            eq((it.get_record_offset(), it.get_record_length()), (good[n].offset, good[n].length), what + ' offset and length')
            n += 1
    except ArchiveLoadFailed:
        raised = True
    eq(raised, len(good) < len(bs), 'a record of the other format is reported')
    eq(n, len(good), 'records delivered')
    both = len(set(map(is_warc, bs))) > 1
    stats.nontrivial(both)
    stats.label('converted', both and o['conv'])
    stats.label('refused', both and not o['conv'])


# ---------------------------------------------------------------------------- HTTP headers that are none
bad_first = st.sampled_from(['ICY 200 OK', 'HTTP/2 200 OK', 'HTTP/0.9 200 OK', 'HTTP 200', '200 OK', 'BREW / HTTP/1.1', 'X', 'HTTP/1', '<html>', 'ABC HTTP/1.1 200 OK', '/ GET HTTP/1.1', '{"a": 1}'])
vcase = st.builds(lambda rs, bad, k, o, d, low, req_line: {'recs': rs, 'bad': bad, 'k': k, 'o': o, 'dl': d, 'low': low, 'swap': req_line},
                  st.lists(gen.records(types=['response', 'response', 'request', 'revisit', 'metadata', 'resource'], pay=gen.payload_small, digests=False, encodings=False), min_size=1, max_size=4),
                  st.one_of(st.none(), bad_first), st.integers(0, 3), opts, gen.delivery, st.booleans(), st.booleans())


@sub('C30', 'verify', vcase, 3000, rule='archives in which the HTTP message of one record starts like no HTTP message; non-trivial: there is such a record')
def verify(case, stats):
    from warcio.statusandheaders import StatusAndHeadersParserException
    recs, first = [dict(r) for r in case['recs']], {}
    k = case['k'] % len(recs)
    if recs[k].get('http'):
        if case['bad']:
            first[k] = case['bad']
        elif case['swap']:
            first[k] = 'HTTP/1.1 200 OK' if recs[k]['t'] == 'request' else 'GET / HTTP/1.1'
        elif case['low']:
            first[k] = ' '.join(recs[k]['http']['first']).strip().lower()
        if k in first:
            p, _, s = first[k].partition(' ')
            recs[k]['http'] = {'first': (p, s), 'h': recs[k]['http']['h']}
    bs = [gen.build(r) for r in recs]
    o = dict(case['o'], cls='any')
    wrong = k in first and not (case['low'] and not case['bad'] and not case['swap'])
    stop = k if wrong and o['verify'] and not o['nrp'] else len(bs)
    it = iterate(b''.join(b.raw for b in bs), case['dl'], **kwargs(o))
    n, raised = 0, False
    try:
        for rec in it:
            req(n < stop, 'record %d starting with %r is accepted', n, first.get(n))
            what = 'record %d with %r' % (n, o)
            b = bs[n]
            if n in first and not wrong and o['verify'] and not o['nrp']:
                b.http = (b.http[0].upper(), b.http[1], b.http[2])       # verified: in the form it was compared in
            eq(drain(rec.raw_stream), check_record(rec, b, o, what), what + ' payload')
            n += 1
    except StatusAndHeadersParserException:
        raised = True
    eq(raised, stop < len(bs), 'an HTTP message that starts with %r is reported (%r)' % (first, o))
    eq(n, stop, 'records delivered')
    stats.nontrivial(wrong)
    stats.label('reported', raised)
    stats.label('lower case', k in first and not wrong)


# ---------------------------------------------------------------------------- the loader on its own
lcase = st.builds(lambda a, k, o, st_, kf, d, dflt: {'a': a, 'k': k, 'o': o, 'line': st_, 'known': kf, 'dl': d, 'defaults': dflt}, anyarch, st.integers(0, 3), opts,
                  st.booleans(), st.sampled_from([None, None, 'right', 'wrong']), gen.delivery, st.booleans())


@sub('C30', 'loader', lcase, 3000, rule='one record of an archive given to the record loader itself, its first line read before or not, the format known or not; non-trivial: a record is loaded')
def loader(case, stats):
    from warcio.recordloader import ArcWarcRecordLoader
    from warcio.bufferedreaders import BufferedReader, DecompressingBufferedReader
    from warcio.exceptions import ArchiveLoadFailed
    arc = bool(case['a'].get('arc'))
    data, bs = (gen.assemble_arc if arc else gen.assemble)(case['a'])
    if not bs:
        return
    b = bs[case['k'] % len(bs)]
    o = dict(case['o'])
    if case['defaults']:
        o.update(nrp=False, ens=False, dig=False, verify=True, conv=True)
    f = source(b.stored, case['dl']['mode'], case['dl']['sizes'])
    if case['a']['gz']:
        f = DecompressingBufferedReader(f, block_size=o['bs'])
    elif case['dl']['mode'] in ('none', 'noattr'):
        f = BufferedReader(f, block_size=o['bs'])
    line = f.readline() if case['line'] else None
    fmt = {None: None, 'right': 'arc' if arc else 'warc', 'wrong': 'warc' if arc else 'arc'}[case['known']]
    try:
        if case['defaults']:
            rec = ArcWarcRecordLoader().parse_record_stream(f, line, fmt)
        else:
            rec = ArcWarcRecordLoader(verify_http=o['verify'], arc2warc=o['conv']).parse_record_stream(
                f, statusline=line, known_format=fmt, no_record_parse=o['nrp'], ensure_http_headers=o['ens'], check_digests=o['dig'])
    except ArchiveLoadFailed as e:
        req(case['known'] == 'wrong', 'record is refused: %r', e)
        stats.label('refused')
        return
    req(case['known'] != 'wrong', 'a record of the other format is accepted')
    what = 'record loaded with %r' % o
    want = check_record(rec, b, o, what)
    if case['k'] % 2 and b.http and not o['nrp'] and is_warc(b):
        eq(drain(rec.content_stream()), b.content, what + ' content')
        drain(rec.raw_stream)
    else:
        eq(drain(rec.raw_stream), want, what + ' payload')
    eq(rec.digest_checker.passed, verdict(b, o), what + ' digest verdict')
    rest = drain(f)
    eq(rest.strip(b'\r\n'), b'', 'what is left in the stream after the record')
    if not arc and not case['a']['gz']:
        eq(rest, b'\r\n\r\n', 'what is left in the stream after the record')
    stats.nontrivial()
    stats.label('first line given', line is not None)
    stats.label('format known', fmt is not None)
