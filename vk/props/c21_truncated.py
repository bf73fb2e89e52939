import zlib
from hypothesis import strategies as st
from vk import gen, ref
from vk.core import sub, eq, req, fail
from vk.views import iterate, drain, check_head

pay = gen.payload_small
arch = st.one_of(gen.archives(gen.records(pay=pay), min_size=1, max_size=3), gen.archives(gen.records(pay=pay), min_size=1, max_size=3),
                 gen.archives(gen.records(pay=pay, http_only=True), min_size=1, max_size=3), gen.arcs(min_size=1, max_size=3))
# places to cut: anywhere; a distance after a record's start / before the end of its stored form; inside its block
cut = st.one_of(st.tuples(st.just('any'), st.integers(0, 10**6)), st.tuples(st.just('start'), st.integers(0, 5), st.integers(0, 60)),
                st.tuples(st.just('end'), st.integers(0, 5), st.integers(0, 30)), st.tuples(st.just('block'), st.integers(0, 5), st.integers(0, 400)))
cuts = st.one_of(st.just('all'), st.lists(cut, min_size=1, max_size=8), st.lists(cut, min_size=1, max_size=8), st.lists(cut, min_size=1, max_size=8))
opts = st.builds(lambda d, b, m, v, n, c, g, o: {'dl': d, 'bs': b, 'mode': m, 'verify': v, 'nrp': n, 'conv': c, 'dig': g, 'ask': o},
                 gen.delivery, gen.block_size, st.sampled_from(['raw', 'content', 'skip']), st.booleans(), st.sampled_from([False, False, False, True]), st.booleans(),
                 st.sampled_from([True, True, False, 'raise']), st.booleans())
cases = st.builds(lambda a, c, o: {'a': a, 'cuts': c, 'o': o}, arch, cuts, opts)


def places(case, data, bs):
    if case['cuts'] == 'all':
        n = len(data)
        step = max(1, n // 300)
        return range(0, n, step)
    out = []
    for c in case['cuts']:
        if c[0] == 'any':
            out.append(c[1] % (len(data) + 1))
            continue
        b = bs[c[1] % len(bs)]
        if c[0] == 'start':
            p = b.offset + c[2]
        elif c[0] == 'end':
            p = b.offset + b.length - c[2]
        else:
            p = b.offset + b.length - (c[2] % (len(b.block) + 1))
        out.append(max(0, min(len(data), p)))
    return out


def prefix_text(got, want, what):
    """header values of a record whose header was cut: the last one may be shortened, and a line
    that no longer is UTF-8 is taken as latin-1"""
    if want.startswith(got):
        return
    # whitespace left at the end of a shortened line is not part of the value
    try:
        raw = got.encode('latin-1')
    except UnicodeEncodeError:
        fail('%s: %r is not a prefix of %r', what, got, want)
    req(want.encode('utf-8').startswith(raw), '%s: %r is not a prefix of %r', what, got, want)


def prefix_headers(got, want, what):
    req(len(got) <= len(want), '%s: more headers than stored: %r', what, got)
    for k, ((n, v), (wn, wv)) in enumerate(zip(got, want)):
        if k < len(got) - 1:
            eq((n, v), (wn, wv), '%s header %d' % (what, k))
        else:
            eq(n, wn, '%s name of header %d' % (what, k))
            if v != wv:
                prefix_text(v, wv, '%s header %d' % (what, k))


def one_cut(case, data, bs, p, stats):
    from warcio.exceptions import ArchiveLoadFailed
    from warcio.statusandheaders import StatusAndHeadersParserException
    o, a = case['o'], case['a']
    arc = bool(a.get('arc'))
    parsed = not o['nrp']
    whole = [b for b in bs if b.offset + b.length <= p]
    partial = bs[len(whole)] if len(whole) < len(bs) and bs[len(whole)].offset < p else None
    what0 = 'cut at %d of %d: ' % (p, len(data))
    kw = {'no_record_parse': o['nrp'], 'block_size': o['bs'], 'check_digests': o['dig'], 'verify_http': o['verify'], 'arc2warc': o['conv']}
    n = 0
    try:
        it = iterate(data[:p], o['dl'], **kw)
        for rec in it:
            req(n < len(whole) + (partial is not None), what0 + 'delivers more than %d records (%d complete)', n, len(whole))
            b = bs[n]
            what = what0 + 'record %d' % n
            true = b.payload if parsed and b.http else b.block
            tcont = b.content if parsed and b.http else b.block
            if n < len(whole):
                if not arc:
                    check_head(rec, b, what, parsed)
                    eq(rec.digest_checker.problems, [], what + ' digest problems')
                else:
                    eq(rec.length, len(b.block), what + ' length')
                if o['mode'] == 'raw':
                    eq(drain(rec.raw_stream), true, what + ' raw content')
                elif o['mode'] == 'content':
                    eq(drain(rec.content_stream()), tcont, what + ' content')
                    drain(rec.raw_stream)
                if o['ask']:
                    eq((it.get_record_offset(), it.get_record_length()), (b.offset, b.length), what + ' offset and length')
                if not arc and o['mode'] != 'skip':
                    want = b.verdict if o['dig'] else None
                    if not parsed and want and not b.spec.get('bd') and b.type in ('response', 'request') and (b.spec.get('uri') or '').startswith(('http:', 'https:')):
                        want = None     # a payload digest cannot be checked when HTTP headers are not parsed
                    eq(rec.digest_checker.passed, want, what + ' verdict')
                    eq(rec.digest_checker.problems, [], what + ' digest problems')
            else:
                what += ' (cut off)'
                inhead = not a['gz'] and p < b.offset + len(b.wire) - len(b.block)
                if not arc:
                    prefix_headers(rec.rec_headers.headers, b.headers, what + ' WARC')
                if rec.http_headers is not None:
                    req(b.http is not None, what + ' has HTTP headers')
                    prefix_headers(rec.http_headers.headers, b.http[2], what + ' HTTP')
                if o['mode'] == 'skip':
                    got = None
                else:
                    got = drain(rec.raw_stream if o['mode'] == 'raw' else rec.content_stream())
                    t = true if o['mode'] == 'raw' else tcont
                    have = zlib.decompressobj(31).decompress(data[b.offset:p]) if a['gz'] else data[b.offset:p]
                    if o['mode'] == 'content' and parsed and not arc and b.spec.get('te') and b'\n' not in have[len(b.wire) - len(b.payload):]:
                        # cut inside the first chunk-size line: nothing tells that it is one
                        stats.exclude('cut inside the first chunk-size line')
                        t = got
                    req(t.startswith(got), what + ' content is not a prefix of the true one (%d of %d bytes): %r', len(got), len(t), got[-60:])
                    if o['mode'] == 'content':
                        drain(rec.raw_stream)
                    stats.label('part of the content delivered', 0 < len(got) < len(t))
                    if o['mode'] == 'raw' and not a['gz'] and not inhead and not (rec.http_headers is None and b.http and parsed):
                        # of a plain archive everything present is delivered
                        have = p - (b.offset + len(b.wire) - len(b.block))
                        if parsed and b.http:
                            have -= len(b.head)
                        eq(got, true[:max(0, have)], what + ' content')
                if not arc and o['dig'] and rec.digest_checker.passed:
                    # right only if the whole block can be had from what is left, or there is nothing to it
                    have = zlib.decompressobj(31).decompress(data[b.offset:p]) if a['gz'] else data[b.offset:p]
                    blk = len(have) >= len(b.wire) or not b.block or (not b.payload and (not b.spec.get('bd') or len(have) < len(b.wire) - len(b.block)))
                    req(blk, what + ' passes digest verification')
                if o['ask']:
                    eq(it.get_record_offset(), b.offset, what + ' offset')
            n += 1
    except ArchiveLoadFailed as e:
        if o['dig'] == 'raise' and 'digest' in str(e).lower():
            req(n >= len(whole), what0 + 'digest failure raised for complete record %d: %s', n, e)
        stats.label('ends with ArchiveLoadFailed')
    except StatusAndHeadersParserException as e:
        req(o['verify'] and parsed and partial is not None and partial.http, what0 + 'raises %r', e)
        stats.label('ends in the middle of an HTTP status line, verified')
    req(n >= len(whole), what0 + 'delivers %d records, %d are complete', n, len(whole))
    stats.label('cut-off record delivered', n > len(whole))


@sub('C21', 'truncated', cases, 3000,
     rule='generated WARC/ARC archives, plain or gzip, cut at 1-300 places each (anywhere or around record starts, ends and block positions); non-trivial: some cut is inside a record')
def truncated(case, stats):
    a = case['a']
    data, bs = (gen.assemble_arc if a.get('arc') else gen.assemble)(a)
    if not bs:
        return
    ps = places(case, data, bs)
    for p in ps:
        one_cut(case, data, bs, p, stats)
    stats.label('cuts', len(ps))
    stats.label('gzip', bool(a['gz']))
    stats.label('arc', bool(a.get('arc')))
    stats.nontrivial(any(b.offset < p < b.offset + b.length for b in bs for p in ps))
