import io, os
from hypothesis import strategies as st
from vk import gen, ref, cli
from vk.core import sub, eq, req, fail
from vk.views import drain
from vk.props.c14_arc import iso
from vk.props import c25_copying as c25

arch = st.one_of(gen.archives(gen.records(), min_size=0, max_size=4, gz=st.just(False)), gen.archives(gen.records(), min_size=1, max_size=4, gz=st.just(False)),
                 gen.arcs(min_size=0, max_size=3, gz=st.just(False)))
pack = st.one_of(
    st.just(('plain',)), st.just(('each',)), st.just(('whole',)), st.tuples(st.just('group'), st.lists(st.integers(1, 3), min_size=1, max_size=3)),
    st.tuples(st.just('split'), st.lists(st.integers(0, 10**6), min_size=1, max_size=4)),
    # cuts relative to the end of a record: (record, distance before its stored end)
    st.tuples(st.just('near'), st.lists(st.tuples(st.integers(0, 5), st.integers(0, 12)), min_size=1, max_size=3)))
cases = st.builds(lambda a, p, g, e, v: {'a': a, 'pack': p, 'gz': g, 'empty': e, 'verbose': v}, arch, pack, st.lists(gen.gz_opts, min_size=1, max_size=2),
                  st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, 4), min_size=1, max_size=2)), st.booleans())


def package(case, data, bs):
    """-> (stored bytes, certain: None | 'clean' | 'errors')"""
    p = case['pack']
    ends = [b.offset + len(b.stored) for b in bs]
    if p[0] == 'plain':
        return data, 'clean'
    if p[0] == 'each':
        cuts = ends
    elif p[0] == 'whole':
        cuts = []
    elif p[0] == 'group':
        cuts, k, i = [], 0, 0
        while k < len(ends):
            k += p[1][i % len(p[1])]
            i += 1
            cuts.append(ends[min(k, len(ends)) - 1])
    elif p[0] == 'split':
        cuts = [c % (len(data) + 1) for c in p[1]]
    else:
        cuts = [max(0, ends[r % len(ends)] - d) for r, d in p[1]] if ends else []
    cuts = sorted(set(c for c in cuts if 0 < c < len(data)))
    pieces, last = [], 0
    for c in cuts + [len(data)]:
        pieces.append(data[last:c])
        last = c
    certain = None
    starts = set([0] + cuts)
    inside = any(b.offset + len(b.wire) - len(b.block) <= c < b.offset + len(b.wire) for b in bs for c in cuts)
    if all(b.offset in starts for b in bs) and all(c in ends for c in cuts):
        certain = 'clean'
    elif inside or any(not any(p.offset + len(p.wire) - 4 <= c <= b.offset for c in cuts) for p, b in zip(bs, bs[1:])):
        # a cut inside a block, or two records in one member
        certain = 'errors'
    for e in case['empty']:
        pieces.insert(e % (len(pieces) + 1), b'')
        if certain == 'clean':
            certain = None
    return b''.join(ref.gz(x, **dict(case['gz'][i % len(case['gz'])])) for i, x in enumerate(pieces)), certain


def want_headers(b):
    drop = ('content-length', 'warc-block-digest', 'warc-payload-digest')
    return [h for h in b.headers if h[0].lower() not in drop]


@sub('C15', 'recompress', cases, 5000,
     rule='WARC and ARC archives packaged plain, per record, as a whole, several records to a member, or cut at any place into members (also empty members); '
          'non-trivial: gzip packaging of >= 2 records that is not one record per member')
def recompress(case, stats):
    from warcio.archiveiterator import ArchiveIterator
    a = case['a']
    arc = a.get('arc')
    data, bs = (gen.assemble_arc if arc else gen.assemble)(a)
    stored, certain = package(case, data, bs)
    stats.nontrivial(len(bs) >= 2 and certain != 'clean')
    stats.label(case['pack'][0])
    stats.label('expected ' + str(certain))
    stats.label('arc', bool(arc))
    with cli.scratch() as d:
        src = cli.write(os.path.join(d, 'in.warc.gz'), stored)
        out1, out2 = os.path.join(d, 'out.warc.gz'), os.path.join(d, 'out2.warc.gz')
        rc, out, err = cli.run(['recompress'] + (['-v'] if case['verbose'] else []) + [src, out1])
        out = out.decode()
        eq(rc, 0, 'exit status (%s)' % out[-300:])
        eq(cli.read(src), stored, 'the input file')
        req('%d records read and recompressed to file: %s\n' % (len(bs), out1) in out, 'reported count is not %d: %r', len(bs), out[-300:])
        last = out.strip().split('\n')[-1]
        req(last in ('No Errors Found!', 'Compression Errors Found and Fixed!'), 'last line %r', last)
        if certain:
            eq(last, {'clean': 'No Errors Found!', 'errors': 'Compression Errors Found and Fixed!'}[certain], 'message')
        new = cli.read(out1)
        recs = ref.parse_any(new, True)
        eq(len(recs), len(bs), 'records in the output')
        for i, (b, r) in enumerate(zip(bs, recs)):
            what = 'record %d' % i
            eq(r.block, b.block, what + ' block')
            if arc:
                eq(r.type, 'warcinfo' if b.kind == 'arc_header' else 'response', what + ' type')
                eq(r.get('WARC-Date'), iso(b.date), what + ' date')
                eq(r.get('WARC-Target-URI'), None if b.kind == 'arc_header' else b.url.replace(' ', '%20'), what + ' target URI')
                eq(r.all('WARC-Block-Digest'), [ref.b32(b.block)], what + ' block digest')
                continue
            eq(r.version, b.version, what + ' version')
            eq([h for h in r.headers if h[0].lower() not in ('content-length', 'warc-block-digest', 'warc-payload-digest')], want_headers(b), what + ' WARC headers')
            for nm, spec, dat in (('WARC-Block-Digest', b.spec.get('bd'), b.block), ('WARC-Payload-Digest', b.spec.get('pd'), b.payload)):
                if spec:
                    eq(r.all(nm), [gen.digest_text(spec, dat)], '%s %s' % (what, nm))
                elif nm == 'WARC-Block-Digest' or b.type not in ('warcinfo', 'revisit'):
                    eq(r.all(nm), [ref.b32(dat)], '%s %s' % (what, nm))
                else:
                    eq(r.all(nm), [], '%s %s' % (what, nm))
        rc, out, err = cli.run(['recompress', out1, out2])
        eq(rc, 0, 'exit status of the second run')
        req('%d records read' % len(bs) in out.decode() and 'No Errors Found!' in out.decode(), 'second run says %r', out)
        eq(cli.read(out2), new, 'recompressing the output again')
        eq(cli.read(out1), new, 'the first output')


# HTTP headers as found in the wild are rewritten in the usual form, so the length and digests of the record must follow
wild = st.builds(lambda rs, p, g, e, v, bl: {'recs': rs, 'pack': p, 'gz': g, 'empty': e, 'verbose': v, 'blank': bl},
                 st.lists(st.builds(lambda c, h: dict(c, raw=h), gen.records(types=['response'] * 4 + ['request', 'revisit', 'resource']), st.one_of(st.none(), c25.rawhead, c25.rawhead)), min_size=1, max_size=3),
                 pack, st.lists(gen.gz_opts, min_size=1, max_size=2), st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, 4), min_size=1, max_size=2)), st.booleans(),
                 st.one_of(st.just(b''), st.just(b''), st.sampled_from([b'\n', b'\r\n', b'\r\n\r\n', b' \n'])))


@sub('C15', 'wild_heads', wild, 2000,
     rule='WARC records whose HTTP headers are valid but not in the usual form, with right digests, in any packaging, also with blank lines first; non-trivial: some HTTP header block is not in the usual form')
def wild_heads(case, stats):
    from warcio.archiveiterator import ArchiveIterator
    bs, pos = [], len(case['blank'])
    for c in case['recs']:
        b = c25.build(c)
        b.offset, b.stored = pos, b.raw
        pos += len(b.raw)
        bs.append(b)
    stored, certain = package(case, case['blank'] + b''.join(b.raw for b in bs), bs)
    stats.nontrivial(any(not b.canonical for b in bs))
    stats.label(case['pack'][0])
    stats.label('blank lines first', bool(case['blank']))
    with cli.scratch() as d:
        src = cli.write(os.path.join(d, 'in.warc.gz'), stored)
        out1, out2 = os.path.join(d, 'out.warc.gz'), os.path.join(d, 'out2.warc.gz')
        rc, out, err = cli.run(['recompress'] + (['-v'] if case['verbose'] else []) + [src, out1])
        out = out.decode()
        eq(rc, 0, 'exit status (%s)' % out[-300:])
        req('%d records read and recompressed to file: %s\n' % (len(bs), out1) in out, 'reported count is not %d: %r', len(bs), out[-300:])
        new = cli.read(out1)
        recs = ref.parse_any(new, True)
        eq(len(recs), len(bs), 'records in the output')
        for i, (b, r) in enumerate(zip(bs, recs)):
            what = 'record %d (%s)' % (i, b.type)
            eq(r.version, b.version, what + ' version')
            eq([h for h in r.headers if h[0].lower() not in ('content-length', 'warc-block-digest', 'warc-payload-digest')], want_headers(b), what + ' WARC headers')
            if b.canonical or not b.httpish:
                eq(r.block, b.block, what + ' block')
            else:
                req(r.block.endswith(b.payload) or b.type == 'revisit', '%s payload: %r is not the end of %r', what, b.payload[:60], r.block[-80:])
            spec = b.spec.get('bd')
            if spec and r.block == b.block:
                eq(r.all('WARC-Block-Digest'), [gen.digest_text(spec, b.block)], what + ' block digest')
            else:
                eq(r.all('WARC-Block-Digest'), [ref.b32(r.block)], what + ' block digest')
            if b.spec.get('pd'):
                eq(r.all('WARC-Payload-Digest'), [gen.digest_text(b.spec['pd'], b.payload)], what + ' payload digest')
        it = ArchiveIterator(io.BytesIO(new), check_digests=True)
        for i, rec in enumerate(it):
            drain(rec.raw_stream)
            req(rec.digest_checker.passed is not False, 'digests of record %d (%s) no longer verify: %r', i, bs[i].type, rec.digest_checker.problems)
        rc, out, err = cli.run(['recompress', out1, out2])
        eq(rc, 0, 'exit status of the second run')
        eq(cli.read(out2), new, 'recompressing the output again')


junk = st.one_of(st.text(st.sampled_from('abc \n<>{}'), min_size=1, max_size=60).map(str.encode), st.binary(min_size=1, max_size=60),
                 st.sampled_from([b'<html>\n<body>', b'WARC\n', b'HTTP/1.1 200 OK\r\n\r\nabc', b'WARK/1.0\r\n\r\n', b'%PDF-1.4\n', b'PK\x03\x04', b'\x1f\x8b', b'a b c d\n']))


@sub('C15', 'junk', st.builds(lambda j, g, v: {'j': j, 'gz': g, 'verbose': v}, junk, st.booleans(), st.booleans()), 800,
     rule='inputs that are not archives; non-trivial: every input whose first line is no WARC or ARC header')
def junk_input(case, stats):
    first = case['j'].split(b'\n')[0].strip()
    if not first or first.upper().startswith(b'WARC/') or len(first.split(b' ')) >= 5 or case['j'][:1] == b'\x1f' or case['j'][:1].isspace():
        stats.exclude('might be an archive')
        return
    try:
        if len(first.decode('utf-8').rsplit(' ', 4)) >= 5 or not first.decode('utf-8').strip() or len(first.decode('utf-8')) < 2:
            return
    except UnicodeDecodeError:
        if not first.decode('latin-1').strip() or len(first) < 2:
            return
    stats.nontrivial()
    data = ref.gz(case['j']) if case['gz'] else case['j']
    with cli.scratch() as d:
        src = cli.write(os.path.join(d, 'in'), data)
        rc, out, err = cli.run(['recompress'] + (['-v'] if case['verbose'] else []) + [src, os.path.join(d, 'out.warc.gz')])
        eq(rc, 1, 'exit status for a file that is no archive (%r)' % out)
        req(out.decode('utf-8', 'replace').rstrip().endswith('Recompress Failed: %s could not be read as a WARC or ARC' % src), 'message %r', out)
        eq(cli.read(src), data, 'the input file')
