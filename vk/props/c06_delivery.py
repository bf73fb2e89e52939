import io
from hypothesis import strategies as st
from vk import gen, ref
from vk.core import sub, eq, req, fail
from vk.views import iterate, drain, check_head, check_raw, check_content
from vk.streams import source

cases = st.builds(lambda a, d, bs, mode, v, pre: {'a': a, 'dl': d, 'bs': bs, 'mode': mode, 'verify': v, 'dig': pre},
                  gen.archives(max_size=4), gen.delivery, gen.block_size, st.sampled_from(['raw', 'content']), st.booleans(),
                  st.sampled_from([True, True, 'raise', 'log', False]))


def _delivery(case, stats):
    data, bs = gen.assemble(case['a'])
    # the payload digest of stored content is over the payload as stored: both views read to the end
    it = iterate(data, case['dl'], block_size=case['bs'], check_digests=case['dig'], verify_http=case['verify'])
    n = 0
    for rec in it:
        req(n < len(bs), 'more records delivered than stored')
        b = bs[n]
        what = 'record %d (%s)' % (n, b.type)
        check_head(rec, b, what)
        if case['mode'] == 'raw':
            check_raw(rec, b, what)
        else:
            check_content(rec, b, what)
            drain(rec.raw_stream)
        eq(rec.digest_checker.passed, b.verdict if case['dig'] else None, what + ' digest verdict')
        eq(rec.digest_checker.problems, [], what + ' digest problems')
        n += 1
    eq(n, len(bs), 'number of records delivered')
    eq(it.err_count, 0, 'errors reported for a well-formed archive')
    stats.label('gzip', bool(case['a']['gz']))
    stats.label('delivery ' + case['dl']['mode'])
    stats.label('one byte reads', case['dl']['sizes'] == [1] or case['bs'] == 1)
    for b in bs:
        stats.label('type ' + b.type)
        stats.label('encoding %s' % b.spec.get('enc'), bool(b.spec.get('enc')))
        stats.label('chunked', bool(b.spec.get('te')))
    stats.nontrivial(n >= 1 and (case['bs'] != gen.BLK or case['dl']['mode'] != 'bytesio'))


@sub('C06', 'delivery', cases, 5000,
     rule='generated archives of every record type under every delivery; non-trivial: >= 1 record and block size or stream not the default')
def delivery(case, stats):
    _delivery(case, stats)


# record ends aligned to multiples of the read block: pad with a header or gzip extra field
al_recs = gen.records(types=['resource', 'response', 'metadata'], pay=gen.payload_small, encodings=False)
aligned = st.builds(lambda rs, g, bs, d, delta, dl: {'recs': rs, 'gz': g, 'bs': bs, 'delta': delta, 'dl': dl},
                    st.lists(al_recs, min_size=2, max_size=4), st.booleans(), st.sampled_from([256, 512, 1000, 16384]), st.none(),
                    st.lists(st.integers(-3, 3), min_size=1, max_size=4), gen.delivery)


@sub('C06', 'aligned', aligned, 2500,
     rule='records padded so that each ends within 3 bytes of a read-block boundary; all are non-trivial')
def aligned_(case, stats):
    out, bs, pos, blk = [], [], 0, case['bs']
    for i, c in enumerate(case['recs']):
        delta = case['delta'][i % len(case['delta'])]
        b = gen.build(c)
        if case['gz']:
            base = len(ref.gz(b.raw))
            pad = (blk - (pos + base + 2) % blk + delta) % blk
            stored = ref.gz(b.raw, extra=b'\0' * pad)
        else:
            pad = (blk - (pos + len(b.raw) + len('X-Pad: \r\n')) % blk + delta) % blk
            b = gen.build(dict(c, extra=list(c['extra']) + [('X-Pad', 'p' * pad)]))
            stored = b.raw
        b.offset, b.length = pos, len(stored) if case['gz'] else len(b.wire)
        bs.append(b)
        out.append(stored)
        pos += len(stored)
    from warcio.archiveiterator import ArchiveIterator
    src = source(b''.join(out), case['dl']['mode'], case['dl']['sizes'])
    it = ArchiveIterator(src, block_size=blk, check_digests=True)
    got = []
    n = 0
    for rec in it:
        req(n < len(bs), 'more records delivered than stored')
        check_head(rec, bs[n], 'record %d' % n)
        check_raw(rec, bs[n], 'record %d' % n)
        eq(rec.digest_checker.passed, bs[n].verdict, 'verdict')
        got.append((it.get_record_offset(), it.get_record_length()))
        n += 1
    eq(got, [(b.offset, b.length) for b in bs], 'offsets and lengths')
    eq(it.err_count, 0, 'errors reported for a well-formed archive')
    req(0 <= getattr(src, 'max_ask', 0) <= blk, 'a reader with block size %d asked the stream for %d bytes', blk, getattr(src, 'max_ask', 0))
    stats.nontrivial()
    stats.label('gzip', case['gz'])


# a gzip member holding more than one record must always be reported
multi = st.builds(lambda rs, groups, d, bs, ops: {'recs': rs, 'groups': groups, 'dl': d, 'bs': bs, 'ops': ops},
                  st.lists(gen.records(digests=False, encodings=False), min_size=2, max_size=6),
                  st.lists(st.integers(1, 3), min_size=1, max_size=6), gen.delivery, gen.block_size, gen.read_ops)


@sub('C06', 'multi_record_member', multi, 2500,
     rule='gzip files with 1-3 records per member; non-trivial: some member holds two or more')
def multi_record(case, stats):
    from warcio.exceptions import ArchiveLoadFailed
    bs = [gen.build(c) for c in case['recs']]
    groups, k, i = [], 0, 0
    while k < len(bs):
        n = case['groups'][i % len(case['groups'])]
        groups.append(bs[k:k + n])
        k += n
        i += 1
    data = b''.join(ref.gz(b''.join(b.raw for b in g)) for g in groups)
    bad = any(len(g) > 1 for g in groups)
    # records before the second record of the first overfull member are fine
    good = 0
    for g in groups:
        good += 1
        if len(g) > 1:
            break
    it = iterate(data, case['dl'], block_size=case['bs'])
    n, raised = 0, False
    try:
        for rec in it:
            req(n < len(bs), 'more records delivered than stored')
            check_head(rec, bs[n], 'record %d' % n)
            for op in case['ops']:
                gen.do_read(rec.raw_stream, op)
            n += 1
    except ArchiveLoadFailed:
        raised = True
    eq(raised, bad, 'a gzip member holding %s records is reported with ArchiveLoadFailed' % [len(g) for g in groups])
    eq(n, good if bad else len(bs), 'records delivered before the report')
    stats.nontrivial(bad)
    stats.label('overfull member followed by another', any(len(g) > 1 for g in groups[:-1]))
