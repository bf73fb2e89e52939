import io
from hypothesis import strategies as st
from vk import gen, ref, wgen
from vk.core import sub, eq, req, fail

recs = st.builds(lambda c, bd, pd, ens: dict(c, bdk=bd, pdk=pd, ens=ens), wgen.wrecords(pay=st.one_of(gen.payload, gen.payload, gen.payload, gen.payload_big)),
                 st.sampled_from([None, None, None, 'right', 'wrong', 'sha256']), st.sampled_from([None, None, None, 'right', 'wrong', 'sha256']),
                 st.sampled_from([None, None, 'b', 'p', 'bp', 'bpbp']))
cases = st.builds(lambda w, r: {'w': w, 'recs': r}, wgen.writer_opts, st.lists(recs, min_size=1, max_size=3))


def supplied(kind, data):
    return {None: None, 'right': ref.b32(data), 'wrong': ref.b32(data + b'!'), 'sha256': ref.b32(data, 'sha256')}[kind]


@sub('C03', 'digests', cases, 6000,
     rule='records with no, right, wrong or other-algorithm digests given; non-trivial: a digest had to be computed over a non-empty block')
def digests(case, stats):
    from warcio.archiveiterator import ArchiveIterator
    w, get = wgen.open_writer(case['w'])
    given = []
    for c in case['recs']:
        head, payload = wgen.expected(c)
        bd, pd = supplied(c['bdk'], head + payload), supplied(c['pdk'], payload)
        if c['via'] == 'none':
            bd = pd = None
        given.append((bd, pd))
        r = wgen.make(w, c, {'bd': bd, 'pd': pd}.items())
        # ensuring digests beforehand must change nothing
        ens = c['ens']
        if ens and not (c['t'] == 'revisit'):
            for k in (ens[i:i + 2] if ens != 'b' and ens != 'p' else ens for i in range(0, len(ens), 2)):
                w.ensure_digest(r, block='b' in k, payload='p' in k)
        w.write_record(r)
    raw = get()
    out = ref.parse_any(raw, case['w']['gzip'])
    eq(len(out), len(case['recs']), 'records written')
    verify = True
    for i, (r, c, (bd, pd)) in enumerate(zip(out, case['recs'], given)):
        what = 'record %d (%s)' % (i, c['t'])
        head, payload = wgen.expected(c)
        eq(r.block, head + payload, what + ' block')
        known = c['len'] or c['t'] == 'revisit'
        want_b = bd if (bd and known) else ref.b32(r.block)
        eq(r.all('WARC-Block-Digest'), [want_b], what + ' block digest')
        if c['t'] == 'revisit':
            want_p = [pd] if pd else []
        elif pd and known:
            want_p = [pd]
        elif c['t'] == 'warcinfo':
            want_p = []
        else:
            want_p = [ref.b32(payload)]
        eq(r.all('WARC-Payload-Digest'), want_p, what + ' payload digest')
        if known and c['t'] != 'revisit' and (c['bdk'] == 'wrong' and bd or c['pdk'] == 'wrong' and pd):
            verify = False
        stats.label('given block digest', bool(bd))
        stats.label('given payload digest', bool(pd))
        stats.label('length unknown', not known)
        stats.nontrivial(bool(r.block) and (not bd or not pd))
    if verify:
        for rec in ArchiveIterator(io.BytesIO(raw), check_digests='raise'):
            while rec.raw_stream.read(100000):
                pass
            want = None if rec.rec_type == 'revisit' else True
            eq(rec.digest_checker.passed, want, 'verdict of the library on what it wrote (%s, %d bytes)' % (rec.rec_type, rec.length))
        stats.label('verified by library')


# records taken from another archive, with or without their HTTP headers parsed
readc = st.builds(lambda a, n, g, d, e: {'a': a, 'nrp': n, 'gz': g, 'dl': d, 'ens': e}, gen.archives(gen.records(digests=False), min_size=1, max_size=3), st.booleans(), st.booleans(), gen.delivery, st.booleans())


@sub('C03', 'read_records', readc, 2000,
     rule='records read from archives without digests, with HTTP headers parsed or left in the block; non-trivial: HTTP headers left in the block')
def read_records(case, stats):
    from warcio.archiveiterator import ArchiveIterator
    from warcio.warcwriter import WARCWriter
    from vk.views import iterate
    data, bs = gen.assemble(case['a'])
    f = io.BytesIO()
    w = WARCWriter(f, gzip=case['gz'])
    for rec in iterate(data, case['dl'], no_record_parse=case['nrp']):
        if case['ens']:
            w.ensure_digest(rec)
        w.write_record(rec)
    out = ref.parse_any(f.getvalue(), case['gz'])
    eq(len(out), len(bs), 'records written')
    for i, (r, b) in enumerate(zip(out, bs)):
        what = 'record %d (%s)' % (i, b.type)
        eq(r.block, b.block, what + ' block')
        eq(r.all('WARC-Block-Digest'), [ref.b32(b.block)], what + ' block digest')
        unparsed = bool(case['nrp'] and b.http)
        if b.type in ('warcinfo', 'revisit') or unparsed:
            eq(r.all('WARC-Payload-Digest'), [], what + ' payload digest')
        elif not (case['nrp'] and not b.block):
            eq(r.all('WARC-Payload-Digest'), [ref.b32(b.payload)], what + ' payload digest')
        stats.nontrivial(unparsed)
    for rec in ArchiveIterator(io.BytesIO(f.getvalue()), check_digests='raise'):
        while rec.raw_stream.read(100000):
            pass
