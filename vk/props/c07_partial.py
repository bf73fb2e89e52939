import io
from hypothesis import strategies as st
from vk import gen, ref
from vk.core import sub, eq, req, fail
from vk.views import iterate, drain, check_head

# a history: per record, which stream is read, how, and when offsets are asked
op = st.one_of(st.tuples(st.just('r'), st.integers(1, 12)), st.tuples(st.just('l'), st.integers(1, 12)), st.just(('L', 0)),
               st.tuples(st.just('r'), st.integers(1, 60)), gen.read_op)
pay = st.one_of(gen.payload, st.lists(gen.segment(st.integers(20, 400)), min_size=1, max_size=4), st.lists(gen.segment(gen.sizes_edge), min_size=1, max_size=2))
step = st.builds(lambda s, o, a, e: {'stream': s, 'ops': o, 'ask': a, 'end': e}, st.sampled_from(['raw', 'raw', 'content', 'none']),
                 st.lists(op, max_size=8), st.sampled_from(['no', 'no', 'no', 'no', 'before', 'mid', 'after']), st.booleans())
cases = st.builds(lambda a, d, bs, s, dig: {'a': a, 'dl': d, 'bs': bs, 'steps': s, 'dig': dig},
                  gen.archives(gen.records(pay=pay), min_size=1, max_size=5), gen.delivery, gen.block_size, st.lists(step, min_size=1, max_size=5), st.booleans())


class Model(object):
    """reference reads on an in-memory file"""
    def __init__(self, data):
        self.f = io.BytesIO(data)

    def apply(self, op):
        k, n = op
        return self.f.read(n) if k == 'r' else self.f.read() if k == 'R' else self.f.readline(n) if k == 'l' else self.f.readline()


@sub('C07', 'partial', cases, 6000,
     rule='archives of 1-5 records, per record a random mixture of reads on raw or decoded stream; non-trivial: some non-empty record left unread or partly read and another follows')
def partial(case, stats):
    data, bs = gen.assemble(case['a'])
    it = iterate(data, case['dl'], block_size=case['bs'], check_digests=case['dig'])
    n = 0
    for rec in it:
        req(n < len(bs), 'more records delivered than stored')
        b = bs[n]
        s = case['steps'][n % len(case['steps'])]
        what = 'record %d' % n
        check_head(rec, b, what)
        skip = len(b.head)
        asked = False
        if s['ask'] == 'before':
            asked = True
            eq((it.get_record_offset(), it.get_record_length()), (b.offset, b.length), what + ' offset and length')
        stats.nontrivial(s['stream'] == 'none' and len(b.payload) > 0 and n + 1 < len(bs))
        if s['stream'] != 'none':
            raw = s['stream'] == 'raw'
            f = rec.raw_stream if raw else rec.content_stream()
            m = Model((b.payload if raw else b.content) if not asked else b'')
            if asked and not raw and f is not rec.raw_stream:
                # a decoder over an exhausted stream
                m = Model(b'')
            done = 0
            for j, op in enumerate(s['ops']):
                got, want = gen.do_read(f, op), m.apply(op)
                if op[0] in ('r', 'R', 'l', 'L'):
                    eq(got, want, '%s %s read %d %r after %d bytes' % (what, s['stream'], j, op, done))
                done += len(got)
                if raw and not asked:
                    eq(rec.raw_stream.tell(), skip + done, what + ' raw stream position')
                if s['ask'] == 'mid' and not asked and j == 1:
                    asked = True
                    eq((it.get_record_offset(), it.get_record_length()), (b.offset, b.length), what + ' offset and length')
                    break
            if s['end'] and not asked:
                eq(drain(f), m.f.read(), what + ' remaining content')
                eq(f.read(10), b'', what + ' exhausted stream')
                eq(f.readline(), b'', what + ' exhausted stream')
                eq(f.read(), b'', what + ' exhausted stream')
                if raw:
                    eq(rec.raw_stream.tell(), len(b.block), what + ' position at the end')
                    if case['dig']:
                        eq(rec.digest_checker.passed, b.verdict, what + ' verdict')
            else:
                stats.nontrivial(0 < done < len(m.f.getvalue()) and n + 1 < len(bs))
        if s['ask'] == 'after':
            eq((it.get_record_offset(), it.get_record_length()), (b.offset, b.length), what + ' offset and length')
            eq(rec.raw_stream.read(5), b'', what + ' stream after its end was sought')
        stats.label('stream ' + s['stream'])
        stats.label('ask ' + s['ask'])
        n += 1
    eq(n, len(bs), 'number of records delivered')
    eq(next(iter(it), None), None, 'after the last record')
    eq(it.err_count, 0, 'errors reported')
