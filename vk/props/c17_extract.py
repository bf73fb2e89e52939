import os
from hypothesis import strategies as st
from vk import gen, ref, cli
from vk.core import sub, eq, req, fail

pay = st.one_of(gen.payload, gen.payload, st.lists(gen.segment(st.one_of(st.integers(60000, 70000), st.builds(lambda d: 65536 + d, st.integers(-2, 2)))), min_size=1, max_size=2))
arch = st.one_of(gen.archives(gen.records(pay=pay, heads=gen.uni_http_headers), min_size=1, max_size=4), gen.archives(gen.records(pay=pay), min_size=1, max_size=4), gen.arcs(min_size=1, max_size=3))
cases = st.builds(lambda a, k, pre: {'a': a, 'k': k, 'pre': pre}, arch, st.integers(0, 5), st.booleans())


@sub('C17', 'extract', cases, 5000, rule='any record of a generated archive in the three output forms; non-trivial: the record has content and is not alone')
def extract(case, stats):
    a = case['a']
    arc = bool(a.get('arc'))
    data, bs = (gen.assemble_arc if arc else gen.assemble)(a)
    if not bs:
        return
    b = bs[case['k'] % len(bs)]
    with cli.scratch() as d:
        p = cli.write(os.path.join(d, 'x.warc'), data)
        r = [cli.run(['extract'] + o + [p, str(b.offset)]) for o in ([], ['--headers'], ['--payload'])]
        eq(cli.read(p), data, 'the archive')
    eq([x[0] for x in r], [0, 0, 0], 'exit status')
    full, head, payload = [x[1] for x in r]
    eq(payload, b.content, 'payload only')
    if arc:
        raw = b.payload
        req(full.endswith(b.block), 'the output does not end with the stored block: %r', full[-200:])
        hd = full[:len(full) - len(b.block)]
        req(hd.endswith(b'\r\n\r\n'), 'no blank line between record headers and block: %r', hd)
        vals = [l.split(': ', 1)[1] if ': ' in l else '' for l in hd.decode('utf-8').split('\r\n')[1:-2]]
        eq(vals, [b.url, b.ip, b.date, b.ctype, str(b.length_field)], 'record headers')
        eq(head, full[:len(full) - len(raw)], 'headers only')
    else:
        eq(full, b.wire, 'the whole record')
        eq(head, b.wire[:len(b.wire) - len(b.payload)], 'headers only')
    stats.nontrivial(len(bs) >= 2 and bool(b.payload))
    stats.label('gzip', bool(a['gz']))
    stats.label('arc', arc)
    stats.label('http', bool(b.http))
    stats.label('larger than the copy buffer', len(b.payload) > 65536)
