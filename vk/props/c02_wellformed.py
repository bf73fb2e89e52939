import io, re, datetime
from hypothesis import strategies as st
from vk import gen, ref, wgen
from vk.core import sub, eq, req, fail

URN = re.compile(r'^<urn:uuid:[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}>$')

# records made by every public constructor
warcinfo = st.builds(lambda f, i: {'k': 'warcinfo', 'file': f, 'info': i}, st.sampled_from(['a.warc.gz', None, '', 'ü.warc']),
                     st.lists(st.tuples(gen.token, gen.uni_value), max_size=4))
revisit = st.builds(lambda u, d, ru, rd, hh, ex: {'k': 'revisit', 'uri': u, 'digest': d, 'ruri': ru, 'rdate': rd, 'http': hh, 'extra': ex},
                    st.one_of(gen.http_uri, gen.other_uri), st.sampled_from(['sha1:ABC', 'md5:00', 'x']), gen.http_uri, gen.date,
                    st.one_of(st.none(), gen.http_headers), st.one_of(st.none(), gen.warc_extra))
plain = st.builds(lambda r: {'k': 'rec', 'rec': r}, wgen.wrecords())
pair = st.builds(lambda q, p: {'k': 'pair', 'req': q, 'resp': p},
                 wgen.wrecords(types=['request'], pay=gen.payload_small), wgen.wrecords(types=['response'], pay=gen.payload_small,
                                                                        uris=st.tuples(gen.http_uri, gen.other_uri)))
items = st.one_of(plain, plain, warcinfo, revisit, pair)
cases = st.builds(lambda w, i: {'w': w, 'items': i}, wgen.writer_opts, st.lists(items, max_size=4))


def make_items(w, it):
    """[(record, expected block)] in the order they will be in the output; writes them too"""
    from warcio.statusandheaders import StatusAndHeaders
    k = it['k']
    if k == 'rec':
        r = wgen.make(w, it['rec'])
        w.write_record(r)
        return [b''.join(wgen.expected(it['rec']))]
    if k == 'warcinfo':
        info = dict(it['info'])
        w.write_record(w.create_warcinfo_record(it['file'], info))
        return [''.join('%s: %s\r\n' % (a, b) for a, b in info.items() if b).encode('utf-8')]
    if k == 'revisit':
        hh = None if it['http'] is None else StatusAndHeaders('200 OK', [tuple(x) for x in it['http']], protocol='HTTP/1.1')
        kw = {} if it['extra'] is None else {'warc_headers_dict': dict(tuple(x) for x in it['extra'])}
        w.write_record(w.create_revisit_record(it['uri'], it['digest'], it['ruri'], it['rdate'], http_headers=hh, **kw))
        return [b'' if it['http'] is None else ref.http_bytes('HTTP/1.1 200 OK', [tuple(x) for x in it['http']])]
    q, p = wgen.make(w, it['req']), wgen.make(w, it['resp'])
    w.write_request_response_pair(q, p)
    return [b''.join(wgen.expected(it['resp'])), b''.join(wgen.expected(it['req']))]


def _supplied(it):
    """whether the caller chose the dates and ids of the records of this item"""
    if it['k'] == 'rec':
        return [(it['rec'].get('date') or it['rec']['via'] == 'headers', it['rec'].get('id') is not None or it['rec']['via'] == 'headers')]
    if it['k'] == 'pair':
        a, b = it['resp'], it['req']
        d = bool(a.get('date') or a['via'] == 'headers')
        return [(d, a.get('id') is not None or a['via'] == 'headers'), (d, b.get('id') is not None or b['via'] == 'headers')]
    return [(False, False)]


@sub('C02', 'wellformed', cases, 6000,
     rule='record, warcinfo, revisit and request/response-pair constructors; non-trivial: at least two records written')
def wellformed(case, stats):
    blocks, sup = [], []
    w, get = wgen.open_writer(case['w'])
    t0 = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)
    for it in case['items']:
        blocks += make_items(w, it)
        sup += _supplied(it)
        stats.label(it['k'])
    t1 = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)
    raw = get()
    version = wgen.version_of(case['w'])
    recs = ref.parse_any(raw, case['w']['gzip'])
    eq(len(recs), len(blocks), 'number of records written')
    if case['w']['gzip']:
        plainraw = b''.join(m[2] for m in ref.members(raw))
        eq(len(ref.parse_warc(plainraw)), len(blocks), 'records in the decompressed concatenation')
    own_ids = []
    for i, (r, block) in enumerate(zip(recs, blocks)):
        what = 'record %d' % i
        eq(r.version, version, what + ' version')
        for n in ('WARC-Type', 'WARC-Record-ID', 'WARC-Date', 'Content-Length'):
            req(len(r.all(n)) == 1, '%s has %d %s headers', what, len(r.all(n)), n)
        req(len(r.all('WARC-Target-URI')) <= 1 and len(r.all('Content-Type')) == 1, '%s repeats a header', what)
        eq(r.block, block, what + ' block')
        eq(int(r.get('Content-Length')), len(block), what + ' Content-Length')
        if not sup[i][1]:
            req(URN.match(r.get('WARC-Record-ID')), '%s id %r is not a urn:uuid', what, r.get('WARC-Record-ID'))
            own_ids.append(r.get('WARC-Record-ID'))
        if not sup[i][0]:
            d = r.get('WARC-Date')
            if version == 'WARC/1.0':
                req(re.match(r'^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ$', d), '%s date %r is not second precision', what, d)
                v = datetime.datetime.strptime(d, '%Y-%m-%dT%H:%M:%SZ')
                lo = t0.replace(microsecond=0)
            else:
                req(re.match(r'^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d{6})?Z$', d), '%s date %r is not microsecond precision', what, d)
                v = datetime.datetime.strptime(d, '%Y-%m-%dT%H:%M:%S.%fZ' if '.' in d else '%Y-%m-%dT%H:%M:%SZ')
                lo = t0
            tol = datetime.timedelta(seconds=5)         # the clock may be adjusted
            req(lo - tol <= v <= t1 + tol, '%s date %s is not the current UTC time (%s to %s)', what, d, t0, t1)
            stats.label('date by library ' + version)
    req(len(set(own_ids)) == len(own_ids), 'record IDs are repeated: %s', own_ids)
    stats.nontrivial(len(recs) >= 2)


# ---------------------------------------------------------------------------- ids made in several processes and under a stopped clock
idcases = st.builds(lambda n, s, c, k, how: {'n': n, 'seed': s, 'clock': c, 'procs': k, 'how': how}, st.integers(1, 40), st.one_of(st.none(), st.integers(0, 9)),
                    st.booleans(), st.integers(0, 3), st.lists(st.sampled_from(['record', 'warcinfo', 'revisit', 'arc', 'make', 'builder']), min_size=1, max_size=3))


def _ids(case):
    """ids made now, of records made in the ways listed"""
    import random
    from warcio.warcwriter import BufferWARCWriter
    from warcio.recordbuilder import RecordBuilder
    from warcio.archiveiterator import ArchiveIterator
    from warcio.statusandheaders import StatusAndHeadersParser
    if case['seed'] is not None:
        random.seed(case['seed'])
    out = []
    w = BufferWARCWriter()
    for i in range(case['n']):
        how = case['how'][i % len(case['how'])]
        if how == 'make':
            out.append(StatusAndHeadersParser.make_warc_id())
            continue
        if how == 'arc':
            line = b'http://a.b/ 1.2.3.4 20200101000000 text/html 0\n\n'
            rs = list(ArchiveIterator(io.BytesIO(line * 2), arc2warc=True))
            out += [r.rec_headers.get_header('WARC-Record-ID') for r in rs]
            continue
        r = w.create_warcinfo_record('a.warc', {'a': 'b'}) if how == 'warcinfo' else \
            w.create_revisit_record('http://a.b/', 'sha1:ABC', 'http://a.b/', '2020-01-01T00:00:00Z') if how == 'revisit' else \
            (w if how == 'record' else RecordBuilder()).create_warc_record('http://a.b/', 'resource', payload=io.BytesIO(b'x'))
        out.append(r.rec_headers.get_header('WARC-Record-ID'))
    return out


@sub('C02', 'ids', idcases, 500, rule='ids of records made in this process and in forked ones, with the random generator of the caller seeded alike and the clock stopped; non-trivial: more than one process or 10 records')
def ids(case, stats):
    import os, json, random, time
    from vk import core
    old = random.getstate()
    real = time.time, time.time_ns
    all_ids = []
    fake, os.urandom = os.urandom, core._real_urandom         # elsewhere cases are made repeatable
    try:
        if case['clock']:
            now, nown = real[0](), real[1]()
            time.time, time.time_ns = lambda: now, lambda: nown
        for _ in range(case['procs']):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    with os.fdopen(w, 'w') as f:
                        f.write(json.dumps(_ids(case)))
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r) as f:
                text = f.read()
            os.waitpid(pid, 0)
            req(text, 'making records in a forked process failed')
            all_ids += json.loads(text)
        all_ids += _ids(case)
        all_ids += _ids(case)
    finally:
        time.time, time.time_ns = real
        os.urandom = fake
        random.setstate(old)
    for i in all_ids:
        req(i and URN.match(i), 'record id %r is no urn:uuid', i)
    eq(len(set(all_ids)), len(all_ids), 'number of distinct ids')
    stats.nontrivial(case['procs'] > 0 or case['n'] >= 10)


# ---------------------------------------------------------------------------- dates while time goes on
dcases = st.builds(lambda v, g, how, gap, n: {'version': v, 'gzip': g, 'how': how, 'gap': gap, 'n': n}, st.sampled_from([None, 'WARC/1.0', '1.1', 1.0]), st.booleans(),
                   st.lists(st.sampled_from(['record', 'warcinfo', 'revisit', 'builder']), min_size=2, max_size=4), st.integers(20, 300), st.integers(1, 3))


@sub('C02', 'dates', dcases, 16, 400, rule='records made by one writer shortly before and after a full second; non-trivial: all')
def dates(case, stats):
    import time
    from warcio.warcwriter import BufferWARCWriter
    from warcio.recordbuilder import RecordBuilder
    w = BufferWARCWriter(gzip=case['gzip'], warc_version=case['version'])
    b = RecordBuilder(warc_version=case['version'])
    drift = time.time() - time.monotonic()
    time.sleep((1 - case['gap'] / 2000.0 - time.time()) % 1)
    got = []
    for k in range(case['n'] * len(case['how'])):
        how = case['how'][k % len(case['how'])]
        t0 = time.time()
        r = w.create_warcinfo_record('a.warc', {'a': 'b'}) if how == 'warcinfo' else \
            w.create_revisit_record('http://a.b/', 'sha1:ABC', 'http://a.b/', '2020-01-01T00:00:00Z') if how == 'revisit' else \
            (w if how == 'record' else b).create_warc_record('http://a.b/', 'resource', payload=io.BytesIO(b'x'))
        t1 = time.time()
        w.write_record(r)
        got.append((t0, t1, how))
        time.sleep(case['gap'] / 1000.0)
    if abs(time.time() - time.monotonic() - drift) > 0.0005:
        stats.label('the clock was adjusted')
        return
    recs = ref.parse_any(w.get_contents(), case['gzip'])
    eq(len(recs), len(got), 'records written')
    for (t0, t1, how), r in zip(got, recs):
        d = r.get('WARC-Date')
        lo, hi = [datetime.datetime.fromtimestamp(t, datetime.timezone.utc).replace(tzinfo=None) for t in (t0 - 0.001, t1 + 0.001)]
        v = datetime.datetime.strptime(d, '%Y-%m-%dT%H:%M:%S.%fZ' if '.' in d else '%Y-%m-%dT%H:%M:%SZ')
        if r.version == 'WARC/1.0':
            lo = lo.replace(microsecond=0)
        req(lo <= v <= hi, 'date %s of a record (%s) made between %s and %s', d, how, lo, hi)
    stats.nontrivial(True)
    stats.label(str(case['version']))
