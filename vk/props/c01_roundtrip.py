import io
from hypothesis import strategies as st
from vk import gen, ref, wgen
from vk.core import sub, eq, req, fail
from vk.wgen import MANAGED


def write_all(case):
    w, get = wgen.open_writer(case['w'])
    for c in case['recs']:
        w.write_record(wgen.make(w, c))
    return get()


def check_record(rec, c, version, what):
    head, payload = wgen.expected(c)
    eq(rec.rec_type, c['t'], what + ' record type')
    eq(rec.format, 'warc', what + ' format')
    eq(rec.rec_headers.protocol, version, what + ' version')
    h = rec.rec_headers.headers
    get = rec.rec_headers.get_header
    eq([x for x in h if x[0].lower() not in MANAGED], wgen.given_headers(c), what + ' caller-given WARC headers')
    eq([v for n, v in h if n.lower() == 'warc-target-uri'], [c['uri']] if c['uri'] else [], what + ' target URI')
    if c.get('date'):
        eq([v for n, v in h if n.lower() == 'warc-date'], [c['date']], what + ' date')
    if c.get('id') is not None:
        eq([v for n, v in h if n.lower() == 'warc-record-id'],
           [gen.rec_id(c['id'])], what + ' record id')
    ct = c.get('ctype') or wgen.DEFAULT_CT.get(c['t'], 'application/warc-record')
    eq([v for n, v in h if n.lower() == 'content-type'], [ct], what + ' content type header')
    eq(rec.content_type, ct, what + ' content_type')
    eq(get('Content-Length'), str(len(head) + len(payload)), what + ' Content-Length')
    eq(rec.length, len(head) + len(payload), what + ' length')
    if c.get('http'):
        req(rec.http_headers is not None, '%s lost its HTTP headers', what)
        eq(rec.http_headers.protocol, c['http']['first'][0], what + ' HTTP protocol')
        eq(rec.http_headers.statusline, c['http']['first'][1], what + ' HTTP status/request line')
        eq(rec.http_headers.headers, [tuple(x) for x in c['http']['h']], what + ' HTTP headers')
    else:
        eq(rec.http_headers, None, what + ' HTTP headers')
    eq(rec.raw_stream.read(), payload, what + ' payload')


def _roundtrip(case, stats):
    from warcio.archiveiterator import ArchiveIterator
    raw = write_all(case)
    version = wgen.version_of(case['w'])
    recs = iter(ArchiveIterator(io.BytesIO(raw)))
    for i, c in enumerate(case['recs']):
        what = 'record %d (%s)' % (i, c['t'])
        try:
            rec = next(recs)
        except StopIteration:
            fail('%s is missing: only %d of %d records read back', what, i, len(case['recs']))
        check_record(rec, c, version, what)
        stats.label('type ' + c['t'])
        stats.label('http', bool(c.get('http')))
        stats.label('length unknown', not c['len'])
        stats.label('non-seekable source', c['src']['mode'] in ('none', 'noattr', 'tell'))
    extra = next(recs, None)
    req(extra is None, 'reading delivered a record that was not written: %s', extra and extra.rec_headers.headers)
    stats.label('gzip', case['w']['gzip'])
    stats.nontrivial(len(case['recs']) >= 2 and any(wgen.expected(c)[1] for c in case['recs']))


def cases(pay, n):
    return st.builds(lambda w, r: {'w': w, 'recs': r}, wgen.writer_opts, st.lists(wgen.wrecords(pay=pay), max_size=n))


@sub('C01', 'roundtrip', cases(gen.payload, 5), 6000,
     rule='sequences of 0-5 records built by the public API; non-trivial: at least two records and a non-empty payload')
def roundtrip(case, stats):
    _roundtrip(case, stats)


@sub('C01', 'roundtrip_large', cases(gen.payload_big, 2), 700,
     rule='same with payloads around the read-buffer and 512 KiB spool limits')
def roundtrip_large(case, stats):
    _roundtrip(case, stats)
