import io, os
from hypothesis import strategies as st
from vk import gen, ref, wgen, cli
from vk.core import sub, eq, req, fail, Violation
from vk.streams import Sink, Source
from vk.views import iterate, drain

kinds = st.one_of(st.builds(lambda r: ('rec', r), wgen.wrecords()), st.builds(lambda r: ('rec', r), wgen.wrecords()),
                  st.builds(lambda a, b: ('pair', a, b), wgen.wrecords(types=['response'], uris=st.tuples(gen.http_uri, gen.other_uri)), wgen.wrecords(types=['request'])),
                  st.builds(lambda n: ('info', n), st.integers(0, 3)))
cases = st.builds(lambda o, g, v, q, s: {'ops': o, 'gzip': g, 'version': v, 'look': q, 'sink': s}, st.lists(kinds, min_size=1, max_size=5), st.booleans(),
                  st.sampled_from([None, '1.1']), st.lists(st.lists(st.sampled_from(['contents', 'contents', 'stream', 'streampart', 'streamread']), max_size=3), min_size=1, max_size=5), st.sampled_from(['sink', 'file', 'buffer', 'append']))


def write(w, op, k):
    """one write call; -> number of records written"""
    if op[0] == 'rec':
        w.write_record(wgen.make(w, dict(op[1], id=1000 + 2 * k, via='dict' if op[1]['via'] == 'none' else op[1]['via'], date=op[1].get('date') or '2001-01-01T00:00:00Z')))
        return 1
    if op[0] == 'pair':
        a, b = [wgen.make(w, dict(op[j], id=1000 + 2 * k + j, via='dict' if op[j]['via'] == 'none' else op[j]['via'], date='2001-01-01T00:00:00Z')) for j in (1, 2)]
        w.write_request_response_pair(b, a)
        return 2
    r = w.create_warcinfo_record('f%d' % op[1], {'software': 'x' * op[1], 'format': 'WARC'})
    r.rec_headers.replace_header('WARC-Record-ID', '<urn:uuid:%d>' % k)
    r.rec_headers.replace_header('WARC-Date', '2001-01-01T00:00:00Z')
    w.write_record(r)
    return 1


def blocks(raw, gz):
    return [r.head + r.block for r in ref.parse_any(raw, gz)]


@sub('C24', 'writes', cases, 5000,
     rule='1-5 write calls of every kind, the output looked at after each; non-trivial: two calls')
def writes(case, stats):
    from warcio.warcwriter import WARCWriter, BufferWARCWriter
    kw = {'gzip': case['gzip']}
    if case['version']:
        kw['warc_version'] = case['version']
    alone = []
    for k, op in enumerate(case['ops']):
        s = Sink()
        n = write(WARCWriter(s, **kw), op, k)
        eq(len(ref.parse_any(s.getvalue(), case['gzip'])), n, 'records of one write call')
        alone.append(s.getvalue())
    with cli.scratch() as d:
        before = b''
        if case['sink'] == 'sink':
            out = Sink()
            w, now = WARCWriter(out, **kw), out.getvalue
        elif case['sink'] == 'buffer':
            w = BufferWARCWriter(**kw)
            out, now = None, w.get_contents
        else:
            name = os.path.join(d, 'f')
            if case['sink'] == 'append':
                before = ref.gz(b'earlier') if case['gzip'] else b'earlier\n'
                cli.write(name, before)
            out = open(name, 'ab' if case['sink'] == 'append' else 'wb')
            w, now = WARCWriter(out, **kw), lambda: cli.read(name)
        want = before
        total = 0
        try:
            for k, op in enumerate(case['ops']):
                total += write(w, op, k)
                want += alone[k]
                if case['sink'] == 'sink':
                    eq(out.flushed, len(out.buf), 'bytes flushed when write call %d returned' % k)
                looks = case['look'][k % len(case['look'])] if case['sink'] == 'buffer' else ['contents']
                for look in looks:
                    if look == 'contents':
                        data = now()
                        eq(data, want, 'output after write call %d' % k)
                        eq(len(ref.parse_any(data[len(before):], case['gzip'])), total, 'records after write call %d' % k)
                        continue
                    st_ = w.get_stream()
                    if look != 'stream':
                        n = -1 if look == 'streamread' else len(want) // 2
                        eq(st_.read(n), want if n < 0 else want[:n], 'stream of the in-memory writer')
                    stats.label('stream looked at between writes', k + 1 < len(case['ops']))
        finally:
            if case['sink'] in ('file', 'append'):
                out.close()
        eq(now(), want, 'output at the end')
    stats.nontrivial(len(case['ops']) > 1)
    stats.label(case['sink'])


# ---------------------------------------------------------------------------- faults
class Boom(OSError):
    pass


class FailSource(Source):
    """fails at its k-th read from now on"""
    fail_at = None

    def read(self, n=-1):
        if self.fail_at is not None:
            self.fail_at -= 1
            if self.fail_at < 0:
                raise self.exc
        return Source.read(self, n)


class FlushSink(Sink):
    def flush(self):
        if self.fail_flush is not None and self.nflush + 1 == self.fail_flush:
            raise self.exc
        Sink.flush(self)


fcases = st.builds(lambda a, b, g, m, k, p, e: {'before': a, 'rec': b, 'gzip': g, 'mode': m, 'k': k, 'partial': p, 'exc': e},
                   st.lists(kinds, max_size=3), kinds, st.booleans(), st.sampled_from(['write', 'write', 'flush', 'source']), st.integers(0, 30), st.integers(0, 40), st.sampled_from(['os', 'value', 'key']))


@sub('C24', 'faults', fcases, 3000,
     rule='after 0-3 good write calls, one fails at every write, flush or payload read in turn (up to 24 points); non-trivial: two or more failure points')
def faults(case, stats):
    from warcio.warcwriter import WARCWriter
    gz = case['gzip']
    exc = {'os': Boom(5, 'boom'), 'value': ValueError('boom'), 'key': KeyboardInterrupt()}[case['exc']]
    mode = case['mode']

    used = []

    def run(point):
        s = FlushSink()
        s.fail_flush = None
        s.exc = exc
        w = WARCWriter(s, gzip=gz)
        used[:] = [w, s]
        n = 0
        for k, op in enumerate(case['before']):
            n += write(w, op, k)
        base, n0 = s.getvalue(), s.nwrites
        f0 = s.nflush
        if mode == 'source':
            src = FailSource(b'', [], case['k'] % 2 == 0, True)
            src.data = (gen.expand(case['rec'][1]['body']) if case['rec'][0] == 'rec' else b'') + b'payload' * 3000
            src.fuel = 10 ** 9
            src.exc = exc
            src.fail_at = point
            try:
                r = w.create_warc_record('urn:x', 'resource', payload=src, length=None if case['k'] % 3 == 0 else len(src.data),
                                         warc_headers_dict={'WARC-Record-ID': '<urn:uuid:1>', 'WARC-Date': '2000-01-01T00:00:00Z'})
                w.write_record(r)
            except BaseException as e:
                if e is not exc:
                    raise
                return s, base, n, False
            return s, base, n, src.fail_at is not None and src.fail_at >= 0
        if mode == 'write':
            s.fail_at = None if point is None else n0 + 1 + point
            s.partial = case['partial']
        else:
            s.fail_flush = None if point is None else f0 + 1 + point
        try:
            write(w, case['rec'], 99)
        except BaseException as e:
            if e is not exc:
                raise
            return s, base, n, False
        return s, base, n, True

    s, base, n, ok = run(None)
    full = s.getvalue()
    req(ok or mode == 'source', 'a write without a fault failed')
    points = 0
    for point in range(24):
        s, base2, n, ok = run(point)
        eq(base2, base, 'earlier output')
        if ok:
            eq(s.getvalue(), full, 'output of a write in which the fault did not occur')
            break
        points += 1
        what = '%s failing at its %d. time' % (mode, point + 1)
        data = s.getvalue()
        eq(data[:len(base)], base, 'bytes of the records written before (%s)' % what)
        if not gz:
            req(full.startswith(data), '%s: output is not a prefix of the record', what)
        # the earlier records are still readable
        got = 0
        try:
            for rec in iterate(data):
                b = drain(rec.raw_stream)
                if got < n:
                    got += 1
        except Exception as e:
            from warcio.exceptions import ArchiveLoadFailed
            from warcio.statusandheaders import StatusAndHeadersParserException
            if not isinstance(e, (ArchiveLoadFailed, StatusAndHeadersParserException)):
                raise
        eq(got, n, 'records readable after %s' % what)
        # a write to a fresh output works
        t = Sink()
        write(WARCWriter(t, gzip=gz), case['rec'], 99)
        if mode == 'source':
            req(ref.parse_any(t.getvalue(), gz), 'nothing written to a fresh output after %s', what)
        else:
            eq(full[len(base):], t.getvalue(), 'write to a fresh output after ' + what)
        # also by the writer that failed
        if getattr(used[0], 'out', None) is used[1]:
            t2 = used[0].out = Sink()
            write(used[0], case['rec'], 99)
            eq(t2.getvalue(), t.getvalue(), 'write to a fresh output by the same writer after ' + what)
            stats.label('the writer used again')
    else:
        stats.label('more than 24 points')
    stats.nontrivial(points > 1)
    stats.label('%s %s' % (mode, 'gzip' if gz else 'plain'))
    stats.label('failure points', points)
