import io, sys, threading
from collections import OrderedDict
from hypothesis import strategies as st
from vk import gen, ref, wgen, cli
from vk.core import sub, eq, req, fail, Violation, HarnessError
from vk.views import iterate
from vk.streams import source

# ---------------------------------------------------------------------------- tasks
# a task is a generator: it yields after every step and appends what it saw to a list
small = gen.records(pay=gen.payload_small)
arch = st.one_of(gen.archives(small, max_size=4), gen.archives(gen.records(pay=gen.payload), max_size=2), gen.arcs(max_size=3))
damage = st.sampled_from([None] * 5 + ['cut', 'flip', 'junk'])
t_read = st.builds(lambda a, dm, k, ops, v, d, bs, n, c, dig, e, ens: {'ens': ens, 'kind': 'read', 'a': a, 'damage': dm, 'k': k, 'ops': ops, 'view': v, 'dl': d, 'bs': bs, 'nrp': n, 'conv': c, 'dig': dig, 'edit': e},
                   arch, damage, st.integers(0, 1 << 20), st.lists(gen.read_op, min_size=1, max_size=4), st.sampled_from(['raw', 'content']), gen.delivery, gen.block_size,
                   st.sampled_from([False, False, True]), st.booleans(), st.sampled_from([True, True, 'raise', False]), st.booleans(), st.booleans())
t_write = st.builds(lambda rs, w, e, p: {'kind': 'write', 'recs': rs, 'w': w, 'ens': e, 'peek': p}, st.lists(wgen.wrecords(pay=gen.payload_small, http_headers=gen.uni_http_headers), min_size=1, max_size=4),
                    wgen.writer_opts, st.booleans(), st.booleans())
t_copy = st.builds(lambda a, w, c: {'kind': 'copy', 'a': a, 'w': w, 'conv': c}, gen.archives(small, max_size=3), wgen.writer_opts, st.booleans())
t_tool = st.builds(lambda a, t: {'kind': 'tool', 'a': a, 'tool': t}, arch, st.sampled_from(['index', 'check', 'recompress']))
t_pair = st.builds(lambda w, h, b, n: {'kind': 'pair', 'w': w, 'h': h, 'body': b, 'n': n}, wgen.writer_opts, gen.http_headers, gen.payload_small, st.integers(1, 3))
tasks = st.one_of(t_read, t_read, t_read, t_write, t_write, t_copy, t_pair)


def archive(a):
    return (gen.assemble_arc if a.get('arc') else gen.assemble)(a)[0]


def no_ids(headers):
    return [(n, v) for n, v in headers if n.lower() != 'warc-record-id']


def state(rec):
    h = rec.http_headers
    return (rec.format, rec.rec_type, rec.content_type, rec.length, rec.rec_headers.protocol, list(rec.rec_headers.headers), h and (h.protocol, h.statusline, list(h.headers)))


def still(kept):
    for k, (rec, was) in enumerate(kept):
        eq(state(rec), was, 'record %d of %d read so far, looked at again' % (k, len(kept)))


def read_task(t, see):
    data = archive(t['a'])
    k = t['k'] % (len(data) + 1)
    if t['damage'] == 'cut':
        data = data[:k]
    elif t['damage'] == 'flip' and k < len(data):
        data = data[:k] + bytes([data[k] ^ 0x41]) + data[k + 1:]
    elif t['damage'] == 'junk':
        data = data[:k] + b'junk\r\n' + data[k:]
    try:
        it = iterate(data, t['dl'], block_size=t['bs'], no_record_parse=t['nrp'], arc2warc=t['conv'], check_digests=t['dig'], ensure_http_headers=t.get('ens', False))
        kept = []
        while True:
            yield
            still(kept)
            try:
                rec = next(it)
            except StopIteration:
                see.append('end')
                break
            h = rec.http_headers
            see.append((rec.format, rec.rec_type, rec.rec_headers.protocol, no_ids(rec.rec_headers.headers), rec.content_type, rec.length, h and (h.protocol, h.statusline, list(h.headers))))
            if t['edit']:       # what a caller does to its record is its own matter
                rec.rec_headers.add_header('X-Edited', 'yes')
                rec.rec_headers.replace_header('WARC-Type', 'edited')
                if h:
                    h.add_header('X-Edited', 'yes')
                    h.remove_header('Content-Type')
            kept.append((rec, state(rec)))
            yield
            f = rec.raw_stream if t['view'] == 'raw' else rec.content_stream()
            for op in t['ops']:
                see.append(gen.do_read(f, op))
                yield
            if len(see) % 2:
                see.append((it.get_record_offset(), it.get_record_length()))
                see.append((rec.digest_checker.passed, list(rec.digest_checker.problems)))
    except Violation:
        raise
    except Exception as e:
        see.append((type(e).__name__, str(e)))
    see.append(it.err_count)


def write_task(t, see):
    w, get = wgen.open_writer(t['w'])
    for k, c in enumerate(t['recs']):
        c = dict(c)
        if c['via'] == 'none':
            c['via'] = 'dict'
        c.setdefault('id', k)
        c.setdefault('date', '2001-02-03T04:05:06Z')
        yield
        r = wgen.make(w, c)
        see.append((list(r.rec_headers.headers), r.content_type, r.length))
        yield
        if t['ens'] and c['t'] != 'revisit':
            w.ensure_digest(r)
            yield
        w.write_record(r)
        if t['peek']:
            see.append(len(get()))
    yield
    see.append(get())


def copy_task(t, see):
    it = iterate(archive(t['a']), arc2warc=t['conv'])
    w, get = wgen.open_writer(t['w'])
    for rec in it:
        yield
        w.write_record(rec)
        see.append((it.get_record_offset(), it.get_record_length()))
    yield
    see.append(get())


def pair_task(t, see):
    from warcio.statusandheaders import StatusAndHeaders
    w, get = wgen.open_writer(t['w'])
    body = gen.expand(t['body'])
    for k in range(t['n']):
        d = {'WARC-Record-ID': '<urn:uuid:%d>' % k, 'WARC-Date': '2000-01-01T00:00:00Z'}
        resp = w.create_warc_record('http://e.com/%d' % k, 'response', payload=io.BytesIO(body), http_headers=StatusAndHeaders('200 OK', t['h'], protocol='HTTP/1.1'), warc_headers_dict=d)
        yield
        rq = w.create_warc_record('http://other/', 'request', payload=io.BytesIO(b'q%d' % k), http_headers=StatusAndHeaders('GET / HTTP/1.1', t['h'], is_http_request=True),
                                  warc_headers_dict=dict(d, **{'WARC-Record-ID': '<urn:uuid:r%d>' % k}))
        yield
        w.write_request_response_pair(rq, resp)
        yield
    see.append(get())


def tool_task(t, see):
    with cli.scratch() as d:
        p = cli.write(d + '/a', archive(t['a']))
        yield
        rc, out, err = cli.run([t['tool']] + [p] + ([d + '/b'] if t['tool'] == 'recompress' else []))
        see.append((rc, out.replace(d.encode(), b'.')))
        if t['tool'] == 'recompress' and rc == 0:
            see.append([(no_ids(r.headers), r.block) for r in ref.parse_any(cli.read(d + '/b'), True)])
        yield


RUN = {'read': read_task, 'write': write_task, 'copy': copy_task, 'tool': tool_task, 'pair': pair_task}


def alone(t):
    see = []
    for _ in RUN[t['kind']](t, see):
        pass
    return see


def compare(got, want, what):
    for k, (g, w) in enumerate(zip(got, want)):
        eq(g, w, '%s: observation %d' % (what, k))
    eq(len(got), len(want), what + ': number of observations')


scases = st.builds(lambda ts, s, b: {'tasks': ts, 'schedule': s, 'ref': b}, st.lists(st.one_of(tasks, tasks, tasks, t_tool), min_size=2, max_size=4), st.lists(st.integers(0, 3), max_size=60), st.booleans())


@sub('C31', 'interleaved', scases, 3000, rule='2-4 readers, writers, copiers and tools advanced step by step under a generated schedule, against each on its own; non-trivial: two of them advance in turn')
def interleaved(case, stats):
    ts = case['tasks']
    wants = [alone(t) for t in ts] if case['ref'] else None
    sees = [[] for _ in ts]
    live = [RUN[t['kind']](t, s) for t, s in zip(ts, sees)]
    turns, k = [], 0
    while any(live):
        i = case['schedule'][k] if k < len(case['schedule']) else k
        k += 1
        i %= len(ts)
        if live[i] is None:
            i = next(j for j, g in enumerate(live) if g)
        turns.append(i)
        try:
            next(live[i])
        except StopIteration:
            live[i] = None
    if wants is None:
        wants = [alone(t) for t in ts]
    for i, t in enumerate(ts):
        compare(sees[i], wants[i], '%s %d among %s' % (t['kind'], i, [x['kind'] for x in ts]))
    stats.nontrivial(sum(a != b for a, b in zip(turns, turns[1:])) > len(ts))
    for t in ts:
        stats.label(t['kind'])


tcases = st.builds(lambda ts, n, sw: {'tasks': ts, 'copies': n, 'switch': sw}, st.lists(tasks, min_size=1, max_size=3), st.integers(1, 2), st.sampled_from([1e-6, 1e-5, 1e-4]))


@sub('C31', 'threads', tcases, 1200, rule='readers, writers and copiers each in a thread of its own, all running at the same time; non-trivial: at least two threads')
def threads(case, stats):
    ts = case['tasks'] * case['copies']
    wants = [alone(t) for t in case['tasks']] * case['copies']
    res = [None] * len(ts)
    gate = threading.Barrier(len(ts))

    def body(i):
        try:
            gate.wait(20)
            res[i] = ('ok', alone(ts[i]))
        except BaseException as e:
            res[i] = ('raised', repr(e))
    old = sys.getswitchinterval()
    sys.setswitchinterval(case['switch'])
    try:
        th = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(ts))]
        for t in th:
            t.start()
        for t in th:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    for i, t in enumerate(ts):
        if res[i] is None:
            raise HarnessError('thread did not finish')
        req(res[i][0] == 'ok', '%s in a thread among %s: %s', t['kind'], [x['kind'] for x in ts], res[i][1])
        compare(res[i][1], wants[i], '%s in a thread among %s' % (t['kind'], [x['kind'] for x in ts]))
    stats.nontrivial(len(ts) > 1)
    stats.label('%d threads' % len(ts))


# ---------------------------------------------------------------------------- what the caller gives stays the caller's
icases = st.builds(lambda t, ex, hh, b, how, w, n, m, info, k: {'t': t, 'extra': ex, 'h': hh, 'body': b, 'how': how, 'w': w, 'n': n, 'map': m, 'info': info, 'len': k},
                   st.sampled_from(['response', 'request', 'resource', 'metadata', 'revisit', 'create_revisit', 'warcinfo']), gen.warc_extra, gen.http_headers, gen.payload,
                   st.sampled_from(['object', 'list', 'bytes', 'tuple', 'dict']), wgen.writer_opts, st.integers(2, 3), st.sampled_from(['dict', 'ordered', 'readonly']),
                   st.dictionaries(gen.token, st.one_of(gen.ascii_value, st.integers(0, 9), st.none()), max_size=4), st.booleans())


class ReadOnly(dict):
    def _no(self, *a, **k):
        raise Violation("the caller's mapping is modified")
    __setitem__ = __delitem__ = update = setdefault = pop = popitem = clear = _no


@sub('C31', 'inputs', icases, 3000, rule="records built 2-3 times from the same mapping, header list, header object and payload bytes; non-trivial: a mapping or HTTP headers are given")
def inputs(case, stats):
    from warcio.statusandheaders import StatusAndHeaders
    d = dict([tuple(x) for x in case['extra']])
    d['WARC-Record-ID'], d['WARC-Date'] = '<urn:uuid:7>', '2000-01-01T00:00:00Z'
    d = {'dict': dict, 'ordered': OrderedDict, 'readonly': ReadOnly}[case['map']](d)
    hl = [tuple(x) for x in case['h']]
    if case['how'] == 'bytes':
        hl = [(n.encode(), v.encode()) for n, v in hl]
    elif case['how'] == 'tuple':
        hl = tuple(hl)
    elif case['how'] == 'dict':
        hl = ReadOnly(hl)
    payload = bytearray(gen.expand(case['body']))
    info = ReadOnly(case['info'])
    http = case['t'] in ('response', 'request', 'revisit', 'create_revisit')

    def headers():
        if case['t'] == 'request':
            return StatusAndHeaders('GET / HTTP/1.1', hl, is_http_request=True)
        return StatusAndHeaders('200 OK', hl, protocol='HTTP/1.1')
    obj = headers()

    def both(r):
        return (list(r.rec_headers.headers), r.http_headers and list(r.http_headers.headers))

    def theirs():
        return (list(d.items()), list(hl.items()) if isinstance(hl, dict) else list(hl), bytes(payload), list(info.items()), obj.protocol, obj.statusline, list(obj.headers))
    before = theirs()
    outs, recs = [], []
    for k in range(case['n']):
        w, get = wgen.open_writer(case['w'])
        h = obj if case['how'] == 'object' else headers()
        kw = {'http_headers': h} if http else {}
        if case['t'] == 'warcinfo':
            r = w.create_warcinfo_record('f.warc', info)
            r.rec_headers.replace_header('WARC-Record-ID', '<urn:uuid:7>')
            r.rec_headers.replace_header('WARC-Date', '2000-01-01T00:00:00Z')
        elif case['t'] == 'create_revisit':
            r = w.create_revisit_record('http://e.com/', 'sha1:' + 'A' * 32, 'http://f.com/', '2000-01-01T00:00:00Z', warc_headers_dict=d, **kw)
        elif case['t'] == 'revisit':
            r = w.create_warc_record('http://e.com/', 'revisit', warc_headers_dict=d, **kw)
        else:
            f = io.BytesIO(payload)
            if case['len']:
                kw['length'] = len(payload)
            r = w.create_warc_record('http://e.com/', case['t'], payload=f, warc_headers_dict=d, **kw)
        recs.append((r, both(r)))
        for q, hs in recs[:-1]:
            eq(both(q), hs, 'headers of an earlier record after building another')
        w.write_record(r)
        outs.append(get())
        if k:
            r.rec_headers.add_header('X-Later', 'value')       # the record is not the caller's mapping
            if case['how'] != 'object' and r.http_headers:
                r.http_headers.add_header('X-Later', 'value')
                r.http_headers.replace_header('Content-Type', 'changed')
        recs[-1] = (r, both(r))
        for q, hs in recs[:-1]:
            eq(both(q), hs, 'headers of an earlier record after changing another')
        eq(theirs(), before, "the caller's mappings, lists, headers and payload after record %d" % k)
    for o in outs[1:]:
        eq(o, outs[0], 'bytes written for the same objects again')
    stats.nontrivial(bool(case['extra']) or http)
    stats.label('given as ' + case['how'], http)
    stats.label('type ' + case['t'])
