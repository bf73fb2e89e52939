import io, os, sys, threading, queue
from hypothesis import strategies as st
from vk import gen, ref, wgen, fakenet, cli
from vk.core import sub, eq, req, fail, Violation, HarnessError
from vk.fakenet import Net
from vk.props.c19_capture import check_records

# ---------------------------------------------------------------------------- transparency
fault = st.one_of(st.none(), st.none(), st.none(), st.builds(lambda k: ('cut', k), st.integers(0, 3000)), st.builds(lambda k: ('cut', k), st.integers(0, 60)),
                  st.builds(lambda b: ('raw', b), st.sampled_from([b'', b'garbage', b'garbage\r\n\r\n', b'HTTP/1.1', b'HTTP/1.1 abc\r\n\r\n', b'HTTP/1.1 99 x\r\n\r\n', b'\r\n', b'\r\n\r\nx', b'HTTP/1.1 200 OK\r\nA b\r\n\r\nx',
                                                                   b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nabc', b'HTTP/1.1 200 OK\nContent-Length: 2\n\nab', b'HTTP/1.2 200 OK\r\nContent-Length: 2\r\n\r\nab',
                                                                   b'HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\nab', b'HTTP/1.1 200\r\nX:\xe9\xff\r\n\r\nab', b'SIP/1.0 200 OK\r\n\r\nab',
                                                                   b'HTTP/1.1 200 OK\r\nA: ' + b'x' * 70000 + b'\r\n\r\n', b'HTTP/1.1 200 OK\r\n' + b'A: b\r\n' * 120 + b'\r\n'])))
filters = st.sampled_from([None, 'drop', 'dropreq', 'dropresp', 'keep', 'revisit', 'subst', 'nowrite', 'nested'])
tcases = st.builds(lambda c, x, f, w: {'conns': c, 'xs': x, 'filter': f, 'w': w},
                   st.lists(fakenet.connection, min_size=1, max_size=2), st.lists(st.tuples(fakenet.exchange, fault), min_size=1, max_size=3), filters, wgen.writer_opts)


def play(net, xs):
    """everything the client sees, exceptions included"""
    out = []
    for x, f in xs:
        try:
            st_ = net.begin(x, f)
            s = net.finish(st_)
            out.append(('ok', s['log'], s['got'], s['sent'], s))
        except (Violation, HarnessError):
            raise
        except Exception as e:
            out.append(('error', type(e).__name__, str(e)[:300]))
            f = True
        if f:
            # a connection that broke is not used again
            i = x['conn'] % len(net.specs)
            if net.conns[i] is not None:
                try:
                    net.conns[i].close()
                except Exception as e2:
                    out.append(('close error', type(e2).__name__))
                net.conns[i] = None
    return out


@sub('C20', 'transparent', tcases, 9000,
     rule='1-3 exchanges (broken responses too) made outside and inside a capture with or without a filter or discarding writer: the client must see the same; '
          'records written follow the filter; non-trivial: a filter or a broken response')
def transparent(case, stats):
    from warcio.capture_http import capture_http
    from warcio.warcwriter import BaseWARCWriter
    plain = Net(case['conns'])
    a = play(plain, case['xs'])
    plain.close()

    w, get = wgen.open_writer(case['w'])
    fm = case['filter']
    calls = []
    sub_rec = []

    inner = []
    asking = []

    def ask():
        # a filter that asks another server, in the capture too
        asking.append(1)
        other = Net([{'https': False, 'host': 'other', 'port': None, 'via': 'direct', 'ip': '127.0.0.1', 'pre': False}])
        x = {'conn': 0, 'm': 'GET', 'path': '/%d' % len(inner), 'h': [], 'body': None, 'reads': [],
             'resp': {'v': 'HTTP/1.1', 's': '200 OK', 'h': [], 'f': 'cl', 'b': b'known', 'chunk': {'sizes': [7], 'up': False, 'z': 0, 'ext': b''}, 'pieces': [], 'c100': False, 'close': False}}
        inner.append(other.finish(other.begin(x)))
        other.close()
        asking.pop()

    def filt(request, response, recorder):
        calls.append((request.rec_type, response.rec_type))
        if fm == 'nested' and not asking:
            ask()
        if fm == 'drop':
            return None, None
        if fm == 'dropreq':
            return None, response
        if fm == 'dropresp':
            return request, None
        if fm == 'revisit':
            response = w.create_revisit_record(response.rec_headers.get_header('WARC-Target-URI'), 'sha1:' + 'A' * 32, 'http://o/', '2001-01-01T00:00:00Z', http_headers=response.http_headers)
        elif fm == 'subst':
            response = w.create_warc_record(response.rec_headers.get_header('WARC-Target-URI'), 'resource', payload=io.BytesIO(b'substituted'))
            request.rec_headers.add_header('X-Extra', 'yes')
        return request, response

    class Discard(BaseWARCWriter):
        def _do_write_req_resp(self, req, resp, params):
            calls.append(None)

    target = Discard() if fm == 'nowrite' else w
    net = Net(case['conns'])

    def captured():
        with capture_http(target, None if fm in (None, 'nowrite') else filt):
            return play(net, case['xs'])
    if fm == 'nested':
        th = Stepper()
        try:
            b = th.run(captured, 20)
        except queue.Empty:
            fail('a request made by the filter never ends')
        th.stop()
    else:
        b = captured()
    net.close()
    for k, (p, q) in enumerate(zip(a, b)):
        eq(q[:4], p[:4], 'exchange %d as seen by the client inside the capture (filter %s) against outside' % (k, fm))
    eq(len(b), len(a), 'number of exchanges')
    done = [p[4] for p, (x, f) in zip(b, case['xs']) if p[0] == 'ok' and not f]
    broken = [f for x, f in case['xs'] if f]
    stats.nontrivial(bool(fm) or bool(broken))
    stats.label('filter %s' % fm)
    stats.label('broken response', bool(broken))
    stats.label('client error', any(p[0] == 'error' for p in a))
    rs = ref.parse_any(get(), case['w']['gzip'])
    if fm in ('drop', 'dropreq', 'dropresp', 'nowrite'):
        eq(rs, [], 'records written although dropped')
    elif not broken:
        if fm == 'nested':
            eq(len(inner), len(done), 'requests made by the filter')
            check_records(rs, [s for two in zip(inner, done) for s in two], True, wgen.version_of(case['w']))
        elif fm in (None, 'keep'):
            check_records(rs, done, True, wgen.version_of(case['w']))
        else:
            eq([r.type for r in rs], ['revisit' if fm == 'revisit' else 'resource', 'request'] * len(done), 'substituted records')
            for k, s in enumerate(done):
                r, q = rs[2 * k], rs[2 * k + 1]
                eq(q.block, s['sent'], 'request block with a substituted response')
                eq(q.all('WARC-Concurrent-To'), r.all('WARC-Record-ID'), 'reference to the substituted record')
                eq(q.get('WARC-Date'), r.get('WARC-Date'), 'dates with a substituted record')
                eq(q.get('WARC-Target-URI'), s['url'], 'URI')
                eq(r.get('WARC-Target-URI'), s['url'], 'URI of the substituted record')
                if fm == 'revisit':
                    eq(r.block, s['wire'][:len(r.block)], 'revisit block')
                    req(r.block.endswith(b'\r\n\r\n') and r.block.count(b'\r\n\r\n') == 1, 'revisit block is not the HTTP headers')
                    eq(r.get('WARC-Payload-Digest'), 'sha1:' + 'A' * 32, 'revisit digest')
                else:
                    eq(r.block, b'substituted', 'substituted block')
                    eq(q.all('X-Extra'), ['yes'], 'header added by the filter')
    else:
        # an exchange that broke off may leave records, but the completed ones are there
        it = iter([(r.block, r.type) for r in rs])
        for s in done if fm in (None, 'keep') else []:
            for want in ((s['wire'], 'response'), (s['sent'], 'request')):
                req(any(x == want for x in it), 'completed exchange not recorded: %r', want)


# ---------------------------------------------------------------------------- scope over threads and contexts
thr, slot = st.integers(0, 2), st.integers(0, 2)
op = st.one_of(
    st.tuples(st.just('enter'), thr, st.sampled_from(['writer', 'buffer', 'file', 'file', 'excl'])),
    st.tuples(st.just('enter'), thr, st.sampled_from(['writer', 'buffer', 'file', 'file', 'excl'])),
    st.tuples(st.just('exit'), thr, st.booleans()),
    st.tuples(st.just('exch'), thr, slot), st.tuples(st.just('exch'), thr, slot), st.tuples(st.just('exch'), thr, slot),
    st.tuples(st.just('again'), thr, slot), st.tuples(st.just('conn'), thr, slot),
    st.tuples(st.just('start'), thr, slot), st.tuples(st.just('begin'), thr, slot), st.tuples(st.just('finish'), thr, slot))
EXPAND = {'exch': ('conn', 'begin', 'finish'), 'again': ('begin', 'finish'), 'start': ('conn', 'begin')}
simple = st.builds(lambda p, b, r, rd: {'conn': 0, 'm': 'GET', 'path': '/' + p, 'h': [], 'body': None, 'reads': rd,
                                        'resp': {'v': 'HTTP/1.1', 's': '200 OK', 'h': [], 'f': r, 'b': b, 'chunk': {'sizes': [7], 'up': False, 'z': 0, 'ext': b''}, 'pieces': [], 'c100': False, 'close': False}},
                   st.text(st.sampled_from('abc'), max_size=3), gen.payload_small, st.sampled_from(['cl', 'chunked', 'close', 'empty']), fakenet.reads)
scases = st.builds(lambda o, x, g: {'ops': o, 'xs': x, 'gzip': g}, st.lists(op, min_size=1, max_size=30), st.lists(simple, min_size=1, max_size=4), st.booleans())


class Stepper(object):
    """A thread that runs one function at a time on request."""
    def __init__(self):
        self.q, self.r = queue.Queue(), queue.Queue()
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def loop(self):
        while True:
            f = self.q.get()
            if f is None:
                return
            try:
                self.r.put((True, f()))
            except BaseException as e:
                self.r.put((False, e))

    def run(self, f, timeout=120):
        self.q.put(f)
        ok, v = self.r.get(timeout=timeout)
        if not ok:
            raise v
        return v

    def stop(self):
        self.q.put(None)
        self.t.join(30)


class Ctx(object):
    """one capture context and what it must hold"""
    def __init__(self, cm, get, before=b''):
        self.cm, self.get, self.before, self.want, self.busy, self.open, self.file = cm, get, before, [], False, True, False


@sub('C20', 'scope', scases, 9000,
     rule='histories of entering, leaving (also by an exception) and nesting captures, creating connections and making exchanges in steps on three threads; '
          'non-trivial: some exchange recorded and some not')
def scope(case, stats):
    from warcio.capture_http import capture_http
    with cli.scratch() as d:
        threads = [Stepper() for _ in range(3)]
        stacks = [[], [], []]
        every = []
        conns = [None] * 4        # (net, bound context)
        flying = [None] * 4
        recorded = unrecorded = 0
        labels = set()
        try:
            ops = [(w, t, a) for w0, t, a in case['ops'] for w in EXPAND.get(w0, (w0,))]
            for k, (what, t, a) in enumerate(ops):
                th = threads[t]
                if what == 'enter' and len(stacks[t]) < 3:
                    if a == 'writer':
                        w, get = wgen.open_writer({'gzip': case['gzip'], 'version': None, 'kind': 'stream'})
                        c = Ctx(capture_http(w), get)
                        eq(th.run(c.cm.__enter__) is w, True, 'the writer the context gives')
                    elif a == 'buffer':
                        c = Ctx(capture_http(gzip=case['gzip']), None)
                        c.get = th.run(c.cm.__enter__).get_contents
                    else:
                        name = os.path.join(d, 'f%d.warc' % (k % 2 if a == 'file' else 100 + k % 3))
                        exists = os.path.exists(name)
                        before = cli.read(name) if exists else b''
                        c = Ctx(capture_http(name, append=a == 'file', gzip=case['gzip']), lambda n=name: cli.read(n), before)
                        c.file = True
                        c.name = name
                        if any(o.file and o.name == name and o.open for o in every):
                            continue        # one capture to a file at a time
                        if a == 'excl' and exists:
                            try:
                                th.run(c.cm.__enter__)
                                fail('a capture with append off replaced or extended an existing file')
                            except FileExistsError:
                                eq(cli.read(name), before, 'existing file')
                            stats.label('append off, file exists')
                            continue
                        th.run(c.cm.__enter__)
                    stacks[t].append(c)
                    every.append(c)
                elif what == 'exit' and stacks[t]:
                    c = stacks[t].pop()
                    c.open = False
                    leaving = [KeyError('x'), KeyboardInterrupt(), SystemExit(1), GeneratorExit()][k % 4]

                    def leave():
                        if not a:
                            c.cm.__exit__(None, None, None)
                            return
                        e = leaving
                        try:
                            raise e
                        except BaseException:
                            swallowed = c.cm.__exit__(type(e), e, e.__traceback__)
                            if swallowed:
                                raise Violation('capture swallowed an exception')
                    try:
                        th.run(leave)
                    except BaseException as e:
                        if e is not leaving:
                            raise
                    stats.label('left by %s' % (type(leaving).__name__ if a else 'its end'))
                elif what == 'conn' and flying[a] is None:
                    c = stacks[t][-1] if stacks[t] else None
                    net = Net([{'https': False, 'host': 'h%d' % a, 'port': None, 'via': 'direct', 'ip': '127.0.0.1', 'pre': False}])
                    th.run(lambda: net.connection(0))
                    conns[a] = (net, c)
                elif what == 'begin' and conns[a] and flying[a] is None:
                    net, c = conns[a]
                    if c is not None and c.busy:
                        continue            # exchanges of one capture are made one after another
                    if c is not None:
                        c.busy = True
                    x = case['xs'][(k + a) % len(case['xs'])]
                    flying[a] = th.run(lambda: net.begin(x))
                elif what == 'finish' and flying[a] is not None:
                    net, c = conns[a]
                    state, flying[a] = flying[a], None
                    s = th.run(lambda: net.finish(state))
                    eq(s['got'], s['body'], 'body')
                    if c is not None:
                        c.busy = False
                        if len(stacks[t]) > 1:
                            labels.add('exchange in a nested capture')
                        if any(o is not c and o.want for o in every):
                            labels.add('several captures with records')
                        if any(not o.open for o in every):
                            labels.add('exchange after a capture ended')
                        if c.open:
                            c.want.append(s)
                            recorded += 1
                        elif not c.file:
                            c.want.append(('late', s))
                    else:
                        unrecorded += 1
                    stats.label('overlapping exchanges', any(f is not None for f in flying))
                for c in every:
                    if c.open and not c.busy:
                        verify(c, case['gzip'])
            for c in every:
                if not (c.file and any(o is not c and o.file and o.name == c.name and every.index(o) > every.index(c) for o in every)):
                    verify(c, case['gzip'])
        finally:
            for t, stack in enumerate(stacks):
                while stack:
                    c = stack.pop()
                    threads[t].run(lambda: c.cm.__exit__(None, None, None))
            for th in threads:
                th.stop()
        stats.nontrivial(recorded and unrecorded)
        for l in labels:
            stats.label(l)


def verify(c, gz):
    data = c.get()
    eq(data[:len(c.before)], c.before, 'what the file held before')
    rs = ref.parse_any(data[len(c.before):], gz)
    want = list(c.want)
    late = [w[1] for w in want if isinstance(w, tuple)]
    if late:
        # exchanges of a connection of an ended capture: recorded or not, nothing is demanded
        seen = [w for w in want if not isinstance(w, tuple)]
        it = iter([r.block for r in rs])
        for s in seen:
            req(s['wire'] in it and s['sent'] in it, 'exchange missing')
        req(len(rs) <= 2 * len(want), 'more records than exchanges')
        return
    check_records(rs, want, True, 'WARC/1.0')


# ---------------------------------------------------------------------------- truly concurrent captures
ccases = st.builds(lambda xs, own, sw: {'threads': xs, 'own': own, 'switch': sw},
                   st.lists(st.lists(fakenet.exchange, min_size=1, max_size=4), min_size=2, max_size=4), st.lists(st.booleans(), min_size=4, max_size=4), st.sampled_from([1e-6, 1e-5, 1e-4]))


@sub('C20', 'concurrent', ccases, 1500,
     rule='2-4 threads run exchanges at the same time, each in its own capture or in none; non-trivial: a captured and an uncaptured thread, or two captured')
def concurrent(case, stats):
    from warcio.capture_http import capture_http
    spec = [{'https': False, 'host': 'example.com', 'port': None, 'via': 'direct', 'ip': '127.0.0.1', 'pre': False}]
    res = [None] * len(case['threads'])
    outer, oget = wgen.open_writer({'gzip': False, 'version': None, 'kind': 'stream'})
    gate = threading.Barrier(len(case['threads']))

    def body(i):
        try:
            net = Net(spec)
            seen = []
            gate.wait(60)
            if case['own'][i]:
                with capture_http(gzip=False) as w:
                    for x in case['threads'][i]:
                        seen.append(net.do(dict(x, conn=0)))
                    data = w.get_contents()
            else:
                for x in case['threads'][i]:
                    seen.append(net.do(dict(x, conn=0)))
                data = None
            net.close()
            res[i] = ('ok', seen, data)
        except BaseException as e:
            import traceback
            res[i] = ('error', e, traceback.format_exc())
    old = sys.getswitchinterval()
    sys.setswitchinterval(case['switch'])
    try:
        with capture_http(outer):           # the main thread's capture sees none of it
            ts = [threading.Thread(target=body, args=(i,)) for i in range(len(case['threads']))]
            for t in ts:
                t.start()
            for t in ts:
                t.join(120)
    finally:
        sys.setswitchinterval(old)
    eq(oget(), b'', "capture of the main thread")
    for i, r in enumerate(res):
        if r is None:
            raise HarnessError('thread did not finish')
        if r[0] == 'error':
            if isinstance(r[1], (Violation, HarnessError)):
                raise r[1]
            raise Violation('thread %d: %s' % (i, r[2]))
        for k, s in enumerate(r[1]):
            eq(s['got'], s['body'], 'thread %d exchange %d body' % (i, k))
        if r[2] is not None:
            check_records(ref.parse_any(r[2], False), r[1], True, 'WARC/1.0', 'thread %d' % i)
    own = case['own'][:len(res)]
    stats.nontrivial(sum(own) > 0)
    stats.label('%d captured of %d threads' % (sum(own), len(own)))
