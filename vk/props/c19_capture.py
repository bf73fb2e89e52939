import array, io, shutil
from hypothesis import strategies as st
from vk import gen, ref, wgen, fakenet
from vk.core import sub, eq, req, fail
from vk.fakenet import Net

cases = st.builds(lambda c, x, w, ip, wk: {'conns': c, 'xs': x, 'w': w, 'ip': ip, 'given': wk},
                  st.lists(fakenet.connection, min_size=1, max_size=3), st.lists(fakenet.exchange, min_size=1, max_size=5),
                  wgen.writer_opts, st.booleans(), st.booleans())


def check_records(rs, seen, record_ip, version, what='capture'):
    eq(len(rs), 2 * len(seen), what + ': number of records')
    ids = set()
    for k, s in enumerate(seen):
        resp, rq = rs[2 * k], rs[2 * k + 1]
        w = '%s exchange %d' % (what, k)
        eq((resp.type, rq.type), ('response', 'request'), w + ' types')
        eq(resp.block, s['wire'], w + ' response block')
        eq(rq.block, s['sent'], w + ' request block')
        for r, ct in ((resp, 'response'), (rq, 'request')):
            eq(r.version, version, w + ' version')
            eq(r.all('WARC-Target-URI'), [s['url']], w + ' %s URI' % ct)
            eq(r.all('Content-Type'), ['application/http; msgtype=' + ct], w + ' content type')
            eq(r.all('WARC-IP-Address'), [s['ip']] if record_ip else [], w + ' %s IP address' % ct)
            eq(r.all('WARC-Proxy-Host'), [s['proxy']] if s['proxy'] else [], w + ' %s proxy' % ct)
            eq(r.all('WARC-Block-Digest'), [ref.b32(r.block)], w + ' block digest')
            body = r.block[r.block.index(b'\r\n\r\n') + 4:]
            eq(r.all('WARC-Payload-Digest'), [ref.b32(body)], w + ' payload digest')
            ids.add(r.get('WARC-Record-ID'))
        eq(rq.all('WARC-Date'), resp.all('WARC-Date'), w + ' dates')
        eq(rq.all('WARC-Concurrent-To'), resp.all('WARC-Record-ID'), w + ' reference to the response')
        eq(resp.all('WARC-Concurrent-To'), [], w + ' response reference')
    eq(len(ids), len(rs), what + ' distinct record ids')


@sub('C19', 'exchanges', cases, 10000,
     rule='1-5 exchanges over 1-3 connections (http/https, direct, http proxy or CONNECT tunnel, IPv6, reused or new) with any request body form, response framing, segmentation '
          'and client reads; non-trivial: two exchanges or a response read in pieces')
def exchanges(case, stats):
    net = Net(case['conns'])
    from warcio.capture_http import capture_http
    seen = []
    if case['given']:
        w, get = wgen.open_writer(case['w'])
        cm = capture_http(w, record_ip=case['ip'])
    else:
        kw = {'gzip': case['w']['gzip']}
        if case['w']['version'] is not None:
            kw['warc_version'] = case['w']['version']
        cm = capture_http(record_ip=case['ip'], **kw)
    try:
        with cm as writer:
            if not case['given']:
                get = writer.get_contents
            for k, x in enumerate(case['xs']):
                s = net.do(x)
                eq(s['got'], s['body'], 'body the client read in exchange %d' % k)
                seen.append(s)
                check_records(ref.parse_any(get(), case['w']['gzip']), seen, case['ip'], wgen.version_of(case['w']))
    finally:
        net.close()
    stats.nontrivial(len(seen) > 1 or any(len(x['reads']) > 1 for x in case['xs']))
    n = len(case['conns'])
    vias = [case['conns'][x['conn'] % n]['via'] for x in case['xs']]
    for v in set(vias):
        stats.label('via ' + v)
    stats.label('mixed direct and proxied', len(set(vias)) > 1)
    stats.label('connection reused', len(set(x['conn'] % n for x in case['xs'])) < len(case['xs']))
    for x in case['xs']:
        stats.label('framing ' + x['resp']['f'])
        stats.label('request body ' + (x['body'][0] if x['body'] else 'none'))


# ---------------------------------------------------------------------------- the requests library over real sockets
rx = st.builds(lambda sch, px, s, m, p, h, b, r, rd, enc: {'scheme': sch, 'proxy': px, 'sess': s, 'm': m, 'path': p, 'h': h, 'body': b, 'resp': r, 'read': rd, 'enc': enc},
               st.sampled_from(['http', 'http', 'http', 'https']), st.sampled_from([False, False, False, True]), st.integers(0, 1),
               st.sampled_from(['GET', 'GET', 'POST', 'PUT', 'HEAD', 'DELETE', 'PROPFIND']),
               st.sampled_from(['', 'x/', 'caf%C3%A9/', 'a;b=c/', '%20/']), fakenet.http_heads,
               st.one_of(st.none(), st.builds(lambda p: ('bytes', p), gen.payload), st.builds(lambda l: ('iter', l), st.lists(st.binary(min_size=1, max_size=20), max_size=4)),
                         st.builds(lambda p: ('file', p), gen.payload), st.just(('form', None))),
               fakenet.response, st.sampled_from(['content', 'iter', 'lines', 'raw', 'rawstream', 'redirect']), st.sampled_from([None, None, 'gzip', 'deflate']))
rcases = st.builds(lambda x, w, ip: {'xs': x, 'w': w, 'ip': ip}, st.lists(rx, min_size=1, max_size=4), wgen.writer_opts, st.booleans())


@sub('C19', 'requests', rcases, 1500,
     rule='1-4 exchanges made by the requests library over real loopback sockets (TLS, http proxy, CONNECT proxy, redirects, gzip bodies, streaming reads); non-trivial: any')
def with_requests(case, stats):
    from vk import realnet
    from warcio.capture_http import capture_http
    import requests, urllib3
    urllib3.disable_warnings()
    srv = realnet.server()
    w, get = wgen.open_writer(case['w'])
    script, want = {}, []
    sessions = {}
    with capture_http(w, record_ip=case['ip']):
        for k, x in enumerate(case['xs']):
            r = dict(x['resp'], c100=False)
            # headers that make requests do something else than one exchange
            r['h'] = [h for h in r['h'] if h[0].lower() not in ('location', 'set-cookie', 'cookie')]
            body = gen.expand(r['b'])
            if x['enc'] and r['f'] != 'empty':
                r['b'] = ref.encode(body, x['enc'])
                r['h'] = r['h'] + [('Content-Encoding', x['enc'])]
            red = x['read'] == 'redirect' and x['m'] == 'GET'
            wire, raw, close = fakenet.response_bytes(r, x['m'] == 'HEAD')
            key = 'k%d' % k
            script[key] = (wire, r['pieces'], close)
            base = '%s://%s:%d/%s' % (x['scheme'], '127.0.0.1', srv.port, x['path'])
            urls = [base + key]
            if red:
                rwire = ref.http_bytes('HTTP/1.1 302 Found', [('Location', base + key), ('Content-Length', '3')]) + b'abc'
                script[key + 'r'] = (rwire, [], False)
                urls = [base + key + 'r', base + key]
            srv.set(script)
            s = sessions.setdefault((x['sess'], x['proxy']), requests.Session())
            s.trust_env = False
            kw = {'headers': dict((n, v) for n, v in x['h'] if n.lower() not in ('cookie',)), 'verify': False, 'timeout': 60}
            if x['proxy']:
                kw['proxies'] = {'http': 'http://127.0.0.1:%d' % srv.port, 'https': 'http://127.0.0.1:%d' % srv.port}
            if x['body']:
                t = x['body'][0]
                kw['data'] = gen.expand(x['body'][1]) if t == 'bytes' else iter(x['body'][1]) if t == 'iter' else \
                    io.BytesIO(gen.expand(x['body'][1])) if t == 'file' else {'a': 'b c', 'd': u'\xe9'}
            mode = x['read']
            res = s.request(x['m'], urls[0], stream=mode not in ('content', 'redirect'), **kw)
            plain = b'' if not raw else body
            if mode == 'iter':
                got = b''.join(res.iter_content(7))
            elif mode == 'lines':
                list(res.iter_lines(5))
                got = plain
            elif mode == 'raw':
                got = b''
                while True:
                    d = res.raw.read(13)
                    if not d:
                        break
                    got += d
                plain = raw
            elif mode == 'rawstream':
                got = b''.join(res.raw.stream(11, decode_content=True))
            else:
                got = res.content
            if mode != 'raw' or r['f'] != 'chunked':
                eq(got, plain, 'content of exchange %d' % k)
            res.close()
            with srv.lock:
                log = list(srv.log)
            eq([l[0] for l in log], [u.rsplit('/', 1)[1] for u in urls], 'requests the server saw')
            proxy = None if not x['proxy'] else '%s://127.0.0.1:%d' % (x['scheme'], srv.port)
            for u, (kk, sent) in zip(urls, log):
                want.append({'wire': script[kk][0], 'sent': sent, 'url': u, 'ip': '127.0.0.1', 'proxy': proxy})
            check_records(ref.parse_any(get(), case['w']['gzip']), want, case['ip'], wgen.version_of(case['w']), 'requests')
            stats.label('%s%s' % (x['scheme'], ' proxied' if x['proxy'] else ''))
            stats.label('read ' + mode)
    for s in sessions.values():
        s.close()
    stats.nontrivial()


# ---------------------------------------------------------------------------- other clients over real sockets
cx = st.builds(lambda cl, sch, px, m, p, h, b, r, rd, sz, red: {'client': cl, 'scheme': sch, 'proxy': px, 'm': m, 'path': p, 'h': h, 'body': b, 'resp': r, 'read': rd, 'size': sz, 'redirect': red},
               st.sampled_from(['urllib', 'urllib3', 'http.client']), st.sampled_from(['http', 'http', 'http', 'https']), st.sampled_from([False, False, False, True]),
               st.sampled_from(['GET', 'GET', 'POST', 'PUT', 'HEAD', 'DELETE', 'PROPFIND']),
               st.sampled_from(['', 'x/', 'caf%C3%A9/', 'a;b=c/', '%20/']), fakenet.http_heads,
               st.one_of(st.none(), st.builds(lambda p: ('bytes', p), gen.payload), st.builds(lambda l: ('iter', l), st.lists(st.binary(min_size=1, max_size=20), max_size=4)),
                         st.builds(lambda p: ('file', p), gen.payload), st.builds(lambda p: ('array', p), gen.payload_small)),
               fakenet.response, st.sampled_from(['all', 'read', 'lines', 'for', 'readinto', 'read1', 'text', 'copy', 'preload', 'stream']), st.integers(1, 40), st.booleans())
ccases = st.builds(lambda x, w, ip: {'xs': x, 'w': w, 'ip': ip}, st.lists(cx, min_size=1, max_size=4), wgen.writer_opts, st.booleans())


def drain(f, how, n):
    """read the response f to its end in the way called how"""
    if how == 'read':
        return b''.join(iter(lambda: f.read(n), b''))
    if how == 'lines':
        return b''.join(iter(lambda: f.readline(), b''))
    if how == 'for':
        return b''.join(f)
    if how == 'readinto':
        got, b = b'', bytearray(n)
        while True:
            k = f.readinto(b)
            if not k:
                return got
            got += bytes(b[:k])
    if how == 'read1':
        return b''.join(iter(lambda: f.read1(n), b''))
    if how == 'text':
        return io.TextIOWrapper(f, 'latin-1', newline='').read().encode('latin-1')
    if how == 'copy':
        out = io.BytesIO()
        shutil.copyfileobj(f, out, n)
        return out.getvalue()
    return f.read()


@sub('C19', 'clients', ccases, 2000,
     rule='1-4 exchanges made by urllib.request, urllib3 and http.client over real loopback sockets (proxies, TLS, redirects, any body form, any way of reading); non-trivial: any')
def with_clients(case, stats):
    from vk import realnet
    from warcio.capture_http import capture_http
    import http.client, urllib.request, urllib.error, urllib3
    urllib3.disable_warnings()
    srv = realnet.server()
    w, get = wgen.open_writer(case['w'])
    script, want, pools = {}, [], {}
    with capture_http(w, record_ip=case['ip']):
        for k, x in enumerate(case['xs']):
            r = dict(x['resp'], c100=False)
            r['h'] = [h for h in r['h'] if h[0].lower() != 'location']
            client = x['client']
            # https of urllib.request and http.client derives from the class that is replaced
            scheme = x['scheme'] if client == 'urllib3' else 'http'
            wire, body, close = fakenet.response_bytes(r, x['m'] == 'HEAD')
            key = 'k%d' % k
            script[key] = (wire, r['pieces'], close)
            base = '%s://127.0.0.1:%d/%s' % (scheme, srv.port, x['path'])
            urls = [base + key]
            if x['redirect'] and x['m'] == 'GET' and client != 'http.client':
                script[key + 'r'] = (ref.http_bytes('HTTP/1.1 302 Found', [('Location', base + key), ('Content-Length', '3')]) + b'abc', [], False)
                urls.insert(0, base + key + 'r')
            srv.set(script)
            hs = dict(x['h'])
            data, t = None, x['body'] and x['body'][0]
            if t == 'bytes':
                data = gen.expand(x['body'][1])
            elif t == 'iter':
                data = iter(x['body'][1])
            elif t == 'file':
                data = io.BytesIO(gen.expand(x['body'][1]))
            elif t == 'array':
                data = array.array('B', gen.expand(x['body'][1]))
            if data is not None and len(urls) > 1:
                data = t = None                                # a body is not sent a second time
            paddr = 'http://127.0.0.1:%d' % srv.port
            how = x['read']
            if client == 'urllib':
                opener = urllib.request.build_opener(urllib.request.ProxyHandler({'http': paddr} if x['proxy'] else {}))
                rq = urllib.request.Request(urls[0], data=data, headers=hs, method=x['m'])
                try:
                    res = opener.open(rq, timeout=60)
                except urllib.error.HTTPError as e:
                    res = e
                got = drain(res if how != 'text' or hasattr(res, 'readinto') else res.fp, how, x['size'])
                res.close()
            elif client == 'urllib3':
                pool = pools.get(x['proxy'])
                if pool is None:
                    kw = {'cert_reqs': 'CERT_NONE', 'timeout': 60}
                    pool = pools[x['proxy']] = urllib3.ProxyManager(paddr, **kw) if x['proxy'] else urllib3.PoolManager(**kw)
                res = pool.urlopen(x['m'], urls[0], body=data, headers=hs, preload_content=how == 'preload', chunked=t == 'iter', redirect=len(urls) > 1,
                                   retries=urllib3.Retry(3) if len(urls) > 1 else False)
                if how == 'preload':
                    got = res.data
                elif how == 'stream':
                    got = b''.join(res.stream(x['size']))
                elif how == 'lines' or how == 'for':
                    got = b''.join(res)
                elif how == 'all':
                    got = res.read()
                else:
                    got = b''.join(iter(lambda: res.read(x['size']), b'')) if r['f'] != 'chunked' else b''.join(res.stream(x['size']))
                res.release_conn()
            else:
                c = http.client.HTTPConnection('127.0.0.1', srv.port, timeout=60)
                c.request(x['m'], urls[0] if x['proxy'] else '/' + x['path'] + key, data, hs, encode_chunked=False) if t != 'iter' else \
                    c.request(x['m'], urls[0] if x['proxy'] else '/' + x['path'] + key, data, dict(hs, **{'Transfer-Encoding': 'chunked'}), encode_chunked=True)
                res = c.getresponse()
                got = drain(res, how, x['size'])
                res.close()
                c.close()
            eq(got, body, 'content of exchange %d' % k)
            with srv.lock:
                log = list(srv.log)
            eq([l[0] for l in log], [u.rsplit('/', 1)[1] for u in urls], 'requests the server saw')
            # a proxy on the address of the server itself is not told apart from it
            proxy = '%s://127.0.0.1:%d' % (scheme, srv.port) if x['proxy'] else None
            for u, (kk, sent) in zip(urls, log):
                want.append({'wire': script[kk][0], 'sent': sent, 'url': u, 'ip': '127.0.0.1', 'proxy': proxy})
            check_records(ref.parse_any(get(), case['w']['gzip']), want, case['ip'], wgen.version_of(case['w']), 'clients')
            stats.label('%s %s%s' % (client, scheme, ' proxied' if x['proxy'] else ''))
            stats.label('read ' + how)
            stats.label('redirected', len(urls) > 1)
    for p in pools.values():
        p.clear()
    stats.nontrivial()


# ---------------------------------------------------------------------------- overlapping and abandoned exchanges
ov = st.one_of(st.tuples(st.just('b'), st.integers(0, 2)), st.tuples(st.just('b'), st.integers(0, 2)), st.tuples(st.just('f'), st.integers(0, 2)), st.tuples(st.just('f'), st.integers(0, 2)),
               st.tuples(st.just('drop'), st.integers(0, 2)), st.tuples(st.just('forget'), st.integers(0, 2)))
ocases = st.builds(lambda c, x, o, w: {'conns': c, 'xs': x, 'ops': o, 'w': w}, st.lists(fakenet.connection, min_size=3, max_size=3),
                   st.lists(fakenet.exchange, min_size=1, max_size=4), st.lists(ov, min_size=2, max_size=14), wgen.writer_opts)


@sub('C19', 'overlap', ocases, 4000,
     rule='exchanges begun, finished, closed early or forgotten in any order over three connections; non-trivial: two exchanges overlap')
def overlap(case, stats):
    from warcio.capture_http import capture_http
    w, get = wgen.open_writer(case['w'])
    net = Net(case['conns'])
    flying, seen, kept = {}, [], []
    partial = {}
    try:
        with capture_http(w):
            for k, (o, i) in enumerate(case['ops']):
                if o == 'b' and i not in flying:
                    flying[i] = net.begin(dict(case['xs'][k % len(case['xs'])], conn=i))
                    stats.nontrivial(len(flying) > 1)
                elif o == 'f' and i in flying:
                    s = net.finish(flying.pop(i))
                    eq(s['got'], s['body'], 'body the client read')
                    seen.append(s)
                elif o in ('drop', 'forget') and i in flying:
                    state = flying.pop(i)
                    n = len(ref.parse_any(get(), case['w']['gzip']))
                    if o == 'drop':
                        state[4].close()
                        rs = ref.parse_any(get(), case['w']['gzip'])
                        if len(rs) > n:
                            eq(len(rs), n + 2, 'records of an exchange that was closed early')
                            req(state[5].startswith(rs[n].block), 'response closed early: block is not a prefix of what was sent')
                            seen.append({'early': True})
                    else:
                        kept.append(state)          # stays unread and open
                    net.conns[i].close()
                    net.conns[i] = None
                    stats.label(o)
                rs = ref.parse_any(get(), case['w']['gzip'])
                full = [r for m, s in enumerate(seen) if 'early' not in s for r in rs[2 * m:2 * m + 2]]
                if len(rs) == 2 * len(seen):
                    check_records(full, [s for s in seen if 'early' not in s], True, wgen.version_of(case['w']), 'overlap')
                elif o == 'forget':
                    # closing its connection may have ended it
                    eq(len(rs), 2 * len(seen) + 2, 'number of records')
                    seen.append({'early': True})
                else:
                    eq(len(rs), 2 * len(seen), 'number of records')
    finally:
        net.close()
