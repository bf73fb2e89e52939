"""A scripted network for http.client: fake sockets that remember what was sent on them and
deliver the scripted responses in pieces of chosen sizes."""
import io, socket
import warcio.capture_http                      # patches http.client; must come first
import http.client
from hypothesis import strategies as st

from vk import gen, ref
from vk.core import Violation, HarnessError
from vk.gen import expand

HTTPConnection = http.client.HTTPConnection


class HTTPSConnection(HTTPConnection):
    """as urllib3's https connections: derived from the patched class, port 443"""
    default_port = 443


class FakeSock(object):
    def __init__(self, peer):
        self.peer, self.sent, self.rx, self.eof, self.sizes, self.k = peer, [], bytearray(), False, [], 0
        self.tunnel, self.connects, self.timeout, self._io, self._closed = False, [], None, 0, False
        self.connect_resp = b'HTTP/1.1 200 OK\r\n\r\n'

    # http.client's side
    def sendall(self, data):
        if isinstance(data, str):
            raise TypeError('a bytes-like object is required')
        data = bytes(memoryview(data))
        if self.tunnel and not self.connects:
            self.connects.append(data)
            self.rx += self.connect_resp
        else:
            self.sent.append(data)

    def recv_into(self, buf, nbytes=0, flags=0):
        n = min(len(buf), len(self.rx))
        if not n:
            if not self.eof:
                raise Violation('client would block: it reads more than the whole response')
            return 0
        if self.sizes and self.k < 600:
            n = min(n, self.sizes[self.k % len(self.sizes)])
            self.k += 1
        buf[:n] = self.rx[:n]
        del self.rx[:n]
        return n

    def makefile(self, mode='rb', buffering=-1):
        self._io += 1
        return io.BufferedReader(socket.SocketIO(self, 'r'), 8192)

    def _decref_socketios(self):
        self._io -= 1

    def getpeername(self):
        return (self.peer, 12345)

    def setsockopt(self, *a):
        pass

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def fileno(self):
        return 7

    def close(self):
        self._closed = True


# ---------------------------------------------------------------------------- exchanges
_body_text = st.text(st.sampled_from('abc é&=\n'), max_size=12)
req_body = st.one_of(
    st.just(None), st.just(None), st.just(None), st.builds(lambda p: ('bytes', p), gen.payload), st.builds(lambda s: ('str', s), _body_text),
    st.builds(lambda p, s: ('file', p, s), gen.payload, st.sampled_from([[], [1], [3, 10]])),
    st.builds(lambda l: ('iter', l), st.lists(st.binary(min_size=1, max_size=20), max_size=4)),
    st.builds(lambda l: ('iterlen', l), st.lists(st.binary(min_size=1, max_size=20), max_size=4)),
    st.builds(lambda l: ('sends', l), st.lists(st.binary(min_size=1, max_size=20), max_size=4)),
    st.builds(lambda l: ('sendlist', l), st.lists(st.binary(min_size=1, max_size=20), min_size=1, max_size=3)),
    st.builds(lambda p: ('sendfile', p), gen.payload), st.builds(lambda p: ('array', p), gen.payload_small))
_hname = gen.token.filter(lambda n: n.lower() not in ('host', 'content-length', 'transfer-encoding', 'connection', 'expect', 'accept-encoding', 'content-encoding', 'keep-alive'))
http_heads = st.lists(st.tuples(st.one_of(st.sampled_from(['Content-Type', 'Set-Cookie', 'Server', 'X-A', 'x-a', 'Cookie', 'Location']), _hname),
                                gen.ascii_value), max_size=4)
path = st.builds(lambda a, q: '/' + a + q, st.text(st.sampled_from("abcXY09-._~!$&'()*+,;=:@%/"), max_size=12),
                 st.sampled_from(['', '', '?', '?a=b&c', '?u=http://x/y', '?CONNECT:1']))
method = st.sampled_from(['GET', 'GET', 'GET', 'POST', 'PUT', 'HEAD', 'DELETE', 'OPTIONS', 'PATCH', 'TRACE', 'PROPFIND', 'QUERY', 'get'])
response = st.builds(
    lambda v, s, h, f, b, sz, tr, c100, ka: {'v': v, 's': s, 'h': h, 'f': f, 'b': b, 'chunk': sz, 'pieces': tr, 'c100': c100, 'close': ka},
    st.sampled_from(['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0']), st.sampled_from(['200 OK', '200 OK', '404 Not Found', '204 No Content', '304 Not Modified', '500 A  b', '301 x', '206 P']),
    http_heads, st.sampled_from(['cl', 'cl', 'cl', 'chunked', 'chunked', 'close', 'empty']), gen.payload,
    st.builds(lambda sizes, up, z, ext: {'sizes': sizes, 'up': up, 'z': z, 'ext': ext}, st.lists(st.integers(1, 40), max_size=3),
              st.booleans(), st.integers(0, 2), st.sampled_from([b'', b'', b';a=b'])),
    st.sampled_from([[], [], [1], [2, 7], [40], [1000, 1]]), st.sampled_from([False] * 9 + [True]), st.sampled_from([False, False, False, True]))
read_op = st.one_of(st.tuples(st.just('r'), st.integers(0, 60)), st.tuples(st.just('r'), st.integers(1, 20000)), st.just(('R', 0)),
                    st.tuples(st.just('l'), st.integers(1, 30)), st.just(('L', 0)), st.tuples(st.just('i'), st.integers(1, 70)),
                    st.tuples(st.just('1'), st.integers(1, 70)), st.just(('1', -1)), st.tuples(st.just('p'), st.integers(1, 9)), st.just(('it', 0)),
                    st.tuples(st.just('m'), st.integers(0, 9)), st.just(('m', 0)))
reads = st.one_of(st.just([]), st.lists(read_op, max_size=6), st.just([('wrap', 0)]), st.just([('text', 0)]), st.just([('m', 0), ('wrap', 0)]))
exchange = st.builds(lambda c, m, p, h, b, r, rd: {'conn': c, 'm': m, 'path': p, 'h': h, 'body': b, 'resp': r, 'reads': rd},
                     st.integers(0, 2), method, path, http_heads, req_body, response, reads)
connection = st.builds(lambda https, host, port, via, ip, pre: {'https': https, 'host': host, 'port': port, 'via': via, 'ip': ip, 'pre': pre},
                       st.booleans(), st.sampled_from(['example.com', 'a.b', 'xn--e1afmkfd.x', '10.1.2.3', 'EXAMPLE.com', '::1']),
                       st.sampled_from([None, None, 80, 443, 8080]), st.sampled_from(['direct', 'direct', 'http', 'tunnel']),
                       st.sampled_from(['127.0.0.1', '192.0.2.7', '2001:db8::5']), st.booleans())


def response_bytes(r, head):
    """-> (wire bytes, body the client must see, server closes)"""
    body = expand(r['b'])
    hs = [tuple(x) for x in r['h']]
    f, close = r['f'], r['close']
    nobody = head or r['s'][:3] in ('204', '304')
    if f == 'chunked' and (r['v'] == 'HTTP/1.0' or r['s'][:3] in ('204', '304')):
        f = 'cl'
    if f == 'empty':
        body = b''
        f = 'cl'
    if r['s'][:3] == '204':
        body = b''
    if f == 'cl':
        hs.append(('Content-Length', str(len(body))))
        wire = body
    elif f == 'chunked':
        hs.append(('Transfer-Encoding', 'chunked'))
        t = r['chunk']
        wire = ref.chunk(body, t['sizes'], t['up'], t['z'], t['ext'])
    else:
        wire, close = body, True
        if r['v'] == 'HTTP/1.1':
            hs.append(('Connection', 'close'))
    if close and f != 'close':
        hs.append(('Connection', 'close'))
    elif r['v'] == 'HTTP/1.0' and f != 'close':
        close = True
    if nobody:
        wire = body = b''
    pre = b'HTTP/1.1 100 Continue\r\n\r\n' if r['c100'] else b''
    return pre + ref.http_bytes(r['v'] + ' ' + r['s'], hs) + wire, body, close


def bracket(host):
    return '[%s]' % host if ':' in host else host


class Net(object):
    """Connections of one client and the exchanges made over them."""
    def __init__(self, conns):
        self.specs, self.conns, self.socks = conns, [None] * len(conns), [None] * len(conns)

    def connection(self, i):
        i %= len(self.specs)
        c = self.specs[i]
        if self.conns[i] is None:
            cls = HTTPSConnection if c['https'] else HTTPConnection
            if c['via'] == 'direct':
                conn = cls(bracket(c['host']), c['port'])
            elif c['via'] == 'http':
                conn = cls('proxy.example', 3128)
            else:
                conn = cls('proxy.example', 3128)
                conn.set_tunnel(bracket(c['host']), c['port'])

            def create(addr, timeout=None, source=None):
                self.socks[i] = FakeSock(c['ip'])
                self.socks[i].tunnel = c['via'] == 'tunnel'
                return self.socks[i]
            conn._create_connection = create
            self.conns[i] = conn
            if c['pre']:
                conn.connect()
        return i, c, self.conns[i]

    @staticmethod
    def url(c, path):
        default = 443 if c['https'] else 80
        port = c['port'] or default
        host = bracket(c['host'])
        return ('https' if c['https'] else 'http') + '://' + host + ('' if port == default else ':%d' % port) + path

    def do(self, x):
        """-> dict describing what both sides saw"""
        return self.finish(self.begin(x))

    def begin(self, x, fault=None):
        """send the request and read the response's head"""
        i, c, conn = self.connection(x['conn'])
        m = x['m']
        absolute = self.url(c, x['path'])
        target = absolute if c['via'] == 'http' else x['path']
        hs = [tuple(h) for h in x['h']]
        self._n = len(self.socks[i].sent) if self.socks[i] else 0
        before = self.socks[i]
        b = x['body']
        if b is None:
            conn.putrequest(m, target)
            for n, v in hs:
                conn.putheader(n, v)
            conn.endheaders()
        elif b[0] in ('sends', 'sendlist', 'sendfile'):
            data = b''.join(b[1]) if b[0] != 'sendfile' else expand(b[1])
            conn.putrequest(m, target)
            for n, v in hs:
                conn.putheader(n, v)
            conn.putheader('Content-Length', str(len(data)))
            conn.endheaders()
            if b[0] == 'sends':
                for part in b[1]:
                    conn.send(part)
            elif b[0] == 'sendlist':
                conn.send(list(b[1]))
            else:
                conn.send(io.BytesIO(data))
        else:
            kw = {}
            hd = dict(hs)
            if b[0] == 'bytes':
                body = expand(b[1])
            elif b[0] == 'str':
                body = b[1]
            elif b[0] == 'array':
                import array
                body = array.array('B', expand(b[1]))
            elif b[0] == 'file':
                from vk.streams import Source
                body = Source(expand(b[1]), b[2])
                hd['Content-Length'] = str(len(expand(b[1])))
            elif b[0] == 'iter':
                body = iter(b[1])
                kw['encode_chunked'] = False
            else:
                body = iter(b[1])
                hd['Content-Length'] = str(sum(map(len, b[1])))
            conn.request(m, target, body=body, headers=hd)
        sock = self.socks[i]
        start = self._n if sock is before else 0
        wire, body, close = response_bytes(x['resp'], m == 'HEAD')
        if sock.rx:
            raise HarnessError('unread bytes of an earlier response')
        if fault:
            close = True
            wire = fault[1] if fault[0] == 'raw' else wire[:fault[1] % (len(wire) + 1)]
        sock.rx += wire
        sock.eof = close
        sock.sizes, sock.k = x['resp']['pieces'], 0
        resp = conn.getresponse()
        return i, c, sock, start, resp, wire, body, absolute, dict(x, fault=fault)

    def finish(self, state):
        """read the response to its end"""
        i, c, sock, start, resp, wire, body, absolute, x = state
        log = [(resp.status, resp.reason, resp.version, tuple(resp.getheaders()), resp.isclosed(), resp.will_close, resp.length, resp.isclosed() or resp.fileno())]
        got = bytearray()
        for op, n in x['reads']:
            if op == 'wrap':
                f = io.BufferedReader(resp)
                lines = list(f)
                log.append(('wrap', lines))
                got += b''.join(lines)
            elif op == 'text':
                f = io.TextIOWrapper(resp, 'latin-1', newline='')
                t = f.read()
                log.append(('text', t))
                got += t.encode('latin-1')
            elif op == 'it':
                lines = list(resp)
                log.append(('it', lines))
                got += b''.join(lines)
            elif op == 'm':
                # what else clients ask of a response; none of it reads
                try:
                    v = [lambda: resp.flush(), lambda: resp.isclosed() or type(resp.fileno()), lambda: resp.readable(), lambda: resp.getheader('Content-Type', '-'), lambda: list(resp.headers.items()),
                         lambda: resp.isclosed(), lambda: resp.length, lambda: resp.seekable(), lambda: resp.getcode(), lambda: resp.writable()][n % 10]()
                except Exception as e:
                    v = type(e).__name__
                log.append(('m', n % 10, v))
            elif op == 'p' and len(got) >= len(body):
                pass                # http.client would wait for more
            elif op == 'p':
                p = resp.peek(n)
                log.append(('p', bool(p)))
                if not x['fault'] and body[len(got):len(got) + len(p)] != p:
                    raise Violation('peek returned %r where the body continues with %r' % (p[:60], body[len(got):len(got) + 60]))
            elif op == 'i':
                buf = bytearray(n)
                k = resp.readinto(buf)
                log.append(('i', k, bytes(buf[:k])))
                got += buf[:k]
            else:
                d = resp.read(n) if op == 'r' else resp.read() if op == 'R' else resp.readline(n) if op == 'l' else \
                    resp.readline() if op == 'L' else resp.read1(n)
                log.append((op, d))
                got += d
        if not any(op in ('wrap', 'text') for op, n in x['reads']):
            d = resp.read()
            log.append(('end', d))
            got += d
            log.append(('after', resp.read(), resp.isclosed()))
            resp.close()
        log.append(resp.closed)
        spec = {'wire': wire, 'body': body, 'got': bytes(got), 'log': log, 'sent': b''.join(sock.sent[start:]), 'url': absolute,
                'ip': c['ip'], 'proxy': None if c['via'] == 'direct' else 'http://proxy.example:3128' if c['via'] == 'http' else 'https://proxy.example:3128',
                'connects': list(sock.connects)}
        if sock.rx and not x['fault']:
            raise Violation('client left %d bytes of the response unread' % len(sock.rx))
        return spec

    def close(self):
        for c in self.conns:
            if c is not None:
                c.close()
