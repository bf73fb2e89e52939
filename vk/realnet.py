"""A real loopback server (plain, TLS, HTTP proxy, CONNECT proxy) that plays scripted responses."""
import os, socket, ssl, threading
import warcio.capture_http                      # before requests
from vk.core import VERIF

PEM = os.path.join(VERIF, 'vk', 'test-tls.pem')


class Server(object):
    def __init__(self):
        self.sock = socket.socket()
        self.sock.bind(('127.0.0.1', 0))
        self.sock.listen(50)
        self.port = self.sock.getsockname()[1]
        self.ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        self.ctx.load_cert_chain(PEM)
        self.scripts, self.log, self.connects, self.lock = {}, [], 0, threading.Lock()
        t = threading.Thread(target=self.accept, daemon=True)
        t.start()

    def set(self, script):
        """script: {request path: [(wire, pieces, close)]} or list"""
        with self.lock:
            self.scripts, self.log = script, []

    def accept(self):
        while True:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    @staticmethod
    def read_request(f):
        head = b''
        while True:
            line = f.readline()
            if not line:
                return None
            head += line
            if line == b'\r\n':
                break
        low = head.lower()
        body = b''
        if b'\r\ntransfer-encoding: chunked' in low:
            while True:
                line = f.readline()
                body += line
                n = int(line.split(b';')[0], 16)
                d = f.read(n + 2)
                body += d
                if n == 0:
                    break
        elif b'\r\ncontent-length:' in low:
            n = int(low.split(b'\r\ncontent-length:')[1].split(b'\r\n')[0])
            body = f.read(n)
        return head, body

    def serve(self, c):
        try:
            c.settimeout(60)
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            first = c.recv(1, socket.MSG_PEEK)
            if first == b'\x16':
                c = self.ctx.wrap_socket(c, server_side=True)
            f = c.makefile('rb')
            while True:
                r = self.read_request(f)
                if r is None:
                    break
                head, body = r
                if head.startswith(b'CONNECT '):
                    self.connects += 1
                    c.sendall(b'HTTP/1.1 200 OK\r\n\r\n')
                    f.detach()
                    c = self.ctx.wrap_socket(c, server_side=True)
                    f = c.makefile('rb')
                    continue
                key = head.split(b' ', 2)[1].rsplit(b'/', 1)[1].split(b'?')[0].decode()
                with self.lock:
                    wire, pieces, close = self.scripts[key]
                    self.log.append((key, head + body))
                pos = k = 0
                while pos < len(wire):
                    n = pieces[k % len(pieces)] if pieces and k < 60 else len(wire)
                    c.sendall(wire[pos:pos + n])
                    pos += n
                    k += 1
                if close:
                    break
        except (OSError, ssl.SSLError, ValueError):
            pass
        finally:
            try:
                c.close()
            except OSError:
                pass


_server = {}


def server():
    pid = os.getpid()
    if pid not in _server:
        _server[pid] = Server()
    return _server[pid]
