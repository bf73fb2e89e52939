import io
from hypothesis import strategies as st
from vk import gen, ref
from vk.core import sub, eq, req, fail

BASE = ['Content-Type', 'Set-Cookie', 'X-A', 'X-B', 'Content-Length', 'Content-Range', 'Accept-Ranges']


def cased(n, k):
    return [n, n.lower(), n.upper(), n.swapcase(), n.title()][k % 5]


name = st.one_of(st.builds(cased, st.sampled_from(BASE), st.integers(0, 4)), st.builds(cased, st.sampled_from(['a', 'b', 'x-a-', '\xc9t\xe9', 'no-such']), st.integers(0, 4)))
value = st.one_of(gen.ascii_value, st.sampled_from(['', '', '0', 'v', 'text/html', '\xe9\u6f22']))
pairs = st.lists(st.tuples(name, value), max_size=5)
opn = st.one_of(
    st.tuples(st.sampled_from(['get_header', 'get', 'item', 'in']), name),
    st.tuples(st.sampled_from(['get_header', 'get']), name, st.sampled_from(['D', '', None, 0])),
    st.tuples(st.just('add'), name, value),
    st.tuples(st.sampled_from(['replace', 'set']), name, value),
    st.tuples(st.sampled_from(['remove', 'del']), name),
    st.tuples(st.just('range'), st.integers(0, 10**12), st.integers(1, 10**9), st.one_of(st.integers(0, 10**12), st.just('*'))),
    st.tuples(st.just('validate'), st.sampled_from(['204 No Content', '200 OK'])),
    st.tuples(st.just('status'), st.sampled_from(['200 OK', '0 x', '-5 x', 'OK', '', '404', 'abc 200', '999 a b', '12a z', ' 200', '1'])),
    st.tuples(st.just('code')), st.tuples(st.just('str')), st.tuples(st.just('bytes')), st.tuples(st.just('bool')),
    st.tuples(st.just('filter'), st.sampled_from(['drop', 'upper', 'none', 'x'])),
    st.tuples(st.just('eq'), st.sampled_from(['same', 'order', 'case', 'status', 'proto', 'less', 'none', 'value'])),
    st.tuples(st.just('buffer')), st.tuples(st.just('ascii')), st.tuples(st.just('edit'), st.sampled_from(['append', 'pop', 'value', 'new']), name, value))
cases = st.builds(lambda h, how, b, s, p, o: {'h': h, 'how': how, 'bytes': b, 'status': s, 'proto': p, 'ops': o},
                  pairs, st.sampled_from(['list', 'list', 'tuple', 'dict', 'gen', 'lists', 'items']), st.sampled_from(['no', 'no', 'n', 'v', 'both']),
                  st.sampled_from(['200 OK', '', '404 Not Found', 'GET x', '0']), st.sampled_from(['HTTP/1.1', 'WARC/1.0', '']),
                  st.lists(opn, max_size=25))


class Model(object):
    def __init__(self, pairs):
        self.l = [tuple(p) for p in pairs]

    def find(self, n, last=False):
        ks = [k for k, (a, _) in enumerate(self.l) if a.lower() == n.lower()]
        return None if not ks else ks[-1] if last else ks[0]

    def text(self, status, proto, flt=None):
        first = (proto + ' ' + status if proto and status else proto or status)
        out = first + '\r\n' if first else ''
        for h in self.l:
            h = flt(h) if flt else h
            if h:
                out += h[0] + ': ' + h[1] + '\r\n'
        return out


@sub('C12', 'model', cases, 20000,
     rule='sequences of up to 25 operations against a list model; non-trivial: >= 4 operations and two headers whose names are equal ignoring case')
def model(case, stats):
    from warcio.statusandheaders import StatusAndHeaders
    ps = [tuple(p) for p in case['h']]
    if case['how'] in ('dict', 'items'):
        ps = list(dict(ps).items())
    if case['bytes'] != 'no':
        try:
            [(a.encode('latin-1'), b.encode('latin-1')) for a, b in ps]
        except UnicodeEncodeError:
            ps = [(a, b) for a, b in ps if a.isascii() and b.isascii()]
    e = lambda x, on: x.encode('latin-1') if on else x
    src = [(e(a, case['bytes'] in ('n', 'both')), e(b, case['bytes'] in ('v', 'both'))) for a, b in ps]
    given = {'list': list, 'tuple': tuple, 'dict': dict, 'gen': lambda x: (t for t in x), 'lists': lambda x: [list(t) for t in x], 'items': lambda x: dict(x).items()}[case['how']](src)
    keep = list(given) if case['how'] == 'list' else None
    h = StatusAndHeaders(case['status'], given, protocol=case['proto'])
    m = Model(ps)
    status, proto = case['status'], case['proto']
    eq(h.headers, m.l, 'headers after construction')
    dup = False
    for j, o in enumerate(case['ops']):
        k, what = o[0], 'operation %d %r' % (j, o)
        dup = dup or len(set(a.lower() for a, _ in m.l)) < len(m.l)
        if k in ('get_header', 'get'):
            i = m.find(o[1])
            want = m.l[i][1] if i is not None else (o[2] if len(o) > 2 else None)
            eq(getattr(h, k)(*o[1:]), want, what)
        elif k == 'item':
            i = m.find(o[1])
            eq(h[o[1]], m.l[i][1] if i is not None else None, what)
        elif k == 'in':
            eq(o[1] in h, m.find(o[1]) is not None, what)
        elif k == 'add':
            h.add_header(o[1], o[2])
            m.l.append((o[1], o[2]))
        elif k in ('replace', 'set'):
            i = m.find(o[1], last=True)
            old = None
            if i is None:
                m.l.append((o[1], o[2]))
            else:
                old = m.l[i][1]
                m.l[i] = (m.l[i][0], o[2])
            if k == 'set':
                h[o[1]] = o[2]
            else:
                eq(h.replace_header(o[1], o[2]), old, what)
        elif k in ('remove', 'del'):
            i = m.find(o[1], last=True)
            if i is not None:
                del m.l[i]
            if k == 'del':
                del h[o[1]]
            else:
                eq(h.remove_header(o[1]), i is not None, what)
        elif k == 'range':
            s, n, t = o[1:]
            r = h.add_range(s, n, t)
            req(r is h, what + ' does not return the collection')
            status = '206 Partial Content'
            for nm, v in (('Content-Range', 'bytes %d-%d/%s' % (s, s + n - 1, t)), ('Content-Length', str(n)), ('Accept-Ranges', 'bytes')):
                i = m.find(nm, last=True)
                if i is None:
                    m.l.append((nm, v))
                else:
                    m.l[i] = (m.l[i][0], v)
        elif k == 'status':
            h.statusline = status = o[1]
        elif k == 'validate':
            code = status.split(' ')[0]
            ok = code.isdigit() and int(code) > 0
            eq(h.validate_statusline(o[1]), ok, what + ' for status line %r' % status)
            if not ok:
                status = o[1]
        elif k == 'code':
            eq(h.get_statuscode(), status.split(' ')[0], what)
        elif k == 'str':
            eq(h.to_str(), m.text(status, proto), what)
            eq(str(h), m.text(status, proto), what)
        elif k == 'bytes':
            eq(h.to_bytes(), m.text(status, proto).encode('utf-8') + b'\r\n', what)
        elif k == 'buffer':
            if m.text(status, proto).isascii():
                h.compute_headers_buffer()
                eq(h.headers_buff, m.text(status, proto).encode('ascii') + b'\r\n', what)
        elif k == 'ascii':
            # percent-encodes in place what is not ASCII (which form it takes is C13's)
            before = h.to_ascii_bytes()
            eq([n for n, v in h.headers], [n for n, v in m.l], 'header names after ' + what)
            eq([v for (n, v), (_, o1) in zip(h.headers, m.l) if o1.isascii()], [v for n, v in m.l if v.isascii()], 'ASCII values after ' + what)
            if not m.text(status, proto).isascii():
                req(all(v.isascii() for n, v in h.headers), 'values after %s: %r', what, h.headers)
            m.l = [tuple(x) for x in h.headers]
            if m.text(status, proto).isascii():
                eq(before, m.text(status, proto).encode('ascii') + b'\r\n', what)
            eq(h.to_ascii_bytes(), before, what + ' again')
        elif k == 'edit':
            # the list is public
            if o[1] == 'append':
                h.headers.append((o[2], o[3]))
                m.l.append((o[2], o[3]))
            elif o[1] == 'pop' and m.l:
                h.headers.pop(0)
                m.l.pop(0)
            elif o[1] == 'value' and m.l:
                h.headers[-1] = m.l[-1] = (m.l[-1][0], o[3])
            elif o[1] == 'new':
                h.headers = [(o[2], o[3])] + list(h.headers[1:])
                m.l = [(o[2], o[3])] + m.l[1:]
        elif k == 'bool':
            eq(bool(h), bool(status or m.l), what)
        elif k == 'filter':
            f = {'drop': lambda x: None if x[0].lower() == 'x-a' else x, 'upper': lambda x: (x[0].upper(), x[1] + '!'), 'none': lambda x: None,
                 'x': lambda x: x if x[0].startswith('X') else (x[0], '')}[o[1]]
            eq(h.to_str(f), m.text(status, proto, f), what)
        elif k == 'eq':
            hs, s2, p2, want = list(m.l), status, proto, True
            if o[1] == 'order' and len(hs) > 1 and hs[0] != hs[1]:
                hs[0], hs[1] = hs[1], hs[0]
                want = False
            elif o[1] == 'case' and hs and hs[0][0].swapcase() != hs[0][0]:
                hs[0] = (hs[0][0].swapcase(), hs[0][1])
                want = False
            elif o[1] == 'value' and hs:
                hs[-1] = (hs[-1][0], hs[-1][1] + '.')
                want = False
            elif o[1] == 'status':
                s2 += '.'
                want = False
            elif o[1] == 'proto':
                p2 += '.'
                want = False
            elif o[1] == 'less' and hs:
                hs.pop()
                want = False
            other = StatusAndHeaders(s2, hs, protocol=p2)
            if o[1] == 'none':
                other, want = None, False
            eq(h == other, want, what)
            eq(h != other, not want, what + ' (!=)')
        eq(h.headers, m.l, 'headers after ' + what)
        eq(h.statusline, status, 'status line after ' + what)
        eq(h.protocol, proto, 'protocol after ' + what)
    if keep is not None:
        eq(given, keep, 'the list given to the constructor')
    stats.nontrivial(len(case['ops']) >= 4 and dup)
    for a in set(o[0] for o in case['ops']):
        stats.label(a)


@sub('C12', 'request', st.builds(lambda v, r, h: {'v': v, 'r': r, 'h': h}, st.sampled_from(['GET', 'POST', 'X-Y']), st.sampled_from(['/ HTTP/1.1', '/a b HTTP/1.0', '*', 'http://x/ HTTP/1.1']), pairs), 1500,
     rule='request headers built from a full request line; non-trivial: some header')
def request(case, stats):
    from warcio.statusandheaders import StatusAndHeaders
    from warcio.utils import headers_to_str_headers
    hs = [tuple(x) for x in case['h']]
    h = StatusAndHeaders(case['v'] + ' ' + case['r'], hs, is_http_request=True)
    eq((h.protocol, h.statusline, h.headers), (case['v'], case['r'], hs), 'request line split')
    eq(h.to_str(), Model(hs).text(case['r'], case['v']), 'serialised')
    hs1 = [(a, b) for a, b in hs if all(ord(c) < 256 for c in a + b)]
    bb = [(a.encode('latin-1'), b.encode('latin-1')) for a, b in hs1]
    eq(list(headers_to_str_headers(bb)), hs1, 'headers_to_str_headers(bytes)')
    eq(list(headers_to_str_headers(dict(bb))), list(dict(hs1).items()), 'headers_to_str_headers(mapping of bytes)')
    eq(list(headers_to_str_headers(hs)), hs, 'headers_to_str_headers(text)')
    stats.nontrivial(bool(hs))
