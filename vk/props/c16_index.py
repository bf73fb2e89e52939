import io, json, os
from hypothesis import strategies as st
from vk import gen, ref, cli
from vk.core import sub, eq, req, fail
from vk.props.c14_arc import iso

FIELDS = ['offset', 'length', 'filename', 'warc-type', 'WARC-Type', 'warc-target-uri', 'WARC-Target-URI', 'warc-record-id', 'warc-date', 'content-type',
          'content-length', 'http:status', 'http:content-type', 'http:Set-Cookie', 'http:server', 'http:content-encoding', 'x-extra', 'warc-filename', 'warc-ip-address',
          'WARC-Concurrent-To', 'warc-payload-digest', 'no-such-field', 'http:no-such', 'warc-segment-number', 'http:']
field = st.one_of(st.sampled_from(FIELDS), st.sampled_from(FIELDS), gen.token.filter(lambda t: ',' not in t and not t.startswith('-')))
arch = st.one_of(gen.archives(gen.records(heads=gen.uni_http_headers), max_size=4), gen.archives(gen.records(heads=gen.uni_http_headers, http_only=True), min_size=2, max_size=4), gen.arcs(max_size=3))
fname = st.sampled_from(['a.warc', 'a.warc.gz', 'b c.arc', 'x', 'd/e.warc.gz', 'd/\xe9.warc', 'd/d/f', 'a?b=c.warc', 'a#b.warc', 'd/%41.warc', '-x', 'a,b', ' a ', 'a\\b', '~', 'a.warc?x=/y.gz', 'd/.warc', 'a;b', "'a'", 'a:b', '&', 'a\tb', '$HOME', 'a${PATH}', '%PATH%', '{}', '[a]', '!'])
cases = st.builds(lambda fs, fl, how, o: {'files': fs, 'fields': fl, 'how': how, 'out': o}, st.lists(st.tuples(fname, arch), min_size=1, max_size=3),
                  st.one_of(st.none(), st.lists(field, min_size=1, max_size=7), st.lists(field, min_size=3, max_size=7)), st.sampled_from(['cli', 'cli', 'api', 'apistr', 'map']), st.booleans())


def first(pairs, name):
    for n, v in pairs:
        if n.lower() == name.lower():
            return v
    return None


def want_entry(b, arc, fields, path):
    out = []
    for f in fields:
        if f in [k for k, _ in out]:
            continue
        if f == 'offset':
            v = str(b.offset)
        elif f == 'length':
            v = str(b.length)
        elif f == 'filename':
            v = os.path.basename(path)
        elif f == 'http:status':
            v = b.http[1].split(' ')[0] if b.http and (arc or b.type in ('response', 'revisit')) else None
        elif f.startswith('http:'):
            v = first(b.http[2], f[5:]) if b.http else None
        elif arc:
            head = b.kind == 'arc_header'
            m = {'warc-type': 'warcinfo' if head else 'response', 'warc-date': iso(b.date), 'warc-ip-address': b.ip, 'content-length': str(b.length_field),
                 'content-type': b.ctype if head else 'application/http;msgtype=response', 'warc-record-id': ANYID}
            if head:
                m['warc-filename'] = b.url[len('filedesc://'):]
            else:
                m['warc-target-uri'] = b.url.replace(' ', '%20')
            v = m.get(f.lower())
        else:
            v = first(b.headers, f)
        if v is not None:
            out.append((f, v))
    return out


class AnyId(object):
    def __eq__(self, o):
        return isinstance(o, str) and o.startswith('<urn:uuid:') and o.endswith('>')

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return '<a record id>'


ANYID = AnyId()


@sub('C16', 'index', cases, 5000,
     rule='1-3 generated archives (WARC/ARC, plain/gzip), any field list, CLI or API; non-trivial: >= 2 records and both record and http fields asked for')
def index(case, stats):
    from warcio.indexer import Indexer
    fields = case['fields'] or ['offset', 'warc-type', 'warc-target-uri']
    with cli.scratch() as d:
        paths, want = [], []
        for k, (n, a) in enumerate(case['files']):
            data, bs = (gen.assemble_arc if a.get('arc') else gen.assemble)(a)
            p = os.path.join(d, str(k), n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            cli.write(p, data)
            paths.append(p)
            want += [want_entry(b, bool(a.get('arc')), fields, p) for b in bs]
        outp = os.path.join(d, 'out.cdxj')
        how = case['how']
        if how == 'cli':
            args = ['index'] + paths + (['-f', ','.join(fields)] if case['fields'] else [])
            rc, out, err = cli.run(args + (['-o', outp] if case['out'] else []))
            eq(rc, 0, 'exit status')
            if case['out']:
                eq(out, b'', 'standard output with -o')
                out = cli.read(outp)
            text = out.decode('utf-8')
        else:
            f = io.StringIO()

            class Renamed(Indexer):
                field_names = {'offset': 'OFF', 'warc-target-uri': 'url', 'http:status': 'status'}
            (Renamed if how == 'map' else Indexer)(','.join(fields) if how == 'apistr' else fields, paths, outp if case['out'] else f).process_all()
            text = cli.read(outp).decode('utf-8') if case['out'] else f.getvalue()
            if how == 'map':
                ren = Renamed.field_names
                want = [list({ren.get(k, k): v for k, v in e}.items()) for e in want]
    lines = text.split('\n')
    eq(lines.pop(), '', 'the output ends in a newline')
    eq(len(lines), len(want), 'number of lines')
    for k, (l, w) in enumerate(zip(lines, want)):
        got = json.loads(l, object_pairs_hook=list)
        got = [tuple(x) for x in got]
        if got != w:
            fail('line %d: got %r, want %r', k, got, w)
    stats.nontrivial(len(want) >= 2 and any(f.startswith('http:') for f in fields) and any(not f.startswith('http:') for f in fields))
    stats.label(how)
    stats.label('files', len(paths))
