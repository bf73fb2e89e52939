import io, os, sys
from hypothesis import strategies as st
from vk import gen, ref, cli, core
from vk.core import sub, eq, req, fail
from vk.streams import Source

import fsspec
from fsspec.spec import AbstractFileSystem


class InFile(Source):
    """a remote file: delivers short reads"""
    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def readinto(self, b):
        x = self.read(len(b))
        b[:len(x)] = x
        return len(x)

    def writable(self):
        return False

    def flush(self):
        pass


class OutFile(io.BytesIO):
    def __init__(self, fs, path, old=b''):
        io.BytesIO.__init__(self)
        self.write(old)
        self.fs, self.path = fs, path

    def close(self):
        if not self.closed:
            self.fs.store[self.path] = self.getvalue()
        io.BytesIO.close(self)


class VkFS(AbstractFileSystem):
    """a remote filesystem of our own; keeps account of the files opened"""
    protocol = 'vk'
    cachable = False
    store, opened, sizes = {}, [], []

    def _open(self, path, mode='rb', **kw):
        path = self._strip_protocol(path).strip('/')
        if 'r' in mode:
            if path not in self.store:
                raise FileNotFoundError(path)
            f = InFile(self.store[path], self.sizes, True, True)
        else:
            f = OutFile(self, path, self.store.get(path, b'') if 'a' in mode else b'')
        self.opened.append((f, mode))
        return f

    def open(self, path, mode='rb', **kw):
        if 'b' not in mode:
            return io.TextIOWrapper(self.open(path, mode.replace('t', '') + 'b'), 'utf-8')
        return self._open(path, mode, **kw)


fsspec.register_implementation('vk', VkFS, clobber=True)


def reset(sizes):
    VkFS.store.clear()
    del VkFS.opened[:]
    VkFS.sizes[:] = sizes
    m = fsspec.filesystem('memory')
    m.store.clear()
    m.pseudo_dirs[:] = ['']


def put(kind, d, name, data):
    """-> the name under which a tool reaches the bytes"""
    if kind == 'path':
        return cli.write(os.path.join(d, name), data)
    if kind == 'file':
        return 'file://' + cli.write(os.path.join(d, name), data)
    if kind == 'memory':
        fsspec.filesystem('memory').pipe('/dir/' + name, data)
        return 'memory://dir/' + name
    VkFS.store['dir/' + name] = data
    return 'vk://dir/' + name


def target(kind, d, name):
    return {'path': os.path.join(d, name), 'file': 'file://' + os.path.join(d, name), 'memory': 'memory://dir/' + name, 'vk': 'vk://dir/' + name}[kind]


def get(kind, d, name):
    if kind in ('path', 'file'):
        p = os.path.join(d, name)
        return cli.read(p) if os.path.exists(p) else None
    if kind == 'memory':
        m = fsspec.filesystem('memory')
        return m.cat('/dir/' + name) if m.exists('/dir/' + name) else None
    return VkFS.store.get('dir/' + name)


def run(args, stdin=b''):
    with core.deterministic():
        try:
            rc, out, err = cli.run(args, stdin)
        except Exception as e:
            from vk.core import Violation
            if isinstance(e, Violation):
                raise
            return ('raised', type(e).__name__, str(e))
    return rc, out


REACH = ['file', 'memory', 'vk', 'vk']
arch = st.one_of(gen.archives(gen.records(pay=gen.payload_small), max_size=3), gen.archives(gen.records(pay=gen.payload), max_size=3), gen.arcs(max_size=2))
what = st.sampled_from(['ok'] * 6 + ['junk', 'empty', 'cut', 'whole', 'corrupt'])
FIELDS = ['offset', 'length', 'filename', 'warc-type', 'warc-target-uri', 'http:status', 'http:content-type', 'content-length']
cases = st.builds(lambda a, w, t, r, o, fl, v, k, s, n: {'archs': a, 'what': w, 'tool': t, 'reach': r, 'out': o, 'fields': fl, 'verbose': v, 'k': k, 'sizes': s, 'name': n},
                  st.lists(arch, min_size=1, max_size=2), what, st.sampled_from(['index', 'index', 'check', 'extract', 'recompress', 'recompress', 'stdin']), st.sampled_from(REACH),
                  st.sampled_from(['stdout', 'path', 'file', 'memory', 'vk', 'dash']), st.lists(st.sampled_from(FIELDS), min_size=1, max_size=4), st.booleans(), st.integers(0, 30),
                  st.one_of(st.just([]), st.just([1]), st.lists(st.integers(1, 5000), min_size=1, max_size=3)), st.sampled_from(['a.warc', 'a.warc.gz', 'b c.arc', '\xe9.warc', 'x', 'a#b.warc', 'a%41', 'a,b', 'a;b', '&', "'a'", '=', '~', '+', '@', 'a$HOME', '${PATH}', '{}', '%s', '!', '~root', '[a]', 'a[b]']))


def bytes_of(a, what):
    data, bs = (gen.assemble_arc if a.get('arc') else gen.assemble)(a)
    if what == 'junk':
        data, bs = b'no archive\n' + data, []
    elif what == 'empty':
        data, bs = b'', []
    elif what == 'cut':
        data = data[:len(data) * 2 // 3]
    elif what == 'whole':
        data = ref.gz(data)
    elif what == 'corrupt' and bs:
        k = bs[-1].offset + bs[-1].length - 3
        data = data[:k] + bytes([data[k] ^ 1]) + data[k + 1:]
    return data, bs


@sub('C27', 'tools', cases, 14000,
     rule='a tool run on the same bytes by path and by file://, memory:// or short-reading remote URL or stdin, output to stdout, path or URL; non-trivial: a record is in it')
def tools(case, stats):
    if case['what'] in ('cut', 'corrupt'):
        case = dict(case, sizes=[])     # how an unreadable file fails may depend on the reads
    reset(case['sizes'])
    tool, reach = case['tool'], case['reach']
    built = [bytes_of(a, case['what'] if i == 0 else 'ok') for i, a in enumerate(case['archs'])]
    if tool in ('extract', 'recompress', 'stdin'):
        built = built[:1]
    datas = [b[0] for b in built]
    names = ['%d%s' % (i, case['name']) for i in range(len(datas))]
    with cli.scratch() as d:
        local = [put('path', d, n, x) for n, x in zip(names, datas)]
        os.mkdir(os.path.join(d, 'r'))
        far = [put(reach, os.path.join(d, 'r'), n, x) for n, x in zip(names, datas)]
        if tool == 'stdin':
            fields = [f for f in case['fields'] if f != 'filename'] or ['offset']
            want = run(['index', '-f', ','.join(fields)] + local)
            src = Source(datas[0], case['sizes'], False, False)
            got = run(['index', '-f', ','.join(fields)] + (['-'] if case['verbose'] else []), src)
            req(not src.closed, 'standard input is closed')
            eq(got, want, 'index of standard input')
        elif tool == 'index':
            args = ['-f', ','.join(case['fields'])]
            want = run(['index'] + local + args)
            eq(run(['index'] + far + args), want, 'index of %s' % far)
            o = case['out']
            if o == 'dash':
                eq(run(['index'] + far + args + ['-o', '-']), want, 'index with output -')
            elif o != 'stdout':
                r = run(['index'] + far + args + ['-o', target(o, d, 'out.cdxj')])
                written = get(o, d, 'out.cdxj')
                if want[0] == 'raised':
                    eq(r, want, 'index with output to ' + o)
                else:
                    eq(r, (0, b''), 'index with output to ' + o)
                    eq(written, want[1], 'output file of index on ' + o)
        elif tool == 'check':
            v = ['-v'] if case['verbose'] else []
            want = run(['check'] + v + local)
            got = run(['check'] + v + far)
            if want[0] != 'raised':
                out = want[1].decode('utf-8', 'surrogateescape')
                for a, b in zip(local, far):
                    out = out.replace(a, b)
                want = (want[0], out.encode('utf-8', 'surrogateescape'))
            eq(got, want, 'check of %s' % far)
        elif tool == 'extract':
            bs = built[0][1]
            off = bs[case['k'] % len(bs)].offset if bs else 0
            for o in ([], ['--headers'], ['--payload']):
                eq(run(['extract'] + o + [far[0], str(off)]), run(['extract'] + o + [local[0], str(off)]), 'extract %s of %s' % (o, far[0]))
        else:
            v = ['-v'] if case['verbose'] else []
            o = case['out'] if case['out'] not in ('stdout', 'dash') else 'path'
            lo = os.path.join(d, 'lout.warc.gz')
            want = run(['recompress'] + v + [local[0], lo])
            to = target(o, os.path.join(d, 'r'), 'out.warc.gz')
            got = run(['recompress'] + v + [far[0], to])
            eq(get(o, os.path.join(d, 'r'), 'out.warc.gz') or b'', get('path', d, 'lout.warc.gz') or b'', 'recompress of %s to %s' % (far[0], to))
            if v and want[0]:
                got, want = got[0], want[0]     # a traceback names lines and files
            else:
                want = (want[0], want[1].replace(lo.encode(), to.encode()).replace(local[0].encode(), far[0].encode()))
            eq(got, want, 'exit status and messages of recompress of %s to %s' % (far[0], to))
        eq([cli.read(p) for p in local], datas, 'the input files')
        for f, mode in VkFS.opened:
            req(f.closed, 'a remote file opened for %s is not closed', mode)
    stats.nontrivial(any(b[1] for b in built))
    stats.label('%s by %s' % (tool, 'stdin' if tool == 'stdin' else reach))
    stats.label('output to ' + case['out'], tool in ('index', 'recompress'))
    stats.label('input ' + case['what'])


# ---------------------------------------------------------------------------- the API
acases = st.builds(lambda a, t, s, fl, o: {'a': a, 'tool': t, 'sizes': s, 'fields': fl, 'o': o}, arch, st.sampled_from(['path', 'obj', 'source', 'none', 'dash']), st.one_of(st.just([]), st.just([1]), st.just([100, 7])),
                   st.lists(st.sampled_from([f for f in FIELDS if f != 'filename']), min_size=1, max_size=4), st.sampled_from(['obj', 'none', 'dash', 'path']))


@sub('C27', 'objects', acases, 6000, rule='the indexer given open files, sources, - or nothing as input and output; non-trivial: a record is in it')
def objects(case, stats):
    from warcio.indexer import Indexer
    reset(case['sizes'])
    data, bs = bytes_of(case['a'], 'ok')
    with cli.scratch() as d:
        p = cli.write(os.path.join(d, 'x.warc'), data)
        rc, want = run(['index', '-f', ','.join(case['fields']), p])
        t, o = case['tool'], case['o']
        inp = {'path': p, 'obj': open(p, 'rb'), 'source': Source(data, case['sizes'], False, False), 'none': None, 'dash': '-'}[t]
        buf = io.StringIO()
        op = os.path.join(d, 'o')
        std = Source(data, case['sizes'], False, False)
        old = sys.stdin
        sys.stdin = cli.StdIn(std)
        try:
            with core.Quiet() as q:
                Indexer(case['fields'], [inp], {'obj': buf, 'none': None, 'dash': '-', 'path': op}[o]).process_all()
                stdout = q.stdout()
                req(not sys.stdout.closed, 'stdout is closed')
        finally:
            sys.stdin = old
        req(not std.closed, 'stdin is closed')
        if t in ('obj', 'source'):
            req(not inp.closed, 'the open input is closed')
            inp.close()
        if o == 'obj':
            req(not buf.closed, 'the open output is closed')
        got = {'obj': lambda: buf.getvalue().encode('utf-8'), 'none': lambda: stdout, 'dash': lambda: stdout, 'path': lambda: cli.read(op)}[o]()
        eq(got, want, 'index of %s to %s' % (t, o))
        if o in ('obj', 'path'):
            eq(stdout, b'', 'standard output')
    stats.nontrivial(bool(bs))
    stats.label('%s to %s' % (t, o))


# ---------------------------------------------------------------------------- fsspec_open
ocases = st.builds(lambda f, n, m, e, old, w, s: {'fn': f, 'name': n, 'mode': m, 'raise': e, 'old': old, 'write': w, 'sizes': s}, st.sampled_from(['fsspec_open', 'open_or_default']),
                   st.sampled_from(['-', b'-', None, '', 'obj', 'path', 'file', 'memory', 'vk']), st.sampled_from(['rb', 'wb', 'ab', 'xb', 'rt', 'wt', 'at']), st.sampled_from([None, None, 'value', 'key', 'exit']),
                   st.one_of(st.none(), st.binary(max_size=30), st.just(b'abc\ndef\n')), st.binary(max_size=30), st.just([]))


@sub('C27', 'open', ocases, 6000, rule='fsspec_open and open_or_default with every kind of name, mode and way to leave the block; non-trivial: a file or URL is opened')
def open_(case, stats):
    from warcio import utils
    fn = getattr(utils, case['fn'])
    reset([])
    name, mode = case['name'], case['mode']
    exc = {None: None, 'value': ValueError('x'), 'key': KeyboardInterrupt(), 'exit': SystemExit(3)}[case['raise']]
    text = 't' in mode
    new = case['write'].decode('latin-1').encode('ascii', 'replace') if text else case['write']
    if text:
        new = new.replace(b'\r', b'')
    default = io.BytesIO(b'default')
    with cli.scratch() as d:
        if name in ('path', 'file', 'memory', 'vk'):
            if name == 'memory' and 'x' in mode and case['old'] is not None:
                stats.exclude('memory:// has no exclusive mode')
                return
            if name in ('vk', 'memory') and 'x' in mode:
                mode = 'wb'
            old = case['old']
            if text and old is not None:
                old = old.decode('latin-1').encode('ascii', 'replace').replace(b'\r', b'')
            if old is not None:
                put(name, d, 'f', old)
            arg = target(name, d, 'f')
            f = None
            exp = FileNotFoundError if 'r' in mode and old is None else FileExistsError if 'x' in mode and old is not None else None
            try:
                with fn(arg, mode, default) as f:
                    req(f is not default, 'the default stream is given for %r', arg)
                    if 'r' in mode:
                        x = f.read()
                        eq(x, old.decode('ascii') if text else old, 'contents read through mode ' + mode)
                    else:
                        f.write(new.decode('ascii') if text else new)
                    if exc:
                        raise exc
                req(exc is None, 'the exception raised in the block is swallowed')
            except (ValueError, KeyboardInterrupt, SystemExit) as e:
                if e is not exc:
                    raise
            except OSError as e:
                req(exp and isinstance(e, exp), 'opening %r with mode %s raises %r', arg, mode, e)
                if exp is FileExistsError:
                    eq(get(name, d, 'f'), old, 'file that exists already after mode x')
                return
            req(exp is None, 'opening %s with mode %s (exists: %s) raises nothing', arg, mode, old is not None)
            req(f.closed or name == 'memory', 'the file opened is not closed')     # memory:// files never are
            for g, m in VkFS.opened:
                req(g.closed, 'the remote file opened is not closed')
            if 'r' not in mode:
                eq(get(name, d, 'f'), (old or b'' if 'a' in mode else b'') + new, 'contents after writing with mode ' + mode)
            else:
                eq(get(name, d, 'f'), old, 'contents after reading')
            stats.nontrivial()
            stats.label('%s %s' % (name, mode))
            stats.label('left by an exception', exc is not None)
            return
        obj = io.BytesIO(b'obj')
        arg = obj if name == 'obj' else name
        want = obj if name == 'obj' else default
        try:
            with fn(arg, mode, default) as f:
                req(f is want, '%r gives %r', name, f)
                if exc:
                    raise exc
            req(exc is None, 'the exception raised in the block is swallowed')
        except (ValueError, KeyboardInterrupt, SystemExit) as e:
            if e is not exc:
                raise
        req(not default.closed and not obj.closed, 'a stream that was given is closed')
        req(not os.listdir(d), 'a file is created')


# ---------------------------------------------------------------------------- text files
tcases = st.builds(lambda n, e, er, nl, t, m, u: {'name': n, 'encoding': e, 'errors': er, 'newline': nl, 'text': t, 'mode': m, 'buffering': u}, st.sampled_from(['path', 'path', 'file', 'memory']),
                   st.sampled_from(['utf-8', 'utf-16', 'latin-1', 'ascii']), st.sampled_from([None, 'replace', 'ignore', 'strict']), st.sampled_from([None, '', '\n', '\r\n']),
                   st.text(st.sampled_from('ab\n\r\xe9\u6f22 '), max_size=12), st.sampled_from(['wt', 'rt', 'at', 'w', 'r']), st.sampled_from([None, 4096]))


@sub('C27', 'text', tcases, 1500, rule='fsspec_open in text mode with an encoding and ways to treat errors and line ends, against the builtin open; non-trivial: text that is not ASCII or has line ends')
def text(case, stats):
    from warcio.utils import fsspec_open
    if case['mode'] == 'at' and case['encoding'] == 'utf-16':
        stats.exclude('whether a byte order mark is written in the middle is up to the file system')
        return
    reset([])
    name = 'path' if core.BARE else case['name']
    kw = {k: case[k] for k in ('encoding', 'errors', 'newline') if case[k] is not None}
    if case['buffering'] and name == 'path' and core.BARE:
        kw['buffering'] = case['buffering']

    def use(open_, arg):
        try:
            with open_(arg) as f:
                if 'r' in case['mode']:
                    return f.read()
                f.write(case['text'])
        except UnicodeError as e:
            return type(e).__name__
    with cli.scratch() as d:
        old = case['text'].encode('utf-8') if case['mode'] != 'at' else b'abc\n'
        put(name, d, 'f', old)
        p = cli.write(os.path.join(d, 'g'), old)
        want = use(lambda a: open(a, case['mode'], **kw), p)
        got = use(lambda a: fsspec_open(a, case['mode'], **kw), target(name, d, 'f'))
        eq(got, want, 'text read, or the error')
        if want is None or 'r' in case['mode']:
            eq(get(name, d, 'f'), cli.read(p), 'contents of the file')
    stats.nontrivial(not case['text'].isascii() or '\n' in case['text'] or '\r' in case['text'])
    stats.label('%s %s' % (name, case['mode']))
