"""Registry, case execution and statistics shared by all property modules."""
import os, sys, io, itertools, signal, hashlib, ast, traceback, resource, errno, contextlib

REPO = os.environ.get('VK_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, REPO)
# hypothesis, sortedcontainers (and atheris for the thorough tier) live in the tool venv
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

# a default installation: without the optional packages
BARE = bool(os.environ.get('VK_BARE'))
if BARE:
    sys.modules.update({'fsspec': None, 'brotli': None})
    import warcio.bufferedreaders, warcio.utils, warcio.cli, warcio.indexer, warcio.checker, warcio.extractor, warcio.recompressor    # noqa: E402,E401
    del sys.modules['fsspec'], sys.modules['brotli']

import warcio                                   # noqa: E402
if not os.path.realpath(warcio.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit('warcio imported from %s, not from %s' % (warcio.__file__, REPO))


class Violation(AssertionError):
    """The oracle disagrees with the code under test."""


class HarnessError(Exception):
    """The check itself went wrong; never reported as a violation."""


class CpuHang(BaseException):
    pass


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def short(x, n=400):
    r = repr(x)
    return r if len(r) <= n else r[:n // 2] + ' ... ' + r[-n // 2:] + ' (len %d)' % len(r)


def eq(got, want, what):
    if got != want or type(got) is not type(want):
        if isinstance(got, bytes) and isinstance(want, bytes):
            k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            raise Violation('%s: differ at byte %d (got %d bytes, want %d): got ...%s want ...%s' % (
                what, k, len(got), len(want), short(got[max(0, k - 20):k + 60]), short(want[max(0, k - 20):k + 60])))
        raise Violation('%s: got %s, want %s' % (what, short(got), short(want)))


def req(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


# ---------------------------------------------------------------------------- registry
SUBS = {}      # property -> [Sub]
KNOWN = {}     # property -> {finding id: function returning a description while the finding persists}


class Sub(object):
    def __init__(self, prop, name, strategy, fn, quick, thorough, rule, isolate):
        self.prop, self.name, self.strategy, self.fn = prop, name, strategy, fn
        self.quick, self.thorough, self.rule, self.isolate = quick, thorough, rule, isolate


# multiplies the counts given with the sub-checks, so that a quick run takes about 30 s on 8 cores
QUICK_SCALE = {'C01': 3, 'C02': 3, 'C03': 2.5, 'C04': 2.5, 'C05': 3, 'C06': 2, 'C07': 1.5, 'C08': 3.5, 'C09': 4, 'C10': 2, 'C11': 3.5, 'C12': 3, 'C13': 5, 'C14': 2, 'C15': 2.5,
               'C16': 2.5, 'C17': 2.5, 'C18': 2.5, 'C21': 0.7, 'C23': 2, 'C24': 1.7, 'C25': 3, 'C26': 3, 'C27': 0.6, 'C28': 3, 'C29': 2}


def sub(prop, name, strategy, quick, thorough=None, rule='', isolate=False):
    """Register a sub-check: fn(case, stats); `case` is a plain Python literal."""
    def deco(fn):
        SUBS.setdefault(prop, []).append(
            Sub(prop, name, strategy, fn, int(quick * QUICK_SCALE.get(prop, 1)), thorough or quick * 20 * max(1, QUICK_SCALE.get(prop, 1)), rule, isolate))
        return fn
    return deco


def known(prop, finding):
    def deco(fn):
        KNOWN.setdefault(prop, {})[finding] = fn
        return fn
    return deco


# ---------------------------------------------------------------------------- statistics
class Stats(object):
    def __init__(self):
        self.evaluations = 0
        self.labels = {}
        self.distinct = set()
        self.samples = []
        self.excluded = {}
        self._nt = False

    def label(self, name, cond=True):
        if cond:
            self.labels[name] = self.labels.get(name, 0) + 1

    def nontrivial(self, cond=True):
        if cond:
            self._nt = True

    def exclude(self, why):
        self.excluded[why] = self.excluded.get(why, 0) + 1

    def begin(self):
        self._nt = False
        self.evaluations += 1

    def end(self, case):
        if self._nt:
            r = repr(case)
            self.distinct.add(hashlib.blake2b(r.encode('utf-8', 'backslashreplace'), digest_size=8).digest())
            if len(self.samples) < 3 and (self.evaluations % 7 == 3) and len(r) < 1500:
                self.samples.append(r)
            elif not self.samples and len(r) < 3000:
                self.samples.append(r)


# ---------------------------------------------------------------------------- running a case
CASE_CPU_SECONDS = 40
_real_urandom = os.urandom


@contextlib.contextmanager
def deterministic():
    """Record ids are the only random bytes the library makes: draw them from a counter."""
    n = itertools.count(1)          # next() is atomic, threads draw from it too

    def fake(size):
        return hashlib.shake_128(b'id%d' % next(n)).digest(size)
    os.urandom = fake               # uuid.uuid4 looks it up each time
    try:
        yield
    finally:
        os.urandom = _real_urandom


def _on_cpu(signum, frame):
    raise CpuHang()


class Quiet(object):
    """Captures sys.stdout/sys.stderr (the library writes diagnostics there)."""
    def __enter__(self):
        self.old = sys.stdout, sys.stderr
        self.out = io.TextIOWrapper(io.BytesIO(), 'utf-8', errors='backslashreplace', write_through=True)
        self.err = io.StringIO()
        sys.stdout, sys.stderr = self.out, self.err
        return self

    def stdout(self):
        self.out.flush()
        return self.out.buffer.getvalue()

    def stderr(self):
        return self.err.getvalue()

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.old


def run_case(s, case, stats):
    """Run one case; raises Violation, HarnessError, or returns."""
    stats.begin()
    old = signal.signal(signal.SIGPROF, _on_cpu)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS)
    try:
        with deterministic(), Quiet():
            s.fn(case, stats)
    except Violation:
        raise
    except HarnessError:
        raise
    except CpuHang:
        raise Violation('does not terminate: more than %d s of CPU time on one small case' % CASE_CPU_SECONDS)
    except (KeyboardInterrupt, SystemExit) as e:
        raise Violation('unexpected %s\n%s' % (type(e).__name__, traceback.format_exc()))
    except OSError as e:
        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM):
            raise HarnessError('environment: %r' % e)
        raise Violation('unexpected %r\n%s' % (e, traceback.format_exc()))
    except Exception as e:
        raise Violation('unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    stats.end(case)


def limit_memory(gb=4):
    resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))


# ---------------------------------------------------------------------------- replay files
def save_case(path, prop, subname, case, message):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write('# property=%s sub=%s\n' % (prop, subname))
        for line in (message or '').split('\n'):
            f.write('# ' + line.encode('ascii', 'backslashreplace').decode() + '\n')
        f.write(ascii(case) + '\n')


def load_case(path):
    with open(path) as f:
        lines = f.read().split('\n')
    head = dict(kv.split('=', 1) for kv in lines[0][2:].split())
    body = '\n'.join(l for l in lines if not l.startswith('#'))
    return head['property'], head['sub'], ast.literal_eval(body.strip())
