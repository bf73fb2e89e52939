"""Runs cases of a property in another interpreter.
environment: optimised (-O, which removes assert statements), in another time zone and with another hash seed;
what the library does must not depend on these.
bare: as installed by default, without the optional packages (fsspec, brotli)."""
import ast, os, subprocess, sys
from vk import core
from hypothesis import strategies as st

SKIP = {'giant', 'dates', 'many'}                 # sub-checks that cost too much for it
OFF = {'C32'}                    # measures memory and time
QUICK = {'C21': 100, 'C28': 2000, 'C12': 2000, 'C09': 1500}
# sub-checks that make sense without the optional packages
BARE = {'C08': {'decode'}, 'C15': None, 'C16': None, 'C17': None, 'C18': None, 'C27': {'objects', 'text'}, 'C30': None, 'C06': None}
MODES = {'environment': ('-O', {'TZ': 'America/St_Johns', 'PYTHONHASHSEED': '77'}, 'an interpreter with -O, another time zone and another hash seed'),
         'bare': ('-B', {'VK_BARE': '1'}, 'an interpreter without the optional packages fsspec and brotli')}
_children = {}


def add(prop):
    """adds sub-checks that draw from the cases of the others of the property"""
    if prop in OFF or core.BARE or not core.SUBS.get(prop):
        return
    subs = [s for s in core.SUBS[prop] if s.name not in SKIP]
    for mode in MODES:
        if mode == 'bare' and prop not in BARE:
            continue
        use = [s for s in subs if mode != 'bare' or BARE[prop] is None or s.name in BARE[prop]]
        register(prop, mode, use, QUICK.get(prop, 800) if mode == 'environment' else 500)


def register(prop, mode, subs, quick):
    def run(case, stats):
        stats.nontrivial(ask(prop, mode, case))
        stats.label(case[0])
    core.SUBS[prop].append(core.Sub(prop, mode, st.one_of([st.tuples(st.just(s.name), s.strategy) for s in subs]), run, quick, quick * 20,
                                    'cases of the other sub-checks run in %s; non-trivial: as there' % MODES[mode][2], False))


def ask(prop, mode, case):
    key = (os.getpid(), prop, mode)
    p = _children.get(key)
    if p is None:
        env = dict(os.environ, VK_REPO=core.REPO, **MODES[mode][1])
        p = _children[key] = subprocess.Popen([sys.executable, MODES[mode][0], '-B', '-m', 'vk.environment', prop], cwd=core.VERIF, env=env,
                                              stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    try:
        p.stdin.write(ascii(case).encode() + b'\n')
        p.stdin.flush()
        line = p.stdout.readline()
    except OSError as e:
        line = b''
    if not line:
        del _children[key]
        p.kill()
        p.wait()
        raise core.HarnessError('the other interpreter ended (exit code %s)' % p.returncode)
    kind, arg = ast.literal_eval(line.decode())
    if kind == 'ok':
        return arg
    if kind == 'violation':
        raise core.Violation('in %s: %s' % (MODES[mode][2], arg))
    raise core.HarnessError(arg)


def serve(prop):
    from vk import runner
    if not core.BARE and __debug__:
        raise SystemExit('not optimised')
    if core.BARE:
        from warcio import utils
        from warcio.bufferedreaders import BufferedReader
        if getattr(utils, 'HAS_FSSPEC', False) or 'br' in BufferedReader.get_supported_decompressors():
            raise SystemExit('not bare')
    runner.load_prop(prop)
    core.limit_memory()
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    by_name = {s.name: s for s in core.SUBS[prop]}
    for line in sys.stdin.buffer:
        name, case = ast.literal_eval(line.decode())
        stats = core.Stats()
        try:
            core.run_case(by_name[name], case, stats)
            ans = ('ok', bool(stats.distinct))
        except core.Violation as e:
            ans = ('violation', str(e))
        except core.HarnessError as e:
            ans = ('error', str(e))
        out.write(ascii(ans).encode() + b'\n')
        out.flush()


if __name__ == '__main__':
    serve(sys.argv[1])
