"""Drives the property checks: ./check C01 [quick|thorough] | --replay FILE | --list"""
import os, sys, time, json, pickle, glob, shutil, tempfile, importlib, subprocess, traceback, signal
import multiprocessing

from vk import core
from vk.core import SUBS, KNOWN, Stats, Violation, HarnessError, VERIF, save_case, load_case

T0 = time.monotonic()
NPROC = int(os.environ.get('VK_PROCS', '0')) or min(8, os.cpu_count() or 8)
SOFT = {'quick': 420, 'thorough': 6 * 3600}      # stop generating after this (inconclusive beyond it)
SHRINK_SECONDS = 45


def load_prop(prop):
    mods = glob.glob(os.path.join(VERIF, 'vk', 'props', prop.lower() + '_*.py'))
    if len(mods) != 1:
        raise SystemExit('no module for property %s' % prop)
    importlib.import_module('vk.props.' + os.path.basename(mods[0])[:-3])
    from vk import environment, many
    many.add(prop)
    environment.add(prop)


def shard_seed(seed, name, shard):
    import hashlib
    return int.from_bytes(hashlib.blake2b(('%d/%s/%d' % (seed, name, shard)).encode(), digest_size=6).digest(), 'big')


def run_shard(s, seed, n, deadline):
    import hypothesis
    import hypothesis.internal.conjecture.engine as engine
    from hypothesis import settings, HealthCheck, Phase
    if hasattr(engine, 'MAX_SHRINKING_SECONDS'):
        engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
    stats = Stats()
    state = {'fails': [], 'truncated': 0, 'harness': None}

    def body(case):
        if time.monotonic() > deadline and not state['fails']:
            state['truncated'] += 1
            return
        try:
            core.run_case(s, case, stats)
        except Violation as e:
            state['fails'].append((len(repr(case)), case, str(e)))
            state['fails'] = state['fails'][:1] + sorted(state['fails'][1:], key=lambda t: t[0])[:3]
            raise

    test = hypothesis.seed(seed)(settings(
        max_examples=n, deadline=None, database=None, report_multiple_bugs=False, print_blob=False,
        suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink))(
            hypothesis.given(s.strategy)(body)))
    res = {'sub': s.name, 'fail': None, 'error': None}
    devnull = open(os.devnull, 'w')
    out, sys.stdout = sys.stdout, devnull
    err, sys.stderr = sys.stderr, devnull
    try:
        test()
    except BaseException as e:
        if state['fails']:
            pass
        else:
            res['error'] = 'harness: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc())
    finally:
        sys.stdout, sys.stderr = out, err
    if state['fails']:
        best = min(state['fails'], key=lambda t: t[0])
        res['fail'] = (best[1], best[2])
        res['first'] = state['fails'][0][1:]
    res['stats'] = stats
    res['truncated'] = state['truncated']
    return res


def worker(tasks, results, seed, deadline):
    core.limit_memory()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    subs = {s.name: s for l in SUBS.values() for s in l}
    while True:
        t = tasks.get()
        if t is None:
            return
        name, shard, n = t
        try:
            r = run_shard(subs[name], shard_seed(seed, name, shard), n, deadline)
        except BaseException as e:
            r = {'sub': name, 'fail': None, 'error': 'harness: %r\n%s' % (e, traceback.format_exc()),
                 'stats': Stats(), 'truncated': 0}
        results.put(pickle.dumps(r))


def replay(path):
    prop, name, case = load_case(path)
    load_prop(prop)
    core.limit_memory()
    s = next(x for x in SUBS[prop] if x.name == name)
    try:
        core.run_case(s, case, Stats())
    except Violation as e:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print(str(e)[:4000].encode('ascii', 'backslashreplace').decode())
        return 1
    print('held: property=%s sub=%s %s' % (prop, name, path))
    return 0


def confirm(path):
    """Re-run a failing case in fresh processes; True as soon as it fails again."""
    for _ in range(3):
        p = subprocess.run([sys.executable, '-B', '-m', 'vk.runner', '--replay', path], cwd=VERIF,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if p.returncode == 1 and b'VIOLATION' in p.stdout:
            return True
    return False


def known_entries(prop):
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                e = json.loads(line)
                if e.get('property') == prop:
                    out.append(e)
    return out


def level_of(prop):
    with open(os.path.join(VERIF, 'MANIFEST.json')) as f:
        return next((c['level'] for c in json.load(f)['checks'] if c['property'] == prop), 'exploration')


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    scale = float(os.environ.get('VK_SCALE', '1'))
    only = os.environ.get('VK_ONLY')
    load_prop(prop)
    subs = [s for s in SUBS[prop] if not only or s.name == only]
    outdir = os.path.join(VERIF, 'out', prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    violations, errors = [], []

    # 1. known findings: fixed ones suppress nothing; open ones are re-demonstrated
    for e in known_entries(prop):
        if e['status'] != 'open':
            continue
        fn = KNOWN.get(prop, {}).get(e['id'])
        if fn is None:
            errors.append('known finding %s has no demonstration' % e['id'])
            continue
        with core.Quiet():
            d = fn()
        if d:
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, e['id'], d))

    # 2. regression tier: saved minimal inputs
    regress = sorted(glob.glob(os.path.join(VERIF, 'regress', prop, '*.case')))
    for path in regress:
        p, name, case = load_case(path)
        s = next((x for x in SUBS[prop] if x.name == name), None)
        if s is None:
            errors.append('regression %s names no sub-check' % path)
            continue
        try:
            core.run_case(s, case, Stats())
        except Violation as e:
            dst = os.path.join(outdir, 'regress-' + os.path.basename(path))
            save_case(dst, prop, name, case, str(e))
            violations.append((dst, str(e)))
        except HarnessError as e:
            errors.append(str(e))

    # 3. generated search
    merged = {s.name: Stats() for s in subs}
    truncated = 0
    if not violations:
        deadline = T0 + float(os.environ.get('VK_SOFT', SOFT[tier]))
        jobs = []
        for s in subs:
            n = max(1, int((s.quick if tier == 'quick' else s.thorough) * scale))
            shards = 1 if n < 16 else NPROC
            if tier == 'thorough':
                shards = NPROC * max(1, n // (NPROC * 20000))
            for i in range(shards):
                jobs.append((s.name, i, (n + shards - 1) // shards))
        # longest first is unknown: interleave shards of different sub-checks
        jobs.sort(key=lambda j: j[1])
        ctx = multiprocessing.get_context('fork')
        tasks, results = ctx.Queue(), ctx.Queue()
        procs = [ctx.Process(target=worker, args=(tasks, results, seed, deadline), daemon=False)
                 for _ in range(min(NPROC, len(jobs)))]
        for j in jobs:
            tasks.put(j)
        for _ in procs:
            tasks.put(None)
        for p in procs:
            p.start()
        got, fails = 0, []
        hard = deadline + 300
        while got < len(jobs):
            try:
                r = pickle.loads(results.get(timeout=5))
            except Exception:
                dead = [p for p in procs if p.exitcode not in (None, 0)]
                if dead and not any(p.is_alive() for p in procs):
                    errors.append('worker died: exit codes %s' % [p.exitcode for p in procs])
                    break
                if time.monotonic() > hard:
                    errors.append('time budget exhausted')
                    break
                if dead and len(dead) + got >= len(jobs):
                    errors.append('worker died: exit codes %s' % [p.exitcode for p in procs])
                    break
                continue
            got += 1
            m, st = merged[r['sub']], r['stats']
            m.evaluations += st.evaluations
            m.distinct |= st.distinct
            m.samples.extend(st.samples)
            for a, b in ((m.labels, st.labels), (m.excluded, st.excluded)):
                for k, v in b.items():
                    a[k] = a.get(k, 0) + v
            truncated += r['truncated']
            if r['error']:
                errors.append(r['error'])
            if r['fail']:
                fails.append(r)
                break
        for p in procs:
            if p.is_alive() and (fails or errors):
                p.terminate()
        for p in procs:
            p.join(10)
            if p.is_alive():
                p.kill()
        for k, r in enumerate(fails):
            for kind, (case, msg) in (('min', r['fail']), ('first', r['first'])):
                path = os.path.join(outdir, '%s-%d-%s.case' % (r['sub'], k, kind))
                save_case(path, prop, r['sub'], case, msg)
                if confirm(path):
                    violations.append((path, msg))
                    break
            else:
                # eg. threads that meet only in some schedules: it was seen with the real code all the same
                violations.append((path, r['first'][1] + '\n(did not happen again in 6 runs of it)'))

    # 4. coverage-guided stage of the thorough tier
    cov = None
    if tier == 'thorough' and not violations and not errors and os.environ.get('VK_FUZZ_SECONDS', '600') != '0':
        from vk import fuzz, environment
        cov, bad = fuzz.campaign(prop, [s for s in subs if s.name not in environment.MODES], seed, int(os.environ.get('VK_FUZZ_SECONDS', '600')), outdir)
        for path, msg in bad:
            if confirm(path):
                violations.append((path, msg))
            else:
                violations.append((path, msg + '\n(did not happen again in 3 runs of it)'))

    samples = []
    for s in subs:
        for x in sorted(merged[s.name].samples, key=len)[:2] + merged[s.name].samples[:2]:
            samples.append('%s: %s' % (s.name, x))
    coverage = {
        'evaluations': sum(m.evaluations for m in merged.values()),
        'distinct_nontrivial': sum(len(m.distinct) for m in merged.values()),
        'rule': ' | '.join('%s: %s' % (s.name, s.rule) for s in subs),
        'samples': samples[:24],
        'regression_inputs': len(regress),
        'truncated_by_time_budget': truncated,
        'per_check': {n: {'evaluations': m.evaluations, 'distinct_nontrivial': len(m.distinct),
                          'classes': dict(sorted(m.labels.items())), 'excluded': m.excluded}
                      for n, m in merged.items()},
    }
    if cov:
        coverage['coverage_guided'] = cov
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level_of(prop), 'coverage': coverage,
          'assumptions': ['the reference encoders/parsers in vk/ref.py are right', 'CPython zlib, hashlib, base64 are right'],
          'wall_s': round(time.monotonic() - T0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')

    if violations:
        for path, msg in violations:
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  ' + msg[:1500].encode('ascii', 'backslashreplace').decode().replace('\n', '\n  '))
        return 1
    if errors:
        for e in sorted(set(errors))[:3]:
            print('ERROR in check %s: %s' % (prop, e[:3000]), file=sys.stderr)
        return 2
    print('held: %s %s: %d cases, %d distinct non-trivial, %.1f s' % (
        prop, tier, coverage['evaluations'], coverage['distinct_nontrivial'], ev['wall_s']))
    return 0


if __name__ == '__main__':
    if sys.argv[1:2] == ['--list']:
        for f in sorted(glob.glob(os.path.join(VERIF, 'vk', 'props', 'c*_*.py'))):
            print(os.path.basename(f)[:3].upper())
        sys.exit(0)
    rc = 3
    try:
        rc = main(sys.argv[1:])
    except SystemExit as e:
        rc = e.code
    except BaseException:
        traceback.print_exc()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc if isinstance(rc, int) else 3)
