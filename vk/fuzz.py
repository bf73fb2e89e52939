"""Coverage-guided stage of the thorough tier: atheris (libFuzzer) feeds byte strings through the
same Hypothesis strategies and oracles (hypothesis' fuzz_one_input), guided by coverage of warcio."""
import os, sys, re, json, time, glob, shutil, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def campaign(prop, subs, seed, seconds, outdir):
    procs = int(os.environ.get('VK_PROCS', '0')) or min(8, os.cpu_count() or 8)
    jobs = [(s.name, k) for k in range(max(1, procs // max(1, len(subs)))) for s in subs]
    rounds = (len(jobs) + procs - 1) // procs
    per = max(20, int(seconds / rounds))
    running, bad, cov = [], [], {'seconds_per_target': per, 'targets': {}}
    errors = []
    queue = list(jobs)

    def reap(block):
        for item in list(running):
            p, name, k, base = item
            try:
                p.wait(per + 240 if block else 0.01)
            except subprocess.TimeoutExpired:
                if not block and time.monotonic() < item[0].t_end:
                    continue
                p.kill()
                p.wait()
            running.remove(item)
            t = {'executions': 0, 'evaluations': 0}
            try:
                t = json.load(open(base + '.json'))
            except (OSError, ValueError):
                errors.append('%s/%d: no result' % (name, k))
            log = open(base + '.log', errors='replace').read()
            m = re.findall(r'#(\d+).*?cov: (\d+) ft: (\d+) corp: (\d+)', log)
            if m:
                t['coverage_edges'], t['features'], t['corpus'] = [int(x) for x in m[-1][1:]]
            cov['targets']['%s/%d' % (name, k)] = t
            for path in sorted(glob.glob(base + '*.case')):
                msg = '\n'.join(l[2:] for l in open(path) if l.startswith('# '))
                bad.append((path, msg))
            shutil.rmtree(base + '.corpus', ignore_errors=True)

    while queue or running:
        while queue and len(running) < procs and not bad:
            name, k = queue.pop(0)
            base = os.path.join(outdir, 'fuzz-%s-%d' % (name, k))
            os.makedirs(base + '.corpus', exist_ok=True)
            log = open(base + '.log', 'wb')
            p = subprocess.Popen([sys.executable, '-B', '-m', 'vk.fuzz', prop, name, str(seed * 1000 + k + 1), str(per), base],
                                 cwd=VERIF, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
            p.t_end = time.monotonic() + per + 240
            running.append((p, name, k, base))
        if bad:
            queue = []
            for p, *_ in running:
                p.terminate()
        reap(bool(bad))
        time.sleep(0.2)
    cov['executions'] = sum(t['executions'] for t in cov['targets'].values())
    cov['evaluations'] = sum(t['evaluations'] for t in cov['targets'].values())
    if errors:
        cov['no_result'] = errors
    return cov, bad


def target(prop, name, seed, seconds, base):
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import atheris
    with atheris.instrument_imports(include=['warcio']):
        from vk import core
        import warcio.archiveiterator, warcio.warcwriter, warcio.cli, warcio.checker, warcio.extractor  # noqa
        import warcio.indexer, warcio.recompressor, warcio.recordbuilder, warcio.timeutils, warcio.utils  # noqa
        import warcio.capture_http  # noqa
    from vk import runner
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    from hypothesis.database import InMemoryExampleDatabase
    runner.load_prop(prop)
    s = next(x for x in core.SUBS[prop] if x.name == name)
    core.limit_memory(6)
    stats = core.Stats()
    fails = []
    count = {'executions': 0}

    def body(case):
        try:
            core.run_case(s, case, stats)
        except core.Violation as e:
            fails.append((len(repr(case)), case, str(e)))
            raise
    db = InMemoryExampleDatabase()
    test = settings(max_examples=500, deadline=None, database=db, report_multiple_bugs=False, print_blob=False,
                    suppress_health_check=list(HealthCheck), phases=(Phase.reuse, Phase.shrink))(
                        hypothesis.given(s.strategy)(body))
    fuzz = test.hypothesis.fuzz_one_input

    def dump():
        with open(base + '.json.tmp', 'w') as f:
            json.dump({'executions': count['executions'], 'evaluations': stats.evaluations,
                       'distinct_nontrivial': len(stats.distinct), 'classes': stats.labels}, f)
        os.rename(base + '.json.tmp', base + '.json')

    def one(data):
        count['executions'] += 1
        if count['executions'] % 50 == 1:
            dump()
        try:
            fuzz(data)
        except core.Violation:
            try:
                test()               # shrinks what fuzz_one_input saved
            except BaseException:
                pass
            _, case, msg = min(fails, key=lambda t: t[0])
            core.save_case(base + '-min.case', prop, name, case, msg)
            core.save_case(base + '-first.case', prop, name, fails[0][1], fails[0][2])
            dump()
            os._exit(0)
        except core.HarnessError as e:
            print('harness: %s' % e)
    dump()
    atheris.Setup([sys.argv[0], '-seed=%d' % seed, '-max_total_time=%d' % seconds, '-max_len=16384', '-timeout=86400',
                   '-len_control=20', '-rss_limit_mb=0', '-print_final_stats=1', base + '.corpus'], one)
    import atexit
    atexit.register(dump)
    atheris.Fuzz()


if __name__ == '__main__':
    a = sys.argv
    target(a[1], a[2], int(a[3]), int(a[4]), a[5])
