import os, re
from hypothesis import strategies as st
from vk import gen, ref, cli
from vk.core import sub, eq, req, fail
from vk.props import c04_digest_check as c04

one = st.builds(lambda c, b, p, chg, k: dict(c, bdx=b, pdx=p, chg=chg, k=k), gen.records(pay=gen.payload_small, digests=False),
                st.one_of(st.none(), c04.digspec), st.one_of(st.none(), c04.digspec), st.sampled_from(['none'] * 6 + ['payload', 'head', 'first', 'last']), st.integers(0, 10**6))
good = st.builds(lambda c, b, p: dict(c, bdx=b, pdx=p, chg='none', k=0), gen.records(pay=gen.payload_small, digests=False),
                 *[st.one_of(st.none(), st.builds(lambda a, e: {'algo': a, 'enc': e, 'how': 'right', 'k': 0}, st.sampled_from(gen.ALGOS), st.sampled_from(gen.DIGENC)))] * 2)
kind = st.sampled_from(['ok'] * 6 + ['junk', 'tail-junk', 'whole-gz', 'tail-gzjunk', 'empty'])
warc = st.builds(lambda r, k, g, s: {'recs': r, 'kind': k, 'gz': g, 'seg': s}, st.one_of(st.lists(one, max_size=3), st.lists(good, max_size=3)), kind, st.booleans(), st.sampled_from([None, None, None, '1']))
arc = st.builds(lambda a: {'arcfile': a, 'kind': 'ok'}, gen.arcs(max_size=2))
cases = st.builds(lambda f, v, a: {'files': f, 'verbose': v, 'again': a}, st.lists(st.one_of(warc, warc, warc, warc, arc), min_size=1, max_size=4), st.booleans(), st.lists(st.integers(0, 3), max_size=2))
LINE = re.compile(r'^  offset (\S+) WARC-Record-ID (.*) (\S+)$')


def build(f):
    """-> bytes, [(offset, id, type, bad count, message class)], readable?"""
    if 'arcfile' in f:
        data, bs = gen.assemble_arc(f['arcfile'])
        return data, [(b.offset, 'None', 'None', 0, 'no digest') for b in bs], True
    out, pos, ex = [], 0, []
    k = f['kind']
    recs = f['recs']
    if k == 'whole-gz' and len(recs) < 2:
        k = 'ok'
    whole = k == 'whole-gz'
    for c in recs:
        b = c04.build(c, f['seg'])
        stored = ref.gz(b.raw) if f['gz'] and not whole else b.raw
        idv = next(v for n, v in b.headers if n.lower() == 'warc-record-id')
        nb = b.blk[1] + b.pay[1]
        n = b.blk[0] + b.pay[0]
        has = bool(c.get('bdx') or c.get('pdx'))
        cls = 'fail' if nb else 'pass' if n else 'not checked' if has and b.type == 'revisit' else None if has else 'no digest'
        ex.append((pos, idv, b.type, int(nb), cls))
        out.append(stored)
        pos += len(stored)
    data = b''.join(out)
    if k == 'junk':
        return b'no archive\nat all\n' + data, [], False
    if k == 'tail-junk':
        return data + (ref.gz(b'this is junk\n') if f['gz'] else b'this is junk\n'), ex, False
    if k == 'tail-gzjunk':
        return data + (b'this is junk\n' if f['gz'] else b'\x01\x02\x03junk\n'), ex, False
    if whole:
        return ref.gz(data), ex[:1], False
    if k == 'empty':
        return b'', [], True
    return data, ex, True


@sub('C18', 'check', cases, 5000,
     rule='1-4 files with right/wrong/malformed/absent digests, altered blocks, ARC, empty and unreadable files in any order; non-trivial: >= 2 files of which one is bad, or >= 2 records with different verdicts')
def check(case, stats):
    with cli.scratch() as d:
        paths, exps = [], []
        for i, f in enumerate(case['files']):
            data, ex, readable = build(f)
            paths.append(cli.write(os.path.join(d, 'f%d.warc' % i), data))
            exps.append((ex, readable))
        for i in case.get('again', ()):
            # a file may be given more than once
            exps.append(exps[i % len(paths)])
            paths.append(paths[i % len(paths)])
        rc, out, err = cli.run(['check'] + (['-v'] if case['verbose'] else []) + paths)
    bad = any(e[3] for ex, _ in exps for e in ex) or not all(r for _, r in exps)
    out = out.decode('utf-8', 'surrogateescape')
    eq(rc, 1 if bad else 0, 'exit status (%s)' % out)
    # what the output says, per file
    said, cur, lines = [], None, out.split('\n')
    for l in lines:
        if l in paths:
            # printed more than once for records and exceptions of the same file
            if cur is None or cur['path'] != l or cur['exc']:
                cur = {'path': l, 'recs': [], 'exc': False}
                said.append(cur)
        elif LINE.match(l):
            req(cur is not None, 'record listed under no file: %r', l)
            m = LINE.match(l)
            cur['recs'].append([m.group(1), m.group(2), m.group(3), []])
        elif l.startswith('    '):
            req(cur is not None and (cur['recs'] or cur['exc']), 'message under no record: %r', l)
            if cur['recs'] and not cur['exc']:
                cur['recs'][-1][3].append(l.strip())
        elif l.startswith('  saw exception'):
            req(cur is not None, 'exception reported under no file')
            cur['exc'] = True
    # a file given twice in a row may be named once or twice
    shown = [(p, e) for p, e in zip(paths, exps) if not e[1] or any(case['verbose'] or x[3] for x in e[0])]
    def merged(l, rep):
        out = []
        for x in l:
            if not out or not rep(out[-1], x):
                out.append(x)
        return out
    eq(merged([os.path.basename(s['path']) for s in said], lambda a, b: a == b), merged([os.path.basename(p) for p, e in shown], lambda a, b: a == b), 'order of the files in the output')
    for p, (ex, readable) in zip(paths, exps):
        s = {'recs': [], 'exc': False}
        if not case.get('again', ()):
            s = next((x for x in said if x['path'] == p), s)
        else:
            # take what belongs to this mention of the file
            n = len([e for e in ex if case['verbose'] or e[3]])
            if not readable or n:
                req(said and said[0]['path'] == p, 'no output for mention of %s', os.path.basename(p))
                x = said[0]
                s = {'recs': x['recs'][:n], 'exc': x['exc'] and len(x['recs']) <= n}
                x['recs'] = x['recs'][n:]
                if not x['recs']:
                    said.pop(0)
        eq(s['exc'], not readable, 'whether %s is reported as unreadable (%s)' % (os.path.basename(p), out[-600:]))
        want = [e for e in ex if case['verbose'] or e[3]]
        eq([tuple(r[:3]) for r in s['recs']], [(str(e[0]), e[1], e[2]) for e in want], 'records listed for %s' % os.path.basename(p))
        for r, e in zip(s['recs'], want):
            msgs = ' '.join(r[3])
            if e[4] == 'fail':
                eq(len(r[3]), e[3], 'problems listed %r' % (r[3],))
                req('pass' not in msgs and 'digest' in msgs, 'message for a failed record: %r', msgs)
            elif e[4] == 'pass':
                req('pass' in msgs and 'fail' not in msgs, 'message for a passed record: %r', msgs)
            elif e[4] == 'no digest':
                req('no digest' in msgs, 'message for a record without digest: %r', msgs)
            elif e[4] == 'not checked':
                req('not checked' in msgs and 'revisit' in msgs, 'message for a revisit: %r', msgs)
            else:
                req('pass' not in msgs and 'fail' not in msgs, 'message for an unchecked record: %r', msgs)
    eq([x for x in said if case.get('again', ()) and x['recs']], [], 'more output')
    verd = set(e[4] for ex, _ in exps for e in ex)
    stats.nontrivial((len(paths) >= 2 and bad) or len(verd) >= 2)
    stats.label('verbose', case['verbose'])
    stats.label('exit %d' % rc)
    stats.label('unreadable files', sum(not r for _, r in exps))
