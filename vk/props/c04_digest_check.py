import hashlib, io, sys
from hypothesis import strategies as st
from vk import gen, ref
from vk.core import sub, eq, req, fail
from vk.views import iterate, drain

# what is done to one digest
BAD = ['other', 'flip', 'truncate', 'longer', 'unknown', 'nocolon', 'shake', 'malformed', 'nonascii', 'emptyvalue', 'otheralgo', 'case']
digspec = st.builds(lambda a, e, how, k: {'algo': a, 'enc': e, 'how': how, 'k': k}, st.sampled_from(gen.ALGOS), st.sampled_from(gen.DIGENC),
                    st.sampled_from(['right'] * 12 + BAD), st.integers(0, 1000))
DATACHG = st.sampled_from(['none', 'none', 'none', 'payload', 'payload', 'head', 'swap', 'first', 'last'])
pay = st.one_of(gen.payload, gen.payload, st.lists(gen.segment(gen.sizes_edge), min_size=1, max_size=2), st.just([]))
one = st.builds(lambda c, b, p, chg, k, r: dict(c, bdx=b, pdx=p, chg=chg, k=k, read=r), gen.records(pay=pay, digests=False),
                st.one_of(st.none(), digspec, digspec), st.one_of(st.none(), digspec, digspec), DATACHG, st.integers(0, 10**6),
                st.builds(lambda s, o, e: {'stream': s, 'ops': o, 'end': e}, st.sampled_from(['raw', 'raw', 'content', 'none']), gen.read_ops,
                          st.sampled_from(['all', 'iter', 'lines', 'one', 'close-iter'])))
cases = st.builds(lambda rs, seg, m, g, d, bs, n: {'recs': rs, 'seg': seg, 'mode': m, 'gz': g, 'dl': d, 'bs': bs, 'nrp': n},
                  st.lists(one, min_size=1, max_size=3), st.sampled_from([None, None, None, None, '1', '2']),
                  st.sampled_from([True, True, 'log', 'raise', False]), st.booleans(), gen.delivery, gen.block_size,
                  st.sampled_from([False, False, False, True]))


def flip_value(v, k):
    """another value in the same alphabet and of the same length, decoding to other bits"""
    pos = k % (max(1, len(v.rstrip('=')) - 1))
    alpha = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ234567'
    ch = v[pos]
    for c in ('B', 'b', '3', 'C', '4', 'c'):
        if c.lower() != ch.lower() and (ch.isdigit() or not c.isdigit()) and (not ch.isdigit() or c.isdigit()) and c.islower() == ch.islower():
            return v[:pos] + c + v[pos + 1:]
    return v[:pos] + ('2' if ch != '2' else '5') + v[pos + 1:]


def value(d, data):
    """-> (header value, is it right?)"""
    how, spec, k = d['how'], (d['algo'], d['enc']), d['k']
    right = gen.digest_text(spec, data)
    algo, _, v = right.partition(':')
    if how == 'right':
        return right, True
    if how == 'other':
        return gen.digest_text(spec, data + b'x'), False
    if how == 'flip':
        return algo + ':' + flip_value(v, k), False
    if how == 'truncate':
        core = v.rstrip('=')
        return algo + ':' + core[:max(1, min(len(core) - 4, k % len(core)))], False
    if how == 'longer':
        return algo + ':' + v.rstrip('=') + 'A' * (4 + k % 5), False
    if how == 'unknown':
        return ['sha1024', 'foo', 'SHA-one', '', 'sha1 ', 'sha1\0', '\0', 'sha\xe9'][k % 8] + ':' + v, False
    if how == 'nocolon':
        return v, False
    if how == 'shake':
        return 'shake_128:' + v, False
    if how == 'malformed':
        return algo + ':' + ['!!!', '====', '?', v[:-2] + '*!', 'A', '%s'][k % 6], False
    if how == 'nonascii':
        return algo + ':' + v[:3] + '\xe9\u6f22' + v[5:], False
    if how == 'emptyvalue':
        return algo + ':x', False
    if how == 'case':
        # base 32 is in upper case (RFC 3548, 4648); in base 64 another case is another hash; base 16 is in either case
        return algo + ':' + v.swapcase(), d['enc'] in ('hex', 'HEX') or v.swapcase() == v
    if how == 'otheralgo':
        o = 'sha1' if algo != 'sha1' else 'sha256'
        return gen.digest_text((o, d['enc']), data).replace(o + ':', algo + ':'), False
    raise ValueError(how)


def build(c, seg):
    """the record with digests of the original block but a possibly changed block"""
    b0 = gen.build({k: v for k, v in c.items() if k not in ('bdx', 'pdx')})
    block, payload, head = b0.block, b0.payload, b0.head
    hs, bad, checked = list(b0.headers), 0, 0
    chg, k = c['chg'], c['k']
    nb, npay = bytearray(block), payload
    lo = len(head)
    if chg == 'payload' and payload:
        nb[lo + k % len(payload)] ^= 1 << (k % 8)
    elif chg == 'first' and payload:
        nb[lo] ^= 255
    elif chg == 'last' and payload:
        nb[-1] ^= 1
    elif chg == 'swap' and len(payload) > 1:
        i = lo + k % (len(payload) - 1)
        nb[i], nb[i + 1] = nb[i + 1], nb[i]
    elif chg == 'head' and c.get('http'):
        # change the protocol's last digit (keeps every boundary)
        i = head.index(b'HTTP/1.') + 7
        nb[i] ^= 1
    nb = bytes(nb)
    changed_block, changed_pay = nb != block, nb[lo:] != payload
    rev = b0.type == 'revisit'
    out = []
    for key, name, data, changed in (('bdx', 'WARC-Block-Digest', block, changed_block), ('pdx', 'WARC-Payload-Digest', payload, changed_pay)):
        if c.get(key):
            v, right = value(c[key], data)
            out.append((name, v))
            if key == 'pdx' and seg is not None:
                continue
            if rev:
                continue
            yield_bad = (not right) or changed
            if key == 'pdx':
                pay_state = yield_bad
                b0.pay = (True, yield_bad)
            else:
                b0.blk = (True, yield_bad)
    b0.blk = getattr(b0, 'blk', (False, False))
    b0.pay = getattr(b0, 'pay', (False, False))
    if seg is not None:
        out.append(('WARC-Segment-Number', seg))
    i = k % (len(hs) + 1)
    hs = hs[:i] + out + hs[i:]
    b0.headers = hs
    b0.nblock, b0.npay = nb, nb[lo:]
    b0.raw = ref.warc_bytes(c['v'], hs, nb)
    b0.changed = changed_block
    return b0


def consume(rec, b, r):
    """any way of reading; returns raw bytes delivered when read raw"""
    if r['stream'] == 'none':
        return None
    f = rec.raw_stream if r['stream'] == 'raw' else rec.content_stream()
    out = []
    for op in r['ops']:
        out.append(gen.do_read(f, op))
    e = r['end']
    if e == 'all':
        while True:
            x = f.read(16384)
            if not x:
                break
            out.append(x)
    elif e == 'one':
        out.append(f.read())
        x = f.read()
        while x:
            out.append(x)
            x = f.read()
    elif e == 'lines':
        while True:
            x = f.readline()
            if not x:
                break
            out.append(x)
    return b''.join(out) if e in ('all', 'one', 'lines') and r['stream'] == 'raw' else None


@sub('C04', 'verdicts', cases, 9000,
     rule='1-3 records with right or wrong digests in any algorithm and encoding, blocks possibly altered after digesting, any reading '
          'pattern and checking mode; non-trivial: checking on and some digest is checkable')
def verdicts(case, stats):
    from warcio.exceptions import ArchiveLoadFailed
    bs = [build(c, case['seg']) for c in case['recs']]
    data = b''.join(ref.gz(b.raw) if case['gz'] else b.raw for b in bs)
    mode, nrp = case['mode'], case['nrp']
    for b in bs:
        cnt, bad = 0, 0
        if b.blk[0]:
            cnt += 1
            bad += b.blk[1]
        b.paychk = b.pay[0] and not (nrp and b.http is not None)
        if b.pay[0] and nrp and b.type in ('response', 'request', 'revisit') and (b.spec.get('uri') or '').startswith(('http:', 'https:')):
            b.paychk = False
        if b.paychk:
            cnt += 1
            bad += b.pay[1]
        b.cnt, b.bad = cnt, bad
        b.want = None if not mode or not cnt else not bad
        stats.nontrivial(bool(mode) and cnt > 0)
        stats.label('bad digests: %d' % bad)
        stats.label('block changed', b.changed)
    stats.label('mode %s' % mode)
    it = iter(iterate(data, case['dl'], check_digests=mode, block_size=case['bs'], no_record_parse=nrp))
    err = sys.stderr
    recs, logged = [], err.tell() if hasattr(err, 'tell') else 0
    raised = None
    i = 0
    try:
        for i in range(len(bs) + 1):
            rec = next(it, None)
            if rec is None:
                eq(i, len(bs), 'records delivered')
                break
            req(i < len(bs), 'extra record')
            b = bs[i]
            recs.append(rec)
            got = consume(rec, b, case['recs'][i]['read'])
            if got is not None:
                eq(got, b.nblock if nrp or b.http is None else b.npay, 'record %d: bytes delivered in mode %r' % (i, mode))
                if mode != 'raise':
                    eq(rec.digest_checker.passed, b.want, 'record %d: verdict after reading it all' % i)
    except ArchiveLoadFailed as e:
        raised = e
    if mode == 'raise':
        first = next((k for k, b in enumerate(bs) if b.bad), None)
        if first is None:
            req(raised is None, "mode 'raise' with all digests right: %r", raised)
        else:
            req(raised is not None, "mode 'raise': record %d has a wrong digest but ArchiveLoadFailed was not raised", first)
            # found while reading that record, at latest when moving on
            req(first <= i <= first + 1 and len(recs) in (first, first + 1), "mode 'raise': raised at record %d, the wrong digest is in record %d", i, first)
            req('digest' in str(raised), 'raised for another reason: %r', raised)
            stats.label('raised')
    else:
        req(raised is None, 'ArchiveLoadFailed in mode %r: %r', mode, raised)
        eq(len(recs), len(bs), 'records delivered')
    for k, (rec, b) in enumerate(zip(recs, bs)):
        if mode == 'raise' and raised is not None and k >= first:
            break
        eq(rec.digest_checker.passed, b.want, 'record %d: verdict (mode %r, %d checkable, %d wrong)' % (k, mode, b.cnt, b.bad))
        eq(len(rec.digest_checker.problems), b.bad if mode else 0, 'record %d: number of problems %r' % (k, rec.digest_checker.problems))
    if mode == 'log':
        lines = [l for l in err.getvalue().split('\n') if 'digest' in l]
        eq(len(lines), sum(b.bad for b in bs), 'problems written to stderr %r' % lines)
        want = [p for r in recs for p in r.digest_checker.problems]
        eq(sorted(lines), sorted(want), 'stderr lines and recorded problems')
    elif mode is True or mode is False:
        req('digest' not in err.getvalue(), 'mode %r wrote to stderr: %r', mode, err.getvalue()[:200])
