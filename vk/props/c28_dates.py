import calendar, os, time
from datetime import datetime, timezone, timedelta
from hypothesis import strategies as st
from vk.core import sub, eq, req, fail

TZS = ['UTC', 'America/New_York', 'EST5EDT', 'Asia/Kolkata', 'XXX-14', 'YYY+12', 'CET-1CEST,M3.5.0,M10.5.0/3', 'Australia/Lord_Howe']
YEARS = st.one_of(st.integers(1000, 9999), st.integers(1900, 2999), st.sampled_from([1000, 1899, 1900, 1969, 1970, 1999, 2000, 2016, 2038, 2100, 2999, 3000, 9999]))


def _dt(y, mo, d, h, mi, s, us):
    return (y, mo, min(d, calendar.monthrange(y, mo)[1]), h, mi, s, us)


stamp = st.builds(_dt, YEARS, st.integers(1, 12), st.one_of(st.integers(1, 28), st.integers(28, 31)), st.integers(0, 23), st.integers(0, 59), st.integers(0, 59),
                  st.one_of(st.just(0), st.integers(0, 999999), st.sampled_from([1, 10, 999999, 100000, 99999])))


class Zone(object):
    """process time zone, restored afterwards"""
    def __init__(self, tz):
        self.tz = tz

    def __enter__(self):
        self.old = os.environ.get('TZ')
        os.environ['TZ'] = self.tz
        time.tzset()

    def __exit__(self, *a):
        if self.old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = self.old
        time.tzset()


DAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']


def day_number(y, m, d):
    """days since 1970-01-01 (proleptic Gregorian)"""
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


@sub('C28', 'roundtrip', st.builds(lambda t, z, o: {'t': t, 'tz': z, 'off': o}, stamp, st.sampled_from(TZS),
                                   st.one_of(st.none(), st.none(), st.just(0), st.integers(-14 * 60, 14 * 60))), 20000,
     rule='date-times of years 1000-9999 (naive or aware) through every text form and back under eight process time zones; non-trivial: outside UTC, aware or with microseconds')
def roundtrip(case, stats):
    from warcio import timeutils as T
    t = tuple(case['t'])
    y, mo, d, h, mi, s, us = t
    naive = datetime(*t)
    dt = naive
    if case['off'] is not None:
        try:
            dt = naive.replace(tzinfo=timezone.utc).astimezone(timezone(timedelta(minutes=case['off'])))
        except OverflowError:
            stats.exclude('no such date in that time zone')
            return
        if not 1000 <= dt.year:
            stats.exclude('no such date in that time zone')
            return
    sec = naive.replace(microsecond=0)
    iso = '%04d-%02d-%02dT%02d:%02d:%02dZ' % t[:6]
    isou = iso if not us else iso[:-1] + '.%06dZ' % us
    ts = '%04d%02d%02d%02d%02d%02d' % t[:6]
    n = day_number(y, mo, d)
    http = '%s, %02d %s %04d %02d:%02d:%02d GMT' % (DAYS[(n + 3) % 7], d, MONTHS[mo - 1], y, h, mi, s)
    secs = n * 86400 + h * 3600 + mi * 60 + s
    with Zone(case['tz']):
        eq(T.datetime_to_iso_date(dt), iso, 'ISO date')
        eq(T.datetime_to_iso_date(dt, use_micros=True), isou, 'ISO date with microseconds')
        eq(T.datetime_to_timestamp(dt), ts, 'timestamp')
        eq(T.datetime_to_http_date(dt), http, 'HTTP date')
        eq(T.sec_to_timestamp(secs), ts, 'timestamp of epoch seconds')
        if abs(secs) < 2 ** 40:
            for frac in (0.0, 0.25, 0.5, 0.75, 0.984375):
                eq(T.sec_to_timestamp(secs + frac), ts, 'timestamp of epoch seconds with a fraction')
        for aware in (False, True):
            zone = timezone.utc if aware else None
            for got, want, what in ((T.iso_date_to_datetime(iso, aware), sec, 'ISO date'), (T.iso_date_to_datetime(isou, tz_aware=aware), naive, 'ISO date with microseconds'),
                                    (T.http_date_to_datetime(http, tz_aware=aware), sec, 'HTTP date'),
                                    (T.timestamp_to_datetime(ts, tz_aware=aware) if 1900 <= y <= 2999 else None, sec, 'timestamp')):
                if got is not None:
                    eq(got.tzinfo, zone, what + ' time zone')
                    eq(got.replace(tzinfo=None), want, what + ' back')
        eq(T.iso_date_to_timestamp(isou), ts, 'ISO date to timestamp')
        eq(T.http_date_to_timestamp(http), ts, 'HTTP date to timestamp')
        if 1900 <= y <= 2999:
            eq(T.timestamp_to_iso_date(ts), iso, 'timestamp to ISO date')
            eq(T.timestamp_to_http_date(ts), http, 'timestamp to HTTP date')
            eq(T.timestamp_to_sec(ts), secs, 'timestamp to epoch seconds')
    stats.nontrivial(case['tz'] != 'UTC' or bool(us) or case['off'] is not None)
    stats.label('year outside 1900-2999', not 1900 <= y <= 2999)
    stats.label('aware', case['off'] is not None)
    stats.label('29 February', (mo, d) == (2, 29))


@sub('C28', 'fraction', st.builds(lambda t, f, z, a: {'t': t, 'f': f, 'z': z, 'aware': a}, stamp, st.text(st.sampled_from('0123456789'), max_size=12), st.booleans(), st.booleans()), 8000,
     rule='ISO dates with fractions of 0-12 digits, with or without the final Z; non-trivial: not 6 digits')
def fraction(case, stats):
    from warcio import timeutils as T
    t, f = tuple(case['t'])[:6], case['f']
    iso = '%04d-%02d-%02dT%02d:%02d:%02d' % t + ('.' + f if f else '') + ('Z' if case['z'] else '')
    us = int((f + '000000')[:6])
    dt = T.iso_date_to_datetime(iso, tz_aware=case['aware'])
    eq(dt, datetime(*t, us, tzinfo=timezone.utc if case['aware'] else None), 'ISO date %s' % iso)
    eq(T.iso_date_to_timestamp(iso), '%04d%02d%02d%02d%02d%02d' % t, 'timestamp of ' + iso)
    stats.nontrivial(len(f) != 6)
    stats.label('%d digits' % min(len(f), 7))


def model(s):
    """latest instant the digits can stand for, fields clamped"""
    year = min(max(int((s[:4] + '9999'[len(s[:4]):]) if s else 2999), 1900), 2999)
    out = [year]
    for k, (lo, hi) in ((4, (1, 12)), (6, (1, 0)), (8, (0, 23)), (10, (0, 59)), (12, (0, 59))):
        f = s[k:k + 2]
        if k == 6:
            hi = calendar.monthrange(year, out[1])[1]
        out.append(min(max(int(f), lo), hi) if len(f) == 2 else hi)
    return out


digits = st.one_of(st.text(st.sampled_from('0123456789'), max_size=20),
                   st.builds(lambda t, k, x: ('%04d%02d%02d%02d%02d%02d' % t[:6] + x)[:k], stamp, st.integers(0, 20), st.text(st.sampled_from('0123456789'), max_size=6)),
                   st.builds(lambda y, r: y + r, st.sampled_from(['20', '2000', '1900', '2023', '0000', '9999', '2100']), st.text(st.sampled_from('0129'), max_size=12)))


@sub('C28', 'timestamps', st.builds(lambda a, b, z, aw: {'a': a, 'b': b, 'tz': z, 'aware': aw}, digits, digits, st.sampled_from(TZS), st.booleans()), 15000,
     rule='digit strings of every length read as timestamps, against a reference; order of full timestamps; non-trivial: not a valid full timestamp')
def timestamps(case, stats):
    from warcio import timeutils as T
    with Zone(case['tz']):
        for s in (case['a'], case['b']):
            dt = T.timestamp_to_datetime(s, tz_aware=case['aware'])
            eq(dt.tzinfo, timezone.utc if case['aware'] else None, 'time zone of %r' % s)
            got = [dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second]
            eq(dt.microsecond, 0, 'microseconds')
            want = model(s)
            if len(s) == 5:
                # a month of which only the first digit is given
                eq(got[0], want[0], 'year of %r' % s)
                if s[4] != '0':
                    eq(got, want, 'timestamp %r' % s)
            else:
                eq(got, want, 'timestamp %r' % s)
            full = '%04d%02d%02d%02d%02d%02d' % tuple(got)
            secs = day_number(*got[:3]) * 86400 + got[3] * 3600 + got[4] * 60 + got[5]
            eq(T.timestamp_to_sec(s), secs, 'epoch seconds of %r' % s)
            eq(T.sec_to_timestamp(secs), full, 'timestamp of its epoch seconds')
            eq(T.timestamp_to_iso_date(s), '%04d-%02d-%02dT%02d:%02d:%02dZ' % tuple(got), 'ISO date of %r' % s)
            eq(T.http_date_to_timestamp(T.timestamp_to_http_date(s)), full, 'HTTP date of %r and back' % s)
            eq(T.iso_date_to_timestamp(T.timestamp_to_iso_date(s)), full, 'ISO date of %r and back' % s)
            stats.nontrivial(s[:14] != full)
            stats.label('%d digits' % min(len(s), 15))
        a, b = [T.datetime_to_timestamp(T.timestamp_to_datetime(s)) for s in (case['a'], case['b'])]
        eq(T.timestamp_to_sec(a) < T.timestamp_to_sec(b), a < b, 'order of %s and %s' % (a, b))
        eq(T.timestamp_to_datetime(a) < T.timestamp_to_datetime(b), a < b, 'order of %s and %s' % (a, b))


@sub('C28', 'now', st.builds(lambda z: {'tz': z}, st.sampled_from(TZS)), 60, rule='the current time as timestamps in every process time zone; non-trivial: not UTC')
def now(case, stats):
    from warcio import timeutils as T
    # clocks differ in resolution and may be adjusted
    f = lambda d: time.strftime('%Y%m%d%H%M%S', time.gmtime(time.time() + d))
    with Zone(case['tz']):
        a = f(-5)
        x, y = T.timestamp_now(), T.timestamp20_now()
        b = f(5)
        req(len(x) == 14 and x.isdigit() and a <= x <= b, 'timestamp_now() %r is not between %s and %s', x, a, b)
        req(len(y) == 20 and y.isdigit() and a <= y[:14] <= b, 'timestamp20_now() %r is not between %s and %s', y, a, b)
    stats.nontrivial(case['tz'] != 'UTC')
