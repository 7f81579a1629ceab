"""strftime, format() and strptime."""
import datetime as dt
import random
import unicodedata

from ..api import (D, M, SP, Turn, day, gap, hms, is_fudge, mk, mkdt, moment,
                   turn, usec, ymd)

PROP = 'C11'
RULE = ('cases are (value, format) with random formats of up to eight '
        'directives and literals; the text is compared directive by '
        'directive with an independent formatter, and texts of that '
        'formatter in unambiguous formats are parsed back; distinct: the '
        'texts')
ASSUMPTIONS = ['the C locale; no hour 24, ambiguous Mas for %b, two-digit '
               'years of negative years, or %p within 2 minutes of midday',
               'years whose ordinals C03 records are not drawn']
REQUIRED = {'strftime': 6000, 'strptime': 5000, 'refused': 2500,
            'time': 1000, 'turn': 1000, 'directive': 40000}

DAYS = ('Jalál', 'Jamál', 'Kamál', 'Fiḍāl', '`Idāl', 'Istijlāl', 'Istiqlāl')
DAYS_A = ('Jal', 'Jam', 'Kam', 'Fiḍ', 'Idā', 'Isj', 'Isq')
MON = ('Ayyám-i-Há', 'Bahá', 'Jalál', 'Jamál', "'Aẓamat", 'Núr', 'Raḥmat',
       'Kalimát', 'Kamál', "Asmá'", "'Izzat", 'Mashíyyat', "'Ilm", 'Qudrat',
       'Qawl', 'Masá’il', 'Sharaf', 'Sulṭán', 'Mulk', "'Alá'")
MON_A = ('Ayy', 'Bah', 'Jal', 'Jam', 'Aẓa', 'Núr', 'Raḥ', 'Kal', 'Kam', 'Asm',
         'Izz', 'Mas', 'Ilm', 'Qud', 'Qaw', 'Mas', 'Sha', 'Sul', 'Mul', 'Alá')
DIRS = ('a A b B c d -d D e f G h H -H I -I j -j k :K l -l m -m M -M n p r S '
        '-S T u U V :V w W x y -y Y z :z Z % C').split()
DIRS.remove('-I')
LIT = ('-', ':', ' ', '/', 'T', '.', ', ', 'é', '日', '(', ')', '[', '\\', '+',
       '{}', '#', '--', '::', "'", 'x', '*', '?', '|', '^', '$', '\t')
# Formats that determine the value; the flags are: d date, s second,
# u microsecond, z zone.
PARSE = (
    ('%Y-%m-%d', 'd'), ('%d/%m/%Y', 'd'), ('%Y %j', 'd'), ('%j.%Y', 'd'),
    ('%d %B %Y', 'd'), ('%B %d, %Y', 'd'), ('%A %d %B %Y', 'd'),
    ('%a %Y-%m-%d', 'd'), ('%Y%m%d', 'd'), ('%G-W%V-%u', 'dw'),
    ('%G %V %A', 'dw'), ('%G %V %a', 'dw'), ('%G %V %w', 'dw'),
    ('%Y-%m-%d %H:%M:%S', 'ds'), ('%Y-%m-%dT%H:%M:%S.%f', 'dsu'),
    ('%Y-%m-%d %H:%M:%S%z', 'dsz'), ('%Y-%m-%dT%H:%M:%S.%f%z', 'dsuz'),
    ('%Y-%m-%d %H:%M:%S.%f %:z', 'dsuz'), ('%d.%m.%Y (%H.%M.%S)', 'ds'),
    ('%Y %j [%H%M%S]', 'ds'), ('%I:%M:%S %p on %Y-%m-%d', 'dsp'),
    ('%Y-%m-%d %I.%M.%S.%f%p', 'dsup'), ('%A, %B %d, %Y %I:%M:%S %p', 'dsp'),
    ('%Y + %m * %d ? %H ^ %M $ %S | %f', 'dsu'), ('%%%Y%%%m%%%d', 'd'),
    ('%S:%M:%H %d %m %Y', 'ds'), ('%u %Y-%m-%d %H:%M:%S', 'ds'),
    ('%w %Y-%m-%d', 'd'), ('%Y %U %w', 'dU'), ('%A in week %W of %Y', 'dU'),
    ('%a %U %Y', 'dU'), ('%u.%W.%Y', 'dU'), ('%d %b %Y', 'db'),
    ('%b %d, %Y', 'db'), ('%y-%m-%d', 'dy'), ('%Y-%m-%d %Z', 'dZ'))


def draw(rng):
    while True:
        d = day(rng)
        if not gap(d) and not any(is_fudge(d[0] + i) for i in (-1, 0, 1)) \
                and M.MIN + 1 < d[0] < M.MAX - 1:
            return d


def gen(rng, tier, part, parts):
    for i in range(110 if tier == 'quick' else 2600):
        d = draw(rng)
        t = [*hms(rng), usec(rng)]
        off = rng.choice((None, None, 0, rng.randint(-1439, 1439), 60 *
                          rng.randint(-12, 14), 210, -210, 345, -30, 30, -1))
        n = rng.randint(1, 8)
        fmt = []
        for _ in range(n):
            fmt.append('%' + rng.choice(DIRS))
            if rng.random() < 0.7:
                fmt.append(rng.choice(LIT))
        if rng.random() < 0.2:
            fmt.insert(0, rng.choice(LIT))
        yield ['fmt', d, t, off, fmt]
        yield ['parse', d, t, off if off is not None else 210,
               rng.randrange(len(PARSE)), rng.randrange(4)]
        if i % 3 == 0:
            yield ['time', t, off, rng.randrange(1 << 30)]
            yield ['zone', d, rng.choice((0, 1, 59, 60, 3599, 86399,
                                          rng.randrange(86400))),
                   rng.choice((0, 1, 500000, 999999, usec(rng))),
                   rng.random() < 0.5, rng.randint(1, 6)]
            yield ['turn', d, t, rng.randrange(1 << 30)]
            yield ['loose', d, t, rng.randrange(1 << 30)]
            yield ['damage', d, t, rng.randrange(len(PARSE)),
                   rng.randrange(1 << 30)]


def run(rec, case):
    globals()['run_' + case[0]](rec, *case[1:])


def z_known(off, sep):
    """What is written for an offset with minutes: the minutes times 100/60,
    then what is left of them the same way."""
    h = abs(off * 60 / 3600)
    hh = int(h)
    m0 = (h - hh) * 100
    mm = int(m0)
    s = m0 - mm
    ss = int(s * 100)
    ms = int((s * 100 - ss) * 1000000)
    return (f'{"-" if off < 0 else "+"}{hh:02}{sep}{mm:02}' +
            (f'{sep}{ss:02}' if ss else '') + (f'.{ms:06}' if ms else ''))


def zone(off, sep=''):
    if off is None:
        return ''
    return (f'{"-" if off < 0 else "+"}{abs(off) // 60:02d}{sep}'
            f'{abs(off) % 60:02d}')


def zone_name(off):
    if off is None:
        return ''
    return 'UTC' if off == 0 else 'UTC' + zone(off, ':')


def expected(k, d, t, off, short):
    """The set of admissible texts of one directive, or None."""
    y, m, dd = d
    h, mi, s, us = t
    o = M.ordinal(*d)
    wd = M.weekday(o)
    lg = M.long(y)
    iy, iw, _ = M.isocal(o)
    h12 = h % 12 or 12
    pm = h >= 12
    near = abs(h * 3600 + mi * 60 + s + us / 1e6 - 43200) < 120
    ampm = ('AM', 'PM') if near else ('PM' if pm else 'AM',)
    sgn = '-' if y < 0 else ''
    yy = f'{sgn}{abs(y):04d}'
    year_c = f'{y:04d}' if short else f'{lg[0]} {lg[1]:02d} {lg[2]:02d}'
    two = None if y < 0 else (f'{y % 100:02d}',)
    one = {
        'a': DAYS_A[wd], 'A': DAYS[wd], 'b': MON_A[m], 'h': MON_A[m],
        'B': MON[m], 'd': f'{dd:02d}', '-d': f'{dd}', 'e': f'{dd:2d}',
        'c': f'{DAYS_A[wd]} {MON_A[m]} {dd:02d} {h:02d}:{mi:02d}:{s:02d} '
             f'{year_c}',
        'f': f'{us:06d}', 'G': f'{"-" if iy < 0 else ""}{abs(iy):04d}',
        'H': f'{h:02d}', '-H': f'{h}', 'k': f'{h:02d}', 'I': f'{h12:02d}',
        'l': f'{h12:2d}', '-l': f'{h12}', 'j': f'{M.yday(*d):03d}',
        '-j': f'{M.yday(*d)}', ':K': f'{lg[0]}', 'm': f'{m:02d}',
        '-m': f'{m}', 'M': f'{mi:02d}', '-M': f'{mi}', 'n': '\n',
        'S': f'{s:02d}', '-S': f'{s}', 'T': f'{h:02d}:{mi:02d}:{s:02d}',
        'u': f'{wd + 1}', 'w': f'{wd}', 'V': f'{iw:02d}',
        ':V': f'{lg[1]:02d}', 'Y': yy, 'Z': zone_name(off), '%': '%',
        }
    if k in one:
        return (one[k],)
    if k == 'p':
        return ampm
    if k == 'r':
        return tuple(f'{h12:02d}:{mi:02d}:{s:02d} {a}' for a in ampm)
    if k in ('z', ':z'):
        sep = ':' if k == ':z' else ''
        w = zone(off, sep)
        if off and off % 60:
            return w, ('z-minutes', z_known(off, sep))
        return (w,)
    if k in ('U', 'W'):
        # The days before the first Jalal are in week 0.
        fw = (wd - M.yday(*d) + 1) % 7
        w = (M.yday(*d) - 1 - (7 - fw) % 7) // 7 + 1
        if fw in (1, 2, 3):
            return f'{w:02d}', ('week-of-year', f'{w + 1:02d}')
        return (f'{w:02d}',)
    if two is None:
        return None
    return {'y': two, '-y': (f'{y % 100}',), 'C': (f'{y // 100:02d}',),
            'D': (f'{m:02d}/{dd:02d}/{two[0]}',),
            'x': (f'{m:02d}/{dd:02d}/{two[0]}',)}[k]


def match(rec, text, fmt, d, t, off, short, what):
    """Compare a text with a list of directives and literals."""
    i = 0
    for f in fmt:
        if f[0] != '%':
            cand = (f,)
        else:
            cand = expected(f[1:], d, t, off, short)
            if cand is None:
                return True         # undecided from here on
        for c in sorted(cand, key=lambda c: -len(c) if isinstance(c, str)
                        else -99):
            known = isinstance(c, tuple)
            s = c[1] if known else c
            if text.startswith(s, i):
                i += len(s)
                if known and s not in cand:
                    rec.bad(c[0], f'{f} of {d}, offset {off} min: {s}')
                break
        else:
            rec.bad('strftime', f'{what} {d} {t} {off} in {"".join(fmt)!r}: '
                    f'{text!r}; for {f!r} at {i} wanted {cand!r}')
            return False
        rec.ok('directive')
    if i != len(text):
        rec.bad('strftime', f'{what} {d} {t} in {"".join(fmt)!r}: {text!r} '
                f'goes on after {i}')
        return False
    return True


def run_fmt(rec, d, t, off, fmt):
    d, t = tuple(d), tuple(t)
    f = ''.join(fmt)
    tz = None if off is None else D.timezone(dt.timedelta(minutes=off))
    for short in (True, False):
        x = mkdt(d, t, short, tz)
        s = x.strftime(f)
        rec.ok('strftime')
        if not match(rec, s, fmt, d, t, off, short, 'datetime'):
            return
        rec.eq('format', (format(x, f), f'{x:}'), (s, str(x)), f)
        x = mk(d, short)
        s1 = x.strftime(f)
        rec.ok('strftime')
        if not match(rec, s1, fmt, d, (0, 0, 0, 0), None, short, 'date'):
            return
        rec.eq('format', (format(x, f), f'{x:}'), (s1, str(x)), f)
    rec.state(s)
    rec.sample('strftime', f'{d} {t} {f!r} {s!r}')


def run_time(rec, t, off, salt):
    """Time directives of time objects."""
    t = tuple(t)
    tz = None if off is None else D.timezone(dt.timedelta(minutes=off))
    x = D.time(*t, tzinfo=tz)
    fmt = []
    for i, k in enumerate('H -H I M -M S -S f T z :z Z p r % k'.split()):
        if salt >> i & 1:
            fmt += ['%' + k, LIT[salt % len(LIT)]]
    fmt = fmt or ['%H']
    s = x.strftime(''.join(fmt))
    rec.ok('time')
    match(rec, s, fmt, (1, 1, 1), t, off, True, 'time')
    rec.eq('format', (format(x, ''.join(fmt)), f'{x:}'), (s, str(x)), 'time')


class Given(Turn):
    """Without a date it is the offset before."""

    def utcoffset(self, w):
        return super().utcoffset(w) or dt.timedelta(seconds=self.before)

    def tzname(self, w):
        return super().tzname(w) or 'Given'


def run_turn(rec, d, t, seed):
    """The offset and its name where the offset changes."""
    d, t = tuple(d), tuple(t)
    z = turn(random.Random(seed), moment(d, t), 3600)
    for short in (True, False):
        for fold in (0, 1):
            x = mkdt(d, t, short, z, fold)
            rec.ok('turn-double', z.double(x))
            o = z.seconds(x) // 60
            rec.eq('turn', x.strftime('%z|%:z|%Z|%H:%M'),
                   f'{zone(o)}|{zone(o, ":")}|{z.tzname(x)}|'
                   f'{t[0]:02d}:{t[1]:02d}', f'{x!r} fold {fold}')
    x = D.time(*t, tzinfo=z)
    rec.eq('turn', x.strftime('%z|%:z|%Z|%H:%M'),
           f'|||{t[0]:02d}:{t[1]:02d}', f'{t}, the offset needs a date')
    x = D.time(*t, tzinfo=Given(z.at, z.before, z.after))
    o = z.before // 60
    rec.eq('turn', x.strftime('%z|%:z|%Z|%H:%M'),
           f'{zone(o)}|{zone(o, ":")}|Given|{t[0]:02d}:{t[1]:02d}',
           f'{t}, the offset depends on the date')


def build(f, d, t, off):
    """The independent formatter for the formats in PARSE."""
    out, i = '', 0
    while i < len(f):
        if f[i] != '%':
            out += f[i]
            i += 1
            continue
        n = 3 if f[i + 1] in '-:' else 2
        out += expected(f[i + 1:i + n], d, t, off, True)[0]
        i += n
    return out


def run_parse(rec, d, t, off, i, form):
    d, t = tuple(d), tuple(t)
    f, flags = PARSE[i]
    if 'w' in flags and M.isocal(M.ordinal(*d))[1] >= 52:
        return                      # week 52 and 53 are judged by C09
    t = (t[0], t[1], t[2], t[3] if 'u' in flags else 0) if 's' in flags \
        else (0, 0, 0, 0)
    if 'p' in flags and abs(t[0] * 3600 + t[1] * 60 + t[2] - 43200) < 122:
        return
    off = off if 'z' in flags else None
    if 'b' in flags and MON_A[d[1]] == 'Mas' or 'y' in flags and not (
            0 <= d[0] < 100):
        return
    s = build(f, d, t, 0 if 'Z' in flags else off)
    rec.state(s)
    if form == 1:
        s = s.lower()
    elif form == 2 and unicodedata.normalize('NFC', s.upper()) == s.upper() \
            and s.upper().lower() == s.lower():
        s = s.upper() if 'Z' not in f else s
    f = f.replace('%:z', '%z')      # parsing takes both with %z
    x = D.datetime.strptime(s, f)
    rec.eq('strptime', (ymd(x), x.b_time, type(x), x.is_short),
           (d, t, D.datetime, True), f'{s!r} with {f!r}')
    rec.eq('strptime-zone', x.utcoffset(),
           None if off is None else dt.timedelta(minutes=off), s)
    if form == 3:
        y = SP._strptime_time(s, f)
        rec.eq('strptime-time', tuple(y[:8]),
               (*d, *t[:3], M.weekday(M.ordinal(*d)), M.yday(*d)),
               f'{s!r} with {f!r}')
    # What the code itself writes is read back too.
    if not (off and off % 60) and 'Z' not in flags and ('U' not in flags or M.weekday(
            M.ordinal(d[0], 1, 1)) not in (1, 2, 3)):
        z = mkdt(d, t, True, None if off is None else
                 D.timezone(dt.timedelta(minutes=off)))
        w = z.strftime(f)
        back = D.datetime.strptime(w, f)
        rec.eq('round-trip', (ymd(back), back.b_time, back.utcoffset()),
               (d, t, z.utcoffset()), f'{w!r} with {f!r}')
    rec.sample('strptime', f'{s!r} with {f!r}')


def run_zone(rec, d, sec, us, neg, digits):
    """Offsets with seconds and a fraction of a second."""
    d = tuple(d)
    us = us // 10 ** (6 - digits) * 10 ** (6 - digits)
    want = dt.timedelta(seconds=sec, microseconds=us) * (-1 if neg else 1)
    y = f'{d[0]:04d}-{d[1]:02d}-{d[2]:02d}'
    for sep in ('', ':'):
        z = sep.join((f'{"+-"[neg]}{sec // 3600:02d}',
                      f'{sec // 60 % 60:02d}', f'{sec % 60:02d}'))
        if us:
            z += '.' + f'{us:06d}'[:digits]
        for s, f in ((f'{y} {z}', '%Y-%m-%d %z'),
                     (f'{z}/{y} 07', '%z/%Y-%m-%d %H')):
            x = D.datetime.strptime(s, f)
            rec.eq('strptime-zone', (x.utcoffset(), ymd(x)), (want, d), s)
    x = D.datetime.strptime(f'{y} Z', '%Y-%m-%d %z')
    rec.eq('strptime-zone', x.utcoffset(), dt.timedelta(0), f'{y} Z')


def run_loose(rec, d, t, salt):
    """Fields without padding, short fractions, and runs of spaces."""
    d, t = tuple(d), list(t)
    k = salt % 6 + 1
    t[3] = t[3] // 10 ** (6 - k) * 10 ** (6 - k)
    sp = ' ' * (1 + salt // 6 % 3)
    s = (f'{d[0]}/{d[1]}/{d[2]}{sp}{t[0]}:{t[1]}:{t[2]}.' +
         f'{t[3]:06d}'[:k])
    x = D.datetime.strptime(s, '%Y/%m/%d %H:%M:%S.%f')
    rec.eq('strptime', (ymd(x), x.b_time), (d, tuple(t)), s)
    s = f'{d[0]} {M.yday(*d)}'
    rec.eq('strptime', ymd(D.datetime.strptime(s, '%Y %j')), d, s)
    # Fields that are not given are those of the first moment of a day.
    n = M.yday(*d)
    for s, f, w in (
            (f'{d[0]:04d}', '%Y', ((d[0], 1, 1), (0, 0, 0, 0))),
            (f'{d[0]:04d} {d[1]}', '%Y %m', ((d[0], d[1], 1), (0, 0, 0, 0))),
            (f'{d[0]} {n:03d} {t[1]}', '%Y %j %M', (d, (0, t[1], 0, 0)))):
        x = D.datetime.strptime(s, f)
        rec.eq('strptime', (ymd(x), x.b_time), w, f'{s!r} with {f!r}')


def run_damage(rec, d, t, i, salt):
    d, t = tuple(d), tuple(t)
    f, flags = PARSE[i]
    if 'y' in flags and not 0 <= d[0] < 100:
        f, flags = PARSE[0]
    s = build(f, d, (*t[:3], t[3]), 0)
    f = f.replace('%:z', '%z')
    for bad in (s + 'x', 'x' + s, s + ' ', s[:-1] + '#', '', s + s):
        rec.raises('refused', ValueError, D.datetime.strptime, bad, f)
    y, m, dd = d
    yy = f'{y:04d}'
    a = M.ayyam(y)
    for bad, g in ((f'{yy}-00-{a + 1:02d}', '%Y-%m-%d'),
                   (f'{yy}-20-01', '%Y-%m-%d'),
                   (f'{yy}-{m:02d}-00', '%Y-%m-%d'),
                   (f'{yy}-{m:02d}-20', '%Y-%m-%d'),
                   (f'{yy} 000', '%Y %j'), (f'{yy} 367', '%Y %j'),
                   (f'{M.MAX + 3} 001', '%Y %j'), ('24:00', '%H:%M'),
                   (f'{60 + salt % 40}', '%M'), (f'{62 + salt % 38}', '%S'),
                   ('Nodi', '%A'), ('8', '%u'), ('0', '%u'), ('7', '%w'),
                   ('13', '%I'), ('+2460', '%z'), ('+03:3044', '%z'),
                   ('54 1 0181', '%U %w %Y'), ('60 1 0181', '%W %w %Y'),
                   ('+24:00', '%z')):
        rec.raises('refused', (ValueError, AssertionError),
                   D.datetime.strptime, bad, g)
    for g in ('%Q', '%P', '%-P', '%:P', '', '%-', '%:', '%:d', '%-A'):
        rec.raises('refused', ValueError, mk(d).strftime, g)
    for g in ('%Q', '%', '%-d', '%:z', f + '%'):
        rec.raises('refused', ValueError, D.datetime.strptime, s, g)
    for g, text in (('%G %V', f'{yy} 10'), ('%Y %V %u', f'{yy} 10 3'),
                    ('%V %u', '10 3'), ('%G %j', f'{yy} 100')):
        rec.raises('refused', ValueError, D.datetime.strptime, text, g)
    rec.raises('refused', TypeError, D.datetime.strptime, 5, f)
    rec.raises('refused', TypeError, D.datetime.strptime, s, 5)
    rec.raises('refused', TypeError, format, mk(d), 5)
