"""Results do not depend on other threads nor on what was asked before."""
import os
import pickle
import random
import sys
import threading
import time

from ..api import (B, BC, D, GC, M, PLACES, T, day, gap, hms, is_fudge,
                   long_of, mk, mkdt, usec)

PROP = 'C26'
RULE = ('cases are sets of operations run alone, in other orders, and in '
        'threads that are made to switch inside the code; every result is '
        'compared with the one got alone; distinct: the interleavings (which '
        'thread ran after which at which line)')
ASSUMPTIONS = ['the values and calendar objects are shared between threads; '
               'set_local_coordinates and init_leap_cache are not called by '
               'one thread while others convert',
               'switches happen between lines of the code']
REQUIRED = {'threads': 8000, 'order': 5500, 'switches': 30000,
            'fresh': 2500, 'hot': 8000, 'after-errors': 1300, 'globals': 100,
            'same-object': 900, 'barrier': 100}
CPU_LIMIT = 600
SRC = os.path.dirname(os.path.abspath(B.__file__)) + os.sep
FORMATS = ('%Y-%m-%d %H:%M:%S', '%d/%m/%Y %H.%M', '%Y %j %H:%M:%S.%f',
           '%A, %B %d, %Y', '%I:%M:%S %p %Y-%m-%d', '%Y%m%d', '%G-W%V-%u',
           '%Y-%m-%dT%H:%M:%S%z', '[%d] %B (%Y) %M', '%H%M%S %d %m %Y')
KINDS = ('sunset', 'to', 'from', 'stamp', 'unstamp', 'greg', 'midday',
         'format', 'parse', 'isoparse', 'equinox', 'sum', 'compare', 'hash',
         'pickle', 'nutation', 'tuple', 'riseset', 'now-like', 'iso', 'time', 'long')


def gen(rng, tier, part, parts):
    for i in range(2 if tier == 'quick' else 10):
        ops = []
        for j in range(24 if tier == 'quick' else 40):
            while True:
                d = day(rng)
                if not (gap(d) or is_fudge(d[0]) or d[0] in (M.MIN, M.MAX)):
                    break
            ops.append([KINDS[rng.randrange(len(KINDS))], d,
                        [*hms(rng), usec(rng)],
                        sorted(PLACES)[rng.randrange(len(PLACES))],
                        rng.choice(FORMATS), rng.uniform(-6e10, 3e10),
                        rng.randrange(2)])
        yield ['ops', ops, rng.randint(2, 5), rng.randint(0, 2 ** 30),
               rng.random() < 0.3]
    for i in range(1 if tier == 'quick' else 8):
        kind = KINDS[(part + i * 7) % len(KINDS)]
        ops = []
        for j in range(8):
            while True:
                d = day(rng)
                if j % 2:  # the end of the year, leap and not
                    y = rng.randint(1, 1150)
                    while M.leap(y) != (j % 4 == 1):
                        y += 1
                    d = [y, *rng.choice(((19, rng.randint(1, 19)), (19, 1),
                                         (0, M.ayyam(y))))]
                if not (gap(d) or is_fudge(d[0]) or d[0] in (M.MIN, M.MAX)):
                    break
            ops.append([kind, d, [*hms(rng), usec(rng)],
                        sorted(PLACES)[rng.randrange(len(PLACES))],
                        rng.choice(FORMATS), rng.uniform(-6e10, 3e10),
                        j // 2 % 2])
        yield ['hot', ops, rng.randint(2, 4), rng.randint(0, 2 ** 30)]


def run(rec, case):
    globals()['run_' + case[0]](rec, *case[1:])


class Do:
    """The operations, on one set of shared objects."""

    def __init__(self, bc, gc):
        self.bc, self.gc = bc, gc
        self.tz = {k: D.TZWithCoords(*p) for k, p in PLACES.items()}

    def __call__(self, op):
        try:
            return self.one(*op)
        except Exception as e:
            return type(e).__name__, str(e)

    def one(self, kind, d, t, pl, fmt, ts, short):
        d, t = tuple(d), tuple(t)
        p = PLACES[pl]
        bc = self.bc
        if kind == 'sunset':
            return bc.utc_sunset(d, *p), bc.naw_ruz_g_date(d[0], *p)
        if kind == 'to':
            return bc.jd_from_badi_date(d + t[:3], *p)
        if kind == 'from':
            return bc.badi_date_from_jd(ts / 86400 + 2440587.5, *p, us=True,
                                        short=bool(short))
        if kind == 'stamp':
            return str(D.datetime.fromtimestamp(ts, self.tz[pl]))
        if kind == 'unstamp':
            return mkdt(d, t, short).timestamp()
        if kind == 'greg':
            g = bc.gregorian_date_from_badi_date(d + t[:3], *p)
            return g, bc.badi_date_from_gregorian_date(g, *p, us=True)
        if kind == 'midday':
            return bc.midday(d, _short=True), T.midday(d, _short=True)
        if kind == 'format':
            x = mkdt(d, t, short, self.tz[pl])
            return x.strftime(fmt), x.strftime('%c %p %U %j %K'), str(x)
        if kind == 'parse':
            text = mkdt(d, t, True, D.BADI).strftime(fmt)
            return text, repr(D.datetime.strptime(text, fmt))
        if kind == 'isoparse':
            x = mkdt(d, t, short)
            y, n = d[0], M.yday(*d)
            more = () if -999 <= y < 0 else (
                f'{y:04d}{n:03d}', f'{y:04d}-{n:03d}', f'{y:04d}-W07-3',
                f'{y:04d}{d[1]:02d}{d[2]:02d}', f'{y:04d}W091')
            return [repr(D.datetime.fromisoformat(s))
                    for s in (x.isoformat(), *more)]
        if kind == 'equinox':
            return bc._find_moment_of_equinoxes_or_solstices(
                1721060 + 365.2425 * ((d[0] + 1850) % 2900 + 3), lam=90 * short)
        if kind == 'sum':
            x = mkdt(d, t, short)
            y = x + D.timedelta(days=t[0], seconds=t[1])
            return str(y), str(y - x), mk(d, short).toordinal()
        if kind == 'compare':
            x, y = mkdt(d, t, True), mkdt(d, t, False)
            return x == y, x <= y, x < y + D.timedelta(seconds=1)
        if kind == 'hash':
            return hash(mkdt(d, t, short)), hash(mk(d, short))
        if kind == 'pickle':
            x = mkdt(d, t, short, self.tz[pl])
            y = pickle.loads(pickle.dumps(x))
            return str(y), x == y, y.tzinfo.coordinates
        if kind == 'nutation':
            tc = ts / 3e9
            return (bc._nutation_longitude(tc), bc._nutation_obliquity(tc),
                    bc._true_obliquity_of_ecliptic(tc),
                    bc._nutation_longitude(tc, degrees=bool(short)),
                    bc._nutation_obliquity(tc, degrees=not short),
                    self.gc._sun_apparent_declination(tc))
        if kind == 'tuple':
            x = mkdt(d, t, short, self.tz[pl])
            return tuple(x.timetuple()), tuple(x.utctimetuple()), x.ctime()
        if kind == 'riseset':
            jd = ts / 86400 + 2440587.5
            return (bc._sun_rising(jd, *p[:2]), bc._sun_setting(jd, *p[:2]),
                    bc._sun_transit(jd, p[1]))
        if kind == 'now-like':
            return str(D.date.fromtimestamp(ts, short=bool(short)))
        if kind == 'iso':
            x = mk(d, short)
            c = x.isocalendar()
            return tuple(c), str(D.date.fromisocalendar(d[0], 9, 1 + short))
        if kind == 'time':
            x = D.time(*t, tzinfo=self.tz[pl])
            return (str(x), x.strftime('%H:%M:%S.%f %p %z'), hash(x),
                    repr(D.time.fromisoformat('T%02d:%02d' % t[:2])))
        return (bc.long_date_from_short_date(d + t[:3], trim=True),
                bc.short_date_from_long_date(long_of(d) + t[:3]))


def state():
    """Module and class data that no operation may change."""
    return (B.BahaiCalendar._YEAR_START, D.LOCAL_COORD, D.UTC.coordinates,
            D.BADI.coordinates, tuple(B.MONTHNAMES), tuple(B.DAYNAMES),
            B.BahaiCalendar._RD_END)


class Switcher:
    """Counts where one thread follows another, and makes them do so."""

    def __init__(self, seed, rate):
        self.rng = random.Random(seed)
        self.rate = rate
        self.last = None
        self.count = 0
        self.seen = set()

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        return self.line

    def line(self, frame, event, arg):
        me = threading.get_ident()
        if self.last != me:
            self.count += 1
            self.seen.add((frame.f_code.co_name, frame.f_lineno))
            self.last = me
        if self.rng.random() < self.rate:
            time.sleep(0)
        return self.line


def run_ops(rec, ops, n, seed, traced):
    rng = random.Random(seed)
    before = pickle.dumps(state())
    alone = {}
    for i, op in enumerate(ops):
        # A new object for each: nothing was asked before.
        alone[i] = Do(B.BahaiCalendar(), B.GregorianCalendar())(op)
    do = Do(BC, GC)
    for k in range(2):
        order = list(range(len(ops)))
        rng.shuffle(order)
        for i in order:
            got = do(ops[i])
            rec.expect(got == alone[i], 'order', 'order', lambda: f'{ops[i]}:'
                       f' {got} in another order, alone {alone[i]}')
    errors(rec, do, ops, alone, rng)
    for i, op in enumerate(ops):
        if op[0] in ('to', 'from', 'sunset', 'riseset', 'nutation', 'midday',
                     'greg', 'equinox'):
            rec.expect(do(op) == alone[i], 'same-object', 'same-object',
                       lambda: f'{op} twice')
            rec.expect(do(op) == alone[i], 'fresh', 'fresh',
                       lambda: f'{op} by a used object')
        else:
            rec.ok('fresh')
    in_threads(rec, do, ops, alone, n, rng, traced)
    rec.eq('globals', pickle.dumps(state()) == before, True, 'module data')


def run_hot(rec, ops, n, seed):
    """One operation in many threads at once."""
    rng = random.Random(seed)
    alone = {i: Do(B.BahaiCalendar(), B.GregorianCalendar())(op)
             for i, op in enumerate(ops)}
    do = Do(BC, GC)
    for traced in (True, False):
        in_threads(rec, do, ops, alone, n, rng, traced, 1 if traced else 8,
                   'hot')


def errors(rec, do, ops, alone, rng):
    """Refused calls in between leave nothing behind."""
    for i in rng.sample(range(len(ops)), len(ops) // 2):
        for fn in (lambda: BC.jd_from_badi_date((1, 0, 6)),
                   lambda: D.datetime.strptime('1-1', '%Q'),
                   lambda: D.datetime.strptime('1-1', '%Y-%m-%d'),
                   lambda: D.datetime.fromisoformat('0001-01-99'),
                   lambda: D.date(1, 20, 1),
                   lambda: BC.badi_date_from_jd(1e9),
                   lambda: BC._meeus_from_exact(2299155),
                   lambda: mk((1, 1, 1)).strftime('')):
            try:
                fn()
            except Exception:
                pass
        got = do(ops[i])
        rec.expect(got == alone[i], 'after-errors', 'after-errors',
                   lambda: f'{ops[i]}: {got} after errors, alone {alone[i]}')


def in_threads(rec, do, ops, alone, n, rng, traced, times=1,
               event='threads'):
    out = []
    start = threading.Barrier(n)
    sw = Switcher(rng.randrange(2 ** 30), 0.03 if times == 1 else 0.06)

    def work(order):
        start.wait(60)
        res = []
        if traced:
            sys.settrace(sw.trace)
        try:
            for i in order * times:
                res.append((i, do(ops[i])))
        finally:
            sys.settrace(None)
        out.append(res)

    threads = []
    for k in range(n):
        order = list(range(len(ops)))
        rng.shuffle(order)
        threads.append(threading.Thread(target=work, args=(order,)))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        for th in threads:
            th.start()
        for th in threads:
            th.join()
    finally:
        sys.setswitchinterval(old)
    rec.ok('barrier')
    rec.expect(len(out) == n, event, 'thread-died', f'{len(out)} of {n}')
    for res in out:
        for i, got in res:
            rec.expect(got == alone[i], event, 'threads',
                       lambda: f'{ops[i]}: {got} beside other threads, alone '
                       f'{alone[i]}')
    if traced:
        rec.ok('switches', sw.count)
        for s in sw.seen:
            rec.state(s)
