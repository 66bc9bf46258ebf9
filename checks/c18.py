"""C18: DATE values are always real calendar dates in chronological order."""
import calendar, datetime, itertools, time
from vals import *

VARIANTS = ['plain']
RULE = ('a case is non-trivial when at least one date was constructed and its parts, day of the week or order judged, or an impossible date refused; distinct by program text')
ASSUMPTIONS = ['years 1..32767 (proleptic Gregorian); year 0, negative years and years beyond 32767 are left open except that no other date may result from them',
               'the oracle for the day of the week is a day count from Monday 1 January of year 1, written independently of the code under test and checked against datetime']
MD = [0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mdays(m, y):
    return 29 if m == 2 and leap(y) else MD[m]


def ordinal(d, m, y):
    y1 = y - 1
    return y1 * 365 + y1 // 4 - y1 // 100 + y1 // 400 + sum(mdays(k, y) for k in range(1, m)) + d


def dow(d, m, y):
    return ordinal(d, m, y) % 7 + 1


assert all(dow(t.day, t.month, t.year) == t.isoweekday() % 7 + 1 for t in (datetime.date(1, 1, 1), datetime.date(2024, 2, 29), datetime.date(1900, 3, 1), datetime.date(9999, 12, 31)))


def run(env, text, want, what, **kw):
    o = Obs(env.file(text))
    if o.kind != 'ok' or o.out != want:
        g, w = o.out.split('\n'), want.split('\n')
        k = next((k for k in range(min(len(g), len(w))) if g[k] != w[k]), min(len(g), len(w)))
        raise Fail(what, '', program=numbered(text)[:3000], at='line %d of the output' % (k + 1), expected=w[k:k + 3], observed=g[k:k + 3], outcome=o.kind, stderr=o.err[-500:], **kw)
    env.nontrivial = True


# ------------------------------------------------------------------ every day of a year
YQ = sorted(set([1, 2, 3, 4, 5, 99, 100, 101, 104, 200, 300, 399, 400, 401, 500, 800, 1000, 1200, 1500, 1581, 1582, 1583, 1600, 1700, 1752, 1753, 1799, 1800, 1899, 1900, 1901, 1904, 1969, 1970, 1971, 1999, 2000, 2001, 2004,
                 2037, 2038, 2039, 2096, 2100, 2104, 2400, 3000, 4000, 9996, 9999, 10000, 12000, 20000, 32000, 32764, 32767] + list(range(1, 4001))))


def years_case(src, env, i):
    """SETDATE over every day of a year (inside the interpreter), in order: parts, day of the week, text, and order with the day before"""
    y = YQ[i] if env.tier == 'quick' else i + 1
    lines, want = [], []
    lines = ['DECLARE x, p : DATE', 'DECLARE d, m, y, n : INTEGER', 'DECLARE len : ARRAY[1:12] OF INTEGER', 'y <- %d' % y]
    for m in range(1, 13):
        lines.append('len[%d] <- %d' % (m, mdays(m, y)))
    before = (31, 12, y - 1) if y > 1 else None
    lines.append('n <- 0')
    if before:
        lines += ['p <- SETDATE(31, 12, y - 1)', 'n <- 1']
    lines += ['FOR m <- 1 TO 12', '  FOR d <- 1 TO len[m]', '    x <- SETDATE(d, m, y)', '    OUTPUT x, " ", DAYINDEX(x), " ", DAY(x), " ", MONTH(x), " ", YEAR(x)',
              '    IF n > 0 THEN', '      IF NOT (p < x) OR NOT (p <= x) OR p > x OR p >= x OR p = x OR NOT (p <> x) OR x < p OR NOT (x > p) OR NOT (x = x) OR NOT (x >= p) THEN', '        OUTPUT "order ", p, " ", x', '      ENDIF', '    ENDIF',
              '    p <- x', '    n <- n + 1', '  NEXT d', 'NEXT m']
    for m in range(1, 13):
        for d in range(1, mdays(m, y) + 1):
            want.append('%d/%d/%d %d %d %d %d' % (d, m, y, dow(d, m, y), d, m, y))
    run(env, '\n'.join(lines) + '\n', '\n'.join(want) + '\n', 'a day of the year %d differs from the calendar' % y)
    env.digest = 'year %d' % y
    env.sample = dict(year=y, days=len(want))
    env.mark('leap' if leap(y) else 'common', 'days %d' % len(want))


# ------------------------------------------------------------------ every (day, month) of a year as a literal and through SETDATE, valid or not
LY = [1, 4, 100, 400, 1583, 1700, 1800, 1899, 1900, 1904, 1970, 1999, 2000, 2001, 2023, 2024, 2038, 2100, 2400, 9999, 12345, 32767]


def forms(d, m, y, k):
    """ways to write the literal"""
    r = ['%d/%d/%d' % (d, m, y)]
    if k == 1:
        r = ['%02d/%02d/%04d' % (d, m, y)]
    if k == 2:
        z = lambda n: '0' * ((d * 5 + m * 7 + y + n) % 23)
        r = ['%s%d/%s%d/%s%d' % (z(0), d, z(9), m, z(14), y)]
    return r[0]


def sess(env, items, what, pre=()):
    """items: (entry, expected output or None for a runtime error)"""
    res, r = session(env, list(pre) + [t for t, _ in items])
    for (t, want), e in zip(items, res[len(pre):]):
        if want is None and e.kind == 'runtime' and e.out == '':
            continue
        if want is not None and e.kind == 'ok' and e.out == want:
            continue
        raise Fail(what, '', entry=t, expected='runtime error' if want is None else repr(want), observed=repr(e))
    env.nontrivial = True


def literals_case(src, env, i):
    y, part = LY[i // 4], i % 4
    items = []
    # targets keep their value when a bad date is refused
    pre = ['DECLARE keep : DATE', 'keep <- 5/6/2007']
    lit = part < 2
    last = '5/6/2007\n'
    ds = range(0, 34) if lit else range(-1, 34)
    ms = range(0, 15) if lit else range(-1, 15)
    for m in ms:
        for d in ds:
            ok = 1 <= m <= 12 and 1 <= d <= mdays(m, y)
            e = forms(d, m, y, (d + m + part) % 3) if lit else 'SETDATE(%d, %d, %d)' % (d, m, y)
            if part % 2 == 0:
                items.append(('OUTPUT %s' % e, '%d/%d/%d\n' % (d, m, y) if ok else None))
            else:
                items.append(('keep <- %s' % e, '' if ok else None))
                if ok:
                    last = '%d/%d/%d\n' % (d, m, y)
                items.append(('OUTPUT keep', last))
    sess(env, items, 'a date of the year %d is not accepted exactly when it exists' % y, pre)
    env.digest = 'literals %d %d' % (y, part)
    env.sample = dict(entries=[t for t, _ in items[:8]])
    env.mark('year %d' % y, 'literal' if lit else 'SETDATE')


FAR = [1 << 8, (1 << 8) + 1, (1 << 8) + 28, 1 << 16, (1 << 16) + 1, (1 << 16) + 5, 1 << 31, (1 << 31) + 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 12, (1 << 32) + 2000, (1 << 62) + 1, (1 << 63) - 1, 32, 99, 100, 256 + 12, 1 << 40]


def far_case(src, env, i):
    """components beyond any calendar never wrap around into a date"""
    items = []
    for v in FAR:
        for n in (v, -v):
            for e in ('SETDATE(%d, 1, 2020)' % n, 'SETDATE(1, %d, 2020)' % n):
                items.append(('OUTPUT ' + e, None))
            if n > 0:
                items += [('OUTPUT %d/1/2020' % n, None), ('OUTPUT 1/%d/2020' % n, None), ('x <- 0%d/2/2020' % n, None)]
            if not 0 < n <= 32767:
                # a year beyond the range: refused, or kept as it is
                items.append(('OUTPUT SETDATE(1, 2, %d)' % n, ('1/2/%d\n' % n,)))
    items.append(('OUTPUT SETDATE(29, 2, 2020)', '29/2/2020\n'))
    res, r = session(env, [t for t, _ in items])
    for (t, want), e in zip(items, res):
        if e.kind == 'runtime' and (want is None or isinstance(want, tuple)):
            continue
        if e.kind == 'syntax' and want is None and 'SETDATE' not in t:
            continue    # a component that is no INTEGER at all
        if e.kind == 'ok' and want is not None and e.out in want:
            continue
        raise Fail('components outside the calendar are not refused', '', entry=t, expected=want, observed=repr(e))
    env.nontrivial = True
    env.digest = 'far'


# ------------------------------------------------------------------ order of all pairs
PTS = [(1, 1, 1), (31, 12, 1), (1, 1, 2), (28, 2, 4), (29, 2, 4), (1, 3, 4), (31, 12, 99), (1, 1, 100), (28, 2, 1900), (1, 3, 1900), (31, 12, 1999), (1, 1, 2000), (30, 1, 2000), (31, 1, 2000), (1, 2, 2000), (29, 2, 2000), (1, 3, 2000), (2, 1, 2000), (1, 12, 2000), (12, 1, 2000), (31, 12, 2000), (30, 12, 2000),
       (1, 1, 2001), (15, 6, 2023), (16, 6, 2023), (15, 7, 2023), (14, 7, 2023), (15, 6, 2024), (1, 1, 9999), (31, 12, 9999), (1, 1, 10000), (1, 1, 32767), (31, 12, 32767), (30, 11, 32767), (28, 2, 2023), (1, 3, 2023), (31, 3, 2023), (1, 4, 2023), (30, 4, 2023), (1, 5, 2023)]
CMP = ['=', '<>', '<', '<=', '>', '>=']
PYC = {'=': lambda a, b: a == b, '<>': lambda a, b: a != b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}
TF = {True: 'TRUE', False: 'FALSE'}


def key(t):
    return t[2], t[1], t[0]


def pairs(env, ps, mode):
    pre = ['DECLARE a, b : DATE', 'DECLARE v : ARRAY[1:2] OF DATE', 'DECLARE r : BOOLEAN']
    items = []
    for a, b in ps:
        la, lb = '%d/%d/%d' % a, '%d/%d/%d' % b
        if mode == 0:
            x, y = la, lb
        elif mode == 1:
            items += [('a <- ' + la, ''), ('b <- SETDATE(%d, %d, %d)' % b, '')]
            x, y = 'a', 'b'
        elif mode == 2:
            items += [('v[1] <- ' + la, '')]
            x, y = 'v[1]', lb
        else:
            x, y = 'SETDATE(%d, %d, %d)' % a, lb
        for o in CMP:
            items.append(('OUTPUT (%s) %s (%s)' % (x, o, y), TF[PYC[o](key(a), key(b))] + '\n'))
        items.append(('IF %s < %s THEN\n OUTPUT "lt"\nELSE\n OUTPUT "ge"\nENDIF' % (x, y), 'lt\n' if key(a) < key(b) else 'ge\n'))
    sess(env, items, 'a comparison of dates is not chronological', pre)
    env.digest = repr(items)
    env.sample = dict(entries=[t for t, _ in items[:8]])


def pairs_case(src, env, i):
    a = PTS[i // 4]
    pairs(env, [(a, b) for b in PTS], i % 4)
    env.mark(['literals', 'variables', 'element', 'call'][i % 4])


def anyd(src):
    y = src.pick([src.int(1, 9999), src.int(1900, 2100), src.int(1, 32767)])
    m = src.int(1, 12)
    return src.int(1, mdays(m, y)), m, y


def near(src, t):
    k = src.n(5)
    d, m, y = t
    if k == 0:
        return t
    if k == 1:
        return src.int(1, mdays(m, y)), m, y
    if k == 2:
        m = src.int(1, 12)
        return min(d, mdays(m, y)), m, y
    if k == 3:
        y = max(1, min(32767, y + src.int(-3, 3)))
        return min(d, mdays(m, y)), m, y
    return anyd(src)


def random_case(src, env, i):
    ps = []
    for _ in range(10):
        a = anyd(src)
        ps.append((a, near(src, a)))
    pairs(env, ps, src.n(4))


# ------------------------------------------------------------------ dates wherever a value can be: parameters, records, files, sorting
def places_case(src, env, i):
    n = src.int(2, 9)
    ds = [anyd(src) for _ in range(n)]
    for k in range(1, n):
        if src.chance(50):
            ds[k] = near(src, ds[k - 1])
    kind = i % 4
    L_ = []
    want = []
    if kind == 0:
        # bubble sort of an array of dates
        L_ = ['DECLARE v : ARRAY[1:%d] OF DATE' % n, 'DECLARE t : DATE']
        for k, d in enumerate(ds):
            L_.append('v[%d] <- %d/%d/%d' % ((k + 1,) + d))
        L_ += ['FOR i <- 1 TO %d' % (n - 1), '  FOR j <- 1 TO %d - i' % n, '    IF v[j] > v[j + 1] THEN', '      t <- v[j]', '      v[j] <- v[j + 1]', '      v[j + 1] <- t', '    ENDIF', '  NEXT j', 'NEXT i', 'FOR i <- 1 TO %d' % n, '  OUTPUT v[i], " ", DAYINDEX(v[i])', 'NEXT i']
        want = ['%d/%d/%d %d' % (d + (dow(*d),)) for d in sorted(ds, key=key)]
    elif kind == 1:
        # parameters, results and records
        L_ = ['TYPE Ev', '  DECLARE at : DATE', '  DECLARE v : ARRAY[1:2] OF DATE', 'ENDTYPE', 'FUNCTION Later(a : DATE, b : DATE) RETURNS DATE', '  IF a >= b THEN', '    RETURN a', '  ENDIF', '  RETURN b', 'ENDFUNCTION',
              'PROCEDURE Put(BYREF e : Ev, BYVAL d : DATE)', '  e.at <- d', '  e.v[1] <- Later(d, e.v[2])', 'ENDPROCEDURE', 'DECLARE e, f : Ev', 'e.v[2] <- %d/%d/%d' % ds[0]]
        for d in ds[1:]:
            L_ += ['CALL Put(e, %d/%d/%d)' % d, 'f <- e', 'OUTPUT f.at, " ", f.v[1], " ", e.v[2], " ", f.at = e.at']
            want.append('%d/%d/%d %d/%d/%d %d/%d/%d TRUE' % (d + max(d, ds[0], key=key) + ds[0]))
    elif kind == 2:
        # text and random files
        L_ = ['OPENFILE "t" FOR WRITE', 'OPENFILE "r" FOR RANDOM', 'DECLARE d, e : DATE']
        for k, d in enumerate(ds):
            L_ += ['d <- %d/%d/%d' % d, 'WRITEFILE "t", d', 'SEEK "r", %d' % (k + 1), 'PUTRECORD "r", d']
        L_ += ['CLOSEFILE "t"', 'CLOSEFILE "r"', 'OPENFILE "t" FOR READ', 'OPENFILE "r" FOR RANDOM', 'DECLARE s : STRING']
        for k, d in enumerate(ds):
            L_ += ['READFILE "t", s', 'SEEK "r", %d' % (k + 1), 'GETRECORD "r", e', 'OUTPUT s, " ", e, " ", e = %d/%d/%d, " ", DAYINDEX(e)' % d]
            want.append('%d/%d/%d %d/%d/%d TRUE %d' % (d + d + (dow(*d),)))
    else:
        # concatenation, rebuilding from the parts
        for k, d in enumerate(ds):
            L_ += ['c%d <- %d/%d/%d' % ((k,) + d), 'x%d <- SETDATE(DAY(c%d), MONTH(c%d), YEAR(c%d))' % (k, k, k, k), 'OUTPUT x%d, " ", x%d = c%d, " ", "d " & c%d, " ", DAYINDEX(x%d)' % (k, k, k, k, k)]
            want.append('%d/%d/%d TRUE d %d/%d/%d %d' % (d + d + (dow(*d),)))
    run(env, '\n'.join(L_) + '\n', '\n'.join(want) + '\n', 'a date is not kept')
    env.digest = '\n'.join(L_)
    env.sample = dict(program='\n'.join(L_)[:700])
    env.mark(['sorted', 'records', 'files', 'parts'][kind])


def today_case(src, env, i):
    text = 't <- TODAY()\nOUTPUT t, " ", SETDATE(DAY(t), MONTH(t), YEAR(t)) = t, " ", DAYINDEX(t)\n'
    a = datetime.datetime.now(datetime.timezone.utc).date()
    o = Obs(env.file(text))
    b = datetime.datetime.now(datetime.timezone.utc).date()
    ok = ['%d/%d/%d TRUE %d\n' % (t.day, t.month, t.year, t.isoweekday() % 7 + 1) for t in (a, b)]
    if o.kind != 'ok' or o.out not in ok:
        raise Fail('TODAY is not today', '', program=text, expected=ok, observed=o.kind + o.out, stderr=o.err)
    env.nontrivial = True
    env.digest = 'today'


# ------------------------------------------------------------------ day arithmetic over long spans: consecutive dates have consecutive days of the week
def spans_case(src, env, i):
    """the interpreter walks a random span day by day with its own calendar arithmetic; only disagreements are printed"""
    d, m, y = anyd(src)
    n = src.int(200, 1500)
    text = '\n'.join(['DECLARE d, m, y, w, k : INTEGER', 'DECLARE x, p : DATE', 'd <- %d' % d, 'm <- %d' % m, 'y <- %d' % y, 'x <- SETDATE(d, m, y)', 'w <- DAYINDEX(x)', 'OUTPUT w',
                      'FOR k <- 1 TO %d' % n, '  d <- d + 1', '  IF d > 28 THEN', '    CALL Norm()', '  ENDIF', '  p <- x', '  x <- SETDATE(d, m, y)', '  w <- w MOD 7 + 1', '  IF DAYINDEX(x) <> w OR p >= x THEN', '    OUTPUT "bad ", x', '  ENDIF', 'NEXT k', 'OUTPUT x'])
    norm = '\n'.join(['PROCEDURE Norm()', '  DECLARE l : INTEGER', '  l <- 31', '  IF m = 4 OR m = 6 OR m = 9 OR m = 11 THEN', '    l <- 30', '  ENDIF', '  IF m = 2 THEN', '    l <- 28', '    IF y MOD 4 = 0 AND (y MOD 100 <> 0 OR y MOD 400 = 0) THEN', '      l <- 29', '    ENDIF', '  ENDIF',
                      '  IF d > l THEN', '    d <- 1', '    m <- m + 1', '    IF m > 12 THEN', '      m <- 1', '      y <- y + 1', '    ENDIF', '  ENDIF', 'ENDPROCEDURE'])
    w = dow(d, m, y)
    D, M, Y = d, m, y
    for _ in range(n):
        D += 1
        if D > mdays(M, Y):
            D, M = 1, M + 1
            if M > 12:
                M, Y = 1, Y + 1
    if Y > 32767:
        raise Skip('beyond the years considered')
    run(env, norm + '\n' + text + '\n', '%d\n%d/%d/%d\n' % (w, D, M, Y), 'a span of days differs from the calendar')
    env.digest = text
    env.sample = dict(start=(d, m, y), days=n)


STREAMS = [
    Stream('years', years_case, len(YQ), 32767, exhaustive=True),
    Stream('literals', literals_case, len(LY) * 4, len(LY) * 4, exhaustive=True),
    Stream('far', far_case, 1, 1, exhaustive=True),
    Stream('pairs', pairs_case, len(PTS) * 4, len(PTS) * 4, exhaustive=True),
    Stream('random', random_case, 1200, 20000),
    Stream('places', places_case, 4000, 30000),
    Stream('spans', spans_case, 400, 4000),
    Stream('today', today_case, 4, 4),
]
