"""C17: string, character, conversion and numeric built-ins meet their contracts."""
import itertools, math
from vals import *

VARIANTS = ['plain', 'san']
RULE = ('a case is non-trivial when at least one call of a built-in was judged against its contract (value, or refusal of a position or length outside the string); '
        'distinct by session or program text')
ASSUMPTIONS = ['left open: MID(s, LENGTH(s)+1, 0), IS_NUM of "" and ".", texts that some notation reads as a number (signs, exponents, hexadecimal, inf, nan, surrounding blanks), '
               'upper and lower case, ASC and CHR beyond 127, INT beyond 2^62, RAND of a negative number, decimal numerals beyond 15 significant digits except within 2 units in the last place',
               'REAL results are compared with = against the exact decimal expansion of the expected double']


def call(f, *a):
    return ('call', f, list(a))


def cast(t, e):
    return ('cast', t, e)


def shows(e, t):
    """statement that outputs the value of a call exactly"""
    if t is STRING:
        return [assign('r', e), out(call('LENGTH', V('r')), S('['), V('r'), S(']'))]
    if t is CHAR:
        return [assign('k', e), out(S('['), V('k'), S(']'))]
    return [out(e)]


PRE = [decl(STRING, 'r', 's', 't'), decl(CHAR, 'k'), decl(INTEGER, 'i', 'n'), decl(REAL, 'x')]


def judged(env, entries, pre=PRE, variant='plain'):
    m, rows = msession(env, entries, pre=pre, variant=variant)
    if m.cut:
        raise Skip('open: ' + m.cut)
    env.nontrivial = True
    bad = sum(r[1][0] != 'ok' for r in rows)
    env.mark('with refused calls' if bad else 'without refused calls')
    return rows


# ------------------------------------------------------------------ LEFT, RIGHT, MID: every position and length
BASE = ['', 'a', 'ab', 'abc', 'abcd', 'abcde', 'abcdef', 'abcdefg', 'abcdefgh', 'aa', 'aba', '   ', 'a b', '\n', 'a\nb', '\x00', 'a\x00b', '\xff\x80', '"', "'", 'x' * 15, 'y' * 16, 'z' * 17, 'abcdefghijklmnopqrstuvwxyz' * 3]
FAR = [(1 << 63) - 1, -(1 << 63) + 1, 1 << 62, 1 << 32, (1 << 32) + 1, (1 << 31) - 1, 1 << 31, -(1 << 32), -(1 << 31), (1 << 63) - 2, 1 << 16, 256, 257]


def positions(n):
    p = list(range(-2, n + 3))
    if n > 20:
        p = [-1, 0, 1, 2, 15, 16, 17, n // 2, n - 1, n, n + 1, n + 2]
    return p


SL = [(b, f, v) for b in BASE for f in ('LEFT', 'RIGHT', 'MID') for v in range(2)]


def slices_case(src, env, i):
    s, f, byvar = SL[i]
    n = len(s)
    entries = [assign('s', str_expr(s))] if byvar else []
    e = V('s') if byvar else str_expr(s)
    if f == 'MID':
        pos = positions(n)
        args = [(a, b) for a in pos for b in pos if not (b == 0 and a == n + 1)] + [(a, b) for a in (0, 1, n, n + 1) for b in FAR] + [(a, b) for a in FAR for b in (0, 1, n, FAR[0])]
    else:
        args = [(a,) for a in positions(n) + FAR]
    for a in args:
        if a == (n + 1, 0):
            continue
        if byvar == 1 and len(a) == 2:
            entries += [assign('i', L(a[0])), assign('n', L(a[1]))] + shows(call(f, e, V('i'), V('n')), STRING)
        else:
            entries += shows(call(f, e, *map(L, a)), STRING)
    entries += [out(call('LENGTH', e))]
    # under AddressSanitizer: a read outside the string is reported even if the result looks right
    judged(env, entries, variant='san')
    env.mark(f, 'length %d' % n)


# ------------------------------------------------------------------ every character code
def char_case(src, env, i):
    lo = i * 8
    entries = []
    for c in range(lo, lo + 8):
        if c <= 127:
            entries += [out(call('ASC', chr_expr(c)))] + shows(call('CHR', L(c)), CHAR) + [out(call('ASC', call('CHR', L(c)))), assign('i', L(c)), assign('k', call('CHR', V('i'))), out(call('ASC', V('k')))]
            for f in ('UCASE', 'LCASE'):
                entries += shows(call(f, chr_expr(c)), CHAR) + [out(call('ASC', call(f, chr_expr(c))))]
            for f in ('TO_UPPER', 'TO_LOWER'):
                for w in ('%s', 'a%sZ', '%s%s', 'mN%s', '1%s.'):
                    entries += shows(call(f, str_expr(w.replace('%s', chr(c)))), STRING)
        entries += [out(call('LENGTH', str_expr('a' + chr(c)))), out(call('LENGTH', chr_expr(c)))]
        for f, a in (('LEFT', (2,)), ('RIGHT', (1,)), ('MID', (2, 1)), ('MID', (1, 3)), ('LEFT', (4,)), ('RIGHT', (0,))):
            entries += shows(call(f, str_expr('a' + chr(c) + 'b'), *map(L, a)), STRING)
    judged(env, entries, variant='san')
    env.digest = 'chars %d' % i


def open_upper_case(src, env, i):
    """strings with characters beyond ASCII: the ASCII part is converted, the length stays (no model)"""
    n = src.int(1, 8)
    s = ''.join(chr(src.n(256)) if src.chance(50) else src.pick('azAZ09@[`{') for _ in range(n))
    if i < 256:
        s = 'aZ' + chr(i) + 'zA'
    f, py = [('TO_UPPER', str.upper), ('TO_LOWER', str.lower)][i % 2] if i >= 256 else [('TO_UPPER', str.upper), ('TO_LOWER', str.lower)][src.n(2)]
    p = [decl(STRING, 'r'), assign('r', call(f, str_expr(s))), out(call('LENGTH', V('r')), S('['), V('r'), S(']'))]
    text = render(unshare(p))
    o = Obs(env.file(text))
    head = '%d[' % len(s)
    ok = o.kind == 'ok' and o.out.startswith(head) and o.out.endswith(']\n') and len(o.out) == len(head) + len(s) + 2
    if ok:
        r = o.out[len(head):-2]
        ok = all(ord(a) > 127 or b == py(a) for a, b in zip(s, r))
    if not ok:
        raise Fail('%s is not the documented string' % f, '', program=numbered(text), text=repr(s), observed=o.kind + repr(o.out), stderr=o.err[-500:])
    env.digest = text
    env.nontrivial = True
    env.mark(f)


# ------------------------------------------------------------------ numerals
def words(alpha, n):
    return [''.join(p) for k in range(1, n + 1) for p in itertools.product(alpha, repeat=k)]


NUMS = [w for w in words('01.', 6) + words('0123456789.', 3) + words('19.5', 4) if NUMERAL.fullmatch(w)]
NUMS = sorted(set(NUMS), key=lambda w: (len(w), w))
NUMS_T = sorted({w for w in words('0123456789.', 4) + words('0159.', 6) + words('01.', 9) if NUMERAL.fullmatch(w)}, key=lambda w: (len(w), w))
NONS = [w for w in words('1.a-', 4) + words('0x e', 4) + words('5,+\n', 3) + words('19.', 5) + words('1.e', 5) + words('1.E+', 4) + words('1.f', 4) + words('1.x', 4) + words("1.'_,", 4) + words('1. ', 4) + words('1+-', 4) + words('1.\x00', 4) + words('1.:/', 4) if not NUMERAL.fullmatch(w)] + ['', 'abc', '12x', 'x12', '1 2', '1.2.3', '..', 'TRUE', '12/3', '5%', '$5', '1e', 'e5', '1e5x', '--5', '5-', '1-2', '\xd9\xa3', '\x00', '5\x00', '\x005', '5 5', 'one', 'NaNa', 'infi', '0x', '0xg', '1\n2', '12a', 'a12', '1a2', 'I', 'O', 'l', '\xbd', '\xb2', '5\xff']
NONS = sorted(set(NONS), key=lambda w: (len(w), w))
PER = 30


def num_entries(w, var):
    e = V('s') if var else str_expr(w)
    r = [assign('s', str_expr(w))] if var else []
    numeral = NUMERAL.fullmatch(w)
    is_open = ANY_NOTATION.fullmatch(w) and not numeral
    if not (is_open or w in ('', '.')):
        r.append(out(call('IS_NUM', e)))
    if is_open:
        return []
    v = float(w) if numeral else 0.0
    ref = real_expr(v)
    r += [out(B('=', call('STR_TO_NUM', e), ref)), out(B('=', cast('REAL', e), ref)), out(call('STR_TO_NUM', e))]
    if '.' not in w and (not numeral or int(w) < 1 << 63):
        r.append(out(cast('INTEGER', e)))
    return r


def nums_case(src, env, i):
    ws = (NUMS if env.tier == 'quick' else NUMS_T)[i * PER:(i + 1) * PER]
    entries = []
    for k, w in enumerate(ws):
        entries += num_entries(w, (i + k) % 2)
    judged(env, entries)
    env.digest = 'nums %s' % ws
    env.sample = dict(numerals=ws)
    env.mark('numerals of length %d' % len(ws[-1]))


def nons_case(src, env, i):
    ws = NONS[i * PER:(i + 1) * PER]
    entries = [out(L(1))]
    for k, w in enumerate(ws):
        entries += num_entries(w, (i + k) % 2)
    judged(env, entries)
    env.digest = 'nons %s' % ws
    env.sample = dict(texts=ws)


def bignum_case(src, env, i):
    """numerals of any length: INTEGER exactly over the whole range, REAL to the nearest double (two units in the last place beyond 15 digits)"""
    entries = []
    for _ in range(12):
        k = src.n(5)
        if k == 0:
            w = str(src.pick([(1 << 63) - 1, 1 << 62, (1 << 53) + 1, 10 ** 18, 999999999999999999, src.n(1 << 63), src.n(10 ** src.int(1, 18))]))
            w = '0' * src.pick([0, 0, 1, 2, 30]) + w
            entries += [out(cast('INTEGER', str_expr(w)))]
        elif k == 1:
            w = str(src.n(10 ** src.int(1, 9))) + '.' + str(src.n(10 ** src.int(1, 6))).zfill(src.int(1, 6))
        elif k == 2:
            w = ''.join(src.pick('0123456789') for _ in range(src.int(1, 40)))
            if src.chance(60):
                p = src.n(len(w) + 1)
                w = w[:p] + '.' + w[p:]
        elif k == 3:
            w = '0.' + '0' * src.int(0, 60) + str(src.n(10 ** 6))
        else:
            w = str(src.n(10 ** 6)) + '0' * src.int(0, 280) + src.pick(['', '.', '.0', '.5'])
        v = float(w)
        entries += [out(call('IS_NUM', str_expr(w)))]
        digits = len(w.replace('.', '').strip('0'))
        for c in (call('STR_TO_NUM', str_expr(w)), cast('REAL', str_expr(w))):
            if digits <= 15 and len(w) <= 200:
                entries.append(out(B('=', c, real_expr(v))))
            else:
                lo, hi = v, v
                for _ in range(2):
                    lo, hi = math.nextafter(lo, -math.inf), math.nextafter(hi, math.inf)
                if hi == math.inf:
                    continue
                # both bounds are literals or negated literals
                entries.append((assign('x', c), (lo, hi)))
    flat = []
    rows = []
    for e in entries:
        if isinstance(e, tuple):
            flat += [('raw', e[0]), ('raw', out(B('AND', B('>=', V('x'), real_expr(e[1][0])), B('<=', V('x'), real_expr(e[1][1])))))]
        else:
            flat.append(('model', e))
    # the entries beyond the model are judged here: they must output TRUE
    texts = [lines_text([unshare([e])[0]]) for _, e in flat]
    pre = [lines_text([e]) for e in unshare(PRE)]
    res, r = session(env, pre + texts)
    m = Interp((), False)
    for e in unshare(PRE):
        m.main([e])
    for (kind, e), t, en in zip(flat, texts, res[len(pre):]):
        if kind == 'model':
            n = len(m.out)
            m.stack = [m.g]
            m.steps = 0
            m.main(unshare([e]))
            want = ''.join(m.out[n:])
        else:
            want = 'TRUE\n' if t.startswith('OUTPUT') else ''
        if en.kind != 'ok' or en.out != want:
            raise Fail('a numeral is not converted to the number it denotes', '', entry=t, expected=repr(want), observed=repr(en))
    env.nontrivial = True
    env.digest = repr(texts)
    env.sample = dict(entries=texts[:10])


# ------------------------------------------------------------------ NUM_TO_STR and back
def numstr_case(src, env, i):
    entries = []
    vals = []
    for _ in range(16):
        k = src.n(6)
        if k == 0:
            v = src.int(-10 ** 6, 10 ** 6) / 10 ** src.int(0, 6)
        elif k == 1:
            v = src.int(-(10 ** 15), 10 ** 15) / 10 ** src.int(0, 6)
        elif k == 2:
            v = float(src.int(-(1 << 53), 1 << 53))
        elif k == 3:
            v = src.pick([0.000001, 0.1, 0.01, 0.5, 1.5, 100.0, 10.0, 1e6, 1e15, 1e16, 1e20, 1e22, 123456.789012, 0.999999, 9.999999, 99999.99999, 1000000.0, 10000000.5, 0.0, 2.000001, 0.30, 1.10, 20.0, 300.25])
        elif k == 4:
            v = float(src.n(10 ** src.int(1, 15)))
        else:
            v = src.n(10 ** 8) / 10 ** 6
        if i < 60:
            # every hundredth below 10 in turn
            v = ((i * 16 + len(vals)) % 1000) / 100
        vals.append(v)
        e = real_expr(v)
        if src.chance(50):
            entries.append(assign('x', e))
            e = V('x')
        entries.append(assign('s', call('NUM_TO_STR', e)))
        entries.append(out(B('=', call('STR_TO_NUM', V('s')), e)))
        entries.append(out(B('=', call('STR_TO_NUM', call('NUM_TO_STR', e)), e)))
        if src.chance(40):
            entries.append(out(B('=', cast('REAL', V('s')), e)))
        if src.chance(30) and v == int(v) and abs(v) < 1 << 53:
            entries.append(out(B('=', call('STR_TO_NUM', call('NUM_TO_STR', L(int(v)))), L(int(v)))))
        if src.chance(30) and v >= 0:
            entries.append(out(B('&', S(''), call('IS_NUM', V('s')))))
    texts = [lines_text([e]) for e in unshare(entries)]
    pre = [lines_text([e]) for e in unshare(PRE)]
    res, r = session(env, pre + texts)
    for t, en in zip(texts, res[len(pre):]):
        want = 'TRUE\n' if t.startswith('OUTPUT') else ''
        if t.startswith('OUTPUT') and 'IS_NUM' in t:
            continue
        if en.kind != 'ok' or en.out != want:
            raise Fail('NUM_TO_STR does not convert back', '', entry=t, expected=repr(want), observed=repr(en), before=texts[max(0, texts.index(t) - 2):texts.index(t)])
    env.nontrivial = True
    env.digest = repr(texts)
    env.sample = dict(values=[repr(v) for v in vals])
    env.mark(*['1e%d' % len(str(int(abs(v)))) for v in vals])


# ------------------------------------------------------------------ INT
def int_case(src, env, i):
    entries = []
    for _ in range(25):
        k = src.n(6)
        if k == 0:
            v = float(src.int(-1000, 1000))
            v = src.pick([v, math.nextafter(v, math.inf), math.nextafter(v, -math.inf), v + 0.5, v - 0.5, v + 0.999999, v - 0.000001])
        elif k == 1:
            v = src.int(-10 ** 6, 10 ** 6) / src.pick([2, 3, 7, 10, 100, 1000])
        elif k == 2:
            v = src.pick([-0.5, -0.000001, 0.999999999, -1.0, -1.5, -2.0, 2.0 ** 31, -2.0 ** 31, 2.0 ** 31 - 0.5, -2.0 ** 31 - 0.5, 2.0 ** 32 + 0.25, 2.0 ** 52 + 0.5, -2.0 ** 52 - 0.5, 2.0 ** 53, 2.0 ** 60, -2.0 ** 60, 1e-300, -1e-300, 0.0, 4.35 * 100, 0.1 * 3, 2147483648.5, -2147483649.5, 1e15 + 0.5, -1e15 - 0.5])
        elif k == 3:
            v = any_real(src)
            if not -2.0 ** 61 < v < 2.0 ** 61:
                v = 1 / v if abs(v) > 1e-300 else 0.25
        else:
            v = (src.int(0, 1 << 40) - (1 << 39)) / (1 << src.int(0, 20))
        e = real_expr(v)
        if src.chance(40):
            entries.append(assign('x', e))
            e = V('x')
        entries.append(out(call('INT', e)))
        if src.chance(20):
            entries.append(out(call('INT', L(int(v)))) if abs(v) < 1 << 50 else out(L(0)))
        if src.chance(20):
            a, b = src.int(-50, 50), src.int(1, 9)
            entries.append(out(call('INT', B('/', L(a), L(b)))))
    judged(env, entries)


# ------------------------------------------------------------------ RAND
def rand_case(src, env, i):
    x = [0, 1, 2, 3, 5, 6, 10, 100, 1000, 65536, 1000003, (1 << 31) - 1, 1 << 31, 1 << 32, 1 << 53, (1 << 63) - 1, 7, 4, 50, 12][i % 20]
    n = 8000 if x <= 10000 else 2000
    p = [decl(REAL, 'r'), decl(INTEGER, 'i', 'bad'), assign('bad', L(0)),
         St('for', name='i', a=L(1), b=L(n), step=None, nextname=True, body=[
             assign('r', call('RAND', L(x))),
             St('if', arms=[(B('OR', B('<', V('r'), L(0)), B('>', V('r'), L(x))), [assign('bad', B('+', V('bad'), L(1))), out(V('r'))])], els=None)]),
         out(S('bad '), V('bad'))]
    text = render(unshare(p))
    o = Obs(env.file(text))
    if o.kind != 'ok' or o.out != 'bad 0\n':
        raise Fail('RAND(x) is not between 0 and x', '', program=numbered(text), observed=o.kind + ' ' + o.out[-600:], stderr=o.err[-500:])
    env.nontrivial = True
    env.digest = 'rand %d' % i
    env.sample = dict(x=x, draws=n)
    env.mark('x = %d' % x)


# ------------------------------------------------------------------ compositions and laws
def sexpr(src, d, vars_):
    k = src.n(10) if d > 0 else src.n(3)
    if k == 0 and vars_:
        return V(src.pick(vars_))
    if k < 3:
        if vars_ and src.chance(60):
            return V(src.pick(vars_))
        return str_expr(src.pick(['', 'a', 'Hello', 'abcXYZ', 'x1y2', ' ', 'Mixed Case 12', any_ascii(src)]))
    if k < 5:
        return call(src.pick(['LEFT', 'RIGHT']), sexpr(src, d - 1, vars_), iexpr(src, d - 1, vars_))
    if k < 7:
        return call('MID', sexpr(src, d - 1, vars_), iexpr(src, d - 1, vars_, 1), iexpr(src, d - 1, vars_))
    if k == 7:
        return B('&', sexpr(src, d - 1, vars_), sexpr(src, d - 1, vars_))
    if k == 8:
        return call(src.pick(['TO_UPPER', 'TO_LOWER']), sexpr(src, d - 1, vars_))
    return B('&', S(''), cexpr(src, d - 1, vars_))


def any_ascii(src):
    return ''.join(chr(src.n(128)) for _ in range(src.n(12)))


def cexpr(src, d, vars_):
    if d <= 0 or src.chance(40):
        return chr_expr(src.int(0, 127))
    if src.chance(50):
        return call(src.pick(['UCASE', 'LCASE']), cexpr(src, d - 1, vars_))
    return call('CHR', iexpr(src, d - 1, vars_, 60))


def iexpr(src, d, vars_, lo=0):
    k = src.n(6) if d > 0 else 0
    if k == 0:
        return L(lo + src.n(6)) if src.chance(85) else L(src.pick([-1, 20, 0]))
    if k < 3:
        return call('LENGTH', sexpr(src, d - 1, vars_))
    if k == 3:
        return B(src.pick(['+', '-']), call('LENGTH', sexpr(src, d - 1, vars_)), L(src.n(4)))
    if k == 4:
        return B('DIV', call('LENGTH', sexpr(src, d - 1, vars_)), L(2))
    return call('ASC', cexpr(src, d - 1, vars_))


def composed_case(src, env, i):
    vars_ = ['s', 't', 'r']
    entries = [assign('s', str_expr(any_ascii(src))), assign('t', str_expr(src.pick(['Hello World', 'abc', '']))), assign('r', S('RrR'))]
    for _ in range(14):
        k = src.n(6)
        d = src.int(1, 4)
        if k < 3:
            v = src.pick(vars_)
            entries += [assign(v, sexpr(src, d, vars_)), out(call('LENGTH', V(v)), S('['), V(v), S(']'))]
        elif k == 3:
            entries.append(out(iexpr(src, d, vars_)))
        elif k == 4:
            entries += [assign('k', cexpr(src, d, vars_)), out(call('ASC', V('k')), S('['), V('k'), S(']'))]
        else:
            a, b = sexpr(src, d, vars_), sexpr(src, d, vars_)
            entries.append(out(B(src.pick(['=', '<>']), a, b)))
    m, rows = msession(env, entries, pre=PRE, variant=['plain', 'san'][i % 2])
    env.nontrivial = len(rows) > 8
    env.mark('refused %d' % min(6, sum(r[1][0] != 'ok' for r in rows)))


def laws_case(src, env, i):
    """LEFT(s,n) & RIGHT(s, LENGTH(s)-n) = s and the like, on strings of any bytes and up to 4000 characters, in loops"""
    n = src.pick([0, 1, 2, 5, 17, 60, 250, 256, 257, 1000, 4000]) if src.chance(70) else src.n(300)
    unit = (any_str(src) if src.chance(50) else any_ascii(src)) or 'a'
    s = (unit * (n // max(1, len(unit)) + 1))[:n]
    sv, ln = V('s'), call('LENGTH', V('s'))
    step = max(1, n // 60)
    chunk = []
    p = list(PRE)
    p.append(assign('s', S('')))
    for a in range(0, len(s), 80):
        p.append(assign('s', B('&', sv, str_expr(s[a:a + 80]))))
    bad = lambda c, t: St('if', arms=[(c, [out(S(t), V('i'))])], els=None)
    body = [bad(B('<>', B('&', call('LEFT', sv, V('i')), call('RIGHT', sv, B('-', ln, V('i')))), sv), 'left right '),
            bad(B('<>', call('LENGTH', call('LEFT', sv, V('i'))), V('i')), 'length left '),
            bad(B('<>', call('LENGTH', call('RIGHT', sv, V('i'))), V('i')), 'length right ')]
    body2 = [bad(B('<>', call('MID', sv, V('i'), B('+', B('-', ln, V('i')), L(1))), call('RIGHT', sv, B('+', B('-', ln, V('i')), L(1)))), 'mid right '),
             bad(B('<>', call('MID', sv, L(1), V('i')), call('LEFT', sv, V('i'))), 'mid left '),
             bad(B('<>', call('MID', sv, V('i'), L(1)), call('RIGHT', call('LEFT', sv, V('i')), L(1))), 'mid one '),
             bad(B('<>', call('LENGTH', call('TO_UPPER', call('LEFT', sv, V('i')))), V('i')), 'upper ')]
    def loop(a, b, body):
        return St('for', name='i', a=a, b=b, step=L(step) if step > 1 else None, nextname=True, body=body)
    p += [out(ln), loop(L(0), L(n), body), loop(L(1), L(n), body2), out(call('LENGTH', call('TO_LOWER', sv)))]
    text = render(unshare(p))
    o = Obs(env.file(text))
    want = '%d\n%d\n' % (n, n)
    if o.kind != 'ok' or o.out != want:
        raise Fail('a law of the string functions fails', '', program=numbered(text)[:6000], expected=want, observed=o.kind + ' ' + o.out[-600:], stderr=o.err[-500:])
    env.nontrivial = True
    env.digest = text
    env.sample = dict(length=n, unit=unit[:60])
    env.mark('length %d' % n)


# ------------------------------------------------------------------ argument types and counts
FUNS = {'LENGTH': 1, 'LEFT': 2, 'RIGHT': 2, 'MID': 3, 'TO_UPPER': 1, 'TO_LOWER': 1, 'LCASE': 1, 'UCASE': 1, 'ASC': 1, 'CHR': 1, 'NUM_TO_STR': 1, 'STR_TO_NUM': 1, 'IS_NUM': 1, 'INT': 1}
ARGS = {'int': L(2), 'real': ('real', '2.5'), 'bool': ('bool', True), 'char': ('char', 'c'), 'str': S('5bcde'), 'str1': S('7'), 'date': ('date', 1, 2, 2020), 'enum': V('Red'), 'empty': S('')}


def args_case(src, env, i):
    f = sorted(FUNS)[i % len(FUNS)]
    n = FUNS[f]
    entries = []
    good = {'LENGTH': ['str'], 'LEFT': ['str', 'int'], 'RIGHT': ['str', 'int'], 'MID': ['str', 'int', 'int'], 'TO_UPPER': ['str'], 'TO_LOWER': ['str'], 'LCASE': ['char'], 'UCASE': ['char'], 'ASC': ['char'], 'CHR': ['int'],
            'NUM_TO_STR': ['real'], 'STR_TO_NUM': ['str'], 'IS_NUM': ['str'], 'INT': ['real']}[f]
    for k in range(n):
        for a in ARGS:
            if f == 'IS_NUM' and a == 'empty':
                continue
            x = list(good)
            x[k] = a
            entries.append(out(S('<'), call(f, *[ARGS[q] for q in x]), S('>')))
    for m in range(0, 5):
        if m != n:
            entries.append(out(call(f, *[ARGS[(good * 4)[q]] for q in range(m)])))
    entries.append(out(call(f, *[ARGS[q] for q in good])))
    enum = EnumT('Colour', ['Red', 'Green'])
    judged(env, entries, pre=PRE + [typedef(enum)])
    env.mark(f)
    env.digest = 'args ' + f


# ------------------------------------------------------------------ long strings: the same contracts at 2^8, 2^16 and beyond
LONG = [(1 << k) + d for k in (8, 10, 12, 15, 16, 17) for d in (-1, 0, 1)] + [100000, 200003]


def built(n, name, unit='ab'):
    """statements that build a string of n characters without any built-in, and the string"""
    ls, v = ['%s <- ""' % name], ''
    for k, bit in enumerate(bin(n)[2:]):
        ls.append('%s <- %s & %s' % (name, name, name))
        v += v
        if bit == '1':
            c = chr(ord('A') + k)
            ls.append('%s <- %s & "%s"' % (name, name, c))
            v += c
    return ls, v


def long_case(src, env, i):
    n = LONG[i % len(LONG)]
    pre, v = built(n, 's')
    marks = sorted({x for x in {0, 1, 2, n - 1, n, n // 2, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, n - 255, n - 256, n - 65536} if 0 <= x <= n})
    lines, want = ['DECLARE s, r : STRING'] + pre + ['OUTPUT LENGTH(s)'], [str(n)]
    for _ in range(10):
        f = src.pick(['LEFT', 'RIGHT', 'MID', 'MID', 'TO_UPPER', 'TO_LOWER'])
        k = src.pick(marks)
        if f == 'MID':
            p = src.pick([m for m in marks if m < n]) + 1
            k = src.pick([m for m in marks if m <= n - p + 1] + [n - p + 1])
            e, x = 'MID(s, %d, %d)' % (p, k), v[p - 1:p - 1 + k]
        elif f in ('LEFT', 'RIGHT'):
            e, x = '%s(s, %d)' % (f, k), v[:k] if f == 'LEFT' else v[n - k:]
        else:
            e, x = '%s(s)' % f, v.upper() if f == 'TO_UPPER' else v.lower()
        if src.chance(50):
            lines += ['r <- ' + e, 'OUTPUT LENGTH(r), " [", r, "]"']
            want.append('%d [%s]' % (len(x), x))
        else:
            lines += ['OUTPUT LENGTH(%s)' % e]
            want.append('%d' % len(x))
    k = src.n(4)
    bad = ['LEFT(s, %d)' % (n + 1), 'RIGHT(s, %d)' % (n + src.pick([1, 256, 65536])), 'MID(s, %d, 2)' % n, 'MID(s, 2, %d)' % n][k]
    lines += ['OUTPUT "x"', 'OUTPUT LENGTH(%s)' % bad, 'OUTPUT "y"']
    text = '\n'.join(lines) + '\n'
    r = env.file(text)
    got = r.out.decode('latin-1').split('\n')
    if got[:len(want) + 1] != want + ['x'] or r.code != 1 or not r.err.startswith(b'Runtime Error') or 'y' in got:
        j = next((j for j in range(len(want)) if j >= len(got) or got[j] != want[j]), len(want))
        raise Fail('a built-in on a string of %d characters' % n, 'long', program=numbered(text), expected=[w[:200] for w in want[j:j + 1]] or ['x', 'runtime error'], observed=[g[:200] for g in got[j:j + 2]], stderr=r.err[-300:])
    env.mark('length %d' % n)
    env.nontrivial, env.digest = True, text
    env.sample = dict(length=n, calls=[l for l in lines if '(' in l][:6])


STREAMS = [
    Stream('long', long_case, 2 * len(LONG), 40 * len(LONG)),
    Stream('slices', slices_case, len(SL), len(SL), exhaustive=True),
    Stream('chars', char_case, 32, 32, exhaustive=True),
    Stream('non-ascii', open_upper_case, 2000, 8000),
    Stream('numerals', nums_case, (len(NUMS) + PER - 1) // PER, (len(NUMS_T) + PER - 1) // PER, exhaustive=True),
    Stream('not-numerals', nons_case, (len(NONS) + PER - 1) // PER, (len(NONS) + PER - 1) // PER, exhaustive=True),
    Stream('long-numerals', bignum_case, 1200, 10000),
    Stream('num-to-str', numstr_case, 1500, 15000),
    Stream('int', int_case, 1000, 10000),
    Stream('rand', rand_case, 60, 400),
    Stream('composed', composed_case, 3000, 40000),
    Stream('laws', laws_case, 800, 6000),
    Stream('args', args_case, len(FUNS), len(FUNS), exhaustive=True),
]
