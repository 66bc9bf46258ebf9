"""C02: expressions evaluate to the documented value and type."""
from decimal import Decimal
from common import *

VARIANTS = ['plain']
RULE = ('a case is non-trivial when at least one expression with two or more operators (or one operator table row, or one DIV/MOD '
        'pair) was evaluated by the interpreter and decided against the reference value; distinct by program text')
ASSUMPTIONS = ['INTEGER overflow, REAL overflow/NaN, rounding direction of DIV/MOD on negative operands, = of different types and the '
               'right operand of FALSE AND ... are not judged', 'REAL values are compared through the 10 significant digits OUTPUT prints '
               'or through = with a 17-digit literal']

ARITH = ['+', '-', '*', '/', 'DIV', 'MOD']
CMP = ['=', '<>', '<', '<=', '>', '>=']
LOGIC = ['AND', 'OR']
OPS = ARITH + ['&'] + CMP + LOGIC

ENUM = EnumT('Col', ['Red', 'Green', 'Blue'])
PTR = PtrT('Ptr', INTEGER)
REC = RecT('Rec', [('f', INTEGER, None)])

PRE = [St('typeenum', name='Col', names=ENUM.names), St('typeptr', name='Ptr', target='INTEGER'),
       St('typerec', name='Rec', body=[decl('INTEGER', 'f')]),
       decl('INTEGER', 'vi', 'vz'), decl('REAL', 'vr', 'vrz'), decl('BOOLEAN', 'vb'), decl('CHAR', 'vc'), decl('STRING', 'vs'),
       decl('DATE', 'vd'), decl('Col', 've'), decl('Ptr', 'vp'), decl('Rec', 'vq'),
       assign('vi', ('int', 7)), assign('vr', ('real', '2.5')), assign('vb', ('bool', True)), assign('vc', ('char', 'k')),
       assign('vs', ('str', 'str')), assign('vd', ('date', 1, 2, 2003)), assign('ve', V('Blue')),
       St('ptrassign', lv=('vp', []), to=('vi', []))]

LEAVES = {
    'I': [('int', 0), ('int', 1), ('int', 2), ('int', 3), ('int', 5), ('int', 12), ('neg', ('int', 4)), V('vi')],
    'R': [('real', '0.5'), ('real', '1.5'), ('real', '4.0'), ('real', '0.25'), ('neg', ('real', '2.5')), V('vr')],
    'B': [('bool', True), ('bool', False), V('vb')],
    'C': [('char', 'a'), ('char', 'z'), ('char', '5'), V('vc')],
    'S': [('str', 'ab'), ('str', ''), ('str', '12'), ('str', 'TRUE'), V('vs')],
    'D': [('date', 31, 12, 1999), V('vd')],
    'E': [V('Red'), V('ve')],
    'P': [V('vp')],
    'Q': [V('vq')],
}


def ref():
    m = Interp()
    m.main(PRE)
    return m


def value(e):
    """('v', type, value) | ('e', why) | None when open"""
    m = ref()
    try:
        return ('v',) + m.ev(e)
    except RtErr as x:
        return 'e', x.why
    except Unspec:
        return None


# ------------------------------------------------------------------ precedence and associativity
def shapes(op1, op2, a, b, c):
    """the grammar's tree of 'a op1 b op2 c' and the other one"""
    if LV[op1] >= LV[op2]:
        return B(op2, B(op1, a, b), c), B(op1, a, B(op2, b, c))
    return B(op1, a, B(op2, b, c)), B(op2, B(op1, a, b), c)


def flat(e, top=True):
    """tokens without any parentheses"""
    if e[0] == 'bin':
        return flat(e[2]) + [e[1]] + flat(e[3])
    return etoks(e)


PAIRS = [(x, y) for x in OPS for y in OPS if not (x != y and x in LOGIC and y in LOGIC)]
ALL = [l for k in 'IRBCS' for l in LEAVES[k]]


def pair_case(src, env, i):
    op1, op2 = PAIRS[i]
    good, weak = [], []
    m = ref()

    def val(e):
        m.stack = [m.g]
        try:
            return m.ev(e)
        except (RtErr, Unspec):
            return None
    n = len(ALL)
    tries = 0
    while tries < 2500 and len(good) < 40:
        tries += 1
        a, b, c = ALL[src.n(n)], ALL[src.n(n)], ALL[src.n(n)]
        x, y = shapes(op1, op2, a, b, c)
        u = val(x)
        if u is None or u[0] is STRING and '\n' in u[1]:
            continue
        w = val(y)
        (good if u != w else weak).append((x, u))
    rows = good + weak[:15]
    if not rows:
        env.mark('no well-typed operands')
        return
    text = render(PRE)
    exp = []
    for x, u in rows:
        text += 'OUTPUT ' + join(flat(x)) + '\n'
        exp.append(out_text(*u))
    r = env.file(text)
    got = r.out.decode('latin-1').split('\n')
    if r.code != 0 or got != exp + ['']:
        for k, (x, u) in enumerate(rows):
            if k >= len(got) or got[k] != exp[k]:
                raise Fail("'%s' has another value than the grammar and arithmetic give" % join(flat(x)), expected=exp[k],
                           observed=got[k] if k < len(got) else r.err[-600:], program=text)
        raise Fail('exit status', program=text, observed=repr(r))
    env.mark('discriminating' if good else 'weak')
    env.nontrivial, env.digest = True, text
    env.sample = dict(pair=[op1, op2], rows=[[join(flat(x)), out_text(*u)] for x, u in rows[:4]])


# ------------------------------------------------------------------ acceptance table
def table_case(src, env, i):
    op = (OPS + ['neg', 'not'])[i]
    entries = [lines_text([s]) for s in PRE]
    want = [None] * len(entries)
    kinds = 'IRBCSDEPQ'
    for ka in kinds:
        for kb in kinds if op in OPS else 'I':
            for _ in range(3):
                a, b = src.pick(LEAVES[ka]), src.pick(LEAVES[kb])
                if op in OPS:
                    e = B(op, a, b)
                else:
                    e = (op, a)
                v = value(e)
                if v is None:
                    env.mark('open')
                    continue
                try:
                    want.append((e, v, echo_text(*v[1:]) if v[0] == 'v' else None))
                except Unspec:
                    continue
                entries.append(join(etoks(('paren', e))))
    zeros = [('int', 0), ('real', '0.0'), V('vz'), V('vrz'), B('-', ('int', 3), ('int', 3)), ('neg', ('int', 0)), ('paren', ('neg', ('real', '0.0')))]
    if op in ('/', 'DIV', 'MOD'):
        for z in zeros:
            for a in LEAVES['I'] + LEAVES['R']:
                e = B(op, a, z)
                want.append((e, ('e', 'division by zero'), None))
                entries.append(join(etoks(('paren', e))))
                if op != '/':
                    want.append((e, ('e', 'division by zero'), None))
                    entries.append(join(etoks(('paren', ('fn2', op, a, z)))))
    res, r = session(env, entries)
    nv = ne = 0
    for k, (w, en) in enumerate(zip(want, res)):
        if w is None:
            if en.kind != 'ok':
                raise Fail('set-up statement rejected', entry=entries[k], observed=repr(en))
            continue
        e, v, echo = w
        if v[0] == 'e':
            ne += 1
            if en.kind != 'runtime' or en.out:
                raise Fail("'%s' must be a runtime error (%s)" % (entries[k], v[1]), entry=entries[k], observed=repr(en))
        else:
            nv += 1
            if en.kind != 'ok' or en.out != echo + '\n':
                raise Fail("'%s' has another value or type" % entries[k], expected=echo, observed=repr(en))
    env.mark('rows with a value' if nv else 'no value rows')
    env.nontrivial, env.digest = True, '\n'.join(entries)
    env.sample = dict(op=op, value_rows=nv, error_rows=ne, example=entries[-1])
    # the same rejection ends a program with exit status 1
    bad = [k for k, w in enumerate(want) if w is not None and w[1][0] == 'e']
    for k in src.sample(bad, min(4, len(bad))):
        text = render(PRE) + 'OUTPUT "a"\nOUTPUT ' + join(etoks(want[k][0])) + '\nOUTPUT "b"\n'
        o = Obs(env.file(text))
        if o.kind != 'runtime' or strip_err_nl(o.out) != 'a\n' or o.line != len(PRE) + 4:
            raise Fail('a rejected operation must be a runtime error of its statement', program=numbered(text), observed=o.brief(), stdout=o.out)


# ------------------------------------------------------------------ DIV and MOD
BOUND = [0, 1, 2, 3, 7, 10, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 53) - 1,
         1 << 53, (1 << 53) + 1, (1 << 62) - 1, 1 << 62, (1 << 62) + 1, (1 << 63) - 2, (1 << 63) - 1, 1000000007, 999999999999999989]
BOUND = BOUND + [-x for x in BOUND if x] + [-(1 << 63)]


def ilit(n):
    return '(-9223372036854775807 - 1)' if n == -(1 << 63) else str(n) if n >= 0 else '-%d' % -n


def divmod_pairs(i):
    if i < 81:
        return [(i - 40, b) for b in range(-40, 41) if b]
    a = BOUND[i - 81]
    return [(a, b) for b in BOUND + list(range(-9, 10)) if b and not (a == -(1 << 63) and b == -1)]


def divmod_case(src, env, i):
    ps = divmod_pairs(i)
    lines = ['DECLARE a, b : INTEGER']
    form = []
    for a, b in ps:
        if src.chance(50):
            x, y = '(%s)' % ilit(a), '(%s)' % ilit(b)
        else:
            lines += ['a <- ' + ilit(a), 'b <- ' + ilit(b)]
            x, y = 'a', 'b'
        if src.chance(30):
            lines.append('OUTPUT DIV(%s, %s), " ", MOD(%s, %s)' % (x, y, x, y))
        else:
            lines.append('OUTPUT %s DIV %s, " ", %s MOD %s' % (x, y, x, y))
    text = '\n'.join(lines) + '\n'
    r = env.file(text)
    got = r.out.decode('latin-1').split('\n')
    if r.code != 0 or len(got) != len(ps) + 1:
        raise Fail('DIV/MOD of non-zero divisors failed', program=text[-1500:], observed=repr(r)[-1500:])
    for (a, b), g in zip(ps, got):
        try:
            q, m = map(int, g.split(' '))
        except ValueError:
            raise Fail('DIV/MOD of INTEGER operands is not an INTEGER', pair=[a, b], observed=g)
        if q * b + m != a or abs(m) >= abs(b):
            raise Fail('a = (a DIV b)*b + (a MOD b) with |a MOD b| < |b| does not hold', pair=[a, b], div=q, mod=m)
        if a >= 0 and b > 0 and (q, m) != divmod(a, b):
            raise Fail('DIV/MOD of non-negative operands', pair=[a, b], div=q, mod=m)
    env.nontrivial, env.digest = True, text
    env.sample = dict(pairs=ps[:3] + ps[-2:], results=got[:3])


# ------------------------------------------------------------------ 64-bit exactness
def int64(src):
    k = src.n(4)
    if k == 0:
        return src.pick(BOUND)
    if k == 1:
        return src.n(1 << src.int(1, 62)) * (1 if src.n(2) == 0 else -1)
    if k == 2:
        return src.pick(BOUND[:25]) + src.int(-3, 3)
    return src.int(-100, 100)


def exact_case(src, env, i):
    lines, exp = ['DECLARE a, b, c : INTEGER', 'DECLARE t : BOOLEAN'], []
    n = 0
    while n < 40:
        a, b = int64(src), int64(src)
        op = src.pick(['+', '-', '*', '=', '<>', '<', '<=', '>', '>=', 'neg', '&', 'chain'])
        fits = INT_MIN < a <= INT_MAX and INT_MIN < b <= INT_MAX
        if not fits:
            n += 1
            continue
        n += 1
        lines += ['a <- ' + ilit(a), 'b <- ' + ilit(b)]
        if op in '+-*':
            v = a + b if op == '+' else a - b if op == '-' else a * b
            if not INT_MIN <= v <= INT_MAX:
                if op != '*':
                    continue
                b = src.int(-4, 4)
                v = a * b
                if not INT_MIN <= v <= INT_MAX:
                    continue
                lines.append('b <- ' + ilit(b))
            form = src.n(3)
            if form == 0:
                lines.append('OUTPUT a %s b' % op)
            elif form == 1:
                lines += ['c <- a %s b' % op, 'OUTPUT c']
            else:
                lines.append('OUTPUT %s %s (%s)' % (ilit(a), op, ilit(b)))
            exp.append(str(v))
        elif op == 'neg':
            lines.append('OUTPUT -a')
            exp.append(str(-a))
        elif op == '&':
            lines.append('OUTPUT a & "" & b')
            exp.append('%d%d' % (a, b))
        elif op == 'chain':
            d = src.int(0, 9)
            if not INT_MIN <= a - d <= INT_MAX:
                continue
            lines.append('OUTPUT a - %d + %d - a' % (d, d))
            exp.append('0')
        else:
            v = {'=': a == b, '<>': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
            lines.append('OUTPUT a %s b' % op)
            exp.append('TRUE' if v else 'FALSE')
    text = '\n'.join(lines) + '\n'
    r = env.file(text)
    got = r.out.decode('latin-1').split('\n')
    if r.code != 0 or got != exp + ['']:
        k = next((k for k in range(len(exp)) if k >= len(got) or got[k] != exp[k]), len(exp))
        raise Fail('INTEGER arithmetic is not exact', program=numbered(text), expected=exp[k:k + 1], observed=got[k:k + 1], stderr=r.err)
    env.nontrivial, env.digest = True, text
    env.sample = dict(program=text[:300], output=got[:4])


# ------------------------------------------------------------------ comparisons of neighbours
def cmpval(op, a, b):
    return {'=': a == b, '<>': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]


CENTRES = sorted({c * s for c in [0, 10, 255, 32767, 65535] + [1 << k for k in range(7, 63)] + [10 ** k for k in range(2, 19)] + [(1 << 63) - 3] for s in (1, -1)})
REALS = [0.0, 0.1, 0.3, 1.0, 1 / 3, 2.5, 9.75, 1e6, 123456.789, 1e9 + 0.5, 2.0 ** 53, 2.0 ** 40 + 0.25, 3e-5]
STRS = ['', ' ', 'a', 'A', 'b', 'aa', 'ab', 'abc', 'abcd', 'ab ', ' ab', 'aB', 'AB', '12', '012', '12.0', 'TRUE', 'true', 'x' * 15, 'x' * 16, 'x' * 17,
        'x' * 15 + 'y', 'x' * 64, 'x' * 63 + 'y', 'x' * 300, 'x' * 299 + 'z', '\0', '\0\0', 'x\0', 'x\0y', 'x\0z', '\0x', 'a\0b', 'a\n', '\n', '\n\n', '\xff', '\x7f', '\x80', 'a\xff', 'a\x7f', '\t', 'a\t', 'x' * 20 + '\0a', 'x' * 20 + '\0b']


def strlit(v):
    """an expression for any string"""
    parts = [('CHR(%d)' % ord(q) if not ' ' <= q <= '~' else '"%s"' % q) for q in re.findall(r'[^ -~]|[ -~]+', v)] or ['""']
    return ' & '.join(parts if '"' in parts[0] else ['""'] + parts)


PLAIN = [c for c in range(33, 127) if chr(c) not in '\'\\']
COMPARE = [('I', c) for c in CENTRES] + [('R', x) for x in REALS] + [('C', c) for c in range(1, 256)] + \
    [('S', k) for k in range(len(STRS))] + [('B', 0), ('B', 1)] + [('M', k) for k in range(-6, 7)]


def compare_case(src, env, i):
    """every comparison operator on values that are equal or as near as the type allows"""
    k, c = COMPARE[i]
    ps, ops = [], CMP
    typ = {'I': 'INTEGER', 'R': 'REAL', 'C': 'CHAR', 'S': 'STRING', 'B': 'BOOLEAN', 'M': 'REAL'}[k]
    if k == 'I':
        ps = [(c + a, c + b) for a in (-2, -1, 0, 1, 2) for b in (-2, -1, 0, 1, 2)] + [(c, -c), (c, 0), (0, c), (c, c // 2)]
        lit = ilit
    elif k == 'R':
        near = [c, math.nextafter(c, math.inf), math.nextafter(c, -math.inf) if c else 0.0, -c, c + 1, c + 1e-7, c + 1e-12]
        ps = [(a, b) for a in near for b in near]
        ps = [p for p in ps if all(x == 0 or abs(x) > 1e-30 for x in p)]
        lit = dec
    elif k == 'C':
        ps = [(chr(c), chr(d)) for d in range(1, 256) if c % 8 == d % 8 or d in PLAIN or c in (10, 65, 97, 127, 128, 193, 255)]
        if c not in PLAIN:
            ops = ['=', '<>']       # the order of characters outside ASCII is not stated
        lit = lambda v: "'%s'" % v if ord(v) in PLAIN else 'CHR(%d)' % ord(v)
    elif k == 'S':
        ps = [(STRS[c], t) for t in STRS]
        ops = ['=', '<>']
        lit = strlit
    elif k == 'B':
        ps = [(bool(c), False), (bool(c), True)]
        ops = ['=', '<>']
        lit = lambda v: 'TRUE' if v else 'FALSE'
    else:
        ps = [p for d in (0.0, 0.5, -0.5, 0.0625, 1e-9, 1.0) for p in ((c, c + d), (c + d, c))]
        lit = lambda v: ilit(v) if isinstance(v, int) else dec(v)
    lines, exp = ['DECLARE a, b : ' + typ, 'DECLARE t : BOOLEAN', 'DECLARE n : INTEGER'], []
    for a, b in ps:
        form = src.n(3)
        x, y = '(%s)' % lit(a), '(%s)' % lit(b)
        if form == 0 and k != 'M':
            lines += ['a <- ' + x, 'b <- ' + y]
            x, y = 'a', 'b'
        elif form == 1:
            # one side a variable of its own type
            if isinstance(a, int) and k == 'M':
                lines.append('n <- ' + x)
                x = 'n'
            else:
                lines.append('a <- ' + x)
                x = 'a'
        for op in ops if k != 'C' or ord(b) in PLAIN else ['=', '<>']:
            v = cmpval(op, a, b)
            if src.chance(20):
                lines += ['t <- %s %s %s' % (x, op, y), 'OUTPUT t']
            elif src.chance(15):
                lines.append('OUTPUT NOT (%s %s %s)' % (x, op, y))
                v = not v
            else:
                lines.append('OUTPUT %s %s %s' % (x, op, y))
            exp.append('TRUE' if v else 'FALSE')
    text = '\n'.join(lines) + '\n'
    r = env.file(text)
    got = r.out.decode('latin-1').split('\n')
    if r.code != 0 or got != exp + ['']:
        k = next((k for k in range(len(exp)) if k >= len(got) or got[k] != exp[k]), len(exp))
        outs = [l for l in lines if l.startswith('OUTPUT')]
        raise Fail('a comparison has the wrong result', line=outs[k:k + 1], before=lines[max(0, lines.index(outs[k]) - 4):lines.index(outs[k])] if k < len(outs) else None,
                   expected=exp[k:k + 1], observed=got[k:k + 1], stderr=r.err[-500:])
    env.nontrivial, env.digest = True, text
    env.sample = dict(kind=k, lines=lines[3:7], comparisons=len(exp))


# ------------------------------------------------------------------ REAL arithmetic to the last bit
def dec(x):
    s = format(Decimal(repr(abs(x))), 'f')
    if '.' not in s:
        s += '.0'
    return ('-' if math.copysign(1, x) < 0 else '') + s


def real(src):
    k = src.n(5)
    if k == 0:
        x = src.int(0, 1000) / 8
    elif k == 1:
        x = src.int(0, 100000) / 1000
    elif k == 2:
        x = src.n(1 << 53) * 2.0 ** src.int(-60, 10)
    elif k == 3:
        x = src.pick([0.1, 0.2, 0.3, 1 / 3, 2 / 3, 1e-9, 123456789.125, 1e15, 16777217.0, 0.0000152587890625])
    else:
        x = float(src.int(0, 50))
    return -x if src.chance(30) else x


def real_case(src, env, i):
    lines, exp = ['DECLARE x, y : REAL', 'DECLARE n : INTEGER'], []
    for _ in range(25):
        a, b = real(src), real(src)
        mixed = src.n(3)
        ia, ib = a, b
        if mixed == 1:
            ia = src.int(-1000, 1 << src.int(3, 55))
            a = float(ia)
        elif mixed == 2:
            ib = src.int(-1000, 1 << src.int(3, 55))
            b = float(ib)
        op = src.pick(['+', '-', '*', '/', '=', '<', '<=', '>', '>=', '<>'])
        x, y = ('(%s)' % (ilit(v) if isinstance(v, int) else dec(v)) for v in (ia, ib))
        if src.chance(50):
            if isinstance(ia, int):
                lines.append('n <- ' + x)
                x = 'n'
            else:
                lines.append('x <- ' + x)
                x = 'x'
            if not isinstance(ib, int):
                lines.append('y <- ' + y)
                y = 'y'
        if op in '+-*/' and op != '':
            if op == '/' and b == 0:
                continue
            v = a + b if op == '+' else a - b if op == '-' else a * b if op == '*' else a / b
            if math.isinf(v) or v != v or (v != 0 and abs(v) < 1e-290):
                continue
            lines.append('OUTPUT (%s %s %s) = (%s)' % (x, op, y, dec(v)))
            exp.append('TRUE')
            lines.append('OUTPUT %s %s %s' % (x, op, y))
            exp.append(fmt_real(v))
        else:
            v = {'=': a == b, '<>': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
            lines.append('OUTPUT %s %s %s' % (x, op, y))
            exp.append('TRUE' if v else 'FALSE')
    text = '\n'.join(lines) + '\n'
    r = env.file(text)
    got = r.out.decode('latin-1').split('\n')
    if r.code != 0 or got != exp + ['']:
        k = next((k for k in range(len(exp)) if k >= len(got) or got[k] != exp[k]), len(exp))
        raise Fail('REAL arithmetic differs from IEEE double arithmetic', program=numbered(text), expected=exp[k:k + 1], observed=got[k:k + 1],
                   index=k, stderr=r.err)
    env.nontrivial, env.digest = True, text
    env.sample = dict(program=text[:300], output=got[:4])


def realdiv_case(src, env, i):
    """DIV and MOD with a REAL operand: DIV is an INTEGER, the law holds"""
    lines, ps = ['DECLARE q : INTEGER'], []
    for _ in range(20):
        a = src.int(-4000, 4000) / src.pick([1, 2, 4, 8])
        b = src.int(1, 400) / src.pick([1, 2, 4, 8]) * src.pick([1, 1, -1])
        x, y = dec(a), dec(b)
        k = src.n(3)
        if k == 1 and a == int(a):
            x = ilit(int(a))
        elif b == int(b) and k == 2:
            y = ilit(int(b))
        ps.append((a, b))
        lines += ['q <- (%s) DIV (%s)' % (x, y), 'OUTPUT q, " ", (%s) MOD (%s)' % (x, y)]
    text = '\n'.join(lines) + '\n'
    r = env.file(text)
    got = r.out.decode('latin-1').split('\n')
    if r.code != 0 or len(got) != len(ps) + 1:
        raise Fail('DIV/MOD with REAL operands failed', program=numbered(text), observed=repr(r))
    for (a, b), g in zip(ps, got):
        q, m = g.split(' ')
        if not re.fullmatch(r'-?\d+', q) or abs(int(q) * b + float(m) - a) > 1e-6 or abs(float(m)) >= abs(b) + 1e-9:
            raise Fail('DIV/MOD law on REAL operands', pair=[a, b], observed=g)
        if a >= 0 and b > 0 and int(q) != math.floor(a / b):
            raise Fail('DIV of non-negative REAL operands', pair=[a, b], observed=g)
    env.nontrivial, env.digest = True, text
    env.sample = dict(program=text[:200], output=got[:3])


# ------------------------------------------------------------------ random trees
class Trees:
    def __init__(self, src, bad):
        self.s, self.bad = src, bad

    def leaf(self, t):
        s = self.s
        if t == 'I':
            x = s.n(10)
            if x < 5:
                return ('int', s.pick([0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 13, 64, 1000]))
            if x < 8:
                return V('i%d' % s.n(3))
            return V('a', ('[', [('int', s.int(1, 3))])) if x == 8 else V('q', ('.', 'f'))
        if t == 'R':
            return ('real', s.pick(['0.5', '1.5', '2.0', '10.25', '0.125', '3.75', '100.0'])) if s.chance(60) else V('r%d' % s.n(3))
        if t == 'B':
            return ('bool', bool(s.n(2))) if s.chance(40) else V('b%d' % s.n(2))
        if t == 'C':
            return ('char', s.pick('aZ09 ')) if s.chance(60) else V('c0')
        return ('str', s.pick(['', 'a', 'xy', 'foo bar', '7'])) if s.chance(60) else V('s0')

    def tree(self, t, d):
        s = self.s
        if d <= 0 or s.chance(12):
            return self.leaf(t)
        if self.bad and s.n(400) < 2:
            t = s.pick('IRBCS')
        if s.chance(10):
            return ('paren', self.tree(t, d - 1))
        if t == 'I':
            x = s.n(10)
            if x < 6:
                return B(s.pick(['+', '-', '*']), self.tree('I', d - 1), self.tree('I', d - 1))
            if x < 8:
                op = s.pick(['DIV', 'MOD'])
                return B(op, self.tree('I', d - 1), self.tree('I', d - 1) if s.chance(20) else ('int', s.pick([2, 3, 5, 7])))
            if x == 8:
                return ('neg', self.tree('I', d - 1))
            return ('fn2', s.pick(['DIV', 'MOD']), self.tree('I', d - 1), ('int', s.pick([2, 3, 10])))
        if t == 'R':
            x = s.n(8)
            ts = s.pick(['RR', 'RI', 'IR'])
            if x < 4:
                return B(s.pick(['+', '-', '*']), self.tree(ts[0], d - 1), self.tree(ts[1], d - 1))
            if x < 7:
                return B('/', self.tree(s.pick('IR'), d - 1), self.tree(s.pick('IR'), d - 1) if s.chance(25) else
                         ('int', s.pick([2, 4, 5])))
            return ('neg', self.tree('R', d - 1))
        if t == 'B':
            x = s.n(10)
            if x < 3:
                return B(s.pick(LOGIC), self.tree('B', d - 1), self.tree('B', d - 1))
            if x < 5:
                return ('not', self.tree('B', d - 1))
            k = s.pick(['I', 'I', 'R', 'IR', 'C', 'B', 'S'])
            op = s.pick(['=', '<>'] if k in 'BS' else CMP)
            return B(op, self.tree(k[0], d - 1), self.tree(k[-1], d - 1))
        if t == 'S':
            return B('&', self.tree(s.pick('SSICRB'), d - 1), self.tree(s.pick('SSICRB'), d - 1))
        return self.leaf(t)


def redundant(src, e):
    """the same tree with redundant parentheses"""
    def go(e):
        k = e[0]
        if k == 'bin':
            r = (k, e[1], go(e[2]), go(e[3]))
        elif k in ('neg', 'not', 'paren'):
            r = (k, go(e[1]))
        elif k == 'fn2':
            r = (k, e[1], go(e[2]), go(e[3]))
        else:
            r = e
        return ('paren', r) if src.chance(35) else r
    return go(e)


def depth(e):
    if e[0] in ('bin', 'fn2'):
        return 1 + max(depth(e[2]), depth(e[3]))
    if e[0] in ('neg', 'not', 'paren'):
        return depth(e[1]) + (e[0] != 'paren')
    return 0


def nops(e):
    if e[0] in ('bin', 'fn2'):
        return 1 + nops(e[2]) + nops(e[3])
    if e[0] in ('neg', 'not', 'paren'):
        return nops(e[1]) + (e[0] != 'paren')
    return 0


TYPES = {'I': 'INTEGER', 'R': 'REAL', 'B': 'BOOLEAN', 'C': 'CHAR', 'S': 'STRING'}


def tree_case(src, env, i):
    g = Trees(src, src.chance(30))
    prog = [St('typerec', name='Q', body=[decl('INTEGER', 'f')]), decl('Q', 'q'), decl('INTEGER', 'a', bounds=[(1, 3)])]
    for n, t in (('i', 'I'), ('r', 'R')):
        for k in range(3):
            prog += [decl(TYPES[t], n + str(k)), assign(n + str(k), src.pick([('int', 0), ('int', 3), ('neg', ('int', 5)), ('int', 17)]) if t == 'I'
                                                       else src.pick([('real', '0.5'), ('real', '2.25'), ('neg', ('real', '1.5'))]))]
    prog += [decl('BOOLEAN', 'b0', 'b1'), assign('b0', ('bool', True)), decl('CHAR', 'c0'), assign('c0', ('char', 'm')), decl('STRING', 's0'),
             assign('s0', ('str', 'var')), assign(LVAL('a', ('[', [('int', 2)])), ('int', 11)), assign(LVAL('q', ('.', 'f')), ('int', 6))]
    most = 0
    for k in range(4):
        t = src.pick('IIRRBBBS')
        e = g.tree(t, src.int(1, 6))
        most = max(most, nops(e))
        prog.append(out(e))
        if src.chance(50):
            prog.append(out(redundant(src, e)))
        if src.chance(40):
            # the type: the value can be stored in a variable of its own type only (or widened)
            x = 't%d' % k
            to = src.pick('IRBCS') if src.chance(15) else t
            prog += [decl(TYPES[to], x), assign(x, e), out(V(x))]
    m, o = diff(env, prog)
    env.mark('%s, most operators %s' % (m.kind, most if most < 10 else '10+'))
    env.nontrivial = most >= 2


# ------------------------------------------------------------------ & with every CHAR, on both sides, and with long operands
def concat_case(src, env, i):
    ks = list(range(i * 8, i * 8 + 8))
    L_, W = ['DECLARE c, d : CHAR', 'DECLARE s, t : STRING', 'DECLARE a : ARRAY[1:2] OF CHAR'], b''
    for k in ks:
        j = src.n(256)
        n = src.pick([1, 2, 15, 16, 31, 255, 256, 1000, 4096])
        one, two = bytes([k]), bytes([j])
        L_ += ['c <- CHR(%d)' % k, 'd <- CHR(%d)' % j, 'a[2] <- c', 't <- "%s"' % ('x' * n)]
        forms = [('CHR(%d) & "x"' % k, one + b'x'), ('"x" & CHR(%d)' % k, b'x' + one), ('c & d', one + two), ('d & c', two + one), ('c & c & c', one * 3), ('a[2] & "" & d', one + two), ('"" & c', one), ('c & ""', one), ('("p" & c) & (d & "q")', b'p' + one + two + b'q'),
                 ('t & c', b'x' * n + one), ('c & t', one + b'x' * n), ('t & c & t', b'x' * n + one + b'x' * n), ('t & t', b'x' * 2 * n), ("'y' & c", b'y' + one), ('c & (1 = 1)', None)]
        for e, w in forms:
            if w is None:
                continue
            L_ += ['s <- ' + e, 'OUTPUT LENGTH(s), ":", s, ":", LENGTH(%s), ":", %s' % (e, e)]
            W += b'%d:%s:%d:%s\n' % (len(w), w, len(w), w)
            # (what ASC of a code above 127 is, is not stated)
            L_.append('OUTPUT %s, " ", (%s) = s' % ('ASC(MID(s, %d, 1)) = %d' % (len(w), w[-1]) if w[-1] < 128 else 'TRUE', e))
            W += b'TRUE TRUE\n'
    text = '\n'.join(L_) + '\n'
    r = env.file(text)
    if r.code != 0 or r.out != W:
        k = next((k for k in range(min(len(W), len(r.out))) if W[k] != r.out[k]), min(len(W), len(r.out)))
        raise Fail('a concatenation', '', program=numbered(text)[:4000], at='byte %d of the output' % k, expected=repr(W[max(0, k - 60):k + 40]), observed=repr(r.out[max(0, k - 60):k + 40]), stderr=r.err[-300:])
    env.nontrivial, env.digest = True, text
    env.sample = dict(codes=str(ks))


# ------------------------------------------------------------------ long chains without parentheses
def chain_case(src, env, i):
    """up to 300 operands of one or several levels in a row: still grouped from the left"""
    n = src.pick([10, 20, 33, 40, 64, 65, 100, 128, 129, 200, 256, 257, 300])
    kind = src.n(6)
    g = Trees(src, False)
    if kind == 0:      # sums and differences
        e = L(src.int(0, 99))
        for _ in range(n):
            e = B(src.pick(['+', '-']), e, src.pick([L(src.int(0, 999)), L(src.int(0, 9)), B('*', L(src.int(0, 9)), L(src.int(0, 9))), B('DIV', L(src.int(0, 99)), L(src.int(1, 9)))]))
    elif kind == 1:    # products that stay small
        e = L(src.int(1, 9))
        for k in range(n):
            e = B(*src.pick([('*', e, L(src.int(1, 3))), ('DIV', e, L(src.int(1, 4))), ('MOD', e, L(src.int(1000, 9999)))])) if k % 3 != 2 else B('MOD', e, L(src.int(100, 9999)))
    elif kind == 2:    # REAL, exactly representable
        e = ('real', '%d.5' % src.int(0, 99))
        for _ in range(n):
            e = B(src.pick(['+', '-']), e, src.pick([('real', '%d.25' % src.int(0, 99)), L(src.int(0, 99)), B('*', L(src.int(0, 9)), ('real', '0.5')), B('/', L(src.int(0, 99)), L(4))]))
    elif kind == 3:    # &
        e = S('a')
        for _ in range(n):
            e = B('&', e, src.pick([S('b'), L(src.int(0, 99)), ('char', 'c'), B('+', L(src.int(0, 9)), L(src.int(0, 9))), B('-', L(src.int(0, 9)), L(src.int(0, 9))), B('*', L(2), L(3))]))
    elif kind == 4:    # AND, OR
        e = ('bool', True)
        for _ in range(n):
            e = B(src.pick(['AND', 'OR', 'OR']), e, src.pick([('bool', True), ('bool', False), ('not', ('bool', src.chance(50))), B('<', L(src.n(4)), L(src.n(4))), B('=', L(src.n(3)), L(src.n(3)))]))
    else:              # signs and NOT
        e = L(src.int(0, 9))
        for _ in range(n):
            e = ('neg', e)
        f = ('bool', src.chance(50))
        for _ in range(n):
            f = ('not', f)
    prog = [out(e)] + ([out(f)] if kind == 5 else []) + [St('assign', lv=('t', []), e=e), out(V('t'))]
    m, o = diff(env, prog)
    env.mark('kind %d' % kind, m.kind)
    env.nontrivial = True


STREAMS = [
    Stream('op-pairs', pair_case, len(PAIRS), len(PAIRS), exhaustive=True),
    Stream('op-types', table_case, len(OPS) + 2, len(OPS) + 2, exhaustive=True),
    Stream('div-mod', divmod_case, 81 + len(BOUND), 81 + len(BOUND), exhaustive=True),
    Stream('compare', compare_case, len(COMPARE), len(COMPARE), exhaustive=True),
    Stream('concat', concat_case, 32, 32, exhaustive=True),
    Stream('chains', chain_case, 400, 8000),
    Stream('int-exact', exact_case, 600, 20000),
    Stream('real-exact', real_case, 600, 20000),
    Stream('real-div', realdiv_case, 200, 4000),
    Stream('trees', tree_case, 60000, 500000),
]
