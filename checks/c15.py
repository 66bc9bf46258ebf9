"""C15: text files return exactly the lines that were written, and EOF is exact."""
import itertools, re
from decimal import Decimal
from vals import *

VARIANTS = ['plain']
RULE = ('a case is non-trivial when at least one file was read with EOF asked, or at least one line written and the file compared byte for byte; distinct by program text')
ASSUMPTIONS = ['values whose text contains a line break are not written (one WRITEFILE could not be one line)',
               'READFILE past the end, READFILE into a CHAR and WRITEFILE of enumerated values, records, pointers and unset dates are left open',
               'a REAL line must be a decimal numeral within half a millionth (plus one unit in the last place of the double) of the value; its exact layout is free',
               'data files with CR LF line ends are not generated as lines (a CR inside a line is a character like any other)']


def St_while(c, body):
    return St('while', c=c, body=body)


def If(c, body, orelse=None):
    return St('if', arms=[(c, body)], els=orelse)


def NOT(e):
    return ('not', e)


def q(v):
    """an expression that shows a string exactly"""
    return [('call', 'LENGTH', [v]), S('['), v, S(']')]


def readloop(f, x='x', extra=(), eofs=1):
    """the documented loop; every line is shown with its length"""
    body = [fread(f, x), out(*q(V(x)))]
    for _ in range(eofs - 1):
        body.append(out(eof(f)))
    return [St_while(NOT(eof(f)), body + list(extra)), out(S('end '), eof(f))]


def forloop(v, a, b, body, step=None):
    return St('for', name=v, a=a, b=b, step=step, body=body, nextname=True)


# ------------------------------------------------------------------ every small file content, every way to ask
CALPH = 'a\n #'
CONTENTS = [''.join(p) for n in range(6) for p in itertools.product('a\n', repeat=n)] + \
    [''.join(p) for n in range(1, 4) for p in itertools.product(CALPH, repeat=n) if set(p) & set(' #')] + ['\r', '\r\r', 'a\rb\n', '\t', '\x00', '\x00\n', 'a\x00b\n\x00', '\xff\n', '\xff', '\x1a', 'a\n\x1a\nb\n', '"', '// c\n', '0\n', '\xef\xbb\xbfabc\nd\n', '\xef\xbb\xbf', '\xff\xfea\n', 'x\n\xef\xbb\xbfy\n', '\x04\n', '#!x\n\x1b[0m\n']
KINDS = ['loop', 'eofs', 'repeat', 'count', 'append', 'partial', 'reopen', 'proc', 'array', 'readable']


def contents_case(src, env, i):
    kind = KINDS[i % len(KINDS)]
    c = CONTENTS[i // len(KINDS)]
    f = S('in.txt')
    n = c.count('\n') + (1 if c and not c.endswith('\n') else 0)
    p = [decl(STRING, 'x'), decl(INTEGER, 'k', 'n')]
    if kind == 'append':
        p += [fopen(f, 'APPEND'), fwrite(f, S('new')), fwrite(f, S('')), fclose(f)]
        n += 2
    if kind == 'readable':
        # opening for reading and closing changes nothing
        p += [fopen(f, 'READ'), out(eof(f)), fclose(f), fopen(f, 'APPEND'), fclose(f)]
    p.append(fopen(f, 'READ'))
    if kind in ('loop', 'append', 'readable'):
        p += readloop(f)
    elif kind == 'eofs':
        p += [out(eof(f), eof(f))] + readloop(f, eofs=3) + [out(eof(f))]
    elif kind == 'repeat':
        b = St('repeat', c=eof(f), body=[fread(f, 'x'), out(*q(V('x')))])
        p += [If(NOT(eof(f)), [b], [out(S('empty'))])]
    elif kind == 'count':
        # without EOF: the number of lines is known
        p += [forloop('k', L(1), L(n), [fread(f, 'x'), out(*q(V('x')))]), out(eof(f))]
    elif kind == 'partial':
        if n:
            p += [fread(f, 'x'), out(*q(V('x')))]
        p += [fclose(f), fopen(f, 'READ')] + readloop(f)
    elif kind == 'reopen':
        p += readloop(f) + [fclose(f), fopen(f, 'READ')] + readloop(f)
    elif kind == 'proc':
        p += [St('func', name='More', params=[], rtype='BOOLEAN', parens=True, body=[St('return', e=NOT(eof(f)))]),
              St('proc', name='Get', params=[('l', 'STRING', 'BYREF')], rtype=None, parens=True, body=[fread(f, 'l')]),
              St_while(('call', 'More', []), [St('call', name='Get', args=[V('x')], parens=True), out(*q(V('x')))]), out(('call', 'More', []))]
    elif kind == 'array':
        p += [decl(STRING, 'ln', bounds=[(1, 8)]), assign('n', L(0)),
              St_while(NOT(eof(f)), [assign('n', B('+', V('n'), L(1))), fread(f, 'x'), assign(('ln', [I(V('n'))]), V('x'))]),
              forloop('k', L(1), V('n'), [out(*q(V('ln', I(V('k')))))])]
    p.append(fclose(f))
    fs = {'in.txt': FObj('text', c)}
    fruns(env, [p], fs, initial=[('in.txt', c.encode('latin-1'))])
    env.nontrivial = True
    env.digest += repr(c)
    env.mark(kind, 'lines %d' % n)


# ------------------------------------------------------------------ every list of up to 4 lines, every split into WRITE / APPEND sittings
LINES = ['', 'a', ' ', 'b c', '#', '0']
LISTS = [p for n in range(5) for p in itertools.product(LINES[:4] if n == 4 else LINES, repeat=n)]


def splits(n):
    """all ways of cutting n lines into sittings (one empty sitting included)"""
    r = []
    for m in range(1 << max(0, n - 1)):
        s, cur = [], 1 if n else 0
        for k in range(n - 1):
            if m >> k & 1:
                s.append(cur)
                cur = 0
            cur += 1
        s.append(cur)
        r.append(s)
    return r


LQ = [(l, s) for l in LISTS for s in splits(len(l))]
LPER = 8


def lists_case(src, env, i):
    """WRITE then APPEND sittings; the last one is left open at the end of the run for some, and everything is read back in a second run"""
    ch = LQ[i * LPER:(i + 1) * LPER]
    p, r2 = [decl(STRING, 'x')], [decl(STRING, 'x')]
    for j, (lines, split) in enumerate(ch):
        f = S('o%d.txt' % j)
        k = 0
        for n, m in enumerate(split):
            p.append(fopen(f, 'WRITE' if n == 0 and i % 3 else 'APPEND' if n else 'WRITE'))
            for _ in range(m):
                p.append(fwrite(f, S(lines[k])))
                k += 1
            p.append(fclose(f))
        if j % 4 == 1:
            p += [fopen(f, 'APPEND'), fclose(f)]
        if j % 4 == 2:
            p += [fopen(f, 'APPEND')]
        else:
            p += [fopen(f, 'READ')] + readloop(f)
        r2 += [fopen(f, 'READ')] + readloop(f)
    fs = {}
    old = [('o%d.txt' % j, b'old\ncontents') for j in range(LPER)] if i % 2 else []
    fs.update({n: FObj('text', d.decode()) for n, d in old})
    fruns(env, [p, r2], fs, initial=old)
    env.nontrivial = True
    env.mark('existing files' if i % 2 else 'new files')


# ------------------------------------------------------------------ every character
def chars_case(src, env, i):
    """lines that contain each of the 255 other characters, at the start, inside, at the end, alone and twice; as STRING and as CHAR"""
    cs = [c for c in range(i * 8, i * 8 + 8) if c != 10]
    f = S('c.txt')
    p = [decl(STRING, 'x'), decl(CHAR, 'c'), fopen(f, 'WRITE')]
    for c in cs:
        ch = chr(c)
        for s in [ch, ch + ch, 'a' + ch, ch + 'a', 'a' + ch + 'b', ' ' + ch + ' ']:
            p.append(fwrite(f, str_expr(s)))
        p += [fwrite(f, chr_expr(c)), assign('c', chr_expr(c)), fwrite(f, V('c')), assign('x', str_expr(ch)), fwrite(f, V('x'))]
    p += [fclose(f), fopen(f, 'READ')] + readloop(f)
    fs = {}
    r2 = [decl(STRING, 'x'), fopen(f, 'READ')] + readloop(f) + [fclose(f), fopen(f, 'APPEND'), fwrite(f, chr_expr(cs[0])), fwrite(f, S('z'))]
    r3 = [decl(STRING, 'x'), fopen(f, 'READ')] + readloop(f)
    fruns(env, [p, r2, r3], fs)
    env.nontrivial = True
    env.digest = 'chars %d' % i


# ------------------------------------------------------------------ histories over several files and runs
def any_line(src):
    """(expression, expected to be one line)"""
    k = src.n(12)
    if k < 4:
        while True:
            s = any_str(src).replace('\n', src.pick(['', '|', ' ']))
            if '\n' not in s:
                return str_expr(s)
    if k == 4:
        c = any_char(src)
        return chr_expr(ord('n' if c == '\n' else c))
    if k == 5:
        return int_expr(any_int(src))
    if k == 6:
        return ('bool', src.chance(50))
    if k == 7:
        return ('date',) + any_date(src)
    if k == 8:
        return B(src.pick(['+', '-', '*']), L(src.int(-99, 99)), L(src.int(0, 99)))
    if k == 9:
        return B(src.pick(['<', '=', '<>', '>=']), L(src.n(3)), L(src.n(3)))
    if k == 10:
        return B('&', S(src.pick(['v', '', 'a b '])), ('call', 'TO_UPPER', [S(src.pick(['', ' ', 'z']))]))
    return ('call', src.pick(['TO_UPPER', 'TO_LOWER']), [S(src.pick(['Abc', '', 'x y']))])


def hist_case(src, env, i):
    nf = src.weighted([(50, 1), (35, 2), (15, 3)])
    names = ['t%d.txt' % j for j in range(nf)]
    initial = []
    fs = {}
    data = {}
    for f in names:
        if src.chance(50):
            d = src.pick(['', '\n', 'a', 'a\n', 'a\nb', 'a\n\n', '\n\n', '\na', 'x y\n#\n'])
            initial.append((f, d.encode()))
            fs[f] = FObj('text', d)
            data[f] = d.count('\n') + (1 if d and d[-1] != '\n' else 0)
    progs = []
    pre = [decl(STRING, 'x', 'y'), decl(INTEGER, 'i', 'n')]
    nrun = src.weighted([(40, 1), (40, 2), (20, 3)])
    nread = 0
    for r in range(nrun):
        p = list(pre)
        st = {}
        left = {}
        for _ in range(src.int(3, 40 // nrun)):
            f = src.pick(names)
            F_ = S(f)
            m = st.get(f)
            if m is None:
                m = src.pick(['READ', 'WRITE', 'APPEND', 'APPEND'])
                if m == 'READ' and f not in data:
                    m = 'WRITE'
                if m == 'APPEND' and f not in data:
                    m = 'WRITE'
                p.append(fopen(F_, m))
                st[f] = m
                if m == 'WRITE':
                    data[f] = 0
                left[f] = data[f]
            elif src.chance(15):
                p.append(fclose(F_))
                del st[f]
            elif m == 'READ':
                x = src.n(10)
                if x < 4:
                    p.append(out(S('eof '), eof(F_)))
                elif x < 8:
                    if left[f]:
                        left[f] -= 1
                        v = src.pick(['x', 'y', 'z'])
                        p += [fread(F_, v), out(*q(V(v)))]
                    else:
                        p.append(out(eof(F_)))
                elif x == 8:
                    p += readloop(F_)
                    left[f] = 0
                else:
                    p += [forloop('i', L(1), L(left[f]), [fread(F_, 'x'), out(*q(V('x')))]), out(eof(F_))]
                    left[f] = 0
                nread += 1
            else:
                x = src.n(8)
                if x < 6:
                    p.append(fwrite(F_, any_line(src)))
                    data[f] += 1
                else:
                    n = src.int(0, 5)
                    p.append(forloop('i', L(1), L(n), [fwrite(F_, src.pick([V('i'), B('&', S('line '), S('n')), B('*', V('i'), V('i')), V('x') if nread == 0 and r == 0 else S('w')]))]))
                    data[f] += n
        for f in list(st):
            if src.chance(50):
                p.append(fclose(S(f)))
        if src.chance(15):
            p.append(out(('bin', 'DIV', L(1), L(0))))
        progs.append(p)
    last = [decl(STRING, 'x')]
    for f in sorted(data):
        last += [fopen(S(f), 'READ')] + readloop(S(f))
    progs.append(last)
    fruns(env, progs, fs, initial=initial)
    env.nontrivial = True
    env.mark('files %d' % nf, 'runs %d' % nrun, 'existing %d' % len(initial))


# ------------------------------------------------------------------ REAL lines
NUMERAL = re.compile(r'-?[0-9]+(\.[0-9]+)?$')
NUMERAL_E = re.compile(r'-?[0-9]+(\.[0-9]+)?([eE][-+]?[0-9]+)?$')


def near(line, x):
    big = abs(x) >= 1e15
    if not (NUMERAL_E if big else NUMERAL).match(line):
        return False
    d = abs(Decimal(line) - Decimal(x))
    return d <= Decimal('0.0000005') + Decimal(ulp(x))


def ulp(x):
    import math
    return math.ulp(x)


def reals_case(src, env, i):
    vs = []
    for _ in range(12):
        k = src.n(6)
        if k == 0:
            x = src.int(-10 ** 7, 10 ** 7) / 10 ** 6
        elif k == 1:
            x = src.pick([0.1, 0.5, 1.5, 2.0, 100.0, 0.000001, 0.0000005, 0.0000004, -0.000001, 0.999999, 0.9999995, 0.9999999, 9.9999999, 99.9999996, 1 / 3, 2 / 3, 1e6, 1234567.5, 123456.789, 999999.999999, 1e-7, 3.0, 10.0, -0.5, -1.0, 1e10, 1e14 + 0.5, 1e15, 1e17, 1e22, 1e100, 1.7e308, 123456789.123456, 0.00001, 1.000001, 1.0000001])
        elif k == 2:
            x = src.int(-99, 99) / src.pick([2, 3, 4, 7, 8, 10, 100])
        elif k == 3:
            x = any_real(src)
        elif k == 4:
            x = float(src.int(-10 ** 6, 10 ** 6)) + src.n(10 ** 6) / 10 ** 6
        else:
            x = float(src.int(-(1 << 50), 1 << 50))
        vs.append(x)
    f = S('r.txt')
    p = [decl(REAL, 'v'), decl(STRING, 'x'), fopen(f, 'WRITE')]
    for k, x in enumerate(vs):
        if k % 2:
            p += [assign('v', real_expr(x)), fwrite(f, V('v'))]
        else:
            p.append(fwrite(f, real_expr(x)))
        if src.chance(20):
            p.append(fwrite(f, S('between')))
    p += [fclose(f), fopen(f, 'READ'), St_while(NOT(eof(f)), [fread(f, 'x'), out(V('x'))])]
    text = render(unshare(p))
    r = env.file(text)
    o = Obs(r)

    def bad(what, **kw):
        raise Fail(what, '', program=numbered(text), stdout=o.out[-1500:], stderr=o.err[-600:], **kw)
    if o.kind != 'ok':
        bad('the run failed: %s' % o.kind)
    files = s_files(env, 'plain')
    data = files.get('r.txt', b'').decode('latin-1')
    if data != o.out:
        bad('the lines read are not the lines of the file', file=repr(data[-1500:]))
    lines = [l for l in data.split('\n')]
    if lines.pop() != '':
        bad('the last line is not ended')
    got = [l for l in lines if l != 'between']
    if len(got) != len(vs):
        bad('%d lines for %d values' % (len(got), len(vs)), file=repr(data[-1500:]))
    for l, x in zip(got, vs):
        if not near(l, x):
            bad('a REAL line is not the value to 6 decimals', value=repr(x), line=l)
    env.digest = text
    env.nontrivial = True
    env.sample = dict(values=[repr(x) for x in vs], lines=got)
    env.mark(*['|x| < 1e%d' % max(-6, min(16, len(str(int(abs(x)))))) for x in vs])


# ------------------------------------------------------------------ size: many lines, long lines
class LongRun(FInterp):
    MAX_STEPS = 40000


def size_case(src, env, i):
    f = S('big.txt')
    n = [0, 1, 2, 100, 1000, 1023, 1024, 1025, 1400][i % 9]
    w = [0, 1, 80, 255, 256, 1023, 4095, 4096, 4097, 9000, 20000][i // 9 % 11]
    if n * w > 40000:
        n = 40000 // w
    p = [decl(STRING, 'x', 'line'), decl(INTEGER, 'i', 'n')]
    k = 1
    p.append(assign('line', S('')))
    # the line is built by doubling
    bits = bin(w)[2:]
    for b in bits:
        p.append(assign('line', B('&', V('line'), V('line'))))
        if b == '1':
            p.append(assign('line', B('&', V('line'), S(src.pick('abc')))))
    p += [fopen(f, 'WRITE'), forloop('i', L(1), L(n), [fwrite(f, V('line'))]), fclose(f)]
    if i % 2:
        p += [fopen(f, 'APPEND'), fwrite(f, V('i')), fwrite(f, V('line')), fclose(f)]
    p += [fopen(f, 'READ'), assign('n', L(0)), St_while(NOT(eof(f)), [fread(f, 'x'), assign('n', B('+', V('n'), L(1))), If(B('<>', V('x'), V('line')), [out(S('other '), V('x'))])]), out(V('n'))]
    fs = {}
    fruns(env, [p], fs, interp=LongRun)
    env.nontrivial = True
    env.mark('lines %d' % n, 'width %d' % w)


# ------------------------------------------------------------------ programs over several files at once
def text_of(src):
    n = src.weighted([(20, 0), (25, 1), (25, 2), (30, 5)])
    ls = [any_str(src).replace('\n', '') for _ in range(n)]
    d = ''.join(l + '\n' for l in ls)
    if ls and ls[-1] and src.chance(30):
        d = d[:-1]
    return d


def merge_case(src, env, i):
    a, b, c = S('a.txt'), S('b.txt'), S('c.txt')
    ta, tb = text_of(src), text_of(src)
    kind = ['zip', 'then', 'copy', 'head', 'nested', 'filter', 'func', 'rec'][i % 8]
    show_ = [fread(a, 'x'), out(S('a '), *q(V('x'))), fwrite(c, V('x'))]
    showb = [fread(b, 'y'), out(S('b '), *q(V('y'))), fwrite(c, V('y'))]
    ea, eb = NOT(eof(a)), NOT(eof(b))
    p = [decl(STRING, 'x', 'y'), decl(INTEGER, 'n', 'i'), fopen(a, 'READ'), fopen(b, 'READ'), fopen(c, src.pick(['WRITE', 'APPEND']))]
    tc = text_of(src)
    if p[-1].mode == 'WRITE' and src.chance(50):
        tc = None
    if kind == 'zip':
        p.append(St_while(B('OR', ea, eb), [If(ea, show_), If(eb, showb)]))
    elif kind == 'then':
        p += [St_while(ea, show_), St_while(eb, showb)]
    elif kind == 'copy':
        p.append(St_while(B('AND', ea, eb), show_ + showb))
        p += [out(eof(a), eof(b)), St_while(NOT(eof(a)), [fread(a, 'x')]), St_while(NOT(eof(b)), [fread(b, 'x')])]
    elif kind == 'head':
        p += [assign('n', L(0)), St_while(B('AND', ea, B('<', V('n'), L(src.int(0, 4)))), show_ + [assign('n', B('+', V('n'), L(1)))]), out(V('n'), eof(a), eof(b))]
    elif kind == 'nested':
        # for every line of a the whole of b is read again
        p += [St_while(ea, [fread(a, 'x'), St_while(eb, [fread(b, 'y'), fwrite(c, B('&', V('x'), V('y')))]), fclose(b), fopen(b, 'READ')])]
    elif kind == 'filter':
        p += [assign('n', L(0)), St_while(ea, [fread(a, 'x'), If(B('>', ('call', 'LENGTH', [V('x')]), L(src.int(0, 4))), [assign('n', B('+', V('n'), L(1))), fwrite(c, V('n')), fwrite(c, V('x'))], [fwrite(c, ('bool', False))])])]
    elif kind == 'func':
        f = [St('func', name='NextLine', params=[('f', 'STRING', 'BYVAL')], rtype='STRING', parens=True,
                body=[decl(STRING, 'l'), If(eof(V('f')), [St('return', e=S('<none>'))]), fread(V('f'), 'l'), St('return', e=V('l'))])]
        p = f + p
        for _ in range(src.int(1, 9)):
            g = src.pick([a, b])
            p += [assign('x', ('call', 'NextLine', [g])), out(*q(V('x'))), fwrite(c, V('x'))]
    else:
        # recursion: the lines of a in reverse order
        f = [St('proc', name='Rev', params=[], rtype=None, parens=True,
                body=[decl(STRING, 'l'), If(NOT(eof(a)), [fread(a, 'l'), St('call', name='Rev', args=[], parens=True), fwrite(c, V('l'))])])]
        p = f + p + [St('call', name='Rev', args=[], parens=True)]
    p += [fclose(c), fopen(c, 'READ')] + readloop(c)
    fs = {'a.txt': FObj('text', ta), 'b.txt': FObj('text', tb)}
    init = [('a.txt', ta.encode('latin-1')), ('b.txt', tb.encode('latin-1'))]
    if tc is not None:
        fs['c.txt'] = FObj('text', tc)
        init.append(('c.txt', tc.encode('latin-1')))
    fruns(env, [p], fs, initial=init)
    env.nontrivial = True
    env.digest += repr(init)
    env.mark(kind)


STREAMS = [
    Stream('contents', contents_case, len(CONTENTS) * len(KINDS), len(CONTENTS) * len(KINDS), exhaustive=True),
    Stream('lists', lists_case, (len(LQ) + LPER - 1) // LPER, (len(LQ) + LPER - 1) // LPER, exhaustive=True),
    Stream('chars', chars_case, 32, 32, exhaustive=True),
    Stream('histories', hist_case, 10000, 60000),
    Stream('merge', merge_case, 8000, 40000),
    Stream('reals', reals_case, 4000, 40000),
    Stream('size', size_case, 99, 99, exhaustive=True),
]
