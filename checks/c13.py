"""C13: records written to a random file read back exactly."""
import itertools
from vals import *

VARIANTS = ['plain']
RULE = ('a case is non-trivial when at least one record was written and read back and its value compared with the written one (round-trip streams), or a record '
        'was read into a variable of another type and the refusal judged (mismatch); distinct by program text')
ASSUMPTIONS = ['the value read back is observed as text (lengths and raw bytes of strings and characters), REAL values by = against the value written and by their text',
               'records of pointers, default (unset) DATE values and arrays of equal size but other bounds are left open',
               'the runs of a case are separate processes sharing a directory']
FN = S('d.dat')


def roundtrip(env, types, T, values, order2=None, close=True, local=False, session=True):
    """values: list of functions name -> statements that fill it.  T: (type, bounds)."""
    t, b = T
    setup = [typedef(x) for x in types] + [vdecl(t, b, 'x', 'y')]
    run1 = list(setup) + [fopen(FN, 'RANDOM')]
    n = len(values)
    order2 = order2 or list(range(n))
    for k, f in enumerate(values):
        run1 += f('x') + [fseek(FN, k + 1), fput(FN, 'x')]
        if session:
            run1 += [fseek(FN, k + 1), fget(FN, 'y'), show(t, b, 'y', 'x')]
    if close:
        run1 += [fclose(FN), fopen(FN, 'RANDOM')]
    read = []
    for k in order2:
        read += values[k]('x') + [fseek(FN, k + 1), fget(FN, 'y'), show(t, b, 'y', 'x')]
    run1 += read
    run2 = list(setup) + [fopen(FN, 'RANDOM')] + read
    if n:
        # rewriting one record leaves the others
        run2 += [fseek(FN, order2[0] + 1), fget(FN, 'y'), fseek(FN, order2[0] + 1), fput(FN, 'y')]
    run3 = list(setup) + [fopen(FN, 'RANDOM')] + read + [fclose(FN)]
    progs = [run1, run2, run3]
    if local:
        # everything in a procedure, types included
        progs = [[St('proc', name='Pl', params=[], rtype=None, body=p, parens=True), St('call', name='Pl', args=[], parens=True)] for p in progs]
    for _ in range(1):
        ms = fruns(env, progs, {})
    if any(m.kind != 'ok' for m in ms):
        raise Skip('a run fails in the model')
    env.nontrivial = n > 0
    return ms


def fills(T, exprs):
    """function that fills every leaf of a value from a list of expressions (cyclically)"""
    t, b = T
    ps = list(leaves(t, b, ('x', [])))

    def f(name):
        return [St('assign', lv=(name, p[1]), e=exprs[k % len(exprs)]) for k, (lt, p) in enumerate(ps)]
    return f


# ------------------------------------------------------------------ every character code at every place of a record
def layouts(t):
    """a value of scalar type t alone, in arrays and in records"""
    r1 = RecT('R1', [('a', INTEGER, None), ('c', t, None), ('b', STRING, None)])
    r2 = RecT('R2', [('c', t, None)])
    r3 = RecT('R3', [('c', t, None), ('d', t, None)])
    r4 = RecT('R4', [('v', t, [(1, 3)]), ('k', INTEGER, None)])
    r5 = RecT('R5', [('r', r3, None), ('v', r2, [(0, 1)]), ('z', t, None)])
    r6 = RecT('R6', [('z', REAL, None), ('v', t, [(1, 1)]), ('w', t, [(1, 2), (1, 2)])])
    return [([], (t, None)), ([], (t, [(1, 1)])), ([], (t, [(1, 3)])), ([], (t, [(0, 1), (1, 2)])), ([r1], (r1, None)), ([r2], (r2, None)), ([r3], (r3, None)), ([r4], (r4, None)),
            ([r2, r3, r5], (r5, None)), ([r6], (r6, None)), ([r2], (r2, [(1, 2)])), ([r4], (r4, [(1, 2)]))]


NL = 12


def codes_case(src, env, i):
    types, T = layouts(CHAR)[i % NL]
    lo = i // NL * 16
    vals = []
    for c in range(lo, lo + 16):
        vals.append(mixed_fill(T, CHAR, [chr_expr(c)], [chr_expr((c * 7 + 35) % 256)]))
    roundtrip(env, types, T, vals)
    env.mark('layout %d' % (i % NL))
    env.digest = 'codes %d' % i


def mixed_fill(T, kind, exprs, others):
    """leaves of the type under test get the values, one after another and rotated; others get fixed ones"""
    ps = list(leaves(T[0], T[1], ('x', [])))
    fixed = {INTEGER: L(42), STRING: S('s'), REAL: ('real', '0.1')}

    def f(name):
        r, j = [], 0
        for lt, p in ps:
            if lt is kind:
                e = (exprs + others)[j % (len(exprs) + len(others))]
                j += 1
            else:
                e = fixed[lt]
            r.append(St('assign', lv=(name, p[1]), e=e))
        return r
    return f


# ------------------------------------------------------------------ all short strings over the characters that matter to a line-based format
ALPH = '\n# 0A"'
SHORT = [''.join(p) for n in range(5) for p in itertools.product(ALPH, repeat=n)]
SPER = 20
SCHUNKS = [(l, a) for l in range(NL) for a in range(0, len(SHORT), SPER)]
SQ = [k for k, (l, a) in enumerate(SCHUNKS) if a < 259 or l in (0, 2, 4, 8)]


def strings_case(src, env, i):
    if env.tier == 'quick':
        i = SQ[i]
    l, a = SCHUNKS[i]
    types, T = layouts(STRING)[l]
    words = SHORT[a:a + SPER]
    vals = [mixed_fill(T, STRING, [str_expr(w)], [str_expr(words[-1 - k]), str_expr('\n#')]) for k, w in enumerate(words)]
    roundtrip(env, types, T, vals)
    env.mark('layout %d' % l)
    env.digest = 'strings %d' % i


# ------------------------------------------------------------------ numbers
def numbers_case(src, env, i):
    t = [REAL, INTEGER][i % 2]
    types, T = layouts(t)[i // 2 % NL]
    vals = []
    for _ in range(12):
        e = [any_expr(src, t) for _ in range(4)]
        vals.append(mixed_fill(T, t, e, []))
    roundtrip(env, types, T, vals)
    env.mark(t.name, 'layout %d' % (i // 2 % NL))


def dates_case(src, env, i):
    t = [DATE, BOOLEAN, EnumT('E', ['E%d' % k for k in range(src.pick([1, 2, 4, 9, 17, 65, 130, 257, 300]))])][i % 3]
    types, T = layouts(t)[i // 3 % NL]
    types = ([t] if t not in (DATE, BOOLEAN) else []) + types
    vals = []
    for _ in range(8):
        e = [any_expr(src, t) for _ in range(4)]
        vals.append(mixed_fill(T, t, e, []))
    roundtrip(env, types, T, vals)
    env.mark(t.name, 'layout %d' % (i // 3 % NL))


# ------------------------------------------------------------------ arbitrary types and values
def typed_case(src, env, i):
    types, scal, recs = any_types(src)
    for _ in range(10):
        t = src.pick(recs) if recs and src.chance(70) else src.pick(scal)
        b = any_bounds(src) if src.chance(35) else None
        if nleaves(t, b) <= 40:
            break
    else:
        t, b = INTEGER, None
    vals = []
    for _ in range(src.int(1, 6)):
        body = fill(src, t, b, 'x')
        vals.append(lambda name, body=body: [St('assign', lv=(name, s.lv[1]), e=s.e) for s in body])
    order = src.shuffle(range(len(vals)))
    # (a record type with fields of other user-defined types is global: inside a procedure its field types are looked up globally only)
    local = src.chance(25) and not (isinstance(t, RecT) and any(not isinstance(f[1], Prim) for f in t.fields))
    if local:
        types = [t] if not isinstance(t, Prim) else []
    roundtrip(env, types, (t, b), vals, order, src.chance(60), local, src.chance(70))
    env.mark('array' if b else 'record' if isinstance(t, RecT) else t.name if t in PRIM6 else 'enum', 'local' if local else 'global', 'records %d' % len(vals))


# ------------------------------------------------------------------ records of several types in one file, written and read in procedures
def several_case(src, env, i):
    types, scal, recs = any_types(src, 2)
    Ts = []
    for k in range(src.int(2, 4)):
        t = src.pick(recs) if recs and src.chance(50) else src.pick(scal)
        b = any_bounds(src) if src.chance(25) else None
        if nleaves(t, b) > 30:
            t, b = STRING, None
        Ts.append((t, b))
    setup = [typedef(x) for x in types]
    for k, (t, b) in enumerate(Ts):
        setup += [vdecl(t, b, 'x%d' % k, 'y%d' % k)] + fill(src, t, b, 'x%d' % k)
        if b is None:
            q = src.pick(['BYREF', 'BYVAL'])
            setup.append(St('proc', name='Put%d' % k, params=[('q', t.name, q)], rtype=None, body=[fput(FN, 'q')], parens=True))
            setup.append(St('proc', name='Get%d' % k, params=[('q', t.name, 'BYREF')], rtype=None, body=[fget(FN, 'q'), show(t, b, 'q', 'x%d' % k)], parens=True))
        else:
            setup.append(St('proc', name='Get%d' % k, params=[], rtype=None, body=[vdecl(t, b, 'loc'), fget(FN, 'loc'), show(t, b, 'loc', 'x%d' % k)], parens=True))
    seq = [src.n(len(Ts)) for _ in range(src.int(2, 8))]
    run1 = setup + [fopen(FN, 'RANDOM')]
    for n, k in enumerate(seq):
        if src.chance(30):
            run1 += fill(src, Ts[k][0], Ts[k][1], 'x%d' % k)
        run1.append(fseek(FN, n + 1))
        run1.append(St('call', name='Put%d' % k, args=[V('x%d' % k)], parens=True) if Ts[k][1] is None and src.chance(50) else fput(FN, 'x%d' % k))

    def reads():
        r = []
        for n in src.shuffle(range(len(seq))):
            k = seq[n]
            r.append(fseek(FN, n + 1))
            x = src.n(3)
            if x == 0:
                r += [fget(FN, 'y%d' % k), show(Ts[k][0], Ts[k][1], 'y%d' % k, 'x%d' % k)]
            elif Ts[k][1] is None:
                r += [St('call', name='Get%d' % k, args=[V('y%d' % k)], parens=True), show(Ts[k][0], None, 'y%d' % k)]
            else:
                r += [St('call', name='Get%d' % k, args=[], parens=True)]
        return r
    run1 += reads()
    if src.chance(50):
        run1 += [fclose(FN), fopen(FN, 'RANDOM')] + reads()
    run2 = setup + [fopen(FN, 'RANDOM')] + reads()
    ms = fruns(env, [run1, run2], {})
    env.nontrivial = all(m.kind == 'ok' for m in ms)
    env.mark(*['%s' % (type(t).__name__ if b is None else 'array of %s' % type(t).__name__) for t, b in Ts])


# ------------------------------------------------------------------ records of another type
E1, E2 = EnumT('E1', ['Aa', 'Ab', 'Ac']), EnumT('E2', ['Ba', 'Bb', 'Bc'])
MR = [RecT('M1', [('a', INTEGER, None)]), RecT('M2', [('a', INTEGER, None)]), RecT('M3', [('a', INTEGER, None), ('b', INTEGER, None)]), RecT('M4', [('a', REAL, None)]), RecT('M5', [('a', INTEGER, [(1, 2)])])]
MR.append(RecT('M6', [('a', MR[0], None)]))
MR.append(RecT('M7', [('a', STRING, None), ('b', STRING, None)]))
MT = [(t, None) for t in PRIM6 + [E1, E2] + MR] + [(INTEGER, [(1, 1)]), (INTEGER, [(1, 2)]), (INTEGER, [(1, 3)]), (REAL, [(1, 2)]), (STRING, [(1, 2)]), (CHAR, [(1, 2)]), (MR[0], [(1, 2)]), (MR[1], [(1, 2)]), (E1, [(1, 2)]), (E2, [(1, 2)]), (MR[2], [(1, 1)])]
LIKE = {STRING: ['5', '1 x', 'TRUE', '', 'INTEGER 5', '2/3/2020', '1', '2.5', '#', '\nINTEGER 5'], CHAR: ['5', '1', ' ', '\n', 'T', '#']}


def mismatch_case(src, env, i):
    """all pairs of types; the target keeps its value and the session goes on"""
    a, b = MT[i % len(MT)], MT[i // len(MT) % len(MT)]
    setup = [typedef(x) for x in [E1, E2] + MR] + [vdecl(a[0], a[1], 'x'), vdecl(b[0], b[1], 'y')]

    def filled(T, name):
        r = []
        for lt, p in leaves(T[0], T[1], (name, [])):
            e = any_expr(src, lt)
            if lt in LIKE and src.chance(60):
                w = src.pick(LIKE[lt])
                e = str_expr(w) if lt is STRING else chr_expr(ord(w))
            if lt is REAL and src.chance(60):
                e = real_expr(float(src.int(-5, 5)))
            if lt is INTEGER and src.chance(70):
                e = L(src.int(-2, 9))
            r.append(St('assign', lv=p, e=e))
        return r
    pre = setup + filled(b, 'y')
    entries = [fopen(FN, 'RANDOM')]
    for n in range(2):
        entries += filled(a, 'x') + [fseek(FN, n + 1), fput(FN, 'x')]
    entries += [fseek(FN, 1), fget(FN, 'y'), show(b[0], b[1], 'y'), fget(FN, 'x'), show(a[0], a[1], 'x'), fclose(FN), fopen(FN, 'RANDOM'), fseek(FN, 2), fget(FN, 'y'), show(b[0], b[1], 'y'), fget(FN, 'x'), show(a[0], a[1], 'x')]
    fs = {}
    m, rows = msession(env, entries, pre=pre, interp=lambda echo: FInterp(echo=echo, fs=fs))
    k = sum(r[1][0] != 'ok' for r in rows)
    env.nontrivial = k > 0
    env.mark('refused %d' % k)


# ------------------------------------------------------------------ long strings
LONG = [(1 << k) + d for k in (7, 8, 10, 12, 15, 16, 17) for d in (-1, 0, 1)] + [1000, 10000, 99999, 100000, 250001]


def long_case(src, env, i):
    """strings of up to a quarter of a million characters, alone and beside other fields, within one run and in a later one"""
    n = LONG[i % len(LONG)]
    where = src.pick(['x', 'x', 'x[2]', 'x.c', 'x.v[1]'])
    ty = {'x': 'STRING', 'x[2]': 'ARRAY[1:3] OF STRING'}.get(where, 'R')
    pre = ['TYPE R', '    DECLARE a : INTEGER', '    DECLARE c : STRING', '    DECLARE v : ARRAY[1:2] OF STRING', '    DECLARE z : STRING', 'ENDTYPE', 'DECLARE x, y : ' + ty, 'DECLARE s, o : STRING', 's <- ""']
    unit = src.pick(['', '\n', '#', ' ', '\x00', '5\n', '\xff'])
    m = 0
    for k, bit in enumerate(bin(n)[2:]):
        pre.append('s <- s & s')
        m *= 2
        if bit == '1':
            c = unit[m % len(unit)] if unit and src.chance(50) else chr(ord('A') + k)
            pre.append('s <- s & CHR(%d)' % ord(c))
            m += 1
    pre += [where + ' <- s']
    if where != 'x':
        other = {'x[2]': ['x[1]', 'x[3]'], 'x.c': ['x.z', 'x.v[2]'], 'x.v[1]': ['x.c', 'x.v[2]', 'x.z']}[where]
        pre += ['%s <- "%s"' % (p, src.pick(['', 'short', ' 7 '])) for p in other] + (['x.a <- 42'] if ty == 'R' else [])
        leaves_ = other + [where] + (['x.a'] if ty == 'R' else [])
    else:
        leaves_ = ['x']
    at = src.pick([1, 1, 2, 3])
    show_ = ['OUTPUT %s' % ', " ", '.join('%s = y%s' % (l, l[1:]) for l in leaves_), 'OUTPUT LENGTH(y%s)' % where[1:]]
    get = ['SEEK "d", %d' % at, 'GETRECORD "d", y'] + show_
    rest = []
    for q in (1, 2, 3):
        if q != at and src.chance(50):
            rest += ['SEEK "d", %d' % q, 'o <- "other%d"' % q, 'PUTRECORD "d", o']
    # (an address that was never written is no concern here: the ones below it are)
    fill_ = [x for q in range(1, at) for x in ('SEEK "d", %d' % q, 'o <- "p%d"' % q, 'PUTRECORD "d", o')]
    one = pre + ['OPENFILE "d" FOR RANDOM'] + fill_ + ['SEEK "d", %d' % at, 'PUTRECORD "d", x'] + get + (['CLOSEFILE "d"', 'OPENFILE "d" FOR RANDOM'] + get if src.chance(60) else []) + ['CLOSEFILE "d"']
    two = pre + ['OPENFILE "d" FOR RANDOM'] + get
    exp = '%s\n%d\n' % (' '.join(['TRUE'] * len(leaves_)), n)
    for k, p in enumerate((one, two)):
        text = '\n'.join(p) + '\n'
        r = env.file(text, fresh=k == 0)
        if r.code != 0 or r.out.decode('latin-1') != exp * p.count('GETRECORD "d", y'):
            raise Fail('a long STRING is not read back', 'long', program=numbered(text), run=k + 1, expected=exp, observed=r.out[-300:], stderr=r.err[-300:])
    env.mark('length %d' % n, where)
    env.nontrivial, env.digest = True, '\n'.join(one)
    env.sample = dict(length=n, place=where, record=at)


# ------------------------------------------------------------------ arrays of many elements
MANY = sorted({(1 << k) + d for k in (6, 7, 8, 9, 10, 12) for d in (-1, 0, 1)} | {100, 1000, 5000, 10000, 32768, 65535, 65536, 70000})


def large_case(src, env, i):
    """an array (or a record with one) of n elements: some cells set, all compared after reading, in this run and a later one"""
    n = MANY[i % len(MANY)]
    ty = src.pick(['INTEGER', 'INTEGER', 'REAL', 'CHAR', 'STRING', 'BOOLEAN', 'DATE', 'E'])
    if n > 20000:
        ty = src.pick(['INTEGER', 'BOOLEAN'])
    lo = src.pick([1, 0, -5, 1000])
    k = src.pick([d for d in (1, 2, 3, 4, 5, 8, 16) if n % d == 0])
    dims, idx = '%d:%d' % (lo, lo + n - 1), lambda q: '%d' % (lo + q)
    if k > 1:
        dims, idx = '%d:%d, 1:%d' % (lo, lo + n // k - 1, k), lambda q: '%d, %d' % (lo + q // k, q % k + 1)
    rec = src.chance(50)
    pre = ['TYPE E = (Red, Green, Blue)', 'TYPE R', '    DECLARE h : INTEGER', '    DECLARE m : ARRAY[%s] OF %s' % (dims, ty), '    DECLARE t : STRING', '    DECLARE w : ARRAY[1:2] OF INTEGER', 'ENDTYPE',
           'DECLARE x, y : ' + ('R' if rec else 'ARRAY[%s] OF %s' % (dims, ty)), 'DECLARE o : STRING']
    f = '.m' if rec else ''
    cells = sorted({0, n - 1, n // 2, min(255, n - 1), min(256, n - 1), min(65535, n - 1)} | {src.n(n) for _ in range(6)})
    vals = {}
    for j, q in enumerate(cells):
        vals[q] = {'INTEGER': '%d' % (j * 7919 - 20000), 'REAL': '%d.25' % j, 'CHAR': "'%s'" % chr(65 + j), 'STRING': '"s%d"' % j, 'BOOLEAN': 'TRUE', 'DATE': '%d/2/2000' % (j + 1), 'E': ['Green', 'Blue'][j % 2]}[ty]
    pre += ['x%s[%s] <- %s' % (f, idx(q), v) for q, v in vals.items()]
    if ty == 'DATE':
        # every cell needs a date
        pre += ['DECLARE i, j : INTEGER'] + (['FOR i <- %d TO %d' % (lo, lo + n - 1), '    IF DAY(x%s[i]) = 0 THEN' % f, '        x%s[i] <- 9/9/1999' % f, '    ENDIF', 'NEXT i'] if k == 1 else
                                             ['FOR i <- %d TO %d' % (lo, lo + n // k - 1), '    FOR j <- 1 TO %d' % k, '        IF DAY(x%s[i, j]) = 0 THEN' % f, '            x%s[i, j] <- 9/9/1999' % f, '        ENDIF', '    NEXT j', 'NEXT i'])
    if rec:
        pre += ['x.h <- 4711', 'x.t <- "tail"', 'x.w[2] <- 99']
    near = sorted({min(max(q + d, 0), n - 1) for q in cells for d in (-1, 0, 1)})
    show_ = ['OUTPUT ' + ', " ", '.join('x%s[%s] = y%s[%s]' % (f, idx(q), f, idx(q)) for q in near)]
    exp = ' '.join(['TRUE'] * len(near)) + '\n'
    if rec:
        show_.append('OUTPUT y.h, y.t, y.w[2]')
        exp += '4711tail99\n'
    get = ['SEEK "d", 1', 'GETRECORD "d", y'] + show_ + ['SEEK "d", 2', 'GETRECORD "d", o', 'OUTPUT o']
    exp += 'next\n'
    one = pre + ['OPENFILE "d" FOR RANDOM', 'SEEK "d", 1', 'PUTRECORD "d", x', 'o <- "next"', 'SEEK "d", 2', 'PUTRECORD "d", o'] + get + (['CLOSEFILE "d"', 'OPENFILE "d" FOR RANDOM'] + get if src.chance(50) else []) + ['CLOSEFILE "d"']
    two = pre + ['OPENFILE "d" FOR RANDOM'] + get
    for q, p in enumerate((one, two)):
        text = '\n'.join(p) + '\n'
        r = env.file(text, fresh=q == 0, flags=32)
        if r.code != 0 or r.out.decode('latin-1') != exp * p.count('GETRECORD "d", y'):
            raise Fail('a large array is not read back', 'large', program=numbered(text), run=q + 1, expected=exp, observed=r.out[-300:], stderr=r.err[-300:])
    env.mark('2^%d cells' % n.bit_length(), ty, 'record' if rec else 'array')
    env.nontrivial, env.digest = True, '\n'.join(one)


STREAMS = [
    Stream('long', long_case, 2 * len(LONG), 30 * len(LONG)),
    Stream('large', large_case, 3 * len(MANY), 40 * len(MANY)),
    Stream('codes', codes_case, NL * 16, NL * 16, exhaustive=True),
    Stream('strings', strings_case, len(SQ), len(SCHUNKS), exhaustive=True),
    Stream('numbers', numbers_case, 480, 12000),
    Stream('dates', dates_case, 240, 5000),
    Stream('typed', typed_case, 3000, 60000),
    Stream('several', several_case, 2500, 40000),
    Stream('mismatch', mismatch_case, len(MT) ** 2, len(MT) ** 2 * 12),
]
