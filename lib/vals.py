"""Values of arbitrary types: statements that build them, expressions that show them."""
import struct
from decimal import Decimal
from files import *

I = lambda *ix: ('[', [L(x) if isinstance(x, int) else x for x in ix])
F = lambda f: ('.', f)


def chr_expr(n):
    """a CHAR value with code n, however the source can say it"""
    if n == 10:
        return ('char', '\n')
    if n < 32 or n == 127:
        return ('call', 'CHR', [L(n)])
    return ('char', chr(n))


def str_expr(s):
    """a STRING value with the bytes of s"""
    parts, run = [], ''
    for c in s:
        if ord(c) < 32 and c != '\n' or c == '\x7f':
            if run:
                parts.append(S(run))
            parts.append(('call', 'CHR', [L(ord(c))]))
            run = ''
        else:
            run += c
    if run or not parts:
        parts.append(S(run))
    if parts[0][0] == 'call' and len(parts) == 1:
        parts.insert(0, S(''))
    e = parts[0]
    for p in parts[1:]:
        e = ('bin', '&', e, p)
    return e


def int_expr(n):
    if n == -(1 << 63):
        return B('-', ('neg', ('int', (1 << 63) - 1)), L(1))
    return L(n)


def real_expr(x):
    """the exact decimal expansion of a double"""
    t = format(Decimal(abs(x)), 'f')
    if '.' not in t:
        t += '.0'
    e = ('real', t)
    return ('neg', e) if x < 0 else e


def any_real(src):
    k = src.n(6)
    if k == 0:
        return src.pick([0.1, 1 / 3, 2 / 3, 1e22, 1e23, 123456.789012, 0.3, 2.0 ** 53, 2.0 ** 53 + 2, 5e-324 * 2 ** 52, 1.7976931348623157e308, 2.2250738585072014e-308, 4.35, 0.000001, 1e-7, 9007199254740993.0, 0.1 + 0.2, 99999.99999, 1e15 + 0.3, 3.5])
    if k == 1:
        return src.int(-1000000, 1000000) / src.pick([2, 4, 8, 10, 100, 1000, 3, 7])
    # any finite normal value
    m = src.n(1 << 26) << 26 | src.n(1 << 26)
    e = src.int(1, 2046) if k == 2 else src.int(1023 - 60, 1023 + 60)
    b = src.n(2) << 63 | e << 52 | m
    return struct.unpack('<d', struct.pack('<Q', b))[0]


def any_int(src):
    k = src.n(5)
    if k == 0:
        return src.pick([0, 1, -1, 9, 10, -10, (1 << 63) - 1, -(1 << 63), -(1 << 63) + 1, 1 << 31, (1 << 31) - 1, -(1 << 31), 1 << 32, 1 << 53, (1 << 53) + 1, 10 ** 18])
    if k == 1:
        return src.int(-100, 100)
    n = src.n(1 << src.int(1, 62))
    return -n if src.chance(50) else n


# what some programs take for the beginning of something else
MARKS = ['\xef\xbb\xbf', '\xff\xfe', '\xfe\xff', '\x1a', '\x04', '#!', '\x1b[0m', '\x7f', '\xc3\xa9', '\xc2\xa0', '%s', '\\', '--', '<', '=', '\x00', '\x08', '0x', '-']
NASTY = '\n# 0A"\\\'\t\r\x00\xff9.-,\x80e/\x1a'
WORDS = ['', ' ', '#', '\n', '\n#', '#\n', '\n\n', '\n#\n#', ' \n', '\n ', '  ', 'INTEGER 5', 'STRING 3 abc', '\nINTEGER 5', '\n#INTEGER 5', 'REAL', '5', '-1', 'a b', 'a\nb', '##', '\r', '\r\n', '\x00', '\xff', '"', '// c', 'TRUE', '\n\n\n', '#\n#\n#', 'x\n', '\nx', 'x#', '#x', '0', '00', ' 5', '5 ']


def any_str(src):
    k = src.n(8)
    if k < 3:
        return src.pick(WORDS) if src.n(12) else src.pick(MARKS) + src.pick(WORDS)
    if k < 6:
        return ''.join(src.pick(NASTY) for _ in range(src.n(10)))
    if k == 6:
        return ''.join(chr(src.n(256)) for _ in range(src.n(12)))
    return ''.join(src.pick('ab \n#') for _ in range(src.n(60)))


def any_char(src):
    return chr(src.n(256)) if src.chance(50) else src.pick(NASTY)


def any_date(src):
    while True:
        d = src.int(1, 31), src.int(1, 12), src.pick([1, 99, 1900, 2000, 2023, 2024, 9999, src.int(1, 9999)])
        if valid_date(*d):
            return d
        return 1, d[1], d[2]


def any_expr(src, t):
    if t is INTEGER:
        return int_expr(any_int(src))
    if t is REAL:
        return real_expr(any_real(src))
    if t is BOOLEAN:
        return ('bool', src.chance(50))
    if t is CHAR:
        return chr_expr(ord(any_char(src)))
    if t is STRING:
        return str_expr(any_str(src))
    if t is DATE:
        return ('date',) + any_date(src)
    return V(src.pick(t.names))


def leaves(t, bounds, path):
    """(type, path) of every scalar in a value"""
    if bounds is not None:
        for idx in idx_tuples(bounds):
            yield from leaves(t, None, (path[0], path[1] + [I(*idx)]))
    elif isinstance(t, RecT):
        for n, ft, b in t.fields:
            yield from leaves(ft, b, (path[0], path[1] + [F(n)]))
    else:
        yield t, path


def idx_tuples(bounds):
    out_ = [()]
    for lo, hi in bounds:
        out_ = [x + (i,) for x in out_ for i in range(lo, hi + 1)]
    return out_


def nleaves(t, b):
    return sum(1 for _ in leaves(t, b, ('x', [])))


def fill(src, t, bounds, name):
    return [St('assign', lv=p, e=any_expr(src, lt)) for lt, p in leaves(t, bounds, (name, []))]


def show(t, bounds, name, ref=None):
    """statements that output a value exactly; ref: variable with the same value expected, for REAL fields"""
    es = []
    for lt, p in leaves(t, bounds, (name, [])):
        v = ('var', p)
        if lt is STRING:
            es += [('call', 'LENGTH', [v]), S(':'), v]
        elif lt is CHAR:
            es += [S("'"), v, S("'")]
        elif lt is REAL and ref is not None:
            es += [v, S('='), B('=', v, ('var', (ref, p[1])))]
        else:
            es.append(v)
        es.append(S('|'))
    return out(*es)


def typedef(t):
    if isinstance(t, EnumT):
        return St('typeenum', name=t.name, names=t.names)
    return St('typerec', name=t.name, body=[St('declare', names=[n], type=ft.name, bounds=None if b is None else [(L(x), L(y)) for x, y in b]) for n, ft, b in t.fields])


def vdecl(t, b, *names):
    return St('declare', names=list(names), type=t.name, bounds=None if b is None else [(L(x), L(y)) for x, y in b])


PRIM6 = [INTEGER, REAL, BOOLEAN, CHAR, STRING, DATE]


def any_bounds(src, small=False):
    nd = src.weighted([(6, 1), (2, 2), (1, 3)])
    out_ = []
    for _ in range(nd):
        lo = src.pick([1, 0, -1, 5, -3])
        out_.append((lo, lo + src.n(3 if nd == 1 else 2)))
    return out_


def any_types(src, nrec=3):
    """type definitions (enums, records with nested records and array fields)"""
    types, scal = [], list(PRIM6)
    for k in range(src.n(3)):
        t = EnumT('E%d' % k, ['E%d%s' % (k, c) for c in 'abcde'[:src.int(1, 5)]] if not src.chance(15) else ['E%dn%d' % (k, c) for c in range(src.pick([9, 17, 33, 70, 130, 260]))])
        types.append(t)
        scal.append(t)
    recs = []
    for k in range(src.int(1, nrec)):
        fields = []
        for j in range(src.int(1, 4)):
            ft = src.pick(recs) if recs and src.chance(30) else src.pick(scal)
            fields.append(('f%d' % j, ft, any_bounds(src) if src.chance(30) else None))
        t = RecT('R%d' % k, fields)
        if nleaves(t, None) > 30:
            continue
        recs.append(t)
        types.append(t)
    return types, scal, recs
