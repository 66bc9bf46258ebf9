"""C07: records are values: every copy is deep and independent."""
from common import *
from gen import Gen
import dynrec
import paths
import ptrfields

VARIANTS = ['plain', 'san']
RULE = ('a case is non-trivial when its history contains at least one record copy by some route and one later change of a leaf of the source or '
        'of the copy, with every leaf of every record dumped and decided after each step; distinct by text')
ASSUMPTIONS = ['the value of a DATE field before its first store is not judged']

ENUM = EnumT('Col', ['Red', 'Green', 'Blue'])
PI = PtrT('PI', INTEGER)


class RH:
    """one world of record types, places and routines"""
    def __init__(self, src, dates=False, ptrs=False):
        self.s, self.k, self.dates, self.ptrs = src, 0, dates, ptrs
        self.types, self.defs = [], []
        for n in range(src.int(1, 4)):
            self.newtype(n)

    def scalar(self):
        o = [(4, INTEGER), (2, STRING), (2, REAL), (1, BOOLEAN), (1, CHAR), (2, ENUM)]
        if self.dates:
            o.append((2, DATE))
        return self.s.weighted(o)

    def newtype(self, n):
        s = self.s
        fields, body = [], []
        size = 0
        for k in range(s.int(1, 5)):
            x = s.n(100)
            t = s.pick(self.types) if self.types and x < 45 else PI if self.ptrs and x > 90 else self.scalar()
            b = None
            if s.chance(35):
                b = []
                for _ in range(s.weighted([(5, 1), (2, 2), (1, 3), (1, 4), (1, 5)])):
                    lo = s.pick([1, 0, -1, 4])
                    b.append((lo, lo + s.n(2 if isinstance(t, RecT) or len(b) > 1 else 3)))
            w = (len(leaves(t)) if isinstance(t, RecT) else 1)
            for lo, hi in b or []:
                w *= hi - lo + 1
            if size + w > 40:
                continue
            size += w
            names = ['fxnabcdeghij'[k] + s.pick(['', '', 'f', '1'])]
            if s.chance(15) and size + w <= 40:
                names.append(names[0] + 'z')
                size += w
            for nm in names:
                fields.append((nm, t, b))
            body.append(decl(t, *names, bounds=b))
        if not body:
            fields, body = [('f', INTEGER, None)], [decl(INTEGER, 'f')]
        t = RecT('R%d' % n, fields)
        self.types.append(t)
        self.defs.append(St('typerec', name=t.name, body=body))

    def value(self, t):
        self.k += 1
        k = self.k
        return {'INTEGER': lambda: L(k), 'REAL': lambda: ('real', '%d.5' % k), 'STRING': lambda: S('v%d' % k), 'CHAR': lambda: ('char', chr(33 + k % 90)),
                'BOOLEAN': lambda: ('bool', k % 3 != 0), 'Col': lambda: V(ENUM.names[k % 3]), 'DATE': lambda: ('date', 1 + k % 28, 1 + k % 12, 2000 + k)}[t.name]()

    def mutate(self, base, t, n=1):
        """statements changing leaves of the record base=(name, ops)"""
        out_ = []
        ls = leaves(t)
        for _ in range(n):
            ops, lt = self.s.pick(ls)
            if lt is PI:
                out_.append(St('ptrassign', lv=(base[0], base[1] + ops), to=(self.s.pick(['t1', 't2', 't3']), [])))
            else:
                out_.append(assign((base[0], base[1] + ops), self.value(lt)))
        return out_

    def dump(self, base, t, tag=''):
        es = [S(tag)] if tag else []
        for ops, lt in leaves(t):
            if lt is PI:
                if not self.ptrs:
                    continue
                es += [V(base[0], *base[1], *ops, ('^',)), S(',')]
            else:
                es += [V(base[0], *base[1], *ops), S(',')]
        return out(*(es or [S('-')]))

    def fill(self, base, t):
        r = []
        for ops, lt in leaves(t):
            if lt is DATE:
                r.append(assign((base[0], base[1] + ops), self.value(lt)))
            elif lt is PI:
                r.append(St('ptrassign', lv=(base[0], base[1] + ops), to=(self.s.pick(['t1', 't2', 't3']), [])))
        return r

    def subplaces(self, base, t, want):
        """places of type want inside the place base of type t"""
        r = []
        if t is want:
            r.append(base)
        if isinstance(t, RecT):
            for n, ft, b in t.fields:
                if not isinstance(ft, RecT):
                    continue
                for o in cellops(b):
                    r += self.subplaces((base[0], base[1] + [('.', n)] + o), ft, want)
        return r

    def build(self):
        s = self.s
        pre = [St('typeenum', name='Col', names=ENUM.names), St('typeptr', name='PI', target='INTEGER'), decl('INTEGER', 't1', 't2', 't3'), assign('t1', L(-1)), assign('t2', L(-2))]
        pre += self.defs
        self.places = []        # (name, ops, type): whole records
        self.arrays = []
        main = self.types[-1]
        n = 0
        for t in ([main] + [s.pick(self.types) for _ in range(s.n(3))]):
            n += 1
            names = ['r%d' % n, 's%d' % n]
            pre.append(decl(t, *names))
            self.places += [(x, [], t) for x in names]
            if s.chance(50):
                bs = [(s.pick([1, 0, -2]), 0)]
                bs = [(bs[0][0], bs[0][0] + s.int(1, 2))]
                names = ['a%d' % n] + (['b%d' % n] if s.chance(60) else [])
                pre.append(decl(t, *names, bounds=bs))
                for x in names:
                    self.arrays.append((x, t, bs))
                    self.places += [(x, [('[', [L(i)])], t) for i in range(bs[0][0], bs[0][1] + 1)]
            if s.chance(30):
                pre += [St('typeptr', name='P' + str(n), target=t.name), decl('P%d' % n, 'p%d' % n), St('ptrassign', lv=('p%d' % n, []), to=('s%d' % n, []))]
                self.places.append(('p%d' % n, [('^',)], t))
        # a twin of the main type: same fields, another type
        self.twin = None
        if s.chance(60):
            pre += [St('typerec', name='Twin', body=self.defs[-1].body), decl('Twin', 'tw')]
            self.twin = 'tw'
        self.fresh = list(pre)
        if self.dates or self.ptrs:
            for x in self.places:
                if x[1] != [('^',)]:
                    pre += self.fill((x[0], x[1]), x[2])
        self.used = []
        for t in self.types:
            if any(self.subplaces((x[0], x[1]), x[2], t) for x in self.places):
                pre += self.routines(t)
                self.used.append(t)
        return pre

    def routines(self, t):
        s, n = self.s, t.name
        g = s.pick([p for x in self.places for p in self.subplaces((x[0], x[1]), x[2], t)])
        self.g = g
        x, y, l = ('x', []), ('y', []), ('l', [])
        r = [
            St('proc', name='V' + n, params=[('x', n, s.pick([None, 'BYVAL']), False)], rtype=None,
               body=[self.dump(x, t)] + self.mutate(x, t, s.int(1, 3)) + [self.dump(x, t)] + ([assign(g, V('x'))] + self.mutate(x, t) if s.chance(40) else [])),
            St('proc', name='W' + n, params=[('x', n, 'BYREF', False)], rtype=None,
               body=self.mutate(x, t, s.int(1, 2)) + ([decl(t, 'l')] + [assign(l, V('x'))] + self.mutate(l, t) + [self.dump(l, t)] if s.chance(60) else []) + [self.dump(x, t)]),
            St('proc', name='S' + n, params=[('x', n, 'BYREF', True), ('y', n, None, False)] if s.chance(50) else [('x', n, 'BYREF', False), ('y', n, None, False)], rtype=None,
               body=[decl(t, 'l'), assign(l, V('x')), assign(x, V('y')), assign(y, V('l'))]),
            St('proc', name='M' + n, params=[('x', n, 'BYREF', False), ('y', n, 'BYVAL', False)], rtype=None,
               body=self.mutate(x, t) + [self.dump(y, t)] + self.mutate(y, t) + [self.dump(x, t)] + ([assign(x, V('y'))] + self.mutate(y, t) if s.chance(50) else [])),
            St('func', name='F' + n, params=[('x', n, 'BYVAL', False)], rtype=n, body=self.mutate(x, t, s.int(1, 2)) + [St('return', e=V('x'))]),
            St('func', name='G' + n, params=[], rtype=n, body=([assign('t3', B('+', V('t3'), L(1)))] if s.chance(50) else []) + [St('return', e=('var', g))]),
            St('func', name='H' + n, params=[('k', 'INTEGER', None, False)], rtype=n,
               body=[decl(t, 'l', 'm')] + self.fill(l, t) + self.fill(('m', []), t) + [self.dump(l, t)] + self.mutate(l, t, 2) + [
                   St('if', arms=[(B('>', V('k'), L(0)), [assign('m', ('call', 'H' + n, [B('-', V('k'), L(1))]))] + self.mutate(('m', []), t))], els=None),
                   self.dump(l, t), self.dump(('m', []), t), St('return', e=V(s.pick(['l', 'm'])))]),
        ]
        return r

    def entries(self, n):
        s = self.s
        ents = []
        copies = changes = 0

        def all_():
            return [self.dump((x[0], x[1]), x[2], x[0] + ' ') for x in self.places] + ([self.dump((self.twin, []), self.types[-1])] if self.twin and not self.dates and not self.ptrs else [])
        for _ in range(n):
            t = s.pick(self.used)
            ps = [p for x in self.places for p in self.subplaces((x[0], x[1]), x[2], t)]
            a, b = s.pick(ps), s.pick(ps)
            x = s.n(100)
            e = ('var', b)
            if x < 25:
                r = [assign(a, e)]
                copies += 1
            elif x < 40:
                top = s.pick(self.places)
                r = self.mutate((top[0], top[1]), top[2], s.int(1, 2))
                changes += 1
            elif x < 48:
                r = [assign(a, ('call', s.pick(['F', 'F']) + t.name, [e if s.chance(70) else ('call', 'F' + t.name, [e])]))]
                copies += 1
            elif x < 53:
                r = [assign(a, ('call', 'G' + t.name, []))]
                copies += 1
            elif x < 58:
                r = [assign(a, ('call', 'H' + t.name, [L(s.n(3))]))]
                copies += 1
            elif x < 65:
                r = [St('call', name='V' + t.name, args=[e if s.chance(75) else ('call', 'F' + t.name, [e])], parens=True)]
                copies += 1
            elif x < 71:
                r = [St('call', name='W' + t.name, args=[e], parens=True)]
            elif x < 77:
                r = [St('call', name='S' + t.name, args=[('var', a), e], parens=True)]
                copies += 1
            elif x < 83:
                r = [St('call', name='M' + t.name, args=[('var', a), e if s.chance(60) else ('var', a)], parens=True)]
                copies += 1
            elif x < 89 and self.arrays:
                u = s.pick(self.arrays)
                same = [w for w in self.arrays if w[1] is u[1] and w[2] == u[2]]
                r = [assign(u[0], V(s.pick(same if s.chance(80) else self.arrays)[0]))]
                copies += 1
            elif x < 91 and self.arrays:
                # rotate the elements
                u = s.pick(self.arrays)
                lo, hi = u[2][0]
                r = [St('for', name='q', a=L(lo), b=L(hi - 1), step=None, nextname=True, body=[assign((u[0], [('[', [V('q')])]), V(u[0], ('[', [B('+', V('q'), L(1))])))])]
                copies += 1
            else:
                r = [self.bad(a, t)]
            ents += r
            ents.append(self.dump(a, t))
            if s.chance(45):
                ents += all_()
        ents += all_()
        self.copies, self.changes = copies, changes
        return ents

    def bad(self, a, t):
        """a statement that must be rejected without effect"""
        s = self.s
        n, ops = a
        f = s.pick(t.fields)
        u = s.pick(self.types)
        pu = [p for x in self.places for p in self.subplaces((x[0], x[1]), x[2], u)]
        k = s.n(9)
        scal = [L(3), S('two'), ('real', '2.5'), ('bool', True), ('char', 'c'), V('Green'), ('date', 1, 1, 2001)]
        if k == 0:
            return assign((n, ops + [('.', 'nofield')]), L(1))
        if k == 1:
            return out(V(n, *ops, ('.', s.pick(['nofield', f[0].upper() + 'q', n]))))
        if k == 2:
            lo, lt = s.pick(leaves(t))
            return assign((n, ops + lo), s.pick(scal)) if s.chance(70) else assign((n, ops + lo + [('.', 'f')]), L(1))
        if k == 3:
            return assign(a, s.pick(scal))
        if k == 4 and pu:
            return assign(a, ('var', s.pick(pu)))
        if k == 5 and pu:
            return St('call', name=s.pick('VWFG') + t.name, args=[('var', s.pick(pu))], parens=True)
        if k == 6:
            return assign('t1', ('var', a))
        if k == 7 and self.twin and not self.dates:
            return assign(s.pick([(self.twin, []), a]), s.pick([V(self.twin), ('var', a)]))
        return assign((n, ops + [('.', f[0])]), s.pick(scal))


def cellops(b):
    if b is None:
        return [[]]
    r = [()]
    for lo, hi in b:
        r = [x + (i,) for x in r for i in range(lo, hi + 1)]
    return [[('[', [L(i) for i in x])] for x in r]


def leaves(t):
    r = []
    for n, ft, b in t.fields:
        for o in cellops(b):
            if isinstance(ft, RecT):
                r += [([('.', n)] + o + p, lt) for p, lt in leaves(ft)]
            else:
                r.append(([('.', n)] + o, ft))
    return r


def hist_case(src, env, i):
    x = src.n(10)
    h = RH(src, dates=x == 8, ptrs=x == 9)
    pre = h.build()
    ents = h.entries(src.int(3, 14))
    variant = 'san' if i % 20 == 19 else 'plain'
    if i % 5 == 4:
        m, o = diff(env, pre + ents, variant=variant)
        env.mark('file ' + m.kind + ('' if m.exc is None else ': %s' % m.exc))
    else:
        m, rows = msession(env, ents, pre=pre, variant=variant)
        env.mark(*{'rejected: ' + str(r[1][2]) for r in rows if r[1][0] == 'runtime'})
        env.mark('complete' if not m.cut else 'cut: ' + m.cut)
    env.nontrivial = h.copies > 0 and h.changes > 0


def fresh_case(src, env, i):
    """freshly declared records hold default values, again and again"""
    h = RH(src)
    pre = h.build()
    ents = []
    for x in h.places:
        ents.append(h.dump((x[0], x[1]), x[2]))
    t = src.pick(h.types)
    # a procedure whose local record starts fresh at every activation
    body = [decl(t, 'l'), decl(t, 'la', bounds=[(0, 1)]), h.dump(('l', []), t)] + [h.dump(('la', [('[', [L(k)])]), t) for k in (0, 1)]
    body += h.mutate(('l', []), t, 3) + h.mutate(('la', [('[', [L(1)])]), t, 2)
    body += [h.dump(('l', []), t), h.dump(('la', [('[', [L(1)])]), t),
             St('if', arms=[(B('>', V('k'), L(0)), [St('call', name='Loc', args=[B('-', V('k'), L(1))], parens=True)])], els=None),
             h.dump(('l', []), t), h.dump(('la', [('[', [L(0)])]), t)]
    pre.append(St('proc', name='Loc', params=[('k', 'INTEGER', None, False)], rtype=None, body=body))
    for _ in range(2):
        ents.append(St('call', name='Loc', args=[L(src.n(3))], parens=True))
        for x in h.places:
            ents += h.mutate((x[0], x[1]), x[2])
    ents += [decl(t, 'late'), h.dump(('late', []), t), decl(t, 'lates', bounds=[(1, 2)])] + [h.dump(('lates', [('[', [L(k)])]), t) for k in (1, 2)]
    if i % 3 == 2:
        m, o = diff(env, pre + ents)
    else:
        m, rows = msession(env, ents, pre=pre, variant='san' if i % 20 == 1 else 'plain')
        env.mark('complete' if not m.cut else 'cut: ' + m.cut)
    env.mark('%d leaves' % len(leaves(t)))
    env.nontrivial = True


def typed_case(src, env, i):
    g = Gen(src, errors=2, size=14, depth=2, consts=False, inputs=False, casts=False, minprocs=1, minrecs=1)
    prog = g.program()
    if not g.recs:
        raise Skip('no record type drawn')
    m, o = diff(env, prog, g.stdin)
    env.mark(m.kind if m.exc is None else 'runtime: %s' % m.exc)
    env.nontrivial = True


# ------------------------------------------------------------------ records of many fields and many levels
def wide_case(src, env, i):
    levels = src.pick([1, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16])
    width = src.pick([1, 2, 5, 8, 9, 15, 16, 17, 18, 31, 33, 40, 64, 65]) if levels < 4 else src.pick([1, 2, 3, 4])
    pre = src.pick(['f', 'f', 'Field', 'TheFieldOfTheRecordWithALongName', 'g' * 64])
    T = ['INTEGER', 'STRING', 'REAL', 'BOOLEAN', 'CHAR']
    DEF = {'INTEGER': '0', 'STRING': '', 'REAL': None, 'BOOLEAN': 'FALSE', 'CHAR': None}
    LIT = {'INTEGER': lambda k: str(k), 'STRING': lambda k: '"s%d"' % k, 'REAL': lambda k: '%d.5' % k, 'BOOLEAN': lambda k: ['FALSE', 'TRUE'][k % 2], 'CHAR': lambda k: "'%s'" % chr(97 + k % 26)}
    SHOW = {'INTEGER': str, 'STRING': lambda k: 's%d' % k, 'REAL': lambda k: '%d.5' % k, 'BOOLEAN': lambda k: ['FALSE', 'TRUE'][k % 2], 'CHAR': lambda k: chr(97 + k % 26)}
    L_, W = [], []
    lv = []             # paths of the leaves of the current type
    for d in range(levels):
        L_.append('TYPE T%d' % d)
        mine = []
        sub = src.n(width + 1)
        for k in range(width + 1):
            if d and k == sub:
                arr = src.chance(25) and len(lv) < 60
                L_.append('    DECLARE n : %sT%d' % ('ARRAY[1:2] OF ' if arr else '', d - 1))
                mine += [('.n[%d]' % j + p, t) for j in (1, 2) for p, t in lv] if arr else [('.n' + p, t) for p, t in lv]
            if k < width:
                t = src.pick(T)
                if src.chance(12):
                    L_.append('    DECLARE %s%d : ARRAY[0:2] OF %s' % (pre, k, t))
                    mine += [('.%s%d[%d]' % (pre, k, j), t) for j in range(3)]
                else:
                    L_.append('    DECLARE %s%d : %s' % (pre, k, t))
                    mine.append(('.%s%d' % (pre, k), t))
        L_.append('ENDTYPE')
        lv = mine
    top = 'T%d' % (levels - 1)
    L_ += ['TYPE Box', '    DECLARE k : INTEGER', '    DECLARE q : ' + top, 'ENDTYPE', 'DECLARE a, b, c : ' + top, 'DECLARE u, w : ARRAY[1:3] OF ' + top, 'DECLARE x, y : Box']
    L_ += ['FUNCTION Same(r : %s) RETURNS %s' % (top, top), '    RETURN r', 'ENDFUNCTION', 'PROCEDURE Into(BYVAL r : %s, BYREF s : %s)' % (top, top), '    s <- r', 'ENDPROCEDURE']
    places = ['a', 'b', 'c', 'u[1]', 'u[2]', 'u[3]', 'w[1]', 'w[2]', 'w[3]', 'x.q', 'y.q']
    val = {p: {q: None for q, _ in lv} for p in places}
    ty = dict(lv)
    ctr = [0]
    some = lambda: src.pick([lv[0], lv[-1], src.pick(lv), src.pick(lv)])[0]

    def put(p, q):
        ctr[0] += 1
        val[p][q] = ctr[0]
        L_.append('%s%s <- %s' % (p, q, LIT[ty[q]](ctr[0])))

    def text(p, q):
        v = val[p][q]
        return DEF[ty[q]] if v is None else SHOW[ty[q]](v)

    def dump(p, qs):
        qs = [q for q in qs if text(p, q) is not None]
        for j in range(0, len(qs), 8):
            L_.append('OUTPUT "%s:", ' % p + ', ",", '.join(p + q for q in qs[j:j + 8]))
            W.append(p + ':' + ','.join(text(p, q) for q in qs[j:j + 8]))
    # some records complete, others in part
    for p in src.sample(places, 3):
        for q, _ in (lv if len(lv) < 400 else src.sample(lv, 100)):
            put(p, q)
    for _ in range(src.int(3, 9)):
        p, r = src.pick(places), src.pick(places)
        if p == r:
            continue
        if src.chance(30):
            put(p, some())
        ch = src.n(7)
        copies = [(r, p)]
        if ch == 0:
            L_.append('CALL Into(%s, %s)' % (p, r))
        elif ch == 1:
            L_.append('%s <- Same(%s)' % (r, p))
        elif ch == 2:
            s_, d_ = src.pick(['uw', 'wu'])
            L_.append('%s <- %s' % (d_, s_))
            copies = [('%s[%d]' % (d_, k), '%s[%d]' % (s_, k)) for k in (1, 2, 3)]
        elif ch == 3:
            s_, d_ = src.pick(['xy', 'yx'])
            L_.append('%s <- %s' % (d_, s_))
            copies = [(d_ + '.q', s_ + '.q')]
        else:
            L_.append('%s <- %s' % (r, p))
        for d_, s_ in copies:
            val[d_] = dict(val[s_])
        d_, s_ = src.pick(copies)
        qs = [q for q, _ in lv]
        if len(qs) > 60:
            qs = list(dict.fromkeys(qs[:10] + qs[-15:] + src.sample(qs, 30)))
        dump(d_, qs)
        # afterwards a change to either does not show in the other
        for _ in range(3):
            q = some()
            put(*src.pick([(d_, q), (s_, q)]))
            dump(d_, [q])
            dump(s_, [q])
    for p in places:
        dump(p, [q for q, _ in src.sample(lv, min(len(lv), 12))] + [lv[-1][0]])
    L_.append('OUTPUT "end"')
    W.append('end')
    t = '\n'.join(L_) + '\n'
    o = env.file(t, flags=32, variant='san' if i % 25 == 24 else 'plain')
    g = o.out.decode('latin-1').split('\n')
    if o.code != 0 or g[:-1] != W:
        j = next((j for j in range(min(len(g), len(W))) if g[j] != W[j]), min(len(g), len(W)))
        raise Fail('a record of many fields or levels', 'wide', program=numbered(t)[:9000], levels=levels, fields=width, expected=W[j:j + 2], observed=g[j:j + 2], code=o.code, stderr=o.err[-300:])
    env.mark('%d levels' % levels, '%d fields' % width)
    env.nontrivial, env.digest = True, t
    env.sample = dict(levels=levels, fields=width, leaves=len(lv))


# ------------------------------------------------------------------ records with many cells
def large_case(src, env, i):
    """all cells are compared inside the interpreter; only those that differ from the first contents are printed"""
    n = src.pick([255, 256, 257, 600, 999, 1000, 1001, 1200, 2047, 4096, 4097, 5000, 9999, 10001, 20000])
    m = src.pick([1, 1, 1, 2, 3])
    two = src.chance(30)
    t = src.pick(['INTEGER', 'INTEGER', 'STRING', 'CHAR'])
    n = max(4, n // m)
    mk = {'INTEGER': lambda e: e, 'STRING': lambda e: '"s" & NUM_TO_STR(%s)' % e, 'CHAR': lambda e: 'CHR(32 + (%s) MOD 90)' % e}[t]
    text_ = {'INTEGER': str, 'STRING': lambda v: 's%d' % v, 'CHAR': lambda v: chr(32 + v % 90)}[t]
    dim = 'ARRAY[1:%d] OF %s' % (n, t) if m == 1 else 'ARRAY[1:%d, 1:%d] OF %s' % (m, n, t)
    ix = (lambda j, k: '[%s]' % k) if m == 1 else (lambda j, k: '[%s, %s]' % (j, k))
    ls = ['TYPE T', '    DECLARE before : INTEGER', '    DECLARE a : ' + dim, '    DECLARE behind : STRING', 'ENDTYPE', 'TYPE O', '    DECLARE r : T', 'ENDTYPE', 'DECLARE i, j : INTEGER', 'DECLARE e : ' + t,
          'DECLARE x, y : T', 'DECLARE p, q : O', 'DECLARE u : ARRAY[1:2] OF T'] if not two else \
         ['TYPE T', '    DECLARE before : INTEGER', '    DECLARE a : ' + dim, '    DECLARE behind : STRING', 'ENDTYPE', 'DECLARE i, j : INTEGER', 'DECLARE e : ' + t, 'DECLARE x, y : T']
    ls += ['FUNCTION Same(z : T) RETURNS T', '    RETURN z', 'ENDFUNCTION', 'PROCEDURE Into(BYVAL z : T, BYREF w : T)', '    w <- z', 'ENDPROCEDURE']
    val = 'i * 3 + j'
    ls += ['x.before <- 7', 'x.behind <- "end"', 'FOR j <- 1 TO %d' % m, 'FOR i <- 1 TO %d' % n, 'x.a%s <- %s' % (ix('j', 'i'), mk(val)), 'NEXT i', 'NEXT j']
    d, line = src.pick([('y', ['y <- x']), ('y', ['y <- Same(x)']), ('y', ['CALL Into(x, y)'])] + ([] if two else [('q.r', ['p.r <- x', 'q <- p']), ('u[2]', ['u[2] <- x']), ('q.r', ['q.r <- x'])]))
    ls += line
    spots = sorted({k for e in range(6, 15) for k in ((1 << e) - 1, 1 << e, (1 << e) + 1)} | {1, 2, 99, 100, 101, 999, 1000, 1001, n - 1, n})
    spots = [k for k in spots if 1 <= k <= n]
    new = {'x': {}, d: {}}
    for k in range(src.int(1, 8)):
        who = src.pick(['x', d])
        c = (src.int(1, m), src.pick(spots))
        v = 50 + 7 * k + (c[1] * 3 + c[0]) % 90 if t == 'CHAR' else 900000 + k
        if t == 'CHAR' and (v - c[1] * 3 - c[0]) % 90 == 0:
            continue
        new[who][c] = v
        ls.append('%s.a%s <- %s' % (who, ix(*c), mk(str(v))))
    want = []
    for who in (d, 'x'):
        ls += ['OUTPUT "%s ", %s.before, %s.behind' % (who, who, who), 'FOR j <- 1 TO %d' % m, 'FOR i <- 1 TO %d' % n, 'e <- ' + mk(val), 'IF %s.a%s <> e THEN' % (who, ix('j', 'i')), 'OUTPUT j, " ", i, " ", %s.a%s' % (who, ix('j', 'i')), 'ENDIF', 'NEXT i', 'NEXT j']
        want += ['%s 7end' % who] + ['%d %d %s' % (c[0], c[1], text_(new[who][c])) for c in sorted(new[who])]
    o = Obs(env.file('\n'.join(ls) + '\n', flags=32, cpu_ms=20000))
    got = o.out.split('\n')[:-1]
    if o.kind != 'ok' or got != want:
        raise Fail('a record with an array of %d cells' % (m * n), program=numbered('\n'.join(ls)), expected=want[:20], observed=got[:20], ended=o.kind, stderr=o.err[-300:])
    env.mark('%d cells' % (m * n), t)
    env.nontrivial, env.digest = True, '\n'.join(ls)
    env.sample = dict(cells=m * n, channel=line, changed=[len(new['x']), len(new[d])])


STREAMS = [
    Stream('histories', hist_case, 8000, 150000),
    Stream('wide', wide_case, 600, 12000),
    Stream('pointers', ptrfields.case, 500, 12000),
    Stream('large', large_case, 120, 1500),
    Stream('fresh', fresh_case, 1500, 20000),
    Stream('paths', paths.copies_case, 2500, 60000),
    Stream('bounds', dynrec.case, 800, 20000),
    Stream('typed', typed_case, 4000, 60000),
]
