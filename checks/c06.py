"""C06: arrays are bounds-checked total maps with independent elements."""
from common import *
from gen import Gen

VARIANTS = ['plain', 'san']
RULE = ('a case is non-trivial when every in-bounds cell of an array was written, read back and decided against a dictionary model, or a '
        'history contained at least one element write, one read back of all cells and one rejected access; distinct by text')
ASSUMPTIONS = ['reading a whole array as a value and arrays of more than 20000 cells are not judged; element sizes above the verification '
               'budget (100000 cells) are refused by the guarded hook']

BOUNDS = [(l, u) for l in range(-3, 5) for u in range(l, 5)]           # 36
DIMS1 = [[b] for b in BOUNDS]
DIMS2 = [[a, b] for a in BOUNDS for b in BOUNDS]                       # 1296
N3 = len(BOUNDS) ** 3                                                  # 46656


def dims3(k):
    return [BOUNDS[k // 1296], BOUNDS[k // 36 % 36], BOUNDS[k % 36]]


def tuples(bs):
    r = [()]
    for l, u in bs:
        r = [x + (i,) for x in r for i in range(l, u + 1)]
    return r


ELEM = {
    'INTEGER': (lambda k: str(k), lambda k: str(k), '0'),
    'REAL': (lambda k: '%d.5' % k, lambda k: '%d.5' % k, '0.0'),
    'STRING': (lambda k: '"s%d"' % k, lambda k: 's%d' % k, ''),
    'CHAR': (lambda k: "'%s'" % chr(65 + k % 26), lambda k: chr(65 + k % 26), '\0'),
    'BOOLEAN': (lambda k: ['FALSE', 'TRUE'][(k * 7 // 3) % 2], lambda k: ['FALSE', 'TRUE'][(k * 7 // 3) % 2], 'FALSE'),
    'E': (lambda k: 'Abc'[k * 5 // 2 % 3] * 2, lambda k: 'Abc'[k * 5 // 2 % 3] * 2, 'AA'),
}


def ix(t):
    return ', '.join(map(str, t))


def probes(src, bs, limit):
    """index tuples one step outside the bounds"""
    box = [t for t in tuples([(l - 1, u + 1) for l, u in bs]) if not all(l <= x <= u for x, (l, u) in zip(t, bs))]
    return box if len(box) <= limit else src.sample(box, limit)


def shape_case(src, env, bs, limit, variant='plain'):
    """write a distinct value into every cell in a random order, read everything back in every way, probe outside"""
    cells = tuples(bs)
    et = src.pick(['INTEGER', 'INTEGER', 'INTEGER', 'REAL', 'STRING', 'CHAR', 'BOOLEAN', 'E'])
    lit, shown, dflt = ELEM[et]
    ents = ['TYPE E = (AA, bb, cc)', 'DECLARE pre : ARRAY[1 : 3] OF INTEGER', 'DECLARE a : ARRAY[%s] OF %s' % (', '.join('%d : %d' % b for b in bs), et),
            'DECLARE post : ARRAY[1 : 3] OF INTEGER', 'DECLARE w : ' + et]
    ents += ['pre[%d] <- %d\npost[%d] <- %d' % (k, 900 + k, k, 800 + k) for k in ()]
    for k in (1, 2, 3):
        ents += ['pre[%d] <- %d' % (k, 900 + k), 'post[%d] <- %d' % (k, 800 + k)]
    exp = [('ok', '')] * len(ents)
    model = {t: dflt for t in cells}

    def dumpall(x='a'):
        es = []
        for t in cells:
            es += ['%s[%s]' % (x, ix(t)), '"|"']
        return 'OUTPUT ' + ', '.join(es)

    def dumpval():
        return ''.join(model[t] + '|' for t in cells) + '\n'

    def add(e, kind, o):
        ents.append(e)
        exp.append((kind, o))
    small = len(cells) <= 140
    if small:
        add(dumpall(), 'ok', dumpval())
    loops = src.chance(30)
    if loops and et == 'INTEGER':
        # nested loops writing a running number
        text, names = 'n <- 0\n', ['i', 'j', 'k'][:len(bs)]
        body = '\n'.join('FOR %s <- %d TO %d' % (n, l, u) for n, (l, u) in zip(names, bs)) + '\nn <- n + 1\na[%s] <- n * 7\n' % ', '.join(names)
        body += '\n'.join('NEXT ' + n for n in reversed(names))
        add('n <- 0', 'ok', '')
        add(body, 'ok', '')
        for k, t in enumerate(cells):
            model[t] = str((k + 1) * 7)
    else:
        order = src.shuffle(range(len(cells))) if len(cells) <= 60 else range(len(cells))
        code = []
        for k in order:
            model[cells[k]] = shown(k)
            code.append('a[%s] <- %s' % (ix(cells[k]), lit(k)))
        if src.chance(50) and small:
            for c in code:
                add(c, 'ok', '')
        else:
            add('IF TRUE THEN\n' + '\n'.join(code) + '\nENDIF', 'ok', '')
    for part in range(0, len(cells), 120):
        cs = cells[part:part + 120]
        add('OUTPUT ' + ', '.join('a[%s], "|"' % ix(t) for t in cs), 'ok', ''.join(model[t] + '|' for t in cs) + '\n')
    for t in probes(src, bs, limit):
        add(*src.pick([('a[%s] <- %s' % (ix(t), lit(3)), 'runtime', ''), ('w <- a[%s]' % ix(t), 'runtime', ''), ('OUTPUT "x", a[%s]' % ix(t), 'runtime', 'x')]))
    some = src.pick(cells)
    bad = ['REAL', 'STRING', 'BOOLEAN', 'CHAR']
    for kind in ('few', 'many', 'none', 'type', 'name', 'far'):
        t = list(map(str, some))
        if kind == 'few':
            t = t[:-1]
            if not t:
                continue
        elif kind == 'many':
            t.insert(src.n(len(t) + 1), str(src.pick(some)))
        elif kind == 'none':
            for e in ('a <- ' + lit(1), 'INPUT a', 'w <- a'):
                if e[0] == 'I':
                    continue
                add(e, 'runtime', '')
            continue
        elif kind == 'type':
            t[src.n(len(t))] = src.pick(['1.0', '"1"', 'TRUE', "'1'", '1/1/2000', '2.0 / 2', 'AA'])
        elif kind == 'name':
            add('OUTPUT b[%s]' % ix(some), 'runtime', '')
            add('w[%s] <- %s' % (ix(some), lit(1)), 'runtime', '')
            continue
        else:
            k = src.n(len(t))
            t[k] = str(int(t[k]) + src.pick([1 << 31, 1 << 32, 1 << 33, -(1 << 32), -(1 << 31), 1 << 62, -(1 << 62), 256, 65536, 1000]))
        t = ', '.join(t)
        add('a[%s] <- %s' % (t, lit(2)), 'runtime', '')
        add('w <- a[%s]' % t, 'runtime', '')
    for part in range(0, len(cells), 120):
        cs = cells[part:part + 120]
        add('OUTPUT ' + ', '.join('a[%s], "|"' % ix(t) for t in cs), 'ok', ''.join(model[t] + '|' for t in cs) + '\n')
    add('OUTPUT pre[1], pre[2], pre[3], post[1], post[2], post[3]', 'ok', '901902903801802803\n')
    # one write changes one cell
    t = src.pick(cells)
    model[t] = shown(25)
    add('a[%s] <- %s' % (ix(t), lit(25)), 'ok', '')
    for part in range(0, len(cells), 120):
        cs = cells[part:part + 120]
        add('OUTPUT ' + ', '.join('a[%s], "|"' % ix(t) for t in cs), 'ok', ''.join(model[t] + '|' for t in cs) + '\n')
    if len(ents) > 400:
        raise RuntimeError('session too long')
    res, r = session(env, ents, variant)
    for k, (en, (kind, o)) in enumerate(zip(res, exp)):
        if en.kind != kind or en.out != o and not (kind != 'ok' and en.out == strip_err_nl(o)):
            raise Fail('array %s of %s: an entry differs from the map model' % (bs, et), entry=ents[k], expected='%s %r' % (kind, o), observed=repr(en),
                       session='\n'.join(ents[:k + 1]))
    env.mark('%d dimensions' % len(bs), et)
    env.nontrivial, env.digest = True, '\n'.join(ents)
    env.sample = dict(bounds=bs, element=et, cells=len(cells), entries=len(ents))


def one_dim(src, env, i):
    shape_case(src, env, DIMS1[i], 1000, 'san' if i % 5 == 0 else 'plain')


def two_dim(src, env, i):
    if env.tier == 'quick':
        i = (i * 7 + src.n(7)) % len(DIMS2) if i >= 200 else i * 6 % 1296
    shape_case(src, env, DIMS2[i], 40, 'san' if i % 37 == 0 else 'plain')


def three_dim(src, env, i):
    k = src.n(N3) if env.tier == 'quick' else i
    shape_case(src, env, dims3(k), 30, 'san' if i % 97 == 0 else 'plain')


# ------------------------------------------------------------------ histories
TDEF = [St('typeenum', name='Col', names=['Red', 'Green', 'Blue']), St('typerec', name='In', body=[decl('INTEGER', 'k'), decl('INTEGER', 'h', bounds=[(0, 1), (1, 2)])]),
        St('typerec', name='Rec', body=[decl('INTEGER', 'f'), decl('STRING', 's', bounds=[(-1, 1)]), decl('In', 'n'), decl('In', 'm', bounds=[(1, 2)])]),
        St('typeptr', name='PI', target='INTEGER')]


class Hist:
    def __init__(self, src):
        self.s = src
        self.arrs = []      # (name, type, bounds)
        self.k = 100

    def bounds(self):
        s = self.s
        nd = s.weighted([(5, 1), (4, 2), (2, 3), (1, 4)])
        r = []
        for _ in range(nd):
            lo = s.pick([0, 1, -1, -3, 2, 5, 100, -50])
            r.append((lo, lo + s.n(3)))
        return r

    def index(self, bs, wild):
        s = self.s
        r = []
        for lo, hi in bs:
            x = s.n(100)
            if x < 60:
                r.append(L(s.int(lo, hi)))
            elif x < 80:
                r.append(s.pick([B('+', V('i'), L(lo)), B('-', V('j'), L(1 - lo)), B('+', ('call', 'LENGTH', [V('s')]), L(lo)),
                                 B('-', L(hi), V('i')), ('paren', L(hi)), B('MOD', V('j'), L(2)), V('idx', ('[', [L(1)])), V('idx', ('[', [V('idx', ('[', [L(2)]))]))]))
            elif x < 100 - wild:
                r.append(L(s.int(lo, hi)))
            else:
                r.append(s.pick([L(lo - 1), L(hi + 1), L(hi + 2), L(lo - 2), ('real', '1.0'), S('1'), ('bool', True), ('char', '1'), V('s'), L(hi + (1 << 32))]))
        if s.chance(wild):
            if s.chance(50):
                r.append(L(1))
            elif len(r) > 1:
                r.pop()
        return r

    def place(self, t, wild=0):
        """(type, lv) of an element or part of one"""
        s = self.s
        c = [a for a in self.arrs if a[1] == t or a[1] == 'Rec' and t in ('INTEGER', 'STRING')] or self.arrs
        n, at, bs = s.pick(c)
        ops = [('[', self.index(bs, wild))]
        if at == 'Rec' and t == 'INTEGER':
            x = s.n(4)
            ops += [('.', 'f')] if x == 0 else [('.', 'n'), ('.', 'k')] if x == 1 else [('.', 'n'), ('.', 'h'), ('[', self.index([(0, 1), (1, 2)], wild))] if x == 2 else \
                [('.', 'm'), ('[', self.index([(1, 2)], wild)), ('.', s.pick(['k', 'h']))]
            if ops[-1] == ('.', 'h'):
                ops.append(('[', self.index([(0, 1), (1, 2)], wild)))
            return 'INTEGER', (n, ops)
        if at == 'Rec' and t == 'STRING':
            return 'STRING', (n, ops + [('.', 's'), ('[', self.index([(-1, 1)], wild))])
        return at, (n, ops)

    def value(self, t):
        self.k += 1
        k = self.k
        if t == 'INTEGER':
            return L(k)
        return {'REAL': ('real', '%d.5' % k), 'STRING': S('v%d' % k), 'CHAR': ('char', chr(33 + k % 90)), 'BOOLEAN': ('bool', k % 2 == 0), 'Col': V(['Red', 'Green', 'Blue'][k % 3]),
                'DATE': ('date', 1 + k % 28, 1 + k % 12, 2000 + k), 'Rec': V('r0'), 'PI': V('p0')}[t]

    def dump(self, n, t, bs):
        es = []
        for tp in tuples(bs):
            i = ('[', [L(x) for x in tp])
            if t == 'Rec':
                es += [V(n, i, ('.', 'f')), S(','), V(n, i, ('.', 's'), ('[', [L(0)])), S(','), V(n, i, ('.', 'n'), ('.', 'h'), ('[', [L(1), L(2)])), S(','),
                       V(n, i, ('.', 'm'), ('[', [L(2)]), ('.', 'k')), S('|')]
            elif t == 'PI':
                continue
            else:
                es += [V(n, i), S('|')]
        return out(*(es or [S('-')]))

    def program(self, nent):
        s = self.s
        pre = list(TDEF) + [decl('INTEGER', 'i', 'j', 'kk'), decl('STRING', 's'), decl('Rec', 'r0'), decl('PI', 'p0'), decl('INTEGER', 'idx', bounds=[(0, 2)]), assign('i', L(0)), assign('j', L(1)),
                            assign('s', S('')), assign(LVAL('r0', ('.', 'f')), L(55)), assign(LVAL('idx', ('[', [L(1)])), L(0)), assign(LVAL('idx', ('[', [L(2)])), L(1)),
                            St('ptrassign', lv=('p0', []), to=('kk', []))]
        for k in range(s.int(2, 4)):
            t = s.pick(['INTEGER', 'INTEGER', 'REAL', 'STRING', 'CHAR', 'BOOLEAN', 'Col', 'Rec', 'Rec'])
            bs = self.bounds()
            names = ['a%d' % k] + (['b%d' % k] if s.chance(60) else [])
            pre.append(decl(t, *names, bounds=bs))
            for n in names:
                self.arrs.append((n, t, bs))
            if s.chance(25):
                # same number of cells, other bounds
                self.arrs.append(('c%d' % k, t, [(lo + 1, hi + 1) for lo, hi in bs]))
                pre.append(decl(t, 'c%d' % k, bounds=[(lo + 1, hi + 1) for lo, hi in bs]))
            elif s.chance(15):
                self.arrs.append(('c%d' % k, t, bs[::-1]))
                pre.append(decl(t, 'c%d' % k, bounds=bs[::-1]))
            elif s.chance(15):
                self.arrs.append(('c%d' % k, 'REAL' if t == 'INTEGER' else 'INTEGER', bs))
                pre.append(decl('REAL' if t == 'INTEGER' else 'INTEGER', 'c%d' % k, bounds=bs))
        pre.append(St('proc', name='Set', params=[('x', 'INTEGER', 'BYREF', False), ('y', 'INTEGER', 'BYVAL', False)], rtype=None, body=[assign('x', B('+', V('x'), V('y')))]))
        pre.append(St('proc', name='SetS', params=[('x', 'STRING', 'BYREF', False)], rtype=None, body=[assign('x', B('&', V('x'), S('!')))]))
        pre.append(St('proc', name='SetR', params=[('x', 'Rec', 'BYREF', False), ('y', 'Rec', 'BYVAL', False)], rtype=None, body=[
            assign(LVAL('x', ('.', 'f')), B('+', V('y', ('.', 'f')), L(1))), assign(LVAL('y', ('.', 'f')), L(-1)), assign(LVAL('x', ('.', 's'), ('[', [L(0)])), S('ref'))]))
        pre.append(St('func', name='Loc', params=[('n', 'INTEGER', None, False)], rtype='INTEGER', body=[
            decl('INTEGER', 'z', bounds=[(1, 3)]), assign(LVAL('z', ('[', [L(1)])), V('n')),
            St('if', arms=[(B('>', V('n'), L(0)), [assign(LVAL('z', ('[', [L(2)])), ('call', 'Loc', [B('-', V('n'), L(1))]))])], els=None),
            St('return', e=B('+', V('z', ('[', [L(1)])), B('+', V('z', ('[', [L(2)])), V('z', ('[', [L(3)])))))]))
        ents = []
        for _ in range(nent):
            x = s.n(100)
            wild = 12 if s.chance(40) else 0
            n, t, bs = s.pick(self.arrs)
            lv = (n, [('[', self.index(bs, wild))])
            if x < 30:
                ents.append(assign(lv, self.value(t)))
            elif x < 40:
                pt, plv = self.place(s.pick(['INTEGER', 'STRING']), wild)
                ents.append(assign(plv, self.value(pt)))
            elif x < 48:
                # element to element
                u, ulv = self.place(t, wild)
                ents.append(assign(lv, ('var', ulv)))
            elif x < 62:
                same = [a for a in self.arrs if a[1] == t and a[2] == bs]
                o = s.pick(same if s.chance(60) else self.arrs)
                ents.append(assign((o[0], []), V(n)))
                ents.append(self.dump(*o))
                self.arrs_touch = o
            elif x < 70:
                pt, plv = self.place('INTEGER', wild)
                if pt == 'INTEGER':
                    ents.append(St('call', name='Set', args=[('var', plv), L(s.int(1, 9))], parens=True))
            elif x < 74:
                pt, plv = self.place('STRING', wild)
                if pt == 'STRING':
                    ents.append(St('call', name='SetS', args=[('var', plv)], parens=True))
            elif x < 79 and any(a[1] == 'Rec' for a in self.arrs):
                rs = [a for a in self.arrs if a[1] == 'Rec']
                a1, a2 = s.pick(rs), s.pick(rs)
                ents.append(St('call', name='SetR', args=[V(a1[0], ('[', self.index(a1[2], wild))), V(a2[0], ('[', self.index(a2[2], wild)))], parens=True))
            elif x < 81:
                ents.append(out(('call', 'Loc', [L(s.int(0, 3))]), S(' '), ('call', 'Loc', [L(s.int(0, 2))])))
            elif x < 85 and len(bs) == 1:
                ents.append(St('for', name='q', a=L(bs[0][0] - (1 if s.chance(10) else 0)), b=L(bs[0][1] + (1 if s.chance(20) else 0)), step=None, nextname=True,
                               body=[assign((n, [('[', [V('q')])]), self.value(t))]))
            elif x < 88:
                ents.append(s.pick([assign('i', L(s.int(0, 2))), assign('j', L(s.int(0, 2))), assign('s', S('ab'[:s.n(3)])), assign(LVAL('idx', ('[', [L(1)])), L(s.n(3)))]))
            elif x < 91:
                ents.append(s.pick([decl('INTEGER', n, bounds=bs), decl('INTEGER', 'new%d' % len(ents), bounds=[(3, 1)]), assign((n, []), L(1)), assign('i', V(n)),
                                    assign((n, []), V('r0')), assign('unknown', V(n)), assign((n, []), V('unknown'))]))
            ents.append(self.dump(n, t, bs) if s.chance(60) else self.dump(*s.pick(self.arrs)))
        ents += [self.dump(*a) for a in self.arrs]
        return pre, ents


def hist_case(src, env, i):
    h = Hist(src)
    pre, ents = h.program(src.int(4, 22))
    variant = 'san' if i % 15 == 14 else 'plain'
    if i % 4 == 3:
        m, o = diff(env, pre + ents, variant=variant)
        env.mark('file ' + m.kind + ('' if m.exc is None else ': %s' % m.exc))
        env.nontrivial = m.kind == 'runtime' or True
        return
    m, rows = msession(env, ents, pre=pre, variant=variant)
    rej = [str(r[1][2]) for r in rows if r[1][0] == 'runtime']
    env.mark(*['rejected: ' + x for x in set(rej)])
    env.mark('complete' if not m.cut else 'cut: ' + m.cut)
    env.nontrivial = bool(rej)


def typed_case(src, env, i):
    g = Gen(src, errors=4, size=12, depth=2, wild_index=3, enums=False, consts=False, casts=False, inputs=False)
    prog = g.program()
    m, o = diff(env, prog, g.stdin)
    env.mark(m.kind if m.exc is None else 'runtime: %s' % m.exc)
    env.nontrivial = bool(m.cov)


# ------------------------------------------------------------------ indices that are calls: evaluated once, in order, even where a whole array is meant
class Counted:
    """arrays in records in arrays; the indices are calls that report themselves, count, and change elements of the arrays in use"""
    PLACES = [('a', [3], 'INTEGER'), ('b', [3], 'INTEGER'), ('g', [2, 2], 'INTEGER'), ('red', [3], 'INTEGER')]

    def __init__(self, src):
        self.s, self.k = src, 0
        self.seen = 0

    def index(self, n, d=2):
        s = self.s
        x = s.n(20)
        if x < 9:
            self.seen += 1
            if d and s.chance(20):
                return ('call', 'F', [self.index(n, d - 1)])
            return ('call', s.pick(['F', 'F', 'G', 'H']), [L(s.int(1, n))])
        if x < 12:
            return B(s.pick(['+', '-']), self.index(n, 0), L(0)) if d else L(s.int(1, n))
        if x < 13:
            return L(s.pick([0, n + 1, -1]))
        if x < 14 and d:
            return ('var', self.elem(d - 1))
        if x < 15:
            return V(s.pick(['nowhere', 'red', 'green', 'one', 'i', 'i', 'i']))
        return L(s.int(1, n))

    def ix(self, dims, d=2):
        return ('[', [self.index(n, d) for n in dims])

    def rec(self, d):
        s = self.s
        x = s.n(6)
        if x < 2:
            return 'one', []
        if x < 5:
            return 'recs', [self.ix([3], d)]
        return 'grid', [self.ix([2, 2], d)]

    def arr(self, d=2):
        """path of a whole array, its dimensions"""
        s = self.s
        if s.chance(25):
            n, dims, t = s.pick(self.PLACES)
            return (n, []), dims
        n, ops = self.rec(d)
        x = s.n(10)
        if x < 5:
            return (n, ops + [('.', 'arr')]), [3]
        if x < 8:
            return (n, ops + [('.', 'two')]), [2, 2]
        return (n, ops + [('.', 'sub'), self.ix([2], d), ('.', 'z')]), [3]

    def elem(self, d=2):
        (n, ops), dims = self.arr(d)
        return n, ops + [self.ix(dims, d)]

    def num(self):
        self.k += 1
        return L(100 + self.k)

    def stmt(self):
        s = self.s
        x = s.n(100)
        if x < 34:
            a, da = self.arr()
            for _ in range(6):
                b, db = self.arr()
                if db == da or s.chance(5):
                    break
            return assign(a, ('var', b))
        if x < 58:
            return assign(self.elem(), s.pick([self.num(), ('var', self.elem()), B('+', ('var', self.elem()), L(1)), ('call', 'F', [('var', self.elem())])]))
        if x < 76:
            return out(*sum([[('var', self.elem()), S(' ')] for _ in range(s.int(1, 3))], []))
        if x < 84:
            return St('call', name='Set', args=[('var', self.elem()), s.pick([self.num(), ('var', self.elem())])], parens=True)
        if x < 90:
            n, ops = self.rec(2)
            m, ops2 = self.rec(2)
            return assign((n, ops), ('var', (m, ops2)))
        if x < 94:
            return St('for', name='q', a=self.index(3), b=self.index(3), step=None, nextname=True, body=[assign(self.elem(), B('+', V('q'), self.num()))])
        if x < 97:
            return St('ptrassign', lv=('p', []), to=self.elem()) if s.chance(60) else assign(('p', [('^',)]), self.num())
        return s.pick([out(V('red')), assign('i', L(s.int(1, 3))), out(('var', ('e', []))), assign('e', V('green')), out(('var', ('green', [('[', [L(1)])]))), out(('var', ('red', [('[', [L(1)])])))])

    def dump(self):
        ps = [('a', [('[', [L(k)])]) for k in (1, 2, 3)] + [('red', [('[', [L(k)])]) for k in (1, 2, 3)] + [('b', [('[', [L(k)])]) for k in (1, 2, 3)] + [('g', [('[', [L(k), L(q)])]) for k in (1, 2) for q in (1, 2)]
        for n, ops in [('one', [])] + [('recs', [('[', [L(k)])]) for k in (1, 2, 3)] + [('grid', [('[', [L(k), L(q)])]) for k in (1, 2) for q in (1, 2)]:
            ps += [(n, ops + [('.', 'arr'), ('[', [L(k)])]) for k in (1, 2, 3)] + [(n, ops + [('.', 'two'), ('[', [L(k), L(q)])]) for k in (1, 2) for q in (1, 2)]
            ps += [(n, ops + [('.', 'sub'), ('[', [L(k)]), ('.', 'z'), ('[', [L(q)])]) for k in (1, 2) for q in (1, 2, 3)]
        self.all = ps
        return [out(*sum([[('var', p), S(' ')] for p in ps[k:k + 13]], [])) for k in range(0, len(ps), 13)] + [out(V('cnt'))]

    def program(self, n):
        s = self.s
        pre = [St('typeenum', name='En', names=['red', 'green', 'blue']), St('typeptr', name='PI', target='INTEGER'),
               St('typerec', name='Sub', body=[decl('INTEGER', 'z', bounds=[(1, 3)])]),
               St('typerec', name='Rec', body=[decl('INTEGER', 'arr', bounds=[(1, 3)]), decl('INTEGER', 'two', bounds=[(1, 2), (1, 2)]), decl('Sub', 'sub', bounds=[(1, 2)])]),
               decl('INTEGER', 'cnt', 'i'), decl('En', 'e'), decl('PI', 'p'), decl('INTEGER', 'a', bounds=[(1, 3)]), decl('INTEGER', 'b', bounds=[(1, 3)]), decl('INTEGER', 'red', bounds=[(1, 3)]),
               decl('INTEGER', 'g', bounds=[(1, 2), (1, 2)]), decl('Rec', 'one'), decl('Rec', 'recs', bounds=[(1, 3)]), decl('Rec', 'grid', bounds=[(1, 2), (1, 2)]), assign('i', L(1)),
               St('ptrassign', lv=('p', []), to=('a', [('[', [L(1)])]))]
        bump = assign('cnt', B('+', V('cnt'), L(1)))
        val = lambda: B('+', V('cnt'), L(10 * s.int(1, 9)))
        lit = lambda: s.pick([('a', [('[', [L(s.int(1, 3))])]), ('one', [('.', 'arr'), ('[', [L(s.int(1, 3))])]), ('recs', [('[', [L(s.int(1, 3))]), ('.', 'arr'), ('[', [L(2)])]), ('g', [('[', [L(1), L(2)])])])
        fun = lambda n, body: St('func', name=n, params=[('x', 'INTEGER', 'BYVAL', False)], rtype='INTEGER', body=[bump] + body + [St('return', e=V('x'))])
        pre += [fun('F', [out(S('F'), V('x'))]), fun('G', [assign(lit(), val()), assign(lit(), val())]),
                fun('H', [assign(('recs', [('[', [L(s.int(1, 3))])]), ('var', ('one', []))), out(S('H'), ('var', lit()))]),
                St('proc', name='Set', params=[('x', 'INTEGER', 'BYREF', False), ('y', 'INTEGER', 'BYVAL', False)], rtype=None, body=[bump, assign('x', B('+', V('y'), L(0))), out(('var', lit()), S(' '), V('x'))])]
        self.dump()
        for k, p in enumerate(self.all):
            if s.chance(60):
                pre.append(assign(p, L(k % 3 + 1)))
        prog = []
        for _ in range(n):
            prog.append(self.stmt())
            if s.chance(30):
                prog += self.dump()
        return pre, prog + self.dump()


def counted_case(src, env, i):
    c = Counted(src)
    pre, prog = c.program(src.int(2, 10))
    variant = 'san' if i % 20 == 19 else 'plain'
    if i % 4 == 0:
        m, o = diff(env, pre + prog, variant=variant)
        env.mark('file ' + m.kind + ('' if m.exc is None else ': %s' % m.exc))
    else:
        m, rows = msession(env, prog, pre=pre, variant=variant)
        env.mark('complete' if not m.cut else 'cut: ' + m.cut, *{'rejected: ' + str(r[1][2]) for r in rows if r[1][0] == 'runtime'})
    env.nontrivial = c.seen > 0


# ------------------------------------------------------------------ bounds that change while the indices of an access are evaluated
def moving_case(src, env, i):
    """r1.a[.., F(), ..] where F assigns a record with other array bounds to r1; then every cell outside the new bounds is an error and every other one that of the new array"""
    nd = src.int(1, 3)
    old, new = [[(src.int(-1, 2), src.int(2, 4)) for _ in range(nd)] for _ in (0, 1)]
    names = ['l%d' % k for k in range(nd)], ['u%d' % k for k in range(nd)]
    inner = src.chance(30)
    ents = ['DECLARE %s : INTEGER' % ', '.join(names[0] + names[1])]
    rec = 'TYPE T\n  DECLARE h : INTEGER\n  DECLARE a : ARRAY[%s] OF INTEGER\n  DECLARE z : INTEGER\nENDTYPE' % ', '.join('%s : %s' % x for x in zip(*names))
    ents.append(rec)
    if inner:
        ents.append('TYPE O\n  DECLARE t : ARRAY[1:2] OF T\nENDTYPE')
    acc = 't[2].' if inner else ''
    ty = 'O' if inner else 'T'
    for r, bs in (('r1', old), ('r2', new)):
        for l, u, (a, b) in zip(*names, bs):
            ents += ['%s <- %d' % (l, a), '%s <- %d' % (u, b)]
        ents.append('DECLARE %s : %s' % (r, ty))
    vals_ = {}
    for r, bs, base in (('r1', old, 1000), ('r2', new, 2000)):
        for k, t in enumerate(tuples(bs)):
            vals_[r, t] = base + k
            ents.append('%s.%sa[%s] <- %d' % (r, acc, ix(t), base + k))
    ents.append('FUNCTION F(x : INTEGER) RETURNS INTEGER\n%s\nRETURN x\nENDFUNCTION' % ('r1 <- r2' if not inner or src.chance(50) else 'r1.t[2] <- r2.t[2]'))
    ents.append('DECLARE keep : ' + ty)
    ents.append('keep <- r1')
    exp = [None] * len(ents)
    for _ in range(src.int(2, 6)):
        t = tuple(src.int(min(a[0], b[0]) - (1 if src.chance(20) else 0), max(a[1], b[1]) + (1 if src.chance(20) else 0)) for a, b in zip(old, new))
        f = src.n(nd)
        e = [('F(%d)' % x if k == f else str(x)) for k, x in enumerate(t)]
        inside = [all(lo <= x <= hi for x, (lo, hi) in zip(t, bs)) for bs in (old, new)]
        read = src.chance(60)
        ents.append('r1 <- keep')
        exp.append(None)
        ents.append('OUTPUT r1.%sa[%s]' % (acc, ', '.join(e)) if read else 'r1.%sa[%s] <- 7' % (acc, ', '.join(e)))
        if not inside[1]:
            exp.append(('error',))
        elif not inside[0]:
            exp.append(('either', '%d\n' % vals_['r2', t] if read else ''))
        else:
            exp.append(('ok', '%d\n' % vals_['r2', t] if read else ''))
        # r1 is what it was, or r2 with at most the one cell changed
        ents.append('OUTPUT r1.%sz, r1.%sh' % (acc, acc))
        exp.append(('ok', '00\n'))
    got, _ = session(env, ents, variant='san')
    for e, x, g in zip(ents, exp, got):
        if x is None:
            continue
        kind_, said = g.kind, g.out
        if x[0] == 'error' and kind_ == 'ok' or x[0] == 'ok' and (kind_ != 'ok' or said != x[1]) or x[0] == 'either' and kind_ == 'ok' and said != x[1]:
            raise Fail('an access to an array whose bounds change while its indices are evaluated', 'moving', entries='\n'.join(ents), entry=e, expected=repr(x), observed='%s %r' % (kind_, said))
        env.mark(x[0] + (' -> ' + kind_ if x[0] == 'either' else ''))
    env.nontrivial = True


# ------------------------------------------------------------------ large arrays: corners, neighbours of powers of two, random cells
LARGE = [[(1, 255)], [(0, 256)], [(-128, 128)], [(1, 65535)], [(1, 65537)], [(0, 131072)], [(-70000, 70000)], [(1, 200000)], [(1, 255), (1, 3)], [(1, 3), (0, 256)], [(0, 255), (0, 255)], [(1, 257), (1, 257)], [(1, 65536), (1, 2)],
         [(1, 2), (1, 65537)], [(-300, 300), (5, 260)], [(1, 40000), (1, 3)], [(1, 16), (1, 300), (1, 16)], [(0, 63), (0, 63), (0, 31)], [(1, 2), (1, 2), (1, 33000)], [(1, 33000), (1, 2), (1, 2)], [(1, 8), (1, 8), (1, 8), (1, 8), (1, 8)],
         [(1000000000000, 1000000000300)], [(-9000000000000000000, -8999999999999999700)], [(4294967290, 4294967300), (1, 5)], [(2147483640, 2147483660)], [(-2147483660, -2147483640), (-1, 300)]]


def large_case(src, env, i):
    bs = LARGE[i % len(LARGE)]
    t = src.pick(['INTEGER', 'INTEGER', 'STRING', 'REAL'])
    n = 1
    for a, b in bs:
        n *= b - a + 1
    if n > 140000:
        t = 'INTEGER'
    marks = []
    for a, b in bs:
        m = {a, a + 1, b, b - 1, (a + b) // 2}
        m |= {a + (1 << k) + d for k in range(1, 18) for d in (-1, 0, 1)} | {0, 1, 255, 256}
        marks.append(sorted(x for x in m if a <= x <= b))
    cells = [tuple(src.pick(m) if src.chance(70) else src.int(*b) for m, b in zip(marks, bs)) for _ in range(60)]
    cells += [tuple(src.pick([b[0], b[1]]) for b in bs) for _ in range(8)]
    # cells that would coincide if an offset were kept in 8, 16 or 32 bits
    if len(bs) > 1:
        cells += [tuple(b[0] if k == j else src.pick([b[0], b[1], b[0] + 1]) for k, b in enumerate(bs)) for j in range(len(bs)) for _ in range(4)]
    cells = [c for c in dict.fromkeys(cells) if all(a <= x <= b for x, (a, b) in zip(c, bs))]
    src.shuffle(cells)
    dim = ', '.join('%d : %d' % b for b in bs)
    val = {}
    lines = ['DECLARE a, b : ARRAY[%s] OF %s' % (dim, t)]
    lit = (lambda v: '"v%d"' % v) if t == 'STRING' else (lambda v: '%d.5' % v) if t == 'REAL' else str
    shown = (lambda v: 'v%d' % v) if t == 'STRING' else (lambda v: '%d.5' % v) if t == 'REAL' else str
    for k, c in enumerate(cells):
        val[c] = k + 1
        lines.append('a[%s] <- %s' % (', '.join(map(str, c)), lit(k + 1)))
    want = []
    lines.append('b <- a')
    lines.append('%s <- %s' % ('a[%s]' % ', '.join(map(str, cells[0])), lit(0)))
    for c in cells:
        lines.append('OUTPUT b[%s], " ", a[%s]' % (', '.join(map(str, c)), ', '.join(map(str, c))))
        want.append('%s %s' % (shown(val[c]), shown(0 if c == cells[0] else val[c])))
    # one step outside in each direction
    k = src.n(len(bs))
    bad = list(cells[src.n(len(cells))])
    bad[k] = src.pick([bs[k][0] - 1, bs[k][1] + 1, bs[k][0] + 65536 if bs[k][0] + 65536 > bs[k][1] else bs[k][1] + 256, bs[k][1] + (1 << 32), bs[k][0] - (1 << 32)])
    lines.append('OUTPUT "x"')
    lines.append('a[%s] <- %s' % (', '.join(map(str, bad)), lit(9)))
    lines.append('OUTPUT "y"')
    text = '\n'.join(lines) + '\n'
    r = env.file(text, flags=32)
    got = r.out.decode('latin-1').split('\n')
    if got[:len(want) + 1] != want + ['x'] or r.code != 1 or not r.err.startswith(b'Runtime Error') or 'y' in got:
        j = next((j for j in range(len(want)) if j >= len(got) or got[j] != want[j]), len(want))
        raise Fail('a cell of a large array', 'large', program=numbered(text), expected=want[j:j + 1] or ['x', 'runtime error'], observed=got[j:j + 2], cell=str(cells[j] if j < len(cells) else bad), stderr=r.err[-300:])
    env.mark('%d dimensions' % len(bs), t)
    env.nontrivial, env.digest = True, text
    env.sample = dict(bounds=dim, cells=len(cells), refused=bad)


# ------------------------------------------------------------------ whole arrays with nearly the same bounds
def bounds_case(src, env, i):
    n = src.pick([1, 1, 2, 3])
    base = [0, 0, 1, 1, -3, 250, 65530, -65540, (1 << 31) - 2, (1 << 32) - 1, -(1 << 32), (1 << 62)]
    bs = []
    for _ in range(n):
        lo = src.pick(base)
        bs.append((lo, lo + src.pick([0, 1, 2, 3, 5])))
    t = src.pick(['INTEGER', 'STRING', 'REAL', 'BOOLEAN'])
    lit = {'INTEGER': str, 'STRING': lambda k: '"s%d"' % k, 'REAL': lambda k: '%d.5' % k, 'BOOLEAN': lambda k: ['FALSE', 'TRUE'][k % 2]}
    shown = dict(lit, STRING=lambda k: 's%d' % k)
    tgt, ty, kind = [tuple(b) for b in bs], t, 'same'
    k = src.n(n)
    lo, hi = bs[k]
    kind = ['same', 'shifted', 'far', 'upper', 'lower', 'type', 'order', 'dimensions', 'split'][i % 9]
    if kind in ('shifted', 'far'):
        d = src.pick([1, -1, 2, hi - lo + 1] if kind == 'shifted' else [256, -256, 65536, -65536, 1 << 32, -(1 << 32), 1 << 31, 1 << 33, -(1 << 40)])
        tgt[k] = (lo + d, hi + d)
    elif kind == 'upper':
        tgt[k] = (lo, hi + src.pick([1, 2, 256, 65536 if n == 1 else 128]))
    elif kind == 'lower':
        tgt[k] = (lo - src.pick([1, 2, 256]), hi)
    elif kind == 'type':
        ty = src.pick([x for x in lit if x != t])
    elif kind == 'order':
        tgt = tgt[::-1]
    elif kind == 'dimensions':
        tgt = tgt + [(1, 1)] if src.chance(50) or n == 1 else tgt[:-1]
    elif kind == 'split':
        # the same number of cells
        tgt = [(1, hi - lo + 1), (1, 1)] if n == 1 else tgt[:k] + tgt[k + 1:] + [tgt[k]]
    same = tgt == bs and ty == t
    dim = lambda q: 'ARRAY[%s] OF ' % ', '.join('%d:%d' % b for b in q)
    corner = lambda q: list(dict.fromkeys([tuple(b[0] for b in q), tuple(b[1] for b in q), tuple(src.pick(b) for b in q)]))
    rec = src.chance(25)
    an, bn = ('ra.f', 'rb.f') if rec else ('a', 'b')
    ls = ['TYPE RA', 'DECLARE f : ' + dim(bs) + t, 'ENDTYPE', 'TYPE RB', 'DECLARE f : ' + dim(tgt) + ty, 'ENDTYPE', 'DECLARE ra : RA', 'DECLARE rb : RB'] if rec else ['DECLARE a : ' + dim(bs) + t, 'DECLARE b : ' + dim(tgt) + ty]
    ix = lambda c: '[' + ', '.join(map(str, c)) + ']'
    A, Bc = corner(bs), corner(tgt)
    for j, c in enumerate(A):
        ls.append('%s%s <- %s' % (an, ix(c), lit[t](2 * j + 1)))
    for j, c in enumerate(Bc):
        ls.append('%s%s <- %s' % (bn, ix(c), lit[ty](2 * j + 20)))
    n0 = len(ls)
    sa = 'OUTPUT ' + ', "|", '.join(an + ix(c) for c in A)
    sb = 'OUTPUT ' + ', "|", '.join(bn + ix(c) for c in Bc)
    wa = '|'.join(shown[t](2 * j + 1) for j in range(len(A)))
    wb = '|'.join(shown[ty](2 * j + 20) for j in range(len(Bc)))
    ents = ['\n'.join(ls[:3]) + '\n', '\n'.join(ls[3:6]) + '\n'] + ls[6:] if rec else list(ls)
    a, b = src.pick([(an, bn), (bn, an)])
    ents += [sa, sb, '%s <- %s' % (a, b), sa, sb]
    res, r = session(env, ents)
    tail = res[-5:]
    for e in res[:-5] + tail[:2]:
        if e.kind != 'ok':
            raise Fail('set-up rejected', observed=repr(e))
    if tail[0].out.strip() != wa or tail[1].out.strip() != wb:
        raise Fail('the cells do not hold what was written', expected=[wa, wb], observed=[repr(tail[0]), repr(tail[1])], entries=ents)
    if same:
        if a == an:
            wa2, wb2 = '|'.join(shown[t]({c: 2 * j + 20 for j, c in enumerate(Bc)}.get(c, 0)) for c in A), wb
            ok = tail[2].kind == 'ok' and tail[4].out.strip() == wb and (set(A) - set(Bc) or tail[3].out.strip() == wa2)
        else:
            wb2 = '|'.join(shown[t]({c: 2 * j + 1 for j, c in enumerate(A)}.get(c, 0)) for c in Bc)
            ok = tail[2].kind == 'ok' and tail[3].out.strip() == wa and (set(Bc) - set(A) or tail[4].out.strip() == wb2)
        if not ok:
            raise Fail('assigning an array of the same type and bounds', entries=ents, observed=[repr(e) for e in tail])
    elif tail[2].kind != 'runtime' or tail[3].out != tail[0].out or tail[4].out != tail[1].out:
        raise Fail('assigning an array of other bounds or another type must be an error without effect', entries=ents, observed=[repr(e) for e in tail], change=kind)
    env.mark(kind, 'field' if rec else 'variable')
    env.nontrivial, env.digest = True, repr(ents)
    env.sample = dict(first=dim(bs) + t, second=dim(tgt) + ty, outcome=tail[2].kind)


STREAMS = [
    Stream('bounds', bounds_case, 900, 20000),
    Stream('large', large_case, 2 * len(LARGE), 40 * len(LARGE)),
    Stream('one-dim', one_dim, 36, 36, exhaustive=True),
    Stream('two-dim', two_dim, 400, 1296, exhaustive=True),
    Stream('three-dim', three_dim, 300, 46656, exhaustive=True),
    Stream('histories', hist_case, 3500, 60000),
    Stream('moving', moving_case, 300, 6000),
    Stream('calls', counted_case, 1500, 40000),
    Stream('typed', typed_case, 4000, 60000),
]
