"""Histories over a graph of records: long access paths in statements that are executed again and again while what they denote changes."""
from common import *

I = lambda *ix: ('[', [L(x) if isinstance(x, int) else x for x in ix])
F = lambda f: ('.', f)
D = ('^',)

TYPES = [
    St('typeptr', name='PI', target='INTEGER'),
    St('typerec', name='Box', body=[decl('INTEGER', 'w'), decl('PI', 'ref'), decl('INTEGER', 'cells', bounds=[(0, 1)])]),
    St('typerec', name='Node', body=[decl('INTEGER', 'v'), decl('STRING', 's'), decl('PN', 'link'), decl('PN', 'kids', bounds=[(1, 2)]), decl('Box', 'box'), decl('Box', 'rows', bounds=[(1, 2)])]),
    St('typeptr', name='PN', target='Node'), St('typeptr', name='PB', target='Box'), St('typeptr', name='PPN', target='PN')]
FIELDS = {'Node': [('INTEGER', [F('v')]), ('STRING', [F('s')]), ('PN', [F('link')]), ('PN', [F('kids'), '12']), ('Box', [F('box')]), ('Box', [F('rows'), '12'])],
          'Box': [('INTEGER', [F('w')]), ('PI', [F('ref')]), ('INTEGER', [F('cells'), '01'])]}
DEREF = {'PI': 'INTEGER', 'PN': 'Node', 'PB': 'Box', 'PPN': 'PN'}
# global names: type, index kind of an array
GLOBALS = [('nodes', 'Node', '123'), ('one', 'Node', None), ('grid', 'Node', '01,12'), ('head', 'PN', None), ('cur', 'PN', None), ('slots', 'PN', '12'), ('ints', 'INTEGER', '123'), ('num', 'INTEGER', None),
           ('pint', 'PI', None), ('pints', 'PI', '12'), ('pbox', 'PB', None), ('boxes', 'Box', '12'), ('link2', 'PPN', None), ('text', 'STRING', None)]


class Paths:
    def __init__(self, src, wild=0, copies=0):
        self.s, self.wild, self.k, self.copies = src, wild, 100, copies
        self.names = list(GLOBALS)
        self.idx = ['a', 'b']
        self.procs = []
        self.funs = []

    def num(self):
        self.k += 1
        return L(self.k)

    def index(self, kinds):
        s = self.s
        out_ = []
        for kind in kinds.split(','):
            lits = [int(c) for c in kind]
            x = s.n(10)
            if s.chance(self.wild):
                out_.append(L(s.pick([0, 3, 4, -1])))
            elif x < 5:
                out_.append(L(s.pick(lits)))
            elif '1' in kind and '2' in kind:
                # a and b are always 1 or 2
                i = s.pick(self.idx)
                out_.append(s.pick([V(i), B('-', L(3), V(i))]))
            else:
                out_.append(B('-', V(s.pick(self.idx)), L(1)))
        return ('[', out_)

    def path(self, want, maxlen=6):
        """a random access path ending in a place of type want"""
        s = self.s
        for _ in range(60):
            name, t, kind = s.pick(self.names)
            ops = [self.index(kind)] if kind else []
            n = s.int(0, maxlen)
            while True:
                if t == want and (n <= 0 or s.chance(30)):
                    return name, ops
                n -= 1
                if n < -3:
                    break
                if t in DEREF:
                    t, ops = DEREF[t], ops + [D]
                elif t in FIELDS:
                    t, o = s.pick(FIELDS[t])
                    ops = ops + [self.index(x) if isinstance(x, str) else x for x in o]
                else:
                    break
        return {'INTEGER': ('num', []), 'STRING': ('text', []), 'PN': ('head', []), 'PI': ('pint', []), 'PB': ('pbox', []), 'PPN': ('link2', []), 'Node': ('one', []), 'Box': ('boxes', [I(1)])}[want]

    def R(self, t, **kw):
        return ('var', self.path(t, **kw))

    def stmt(self, depth=0):
        s = self.s
        x = s.n(100)
        if self.copies and s.chance(self.copies):
            t = s.pick(['Node', 'Node', 'Box'])
            return [assign(self.path(t), self.R(t))] if s.chance(80) else [assign(self.path('INTEGER'), self.num())]
        if x < 24:
            return [out(S(s.pick('<>#@%')), *sum([[self.R(s.weighted([(5, 'INTEGER'), (1, 'STRING')])), S(' ')] for _ in range(s.int(1, 3))], []))]
        if x < 44:
            return [assign(self.path('INTEGER'), s.pick([self.num(), B('+', self.R('INTEGER'), L(1)), self.R('INTEGER')]))]
        if x < 60:
            p = s.weighted([(6, 'PN'), (3, 'PI'), (2, 'PB'), (1, 'PPN')])
            return [St('ptrassign', lv=self.path(p), to=self.path(DEREF[p], maxlen=4))]
        if x < 74:
            p = s.weighted([(7, 'PN'), (2, 'PI'), (1, 'PB'), (1, 'PPN')])
            return [assign(self.path(p), self.R(p))]
        if x < 84:
            t = s.pick(['Node', 'Box'])
            return [assign(self.path(t), self.R(t))]
        if x < 87:
            return [assign(self.path('STRING'), s.pick([self.R('STRING'), S('t%d' % s.n(100))]))]
        if x < 92:
            return [assign(s.pick(self.idx), s.pick([L(1), L(2), B('-', L(3), V(s.pick(self.idx)))]))]
        if x < 97 and self.procs and depth:
            return self.call()
        return [out(S('='), self.R('INTEGER'))]

    def call(self):
        s = self.s
        name, params = s.pick(self.procs)
        args = []
        for n, t, mode in params:
            if n == 'd':
                args.append(L(s.n(2)))
            else:
                args.append(self.R(t, maxlen=4))
        return [St('call', name=name, args=args, parens=True)]

    def body(self, n, depth):
        r = []
        for _ in range(n):
            x = self.stmt(depth)
            if self.s.chance(30):
                x = [St('if', arms=[(B(self.s.pick(['=', '<>']), V(self.s.pick(self.idx)), L(self.s.int(1, 2))), x)], els=self.stmt(depth) if self.s.chance(30) else None)]
            r += x
        return r

    def loop(self, depth=1):
        s = self.s
        self.k += 1
        return [St('for', name='q%d' % self.k, a=L(1), b=L(s.int(2, 4)), step=None, nextname=True, body=self.body(s.int(2, 7), depth))]

    def routine(self, k):
        s = self.s
        save = list(self.names)
        params = [('d', 'INTEGER', 'BYVAL')]
        for n, t, w in (('x', 'INTEGER', 50), ('pn', 'PN', 60), ('nd', 'Node', 40), ('bx', 'Box', 25), ('pi', 'PI', 25)):
            if s.chance(w):
                params.append((n, t, s.pick(['BYREF', 'BYVAL'])))
        local = [decl('INTEGER', 'l')] if s.chance(60) else []
        names = [p[0] for p in params[1:]] + ['l']
        self.names = [g for g in self.names] + [(n, t, None) for n, t, _ in params[1:] for _ in (0, 1)]
        if s.chance(50):
            local += [decl('PN', 'lp'), St('ptrassign', lv=('lp', []), to=('nodes', [I(s.int(1, 3))]))]
            self.names.append(('lp', 'PN', None))
        if s.chance(40):
            # copies of everything reachable by value
            local += [decl('Node', 'ln'), assign('ln', V('one'))]
            ln = ('ln', 'Node', None)
            self.names.append(ln)
        body = local + self.body(s.int(2, 6), 0)
        if s.chance(50):
            body += self.loop(0)
        if s.chance(60):
            args = []
            for n, t, m in params:
                args.append(B('-', V('d'), L(1)) if n == 'd' else self.R(t, maxlen=3))
            body.append(St('if', arms=[(B('>', V('d'), L(0)), [St('call', name='R%d' % k, args=args, parens=True)])], els=None))
            body += self.body(s.int(1, 3), 0)
        self.names = save
        self.procs.append(('R%d' % k, params))
        return St('proc', name='R%d' % k, params=[(n, t, m, False) for n, t, m in params], rtype=None, body=body)

    def setup(self, procs=True):
        s = self.s
        pre = list(TYPES) + [decl('INTEGER', 'a', 'b', 'num'), assign('a', L(1)), assign('b', L(2)), decl('Node', 'nodes', bounds=[(1, 3)]), decl('Node', 'one'), decl('Node', 'grid', bounds=[(0, 1), (1, 2)]),
                             decl('PN', 'head', 'cur'), decl('PN', 'slots', bounds=[(1, 2)]), decl('INTEGER', 'ints', bounds=[(1, 3)]), decl('PI', 'pint'), decl('PI', 'pints', bounds=[(1, 2)]),
                             decl('PB', 'pbox'), decl('Box', 'boxes', bounds=[(1, 2)]), decl('PPN', 'link2'), decl('STRING', 'text')]
        nodes = [('nodes', [I(1)]), ('nodes', [I(2)]), ('nodes', [I(3)]), ('one', [])] + [('grid', [I(x, y)]) for x in (0, 1) for y in (1, 2)]
        ints = [('num', [])] + [('ints', [I(k)]) for k in (1, 2, 3)]
        boxes = [('boxes', [I(1)]), ('boxes', [I(2)])]
        pns, pis = [('head', []), ('cur', []), ('slots', [I(1)]), ('slots', [I(2)])], [('pint', []), ('pints', [I(1)]), ('pints', [I(2)])]
        for n, o in nodes:
            pns += [(n, o + [F('link')]), (n, o + [F('kids'), I(1)]), (n, o + [F('kids'), I(2)])]
            ints += [(n, o + [F('v')])]
            boxes += [(n, o + [F('box')]), (n, o + [F('rows'), I(1)]), (n, o + [F('rows'), I(2)])]
        for n, o in boxes:
            pis.append((n, o + [F('ref')]))
            ints += [(n, o + [F('w')]), (n, o + [F('cells'), I(0)]), (n, o + [F('cells'), I(1)])]
        self.ints = ints
        for k, p in enumerate(ints):
            pre.append(assign(p, L(k + 1)))
        skip = 0 if not self.wild else 8
        for p in pns:
            if not s.chance(skip):
                pre.append(St('ptrassign', lv=p, to=s.pick(nodes)))
        for p in pis:
            if not s.chance(skip):
                pre.append(St('ptrassign', lv=p, to=s.pick(ints)))
        pre += [St('ptrassign', lv=('pbox', []), to=s.pick(boxes)), St('ptrassign', lv=('link2', []), to=s.pick(pns))]
        if procs:
            for k in range(s.int(0, 2)):
                pre.append(self.routine(k))
        return pre

    def dump(self):
        step = 12
        return [out(*sum([[('var', p), S(' ')] for p in self.ints[k:k + step]], [])) for k in range(0, len(self.ints), step)]


def copies_case(src, env, i):
    case(src, env, i, 25)


def case(src, env, i, copies=0):
    file = i % 3 != 2
    w = Paths(src, 0 if file else 4, copies)
    pre = w.setup()
    prog = []
    for _ in range(src.int(1, 4)):
        prog += w.loop() if src.chance(75) else (w.call() if w.procs and src.chance(60) else w.stmt(1))
    variant = 'san' if i % 8 == 7 else 'plain'
    if file:
        m, o = diff(env, pre + prog + w.dump(), variant=variant)
        env.mark('file ' + m.kind + ('' if m.exc is None else ': %s' % m.exc))
    else:
        m, rows = msession(env, prog + w.dump(), pre=pre, variant=variant)
        env.mark('complete' if not m.cut else 'cut: ' + m.cut, *{'rejected: ' + str(r[1][2]) for r in rows if r[1][0] == 'runtime'})
    env.nontrivial = True
