"""C09: pointers alias exactly their live target; dead or unset pointers are diagnosed."""
from common import *
from gen import Gen
import paths
import ptrfields
import dynrec

VARIANTS = ['plain', 'san']
RULE = ('a case is non-trivial when at least one pointer was set and afterwards used for a read or write that was decided against the alias '
        'model, or an unset or dead pointer was used and had to be diagnosed; distinct by text')
ASSUMPTIONS = ['the echo of a pointer value is not judged']

I = lambda *ix: ('[', [L(x) if isinstance(x, int) else x for x in ix])
F = lambda f: ('.', f)
D = ('^',)
TYPES = [St('typeptr', name='PI', target='INTEGER'), St('typeptr', name='PS', target='STRING'), St('typeptr', name='PP', target='PI'),
         St('typeptr', name='PI2', target='INTEGER'),
         St('typerec', name='In', body=[decl('INTEGER', 'k'), decl('INTEGER', 'h', bounds=[(1, 2)])]),
         St('typeptr', name='PN', target='In'),
         St('typerec', name='Rec', body=[decl('INTEGER', 'f'), decl('INTEGER', 'g', bounds=[(0, 1)]), decl('PI', 'p'), decl('In', 'n'), decl('STRING', 's')]),
         St('typeptr', name='PR', target='Rec'),
         St('typerec', name='Twin', body=[decl('INTEGER', 'k'), decl('INTEGER', 'h', bounds=[(1, 2)])]),
         St('typeenum', name='Col', names=['Red', 'Green', 'Blue']), St('typeenum', name='Dir', names=['Up', 'Down']), St('typeptr', name='PC', target='Col')]


class Scope:
    """places by type name"""
    def __init__(self, parent=None):
        self.p = {}
        if parent is not None:
            self.p = {t: list(v) for t, v in parent.p.items()}

    def add(self, t, n, *ops):
        self.p.setdefault(t, []).append((n, list(ops)))
        if t == 'Rec':
            self.add('INTEGER', n, *ops, F('f'))
            self.add('INTEGER', n, *ops, F('g'), I(1))
            self.add('PI', n, *ops, F('p'))
            self.add('In', n, *ops, F('n'))
            self.add('STRING', n, *ops, F('s'))
        elif t == 'In':
            self.add('INTEGER', n, *ops, F('k'))
            self.add('INTEGER', n, *ops, F('h'), I(2))

    def arr(self, t, n, lo, hi):
        for k in range(lo, hi + 1):
            self.add(t, n, I(k))

    def hide(self, *names):
        for t in self.p:
            self.p[t] = [x for x in self.p[t] if x[0] not in names]


class World:
    def __init__(self, src, calm=False):
        self.s, self.k, self.calm = src, 100, calm
        self.procs = []
        self.nset = self.nuse = 0

    def num(self):
        self.k += 1
        return L(self.k)

    def place(self, sc, t, deref=True):
        """a place of type t, sometimes through a pointer"""
        s = self.s
        if deref and s.chance(25):
            via = {'INTEGER': [('PI', []), ('PI', []), ('PR', [F('f')]), ('PN', [F('k')]), ('PR', [F('g'), I(0)]), ('PP', [D])], 'Rec': [('PR', [])], 'In': [('PN', []), ('PR', [F('n')])],
                   'PI': [('PP', []), ('PR', [F('p')])], 'STRING': [('PS', []), ('PR', [F('s')])]}.get(t)
            if via:
                pt, ops = s.pick(via)
                if sc.p.get(pt):
                    n, o = s.pick(sc.p[pt])
                    return n, o + [D] + ops
        if not sc.p.get(t):
            return None
        n, o = s.pick(sc.p[t])
        if o and o[-1][0] == '[' and s.chance(15):
            # an index that has to be evaluated
            v = o[-1][1][0]
            o = o[:-1] + [('[', [B('+', v, B('-', V('one'), L(1)))] + o[-1][1][1:])]
        return n, o

    def stmt(self, sc, depth, inproc):
        s = self.s
        x = s.n(100)
        P = lambda t, d=True: self.place(sc, t, d)
        if x < 24:
            pt, t = s.weighted([(6, ('PI', 'INTEGER')), (2, ('PR', 'Rec')), (1, ('PN', 'In')), (1, ('PS', 'STRING')), (2, ('PP', 'PI'))])
            a, b = P(pt, s.chance(40)), P(t)
            if a and b:
                self.nset += 1
                return [St('ptrassign', lv=a, to=b)]
        elif x < 34:
            t = s.weighted([(5, 'PI'), (2, 'PR'), (1, 'PP'), (1, 'PN')])
            a, b = P(t, s.chance(40)), P(t)
            if a and b:
                return [assign(a, ('var', b))]
        elif x < 48:
            t = s.weighted([(6, 'PI'), (2, 'PR'), (1, 'PN'), (1, 'PP')])
            a = P(t, False)
            if a:
                self.nuse += 1
                ops = {'PI': [], 'PR': [s.pick([F('f'), F('f')])], 'PN': [F('k')], 'PP': [D]}[t]
                return [assign((a[0], a[1] + [D] + ops), s.pick([self.num(), self.num(), ('var', P('INTEGER'))]))]
        elif x < 62:
            t = s.weighted([(6, 'PI'), (2, 'PR'), (1, 'PN'), (1, 'PP'), (1, 'PS')])
            a = P(t, False)
            if a:
                self.nuse += 1
                if t == 'PR':
                    return [out(*[V(a[0], *a[1], D, *o) for o in ([F('f')], [F('g'), I(1)], [F('n'), F('h'), I(2)])])]
                return [out(S('>'), V(a[0], *a[1], D, *{'PI': [], 'PN': [F('k')], 'PP': [D], 'PS': []}[t]))]
        elif x < 70:
            a = P('INTEGER')
            return [assign(a, s.pick([self.num(), B('+', ('var', P('INTEGER')), L(1))]))]
        elif x < 74:
            a, b = P('Rec'), P('Rec')
            return [assign(a, ('var', b))]
        elif x < 76:
            a = P('STRING')
            return [assign(a, S('s%d' % self.k))]
        elif x < 84 and self.procs:
            return self.call(sc, depth, inproc)
        elif x < 87 and depth > 0:
            return [St('if', arms=[(B('>', ('var', P('INTEGER')), self.num()), self.block(sc, depth - 1, inproc))], els=self.block(sc, depth - 1, inproc))]
        elif x < 90 and depth > 0:
            self.k += 1
            return [St('for', name='q%d' % self.k, a=L(1), b=L(s.int(1, 3)), step=None, nextname=True, body=self.block(sc, depth - 1, inproc))]
        elif x < 93 and not self.calm:
            return [self.bad(sc)]
        a = P('INTEGER')
        return [out(S('='), ('var', a))]

    def bad(self, sc):
        s = self.s
        P = lambda t: self.place(sc, t) or ('one', [])
        return s.pick([
            lambda: St('ptrassign', lv=P('PI'), to=s.pick([P('STRING'), P('Rec'), P('In'), P('PI'), ('re', []), ('ch', []), ('col', []), ('arr', []), ('nope', []), ('r', [F('g')])])),
            lambda: St('ptrassign', lv=P('PS'), to=s.pick([P('INTEGER'), ('ch', [])])),
            lambda: St('ptrassign', lv=P('PN'), to=s.pick([P('Rec'), ('tw', []), P('INTEGER')])),
            lambda: St('ptrassign', lv=('pc', []), to=s.pick([('dir', []), P('INTEGER'), ('col', [])])),
            lambda: St('ptrassign', lv=s.pick([P('INTEGER'), P('Rec'), ('arr', []), ('nope', [])]), to=P('INTEGER')),
            lambda: assign(P('PI'), s.pick([V('p2'), ('var', P('INTEGER')), ('var', P('PR')), L(0)])),
            lambda: assign(('p2', []), s.pick([('var', P('PI')), V('p2')])),
            lambda: assign(P('INTEGER'), ('var', P('PI'))),
            lambda: out(V(*['arr'], D)), lambda: out(V('one', D)), lambda: assign(('nope', [D]), L(1)), lambda: out(V(*P('PI')[:1], *P('PI')[1], F('f'))),
            lambda: assign((P('PI')[0], [D, D]), L(2)), lambda: out(V('u', D)), lambda: assign(('ur', [D, F('f')]), L(3)), lambda: out(V('up', D, D)),
            lambda: assign((lambda x: (x[0], x[1] + [D]))(P('PI')), s.pick([S('text'), ('bool', True), ('real', '1.5')])),
        ])()

    def block(self, sc, depth, inproc, n=None):
        r = []
        for _ in range(n or self.s.int(1, 3)):
            r += self.stmt(sc, depth, inproc)
        return r or [out(S('nothing'))]

    def call(self, sc, depth, inproc):
        s = self.s
        name, params, rtype = s.pick(self.procs)
        args = []
        for n, t, mode, _ in params:
            if n == 'd':
                args.append(B('-', V('d'), L(1)) if inproc else L(s.n(3)))
            else:
                p = self.place(sc, t)
                if p is None:
                    return []
                args.append(('var', p))
        if rtype:
            p = self.place(sc, rtype)
            st = [assign(p, ('call', name, args))] if p else []
        else:
            st = [St('call', name=name, args=args, parens=bool(args) or s.chance(50))]
        if inproc and st:
            # every call from a routine lowers its depth
            return [St('if', arms=[(B('>', V('d'), L(0)), st)], els=None)]
        return st

    def routine(self, g, k):
        s = self.s
        params = [('d', 'INTEGER', None, False)]
        sc = Scope(g)
        for n, t, w in (('x', 'INTEGER', 60), ('y', 'INTEGER', 40), ('bp', 'PI', 50), ('rr', 'Rec', 40), ('bpr', 'PR', 30), ('bn', 'In', 20)):
            if s.chance(w):
                params.append((n, t, s.weighted([(5, 'BYREF'), (4, 'BYVAL')]), False))
        names = [p[0] for p in params[1:]]
        sc.hide(*names)
        for p in params[1:]:
            sc.add(p[1], p[0])
        rtype = s.weighted([(6, None), (3, 'PI'), (2, 'Rec'), (1, 'PR')])
        body = []
        sc.hide('l', 'la', 'lr', 'lp', 'lpr', 'lpp')
        if s.chance(90):
            body += [decl('INTEGER', 'l'), assign('l', self.num())]
            sc.add('INTEGER', 'l')
            sc.add('INTEGER', 'l')
        if s.chance(40):
            body += [decl('INTEGER', 'la', bounds=[(1, 3)]), assign(LVAL('la', I(2)), self.num())]
            sc.arr('INTEGER', 'la', 1, 3)
        if s.chance(50):
            body += [decl('Rec', 'lr'), assign(LVAL('lr', F('f')), self.num())]
            sc.add('Rec', 'lr')
        if s.chance(60):
            body.append(decl('PI', 'lp'))
            sc.add('PI', 'lp')
            if self.calm or s.chance(85):
                p = self.place(sc, 'INTEGER', False)
                body.append(St('ptrassign', lv=('lp', []), to=p))
        if s.chance(30):
            body.append(decl('PR', 'lpr'))
            sc.add('PR', 'lpr')
            if self.calm or s.chance(85):
                body.append(St('ptrassign', lv=('lpr', []), to=self.place(sc, 'Rec', False)))
        if s.chance(20):
            body.append(decl('PP', 'lpp'))
            sc.add('PP', 'lpp')
            body.append(St('ptrassign', lv=('lpp', []), to=self.place(sc, 'PI', False)))
        # the leak: something that outlives the activation points into it
        if s.chance(60):
            outer = [x for x in (g.p['PI'] + [p for p in sc.p['PI'] if p[0] == 'bp'] * 4) if x[0] not in names or x[0] == 'bp']
            inner = [x for x in sc.p['INTEGER'] if x[0] in ('l', 'la', 'lr', 'y', 'x', 'rr')] or sc.p['INTEGER']
            body += [St('ptrassign', lv=s.pick(outer), to=s.pick(inner))]
        self_ = ('R%d' % k, params, rtype)
        self.procs.append(self_)
        body += self.block(sc, 1, True, s.int(1, 5))
        if rtype:
            p = self.place(sc, rtype)
            body.append(St('return', e=('var', p)))
        return St('func' if rtype else 'proc', name='R%d' % k, params=params, rtype=rtype, body=body)

    def build(self):
        s = self.s
        g = Scope()
        pre = list(TYPES) + [decl('INTEGER', 'one', 'i1', 'i2'), assign('one', L(1)), assign('i1', L(11)), assign('i2', L(22)), decl('INTEGER', 'arr', bounds=[(1, 3)]),
                             decl('Rec', 'r', 't'), decl('Rec', 'ra', bounds=[(1, 2)]), decl('STRING', 's1'), decl('PI', 'p', 'q', 'u'), decl('PI', 'pa', bounds=[(1, 2)]),
                             decl('PR', 'pr', 'ur'), decl('PN', 'pn'), decl('PS', 'ps'), decl('PP', 'pp', 'up'), decl('PI2', 'p2'), decl('Twin', 'tw'), decl('REAL', 're'), decl('CHAR', 'ch'),
                             decl('Col', 'col'), decl('Dir', 'dir'), decl('PC', 'pc'), decl('INTEGER', 'm', bounds=[(0, 1), (0, 1)])]
        for n in ('i1', 'i2'):
            g.add('INTEGER', n)
        g.arr('INTEGER', 'arr', 1, 3)
        g.add('INTEGER', 'm', I(0, 1))
        g.add('INTEGER', 'm', I(1, 0))
        for n in ('r', 't'):
            g.add('Rec', n)
        g.arr('Rec', 'ra', 1, 2)
        g.add('STRING', 's1')
        for n in ('p', 'q'):
            g.add('PI', n)
            g.add('PI', n)
        g.arr('PI', 'pa', 1, 2)
        g.add('PR', 'pr')
        g.add('PN', 'pn')
        g.add('PS', 'ps')
        g.add('PP', 'pp')
        # most pointers start out set
        for t, tt in (('PI', 'INTEGER'), ('PR', 'Rec'), ('PN', 'In'), ('PS', 'STRING'), ('PP', 'PI')):
            done = set()
            for n, ops in g.p[t]:
                if repr((n, ops)) not in done and (self.calm or s.chance(85)):
                    done.add(repr((n, ops)))
                    pre.append(St('ptrassign', lv=(n, ops), to=s.pick(g.p[tt])))
        self.g = g
        for k in range(s.int(1, 3)):
            pre.append(self.routine(g, k))
        return pre

    def dump(self):
        return out(*sum([[V(n, *o), S('|')] for n, o in
                         [('i1', []), ('i2', []), ('arr', [I(1)]), ('arr', [I(2)]), ('arr', [I(3)]), ('r', [F('f')]), ('r', [F('g'), I(1)]), ('r', [F('n'), F('k')]), ('r', [F('n'), F('h'), I(2)]),
                          ('t', [F('f')]), ('ra', [I(1), F('f')]), ('ra', [I(2), F('f')]), ('ra', [I(2), F('n'), F('h'), I(2)]), ('m', [I(0, 1)]), ('m', [I(1, 0)]), ('s1', []), ('r', [F('s')])]], []))

    def derefs(self, k):
        r = []
        for n, o in self.s.sample(self.g.p['PI'] + [(x[0], x[1] + [D]) for x in self.g.p['PP']], k):
            r.append(out(S('^'), V(n, *o, D)))
        return r

    def entries(self, n):
        r = []
        for _ in range(n):
            if self.s.chance(35):
                r += self.call(self.g, 1, False)
            else:
                r += self.stmt(self.g, 1, False)
            r += self.derefs(self.s.int(1, 3))
            r.append(self.dump())
        r += self.derefs(6) + [out(V('pr', D, F('f'))), out(V('pp', D, D))]
        return r


def hist_case(src, env, i):
    file = i % 4 == 3
    w = World(src, calm=file)
    pre = w.build()
    ents = w.entries(src.int(4, 16))
    variant = 'san' if i % 6 == 5 else 'plain'
    if file:
        # in a file the first error ends the program
        m, o = diff(env, pre + ents, variant=variant)
        env.mark('file ' + m.kind + ('' if m.exc is None else ': %s' % m.exc))
        env.nontrivial = w.nuse > 0
        return
    m, rows = msession(env, ents, pre=pre, variant=variant)
    env.mark('complete' if not m.cut else 'cut: ' + m.cut, *{'rejected: ' + str(r[1][2]) for r in rows if r[1][0] == 'runtime'})
    env.nontrivial = w.nuse > 0


# ------------------------------------------------------------------ dead targets: every kind of target x every later moment
TARGETS = ['local', 'param byval', 'local element', 'local field', 'local nested', 'local array field', 'array of records', 'byval record field', 'byref global', 'byref local of caller', 'global']
WHO = ['procedure', 'function']
KEEP = ['global pointer', 'byref pointer', 'returned', 'pointer array', 'record field', 'pointer to pointer', 'caller local']
LATER = ['at once', 'after the same call', 'after other calls', 'inside another call', 'inside the same routine', 'deep inside', 'write', 'copy first', 'in a loop']
DEAD = [(t, w, k, l) for t in TARGETS for w in WHO for k in KEEP for l in LATER]


def dead_case(src, env, i):
    target, who, keep, later = DEAD[i % len(DEAD)]
    if keep == 'returned' and who == 'procedure':
        raise Skip('a procedure returns nothing')
    r = {'local': ('l', []), 'param byval': ('y', []), 'local element': ('la', [I(2)]), 'local field': ('lr', [F('f')]), 'local nested': ('lr', [F('n'), F('k')]),
         'local array field': ('lr', [F('g'), I(1)]), 'array of records': ('lra', [I(1), F('f')]), 'byval record field': ('yr', [F('f')]), 'byref global': ('x', []),
         'byref local of caller': ('x', []), 'global': ('i1', [])}[target]
    extra = [decl('INTEGER', *['z%d' % k for k in range(src.n(4))])] if src.chance(50) else []
    extra = [d for d in extra if d.names]
    body = [decl('INTEGER', 'l'), assign('l', L(500)), decl('INTEGER', 'la', bounds=[(1, 3)]), decl('Rec', 'lr'), decl('Rec', 'lra', bounds=[(1, 2)]), decl('PI', 'lp')] + extra + [
        assign(r, L(src.int(600, 999)))]
    store_ = {'global pointer': ('p', []), 'byref pointer': ('bp', []), 'pointer array': ('pa', [I(2)]), 'record field': ('r', [F('p')]), 'pointer to pointer': ('pp', [D]), 'returned': ('lp', []),
              'caller local': ('bp', [])}[keep]
    body.append(St('ptrassign', lv=store_, to=r))
    body.append(out(S('alive '), V(store_[0], *store_[1], D)))
    params = [('y', 'INTEGER', 'BYVAL', False), ('yr', 'Rec', 'BYVAL', False), ('x', 'INTEGER', 'BYREF', False), ('bp', 'PI', 'BYREF', False)]
    fn = who == 'function'
    if fn:
        body.append(St('return', e=V('lp')))
    args = [L(40), V('t'), V('i2'), V('q')]
    st = lambda a: assign('q' if keep == 'returned' else 'dummy', ('call', 'Leak', a)) if fn else St('call', name='Leak', args=a, parens=True)
    use = {'global pointer': ('p', []), 'byref pointer': ('q', []), 'pointer array': ('pa', [I(2)]), 'record field': ('r', [F('p')]), 'pointer to pointer': ('pp', [D]), 'returned': ('q', []),
           'caller local': ('mine', [])}[keep]
    pre = list(TYPES) + [decl('INTEGER', 'i1', 'i2', 'one'), decl('Rec', 'r', 't'), decl('PI', 'p', 'q', 'dummy', 'other'), decl('PI', 'pa', bounds=[(1, 2)]), decl('PP', 'pp'),
                         St('ptrassign', lv=('pp', []), to=('other', [])), assign('i1', L(1)), assign('i2', L(2)), assign('one', L(1)),
                         St('func' if fn else 'proc', name='Leak', params=params, rtype='PI' if fn else None, body=body)]
    deref = (use[0], use[1] + [D])
    rd = out(S('read '), ('var', deref))
    pre += [St('proc', name='Noise', params=[('k', 'INTEGER', None, False)], rtype=None, body=[
        decl('INTEGER', 'l'), assign('l', L(777)), decl('INTEGER', 'la', bounds=[(1, 3)]), decl('Rec', 'lr'), decl('Rec', 'lra', bounds=[(1, 2)]), decl('PI', 'lp'), assign(LVAL('lr', F('f')), L(778)),
        assign(LVAL('la', I(2)), L(779)), St('if', arms=[(B('>', V('k'), L(0)), [St('call', name='Noise', args=[B('-', V('k'), L(1))], parens=True)])], els=None)]),
        St('proc', name='Look', params=[('k', 'INTEGER', None, False), ('mine', 'PI', 'BYREF', False)], rtype=None, body=[
            decl('INTEGER', 'l'), assign('l', L(555)), St('if', arms=[(B('>', V('k'), L(0)), [St('call', name='Look', args=[B('-', V('k'), L(1)), V('mine')], parens=True)])], els=[rd])])]
    # a routine of its own makes the call, so that callers' locals can be the target or hold the pointer
    use_stmts = {'at once': [rd], 'after the same call': [st(args) if False else rd], 'write': [assign(deref, L(4242)), rd], 'copy first': [assign('dummy', ('var', use)), out(S('copy '), V('dummy', D)), rd],
                 'in a loop': [St('for', name='w', a=L(1), b=L(3), step=None, nextname=True, body=[rd])]}
    a2 = list(args)
    if target == 'byref local of caller':
        a2[2] = V('cl')
    if keep == 'caller local':
        a2[3] = V('mine')
    look = [St('call', name='Look', args=[L(2 if later == 'deep inside' else 0), ('var', use)], parens=True)]
    mid = {'after the same call': [st([L(41), V('t'), V('one'), V('dummy')])] if keep in ('byref pointer', 'returned', 'caller local') and not fn else [St('call', name='Noise', args=[L(0)], parens=True)],
           'after other calls': [St('call', name='Noise', args=[L(src.n(4))], parens=True)] * src.int(1, 3)}.get(later, [])
    if later in ('inside another call', 'inside the same routine', 'deep inside'):
        after = look
    else:
        after = mid + use_stmts.get(later, [rd])
    drv = [decl('INTEGER', 'cl'), assign('cl', L(321)), decl('PI', 'mine'), st(a2), out(S('back'))]
    inner = after if keep == 'caller local' or src.chance(40) else []
    if inner and use[0] != 'mine':
        pass
    pre.append(St('proc', name='Drive', params=[], rtype=None, body=drv + inner + [out(S('driven'))]))
    ents = [St('call', name='Drive', args=[], parens=True)]
    if keep != 'caller local':
        ents += after + [rd, assign(deref, L(99)), rd]
    ents += [out(V('i1'), S('|'), V('i2'), S('|'), V('one'), S('|'), V('r', F('f')), S('|'), V('t', F('f')))]
    # and again: a second run of the same statements must behave the same
    ents += ents[:2] if src.chance(50) else []
    variant = 'san' if i % 3 == 0 else 'plain'
    if i // len(DEAD) % 2:
        diff(env, pre + ents, variant=variant)
    else:
        m, rows = msession(env, ents, pre=pre, variant=variant)
        if m.cut:
            raise RuntimeError(m.cut)
        env.mark(*{'rejected: ' + str(r[1][2]) for r in rows if r[1][0] == 'runtime'})
    env.mark(target, keep, later)
    env.nontrivial = True


def typed_case(src, env, i):
    g = Gen(src, errors=3, size=14, depth=2, inputs=False, casts=False, minprocs=1, enums=False, minptrs=1)
    prog = g.program()
    if not g.ptrs:
        raise Skip('no pointer type drawn')
    m, o = diff(env, prog, g.stdin, variant='san' if i % 10 == 9 else 'plain')
    env.mark(m.kind if m.exc is None else 'runtime: %s' % m.exc)
    env.nontrivial = True


# ------------------------------------------------------------------ few names, all hiding each other
HN = ['x', 'y', 'z']


def hide_case(src, env, i):
    """procedures whose parameters and locals have the names of globals and of each other; pointers are taken to and through all of them"""
    s = src
    pre = [St('typeptr', name='PI', target='INTEGER'), decl('INTEGER', *HN), decl('INTEGER', 'a', bounds=[(1, 3)]), decl('PI', 'p', 'q')]
    for k, n in enumerate(HN):
        pre.append(assign(n, L(10 * (k + 1))))
    pre += [St('assign', lv=('a', [I(k)]), e=L(100 + k)) for k in (1, 2, 3)]
    pre += [St('ptrassign', lv=('p', []), to=('x', [])), St('ptrassign', lv=('q', []), to=('a', [I(2)]))]
    ctr = [500]

    def ops(names, ptrs, globals_, calls, k):
        out_ = []
        for _ in range(k):
            x = s.n(12)
            if x < 3:
                tgt = (s.pick(names), []) if s.chance(75) else ('a', [I(s.int(1, 3))])
                # mostly targets that outlive the activation, or pointers that do not
                pt = s.pick(ptrs)
                if tgt[0] in globals_ or s.chance(25) or pt not in ('p', 'q'):
                    out_.append(St('ptrassign', lv=(pt, []), to=tgt))
            elif x < 5:
                ctr[0] += 1
                out_.append(St('assign', lv=(s.pick(ptrs), [D]), e=L(ctr[0])))
            elif x < 7:
                ctr[0] += 1
                out_.append(assign(s.pick(names), L(ctr[0])))
            elif x < 9:
                e = [V(pt, D) for pt in ptrs[:2]]
                out_.append(out(*[y for q in [e[0], S(' ')] + e[1:] for y in [q]]))
            elif x < 11 and calls:
                n, m = s.pick(calls)
                args = [(V(s.pick(names)) if s.chance(60) else V('a', I(s.int(1, 3))) if s.chance(50) else V(s.pick(ptrs), D)) if r else V(s.pick(names)) for r in m]
                out_.append(St('call', name=n, args=args, parens=True))
            else:
                out_.append(out(*[y for n in names for y in (V(n), S(' '))]))
        return out_
    procs = []
    for n in ['A', 'B', 'C'][:s.int(1, 3)]:
        ps = s.sample(HN, s.int(0, 2))
        mode = [s.chance(75) for _ in ps]
        rest = [x for x in HN if x not in ps]
        loc = [x for x in rest if s.chance(40)]
        ptrs = ['p', 'q']
        body = []
        if loc:
            body.append(decl('INTEGER', *loc))
            body += [assign(x, L(7)) for x in loc]
        if s.chance(40):
            body.append(decl('PI', 'lp'))
            body.append(St('ptrassign', lv=('lp', []), to=(s.pick(HN), [])))
            ptrs = ptrs + ['lp']
            if s.chance(50):
                ptrs = ['lp', 'p', 'q']
        # a BYREF parameter denotes what the caller gave, which lives longer
        lives = [x for x in rest if x not in loc] + [x for x, m in zip(ps, mode) if m] + ['a']
        body += ops(HN, ptrs, lives, procs, s.int(3, 8))
        pre.append(St('proc', name=n, params=[(x, 'INTEGER', 'BYREF' if m else 'BYVAL', False) for x, m in zip(ps, mode)], rtype=None, body=body))
        procs.append((n, mode))
    prog = pre + ops(HN, ['p', 'q'], HN + ['a'], procs * 2, s.int(5, 14)) + [out(V('x'), S(' '), V('y'), S(' '), V('z'), S(' '), V('a', I(1)), S(' '), V('a', I(2)), S(' '), V('a', I(3))), out(V('p', D), S(' '), V('q', D))]
    m, o = diff(env, prog, variant='san' if i % 20 == 19 else 'plain')
    env.mark('hiding: ' + (m.kind if m.exc is None else 'runtime: %s' % m.exc))
    env.nontrivial = True


STREAMS = [
    Stream('dead', dead_case, 2 * len(DEAD), 12 * len(DEAD)),
    Stream('histories', hist_case, 9000, 120000),
    Stream('fields', ptrfields.case, 900, 25000),
    Stream('paths', paths.case, 4000, 80000),
    Stream('bounds', dynrec.case, 900, 20000),
    Stream('hiding', hide_case, 3000, 60000),
    Stream('typed', typed_case, 2500, 50000),
]
