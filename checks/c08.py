"""C08: a CONSTANT never changes after its definition."""
from files import *
from gen import Gen

VARIANTS = ['plain']
RULE = ('a case is non-trivial when at least one attempt to change a constant was made (through any writer and access path) and decided, and '
        'the constant was read afterwards in the same session; distinct by text')
ASSUMPTIONS = ['taking a pointer to a constant is legal, writing through it is not']

TY = ['INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING']
VALS = {'INTEGER': [L(7), L(-3), L(0), L(1 << 40)], 'REAL': [('real', '2.5'), ('neg', ('real', '0.75')), ('real', '0.0')], 'BOOLEAN': [('bool', True), ('bool', False)],
        'CHAR': [('char', 'q'), ('char', '"'), ('char', '0')], 'STRING': [S('const'), S(''), S('t.txt'), S('x')]}
TXT, RND = S('t.txt'), S('r.dat')


class World:
    def __init__(self, src):
        self.s = src
        self.k = 10

    def val(self, t):
        self.k += 1
        k = self.k
        return {'INTEGER': L(k), 'REAL': ('real', '%d.25' % k), 'BOOLEAN': ('bool', k % 2 == 0), 'CHAR': ('char', chr(65 + k % 26)), 'STRING': S('s%d' % k)}[t]

    def pre(self):
        s = self.s
        r = [fopen(TXT, 'WRITE')] + [fwrite(TXT, S('line %d' % k)) for k in range(12)] + [fclose(TXT), fopen(TXT, 'READ'), fopen(RND, 'RANDOM')]
        self.cval = {}
        for n, t in enumerate(TY):
            # v: a variable, c: a constant, d: another constant of the type
            self.cval[t] = s.pick(VALS[t])
            r += [decl(t, 'v' + t), assign('v' + t, s.pick(VALS[t])), St('const', name='c' + t, e=self.cval[t], eq=s.pick(['=', '<-'])),
                  St('const', name='d' + t, e=s.pick(VALS[t]), eq='='), fseek(RND, n + 1), fput(RND, 'v' + t)]
            P = 'P' + t
            r += [St('typeptr', name=P, target=t), decl(P, 'p' + t, 'q' + t), decl(P, 'a' + t, bounds=[(1, 2)]),
                  St('typerec', name='H' + t, body=[decl(P, 'p'), decl(t, 'f')]), decl('H' + t, 'h' + t),
                  St('ptrassign', lv=('q' + t, []), to=('v' + t, []))]
        for t in s.sample(TY, 3):
            r += self.routines(t)
        return r

    def routines(self, t):
        P = 'P' + t
        ref, val = [('x', t, 'BYREF', False)], [('x', t, None, False)]
        x = ('x', [])
        r = [St('proc', name='Set' + t, params=ref, rtype=None, body=[out(S('in '), V('x')), assign(x, self.val(t)), out(S('set '), V('x'))]),
             St('proc', name='Two' + t, params=ref, rtype=None, body=[St('call', name='Set' + t, args=[V('x')], parens=True), out(S('two '), V('x'))]),
             St('proc', name='Three' + t, params=[('k', 'INTEGER', None, False), ('x', t, 'BYREF', False)], rtype=None, body=[
                 St('if', arms=[(B('>', V('k'), L(0)), [St('call', name='Three' + t, args=[B('-', V('k'), L(1)), V('x')], parens=True)])], els=[assign(x, self.val(t))]), out(V('x'))]),
             St('proc', name='Val' + t, params=val, rtype=None, body=[assign(x, self.val(t)), out(S('copy '), V('x')), assign(x, V('c' + t)), out(V('x'))]),
             St('proc', name='Inp' + t, params=ref, rtype=None, body=[St('input', lv=x, word='INPUT'), out(V('x'))]),
             St('proc', name='Get' + t, params=ref, rtype=None, body=[fseek(RND, TY.index(t) + 1), fget(RND, 'x'), out(V('x'))]),
             St('proc', name='Ptr' + t, params=ref, rtype=None, body=[decl(P, 'p'), St('ptrassign', lv=('p', []), to=x), out(V('p', ('^',))), assign(LVAL('p', ('^',)), self.val(t)), out(V('x'))]),
             St('proc', name='Via' + t, params=[('p', P, self.s.pick(['BYREF', 'BYVAL']), False)], rtype=None, body=[out(V('p', ('^',))), assign(LVAL('p', ('^',)), self.val(t)), out(V('p', ('^',)))]),
             St('proc', name='Glob' + t, params=[], rtype=None, body=[out(V('c' + t)), assign('c' + t, self.val(t)), out(V('c' + t))]),
             St('proc', name='Hide' + t, params=[], rtype=None, body=[decl(t, 'c' + t), out(S('['), V('c' + t), S(']')), assign('c' + t, self.val(t)), out(V('c' + t)), St('call', name='Val' + t, args=[V('c' + t)], parens=True)]),
             St('proc', name='Par' + t, params=[('c' + t, t, self.s.pick(['BYREF', 'BYVAL']), False)], rtype=None, body=[assign('c' + t, self.val(t)), out(V('c' + t))]),
             St('proc', name='Loc' + t, params=[('k', 'INTEGER', 'BYVAL', False)], rtype=None, body=[
                 St('const', name='lc', e=self.s.pick(VALS[t]), eq='='), out(V('lc')),
                 St('if', arms=[(B('=', V('k'), L(1)), [assign('lc', self.val(t))]), (B('=', V('k'), L(2)), [St('call', name='Set' + t, args=[V('lc')], parens=True)]),
                                (B('=', V('k'), L(3)), [St('for', name='lc', a=L(1), b=L(2), step=None, body=[out(S('body'))], nextname=True)]),
                                (B('=', V('k'), L(4)), [St('input', lv=('lc', []), word='INPUT')]), (B('=', V('k'), L(5)), [fget(RND, 'lc')]), (B('=', V('k'), L(6)), [fread(TXT, 'lc')]),
                                (B('=', V('k'), L(7)), [decl(P, 'p'), St('ptrassign', lv=('p', []), to=('lc', [])), assign(LVAL('p', ('^',)), V('v' + t))]),
                                (B('>', V('k'), L(8)), [St('call', name='Loc' + t, args=[B('-', V('k'), L(5))], parens=True)])], els=None), out(V('lc'))]),
             St('func', name='Fun' + t, params=ref, rtype=t, body=[assign(x, self.val(t)), St('return', e=V('x'))]),
             # the same statements meet a variable first and the constant afterwards
             St('proc', name='Poke' + t, params=[('k', 'INTEGER', None, False)], rtype=None, body=[
                 St('for', name='z', a=L(1), b=V('k'), step=None, nextname=True, body=[
                     St('if', arms=[(B('=', V('z'), L(2)), [St('ptrassign', lv=('p' + t, []), to=('c' + t, []))])], els=[St('ptrassign', lv=('p' + t, []), to=('v' + t, []))]),
                     assign(LVAL('p' + t, ('^',)), self.val(t)), out(V('z'), S(' '), V('p' + t, ('^',)))])]),
             ]
        if t == 'INTEGER':
            r.append(St('proc', name='For' + t, params=ref, rtype=None, body=[St('for', name='x', a=L(1), b=L(3), step=None, nextname=True, body=[out(V('x'))])]))
        if t == 'STRING':
            r.append(St('proc', name='Rd' + t, params=ref, rtype=None, body=[fread(TXT, 'x'), out(V('x'))]))
        self.known = getattr(self, 'known', []) + [(t, p.name) for p in r]
        return r

    def target(self, t):
        """mostly constants, sometimes the variable as a control"""
        return self.s.weighted([(5, 'c' + t), (2, 'd' + t), (2, 'v' + t)])

    def ptr(self, t):
        """entries that make a pointer place denote a target of type t -> (entries, place)"""
        s = self.s
        lv = s.pick([('p' + t, []), ('q' + t, []), ('a' + t, [('[', [L(s.int(1, 2))])]), ('h' + t, [('.', 'p')])])
        r = [St('ptrassign', lv=lv, to=(self.target(t), []))]
        if s.chance(30):
            lv2 = s.pick([('p' + t, []), ('a' + t, [('[', [L(1)])]), ('h' + t, [('.', 'p')])])
            r.append(assign(lv2, ('var', lv)))
            lv = lv2
        return r, lv

    def entries(self, n):
        s = self.s
        r = []
        self.tries = 0
        for _ in range(n):
            t = s.pick(TY)
            x = s.n(100)
            c = self.target(t)
            if x < 14:
                r.append(assign(c, s.weighted([(4, self.val(t)), (2, V('v' + t)), (2, self.cval[t]), (1, V(c)), (1, self.val(s.pick(TY)))])))
            elif x < 22:
                y = s.pick(['INTEGER', 'INTEGER', t])
                c = self.target(y)
                r.append(St('for', name=c, a=L(s.n(3)), b=L(s.n(4)), step=s.pick([None, None, L(-1)]), nextname=s.chance(50), body=[out(S('body'))]))
            elif x < 30:
                r.append((St('input', lv=(c, []), word=s.pick(['INPUT', 'READ'])), ['// %d' % self.k]) if c[0] != 'v' else
                         (St('input', lv=(c, []), word='INPUT'), [{'INTEGER': '12', 'REAL': '1.5', 'BOOLEAN': 'TRUE', 'CHAR': 'z', 'STRING': 'line'}[t]]))
            elif x < 37:
                r.append(fread(TXT, self.target('STRING')))
            elif x < 46:
                if s.chance(80):
                    r.append(fseek(RND, TY.index(t) + 1))
                r.append(fget(RND, c))
            elif x < 66:
                e, lv = self.ptr(t)
                r += e
                d = (lv[0], lv[1] + [('^',)])
                y = s.n(5)
                if y < 2:
                    r.append(assign(d, s.pick([self.val(t), V('v' + t), ('var', d)])))
                elif y == 2:
                    r.append((St('input', lv=d, word='INPUT'), ['// 1']) if any(z.to[0][0] != 'v' for z in e if z.k == 'ptrassign') else assign(d, self.val(t)))
                elif y == 3 and (t, 'Set' + t) in self.known:
                    r.append(St('call', name=s.pick(['Set', 'Two', 'Ptr']) + t, args=[('var', d)], parens=True))
                elif (t, 'Via' + t) in self.known:
                    r.append(St('call', name='Via' + t, args=[('var', lv)], parens=True))
                r.append(out(('var', d)))
            elif x < 92:
                t, f = s.pick(self.known)
                c = self.target(t)
                w = f[:-len(t)]
                if w == 'Three':
                    r.append(St('call', name=f, args=[L(s.n(4)), V(c)], parens=True))
                elif w in ('Loc', 'Poke'):
                    e = St('call', name=f, args=[L(s.n(13) if w == 'Loc' else s.int(1, 3))], parens=True)
                    r.append((e, ['// 5']) if w == 'Loc' and L(0) and e.args[0][1] in (4, 9) else e)
                elif w in ('Glob', 'Hide'):
                    r.append(St('call', name=f, args=[], parens=True))
                elif w == 'Fun':
                    r.append(s.pick([out(('call', f, [V(c)])), assign('v' + t, ('call', f, [V(c)])), assign(c, ('call', f, [V('v' + t)]))]))
                elif w == 'Via':
                    e, lv = self.ptr(t)
                    r += e + [St('call', name=f, args=[('var', lv)], parens=True)]
                elif w == 'Inp':
                    r.append((St('call', name=f, args=[V(c)], parens=True), ['// 5' if c[0] != 'v' else {'INTEGER': '12', 'REAL': '1.5', 'BOOLEAN': 'TRUE', 'CHAR': 'z', 'STRING': 'line'}[t]]))
                else:
                    r.append(St('call', name=f, args=[V(c)], parens=True))
            elif x < 96:
                r.append(s.pick([St('const', name=c, e=s.pick(VALS[t]), eq='='), decl(t, c), St('const', name='n%d' % len(r), e=s.pick(VALS[t]), eq='<-'),
                                 St('if', arms=[(('bool', True), [St('const', name='i%d' % len(r), e=self.val(t), eq='='), out(V('i%d' % len(r)))])], els=None)]))
            else:
                r.append(St('for', name='w', a=L(1), b=L(2), step=None, nextname=True, body=[assign('v' + t, V('c' + t)), out(V('v' + t)), assign(s.pick(['v' + t, 'c' + t]), self.val(t))]))
            r.append(self.dump())
        return r

    def dump(self):
        es = []
        for t in TY:
            es += [V('c' + t), S('|'), V('d' + t), S('|')]
        return out(*es)


def dynamic(ents):
    """an INPUT entry whose target is not a constant must not get the line '// 5' as data: that is only a comment for constants"""
    return ents


def hist_case(src, env, i):
    w = World(src)
    pre = w.pre()
    ents = w.entries(src.int(4, 18))
    fs = {}
    if i % 5 == 4:
        ms = fruns(env, [pre + [e[0] if isinstance(e, tuple) else e for e in ents]], fs)
        m = ms[0]
        env.mark('file ' + m.kind + ('' if m.exc is None else ': %s' % m.exc))
        env.nontrivial = m.kind == 'runtime' and str(m.exc) == 'constant'
        return
    m, rows = msession(env, ents, pre=pre, interp=lambda echo: FInterp(echo=echo, fs=fs), end='')
    c = sum(r[1][0] == 'runtime' and str(r[1][2]) == 'constant' for r in rows)
    env.mark('complete' if not m.cut else 'cut: ' + m.cut, *{'rejected: ' + str(r[1][2]) for r in rows if r[1][0] == 'runtime'})
    env.nontrivial = c > 0


# ------------------------------------------------------------------ every writer x type x path, exhaustively
WRITERS = ['assign', 'assign same', 'for', 'for empty', 'for down', 'input', 'read', 'readfile', 'getrecord', 'redefine', 'redeclare', 'array assign']
PATHS = ['direct', 'byref', 'byref twice', 'byref function', 'pointer', 'pointer copy', 'pointer byref', 'pointer to byref', 'pointer in array', 'pointer in record', 'in procedure',
         'local', 'local in function', 'loop', 'second call']
MATRIX = [(t, w, p, d) for t in TY for w in WRITERS for p in PATHS for d in range(2)]


def writer(w, lv, t, new, own):
    """the writing statement, or None if the writer cannot have this target"""
    n, ops = lv
    if w == 'assign':
        return assign(lv, new)
    if w == 'assign same':
        return assign(lv, own)
    if w in ('for', 'for empty', 'for down'):
        return None if ops else St('for', name=n, a=L(5), b=L(4 if w == 'for empty' else 6), step=L(-1) if w == 'for down' else None, nextname=True, body=[out(S('body'))])
    if w in ('input', 'read'):
        return St('input', lv=lv, word='INPUT' if w == 'input' else 'READ')
    if w == 'readfile':
        return None if ops else fread(TXT, n)
    if w == 'getrecord':
        return None if ops else fget(RND, n)
    if ops:
        return None
    if w == 'redefine':
        return St('const', name=n, e=new, eq='=')
    if w == 'redeclare':
        return decl(t, n)
    return None


def matrix_case(src, env, i):
    t, w, p, d = MATRIX[i]
    own = src.pick(VALS[t])
    new = src.pick([v for v in VALS[t] if v != own])
    line = {'INTEGER': '99', 'REAL': '9.5', 'BOOLEAN': 'FALSE', 'CHAR': 'w', 'STRING': 'typed'}[t]
    P = 'PT'
    pre = [fopen(TXT, 'WRITE'), fwrite(TXT, S('from the file')), fclose(TXT), fopen(TXT, 'READ'), fopen(RND, 'RANDOM'), decl(t, 'v'), assign('v', new), fput(RND, 'v'),
           St('typeptr', name=P, target=t), decl(P, 'p', 'q'), decl(P, 'pa', bounds=[(1, 2)]), St('typerec', name='H', body=[decl(P, 'p')]), decl('H', 'h')]
    const = St('const', name='c', e=own, eq=['=', '<-'][d])
    local = p in ('local', 'local in function')
    if not local:
        pre.append(const)
    ref = [('x', t, 'BYREF', False)]
    x, c = ('x', []), ('c', [])

    def W(lv):
        if w == 'array assign':
            return None
        return writer(w, lv, t, new, own)
    deref = lambda n, *ops: (n, list(ops) + [('^',)])
    st = None
    if p == 'direct':
        st = [W(c)]
    elif p in ('byref', 'byref twice', 'second call'):
        if w in ('redefine', 'redeclare'):
            raise Skip('a redefinition concerns the local name only')
        pre.append(St('proc', name='A', params=ref, rtype=None, body=[W(x), out(S('x='), V('x'))]))
        st = [St('call', name='A', args=[V('c')], parens=True)]
        if p == 'byref twice':
            pre.append(St('proc', name='B', params=ref, rtype=None, body=[St('call', name='A', args=[V('x')], parens=True)]))
            st = [St('call', name='B', args=[V('c')], parens=True)]
        if p == 'second call':
            if w in ('input', 'read', 'readfile') or w.startswith('for') and t != 'INTEGER' or w == 'readfile':
                raise Skip('no first call')
            pre.append(St('call', name='A', args=[V('v')], parens=True))
    elif p == 'byref function':
        if w in ('redefine', 'redeclare'):
            raise Skip('a redefinition concerns the local name only')
        pre.append(St('func', name='F', params=ref, rtype='INTEGER', body=[W(x), St('return', e=L(1))]))
        st = [out(('call', 'F', [V('c')]))]
    elif p == 'pointer':
        pre.append(St('ptrassign', lv=('p', []), to=c))
        st = [W(deref('p'))]
    elif p == 'pointer copy':
        pre += [St('ptrassign', lv=('p', []), to=c), assign('q', V('p'))]
        st = [W(deref('q'))]
    elif p == 'pointer byref':
        if w in ('redefine', 'redeclare'):
            raise Skip('a redefinition concerns the local name only')
        pre += [St('ptrassign', lv=('p', []), to=c), St('proc', name='A', params=ref, rtype=None, body=[W(x)])]
        st = [St('call', name='A', args=[V('p', ('^',))], parens=True)]
    elif p == 'pointer to byref':
        pre.append(St('proc', name='A', params=ref, rtype=None, body=[St('ptrassign', lv=('p', []), to=x), W(deref('p'))]))
        st = [St('call', name='A', args=[V('c')], parens=True)]
        if W(deref('p')) is None:
            st = None
    elif p == 'pointer in array':
        e = ('[', [L(2)])
        pre += [St('ptrassign', lv=('pa', [('[', [L(1)])]), to=('v', [])), St('ptrassign', lv=('pa', [e]), to=c)]
        st = [W(deref('pa', e))]
    elif p == 'pointer in record':
        pre.append(St('ptrassign', lv=('h', [('.', 'p')]), to=c))
        st = [W(deref('h', ('.', 'p')))]
    elif p == 'in procedure':
        if w in ('redefine', 'redeclare'):
            raise Skip('a redefinition concerns the local name only')
        pre.append(St('proc', name='A', params=[], rtype=None, body=[out(V('c')), W(c)]))
        st = [St('call', name='A', args=[], parens=True)]
    elif local:
        body = [const, out(V('c')), W(c), out(S('after '), V('c'))]
        if p == 'local':
            pre.append(St('proc', name='A', params=[], rtype=None, body=body))
            st = [St('call', name='A', args=[], parens=False)]
        else:
            pre.append(St('func', name='A', params=[], rtype='INTEGER', body=body + [St('return', e=L(0))]))
            st = [out(('call', 'A', []))]
        if W(c) is None:
            st = None
    elif p == 'loop':
        st = [St('while', c=('bool', True), body=[W(c), out(S('again'))])]
    if st is None or any(x is None for x in st) or W(c) is None:
        raise Skip('no such target')
    fs = {}
    need = w in ('input', 'read')
    # file mode: the attempt is reported and stops the program
    show = [] if local else [out(S('c='), V('c'))]
    ms = fruns(env, [pre + show + st + show], fs, stdin=[line] * 2)
    if ms[0].kind != 'runtime':
        raise RuntimeError('the model accepts ' + render(pre + st))
    # REPL: the constant is as before, also for the next attempt.  A comment line serves as input: harmless if left unread.
    fs = {}
    ents = pre + show + [(st[0], ['// 7'] * (1 if need else 0))] + show + [(st[0], ['// 7'] * (1 if need else 0))] + show + [out(V('v'))]
    m, rows = msession(env, ents, interp=lambda echo: FInterp(echo=echo, fs=fs))
    env.mark(t, w, p, str(ms[0].exc))
    env.nontrivial = True
    env.sample = dict(type=t, writer=w, path=p, program=render(pre + show + st))


def literal_case(src, env, i):
    """a definition gives the literal's value, every later read yields it"""
    t = src.pick(TY)
    s = src
    if t == 'INTEGER':
        n = s.n(10 ** s.int(1, 18))
        e = L(n if s.chance(60) else -n)
    elif t == 'REAL':
        e = ('real', '%d.%d' % (s.n(10 ** s.int(1, 9)), s.n(10 ** s.int(1, 6))))
        e = ('neg', e) if s.chance(40) else e
    elif t == 'BOOLEAN':
        e = ('bool', s.chance(50))
    elif t == 'CHAR':
        e = ('char', chr(s.pick([s.int(32, 126), 9, 10, 92, 39, 34])))
    else:
        e = S(''.join(s.pick(list('ab "\'\\\n\t/#|0')) for _ in range(s.n(9))))
    const = St('const', name='c', e=e, eq=s.pick(['=', '<-']))
    reads = []
    for _ in range(s.int(2, 6)):
        reads.append(s.pick([out(V('c')), out(S('<'), V('c'), S('>')), St('expr', e=V('c')), out(('paren', V('c'))), St('call', name='Sh', args=[V('c')], parens=True),
                             St('call', name='Gl', args=[], parens=False), out(('call', 'Fn', [])), out(B('=', V('c'), e if e[0] != 'neg' else ('paren', e))),
                             assign('v', V('c')), out(V('v'))]))
    procs = [decl(t, 'v'), assign('v', e), const, St('proc', name='Sh', params=[('x', t, s.pick(['BYREF', 'BYVAL']), False)], rtype=None, body=[out(V('x'))]),
             St('proc', name='Gl', params=[], rtype=None, body=[out(V('c'))]), St('func', name='Fn', params=[], rtype=t, body=[St('return', e=V('c'))])]
    if s.chance(30):
        diff(env, procs + [r for r in reads if r.k != 'expr'])
    else:
        msession(env, reads, pre=procs)
    env.mark(t)
    env.nontrivial = True


def typed_case(src, env, i):
    g = Gen(src, errors=6, size=16, depth=2, records=False, stray=0, minconsts=2, writeconst=4)
    m, o = diff(env, g.program(), g.stdin)
    if not any(x.const for x in g.globals.values()):
        raise Skip('no constant drawn')
    env.mark(m.kind if m.exc is None else 'runtime: %s' % m.exc)
    env.nontrivial = True


STREAMS = [
    Stream('matrix', matrix_case, len(MATRIX), len(MATRIX), exhaustive=True),
    Stream('histories', hist_case, 4000, 80000),
    Stream('literals', literal_case, 2000, 20000),
    Stream('typed', typed_case, 2500, 40000),
]
