"""C04: BYVAL isolates, BYREF aliases, locals belong to one activation."""
import re
from common import *
from gen import Gen

VARIANTS = ['plain', 'san']
RULE = ('a case is non-trivial when at least one user-defined procedure or function was called (activation depth >= 2) and the whole '
        'observable outcome was decided by the reference interpreter, or one row of a parameter/argument table was; distinct by program text')
ASSUMPTIONS = ['a BYREF argument written in parentheses is not judged']

TYPES = ['INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE', 'Col', 'Ptr', 'Rec']
T0 = [St('typeenum', name='Col', names=['Red', 'Green', 'Blue']), St('typeptr', name='Ptr', target='INTEGER'),
      St('typerec', name='In', body=[decl('INTEGER', 'k'), decl('INTEGER', 'h', bounds=[(0, 2)])]),
      St('typerec', name='Rec', body=[decl('INTEGER', 'f'), decl('STRING', 's'), decl('In', 'n')]),
      decl('INTEGER', 't1', 't2'), assign('t1', L(101)), assign('t2', L(202))]
VAL = {'INTEGER': [L(5), L(-8), L(77)], 'REAL': [('real', '1.5'), ('real', '2.0'), ('neg', ('real', '0.25'))], 'BOOLEAN': [('bool', True), ('bool', False)],
       'CHAR': [('char', 'p'), ('char', 'Q')], 'STRING': [S('one'), S(''), S('two words')], 'DATE': [('date', 1, 2, 2003), ('date', 29, 2, 2024)],
       'Col': [V('Green'), V('Blue')]}


def show(t, e):
    """statements that print a place (expression 'var') of type t completely"""
    n, ops = e[1]
    if t == 'Ptr':
        return out(S('^'), V(n, *ops, ('^',)))
    if t == 'Rec':
        return out(V(n, *ops, ('.', 'f')), S(','), V(n, *ops, ('.', 's')), S(','), V(n, *ops, ('.', 'n'), ('.', 'k')), S(','),
                   V(n, *ops, ('.', 'n'), ('.', 'h'), ('[', [L(1)])))
    return out(e)


def setp(t, lv, k):
    """statements giving a place some value"""
    n, ops = lv
    if t == 'Ptr':
        return [St('ptrassign', lv=lv, to=('t%d' % (k % 2 + 1), []))]
    if t == 'Rec':
        return [assign((n, ops + [('.', 'f')]), L(k + 10)), assign((n, ops + [('.', 's')]), S('s%d' % k)),
                assign((n, ops + [('.', 'n'), ('.', 'k')]), L(k + 20)), assign((n, ops + [('.', 'n'), ('.', 'h'), ('[', [L(1)])]), L(k + 30))]
    return [assign(lv, VAL[t][k % len(VAL[t])])]


# ------------------------------------------------------------------ parameter lists: every written mode pattern
MODES = [None, 'BYREF', 'BYVAL']
PATTERNS = [(a, b, c) for a in MODES for b in MODES for c in MODES]


def modes_case(src, env, i):
    pat = PATTERNS[i % 27]
    func = (i // 27) % 2
    prog = list(T0)
    params = []
    n = 1 + (i // 54) % 4
    types = []
    for k in range(n):
        m = pat[k] if k < 3 else src.pick(MODES)
        t = types[-1] if k and src.chance(30) else src.pick(TYPES)
        types.append(t)
        params.append(['p%d' % k, t, m, False])
    for k in range(n - 1):
        if types[k] == types[k + 1] and src.chance(60):
            params[k][3] = True
    args, dumps = [], []
    stick = sticky([tuple(p) for p in params])
    prog += [decl('Rec', 'holder%d' % k) for k in range(n)]
    for k, t in enumerate(types):
        form = src.n(4)
        if form == 1:
            prog.append(decl(t, 'g%d' % k, bounds=[(-1, 2)]))
            lv = ('g%d' % k, [('[', [L(src.int(-1, 2))])])
        elif form == 2 and t in ('INTEGER', 'STRING'):
            lv = ('holder%d' % k, [('.', 'f' if t == 'INTEGER' else 's')])
        elif form == 3 and t == 'INTEGER':
            lv = ('holder%d' % k, [('.', 'n'), ('.', 'h'), ('[', [L(src.int(0, 2))])])
        else:
            prog.append(decl(t, 'g%d' % k))
            lv = ('g%d' % k, [])
        prog += setp(t, lv, k)
        a = ('var', lv)
        if not stick[k][2] and t in VAL and src.chance(30):
            a = src.pick(VAL[t])
            if t == 'REAL' and src.chance(40):
                a = L(4)
        args.append(a)
        dumps.append(show(t, ('var', lv)))
    body = []
    for k, t in enumerate(types):
        body.append(show(t, V('p%d' % k)))
    for k in src.shuffle(range(n)):
        body += setp(types[k], ('p%d' % k, []), k + 1)
        # a BYREF write is visible to the caller immediately
        if src.chance(60):
            body += dumps
    for k, t in enumerate(types):
        body.append(show(t, V('p%d' % k)))
    if func:
        body.append(St('return', e=L(1)))
        prog.append(St('func', name='F', params=[tuple(p) for p in params], rtype='INTEGER', body=body))
        call = out(('call', 'F', args))
    else:
        prog.append(St('proc', name='F', params=[tuple(p) for p in params], body=body, rtype=None))
        call = St('call', name='F', args=args, parens=True)
    prog += dumps + [call] + dumps + [call] + dumps
    m, o = diff(env, prog)
    env.mark(m.kind, '%d parameters' % n)
    env.nontrivial = True


# ------------------------------------------------------------------ calls that must be rejected
def argerr_case(src, env, i):
    kinds = ['count', 'type', 'byref', 'byref type', 'return outside', 'no return', 'return type', 'undefined', 'good', 'builtin count', 'array arg',
             'byref builtin', 'return in proc', 'proc in expr']
    k = kinds[i % len(kinds)]
    func = src.n(2)
    n = src.int(1, 3)
    refs = [src.n(2) for _ in range(n)]
    types = [src.pick(TYPES[:7]) for _ in range(n)]
    at = src.n(n)
    if k == 'byref' or k == 'byref type':
        refs[at] = 1
    if k == 'type':
        refs[at] = 0
    prog = list(T0)
    for j, t in enumerate(types):
        prog += [decl(t, 'g%d' % j)] + setp(t, ('g%d' % j, []), j)
    prog += [decl('INTEGER', 'arr', bounds=[(1, 2)]), out(S('before'))]
    params = [('p%d' % j, t, 'BYREF' if refs[j] else 'BYVAL', False) for j, t in enumerate(types)]
    body = [out(S('inside'))] + sum([setp(t, ('p%d' % j, []), j + 1) for j, t in enumerate(types)], [])
    rt = src.pick(['INTEGER', 'STRING', 'REAL', 'Col', 'CHAR'])
    rv = src.pick(VAL[rt])
    args = [V('g%d' % j) for j in range(n)]
    other = [x for x in ['INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE', 'Col'] if x != types[at] and
             (x, types[at]) not in (('INTEGER', 'REAL'), ('CHAR', 'STRING'), ('STRING', 'CHAR'))]
    if k == 'count':
        x = src.n(3)
        if x == 0:
            args.pop(src.n(len(args)))
        elif x == 1:
            args.insert(src.n(len(args) + 1), L(1))
        else:
            args = args + args
    elif k == 'type':
        args[at] = src.pick(VAL[src.pick(other)])
    elif k == 'byref':
        e = src.pick(VAL[types[at]])
        if e[0] == 'var':
            e = B('+', e, L(0))
        elif types[at] in ('INTEGER', 'REAL') and src.chance(60):
            e = src.pick([B('+', V('g%d' % at), L(0)), ('neg', V('g%d' % at))])
        args[at] = e
    elif k == 'byref type':
        o = src.pick(other + (['INTEGER'] if types[at] == 'REAL' else ['CHAR'] if types[at] == 'STRING' else ['STRING'] if types[at] == 'CHAR' else []))
        prog += [decl(o, 'w')] + setp(o, ('w', []), 1)
        if o == 'STRING':
            prog.append(assign('w', S('q')))
        args[at] = V('w')
    elif k == 'array arg':
        args[at] = V('arr')
    if k == 'no return':
        func = 1
        body = [St('if', arms=[(('bool', False), [St('return', e=rv)])], els=None)] + body
    elif k == 'return type':
        func = 1
        bad = [x for x in VAL if x != rt and (x, rt) not in (('INTEGER', 'REAL'), ('CHAR', 'STRING'), ('STRING', 'CHAR'))]
        body.append(St('return', e=src.pick(VAL[src.pick(bad)])))
    else:
        body.append(St('return', e=rv))
    if k == 'return in proc':
        func = 0
    if func or k == 'proc in expr':
        pass
    if func:
        prog.append(St('func', name='F', params=params, rtype=rt, body=body))
    else:
        if k != 'return in proc':
            body.pop()
        prog.append(St('proc', name='F', params=params, body=body, rtype=None))
    call = out(S('got '), ('call', 'F', args)) if func else St('call', name='F', args=args, parens=True)
    if k == 'undefined':
        call = out(('call', 'Nope', args)) if func else St('call', name='Nope', args=args, parens=True)
    elif k == 'return outside':
        call = St('return', e=rv) if src.chance(50) else St('if', arms=[(('bool', True), [St('return', e=rv)])], els=None)
    elif k == 'builtin count':
        call = out(('call', *src.pick([('LENGTH', []), ('LENGTH', [S('a'), S('b')]), ('MID', [S('abc'), L(1)]), ('LEFT', [S('abc')]),
                                       ('LENGTH', [L(5)]), ('ASC', [L(5)]), ('CHR', [('real', '65.0')]), ('DAY', [L(1)]), ('INT', [S('1')])])))
    elif k == 'byref builtin':
        call = out(('call', 'LENGTH', [V('arr')]))
    elif k == 'proc in expr':
        call = out(('call', 'F', args)) if not func else St('call', name='F', args=args, parens=True)
    elif k == 'return in proc' and src.chance(50):
        # called from a function, which must not end either
        prog.append(St('func', name='W', params=[], rtype=rt, body=[call, out(S('on')), St('return', e=rv)]))
        call = out(('call', 'W', []))
    prog += [call] + [show(t, V('g%d' % j)) for j, t in enumerate(types)] + [out(S('after'))]
    m, o = diff(env, prog)
    if k == 'good':
        want = 'ok'
    else:
        want = 'runtime'
    if m.kind != want:
        raise RuntimeError('model: %s gives %s' % (k, m.kind))
    # a rejected call has no effect on the caller's variables: seen in a session
    env.mark(k)
    env.nontrivial = True


def reject_session(src, env, i):
    """a rejected call leaves every variable of the caller as it was, and later calls work"""
    t = TYPES[i % 7]
    entries = [lines_text([s]) for s in T0]
    entries += [lines_text([decl(t, 'a', 'b')])] + [lines_text([s]) for s in setp(t, ('a', []), 0) + setp(t, ('b', []), 1)]
    entries.append(lines_text([St('proc', name='P', params=[('x', t, 'BYREF', False), ('y', t, 'BYVAL', False)],
                                  body=[assign('x', V('y')), out(S('in '), V('x'))], rtype=None)]))
    entries.append(lines_text([St('func', name='F', params=[('x', t, None, False)], rtype='INTEGER',
                                  body=[St('if', arms=[(('bool', bool(src.n(2))), [St('return', e=L(3))])], els=None)])]))
    bad = {'INTEGER': S('s'), 'REAL': S('s'), 'BOOLEAN': L(1), 'CHAR': S('xy'), 'STRING': L(1), 'DATE': L(1), 'Col': L(1)}[t]
    lit_ = join(etoks(VAL[t][0] if VAL[t][0][0] != 'var' else B('+', VAL[t][0], L(0))))
    b = join(etoks(bad))
    bads = ['CALL P(a, %s)' % b, 'CALL P(%s, b)' % lit_, 'CALL P(a)', 'CALL P(a, b, a)', 'CALL P', 'OUTPUT F()', 'OUTPUT F(%s)' % b, 'CALL Q(a)', 'OUTPUT G(a)',
            'CALL P(nope, b)', 'CALL P(a, nope)', 'CALL F(a)', 'OUTPUT P(a, b)', 'RETURN a']
    base = len(entries)
    order = src.shuffle(bads)[:6]
    for x in order:
        entries += [x, 'OUTPUT a, "|", b']
    entries += ['CALL P(a, b)', 'OUTPUT a, "|", b']
    res, r = session(env, entries)
    m = model(T0 + [decl(t, 'a', 'b')] + setp(t, ('a', []), 0) + setp(t, ('b', []), 1))
    va, vb = (out_text(m.g.vars[x].t, m.g.vars[x].v) for x in 'ab')
    for k, e in enumerate(res):
        if k < base:
            ok = e.kind == 'ok' and e.out == ''
        elif k == len(res) - 2:
            ok = e.kind == 'ok' and e.out == 'in %s\n' % vb
        elif k == len(res) - 1:
            ok = e.kind == 'ok' and e.out == '%s|%s\n' % (vb, vb)
        elif (k - base) % 2 == 0:
            ok = e.kind == 'runtime' and e.out == ''
        else:
            ok = e.kind == 'ok' and e.out == '%s|%s\n' % (va, vb)
        if not ok:
            raise Fail('a rejected call (or the statements around it) misbehaves', entry=entries[k], observed=repr(e), session='\n'.join(entries), values=[va, vb])
    env.nontrivial, env.digest = True, '\n'.join(entries)
    env.sample = dict(type=t, rejected=order)


# ------------------------------------------------------------------ activations
class Calls:
    """Procedures over a small pool of names that are global, local, parameter or created on the way"""
    POOL = ['a', 'b', 'c', 'd2']
    ARR = ['m', 'h']

    def __init__(self, src):
        self.s = src
        self.np = src.int(2, 6)
        self.sig = []
        self.k = 0
        self.cur = None

    def e(self, d=1, cond=False):
        s = self.s
        x = s.n(9)
        if x < 4:
            return V(s.pick(self.names))
        if x == 4:
            return V(s.pick(self.ARR), ('[', [self.idx()]))
        if x == 5:
            return V('g', ('.', 'f'))
        if x == 6 and d:
            return B(s.pick(['+', '-', '*']), self.e(0), L(s.int(0, 3)))
        if x == 7 and d:
            f = self.fcall()
            if f:
                return f
        return L(s.int(0, 9))

    def idx(self):
        x = self.s.n(4)
        if x == 0 and self.cur is not None:
            return B('MOD', V('n'), L(3))
        if x == 1:
            return B('MOD', B('+', B('*', V(self.s.pick(self.POOL)), V(self.s.pick(self.POOL))), L(300)), L(3))
        return L(self.s.n(3))

    def lv(self, extra=True):
        s = self.s
        x = s.n(8)
        if x < 5:
            return (s.pick(self.names), [])
        if x == 5:
            return ('g', [('.', 'f')])
        if x == 6:
            return ('g', [('.', 'q'), ('[', [self.idx()])])
        return (s.pick(self.ARR), [('[', [self.idx()])])

    def args(self, sig):
        a = []
        for k, (n, t, mode, _) in enumerate(sig.params):
            if k == 0:
                a.append(B('-', V('n'), L(1)) if self.cur is not None else L(self.s.int(0, 3)))
            elif sig.ref[k]:
                a.append(('var', self.lv()))
            else:
                a.append(self.e(1))
        return a

    def fcall(self):
        fs = [g for g in self.sig if g.func and (self.cur is None or g is not None)]
        if not fs or self.calls <= 0:
            return None
        self.calls -= 1
        f = self.s.pick(fs)
        return ('call', f.name, self.args(f))

    def call(self):
        ps = [g for g in self.sig if not g.func]
        if not ps or self.calls <= 0:
            return [out(S('no call '), self.e())]
        self.calls -= 1
        p = self.s.pick(ps)
        return [St('call', name=p.name, args=self.args(p), parens=True)]

    def dump(self):
        self.k += 1
        es = [S('#%d' % self.k)]
        for n in self.POOL:
            es += [S(' '), V(n)]
        return out(*es)

    def stmts(self, n, free, depth=2):
        s = self.s
        res = []
        for _ in range(n):
            x = s.n(100)
            if x < 30:
                res.append(assign(self.lv(), self.e()))
            elif x < 40:
                res.append(self.dump())
            elif x < 52 and free and self.cur is not None:
                n_ = free.pop(s.n(len(free)))
                d = [decl('INTEGER', n_)] if n_ not in self.ARR else [decl('INTEGER', n_, bounds=[(0, 2)])]
                if s.chance(50) and n_ not in self.ARR:
                    d.append(assign(n_, self.e(0)))
                if s.chance(35):
                    # a local that comes into being in some activations only
                    d = [St('if', arms=[(B('=', B('MOD', V('n'), L(2)), L(s.n(2))), d)], els=None)]
                res += d
            elif x < 62 and depth and self.cur is not None:
                res.append(St('if', arms=[(B(s.pick(['>', '<', '=']), self.e(0), L(s.int(0, 5))), self.stmts(s.int(1, 2), [], depth - 1))],
                              els=self.stmts(1, [], depth - 1) if s.chance(40) else None))
            elif x < 70 and depth:
                it = s.pick(['it', 'jt'] + ([self.s.pick(free)] if free and s.chance(15) and free[0] in self.POOL else []))
                if it in self.ARR:
                    it = 'it'
                res.append(St('for', name='%s%d' % (it, depth), a=L(0), b=L(s.int(0, 2)), step=None, body=self.stmts(s.int(1, 2), [], 0) , nextname=True))
            elif x < 74 and self.cur is not None:
                # names with no global: created by the first assignment, local to this activation
                u = s.pick(['u1', 'u2'])
                res += [assign(u, self.e(0)), assign(u, B('+', V(u), L(1))), out(S(u + '='), V(u))]
            else:
                res += self.call()
        return res

    def program(self):
        s = self.s
        self.names = self.POOL
        prog = [St('typerec', name='R', body=[decl('INTEGER', 'f'), decl('INTEGER', 'q', bounds=[(0, 2)])]),
                decl('INTEGER', *self.POOL), decl('INTEGER', *self.ARR, bounds=[(0, 2)]), decl('R', 'g')]
        prog += [assign(n, L(k * 3 + 1)) for k, n in enumerate(self.POOL)] + [assign(LVAL('m', ('[', [L(k)])), L(40 + k)) for k in range(3)]
        for k in range(self.np):
            ps = [('n', 'INTEGER', 'BYVAL', False)]
            used = []
            for _ in range(s.n(3)):
                pn = s.pick([x for x in self.POOL + ['p', 'q', 'r'] if x not in used])
                used.append(pn)
                ps.append((pn, 'INTEGER', s.pick(['BYREF', 'BYVAL', None]), False))
            g = type('Sig', (), {})()
            g.name, g.params, g.func = 'P%d' % k, ps, s.chance(40)
            g.ref = [x[2] for x in sticky(ps)]
            self.sig.append(g)
        for g in self.sig:
            self.cur, self.calls = g, 2
            own = [p[0] for p in g.params[1:]]
            self.names = self.POOL + own * 2
            free = [x for x in self.POOL + self.ARR if x not in own]
            guard = B('<=', V('n'), L(0))
            base = [self.dump()] if s.chance(30) else [out(S('base '), self.names and V(s.pick(self.names)))]
            self.k += 0
            rest = self.stmts(s.int(2, 6), free)
            if g.func:
                base.append(St('return', e=V(s.pick(self.names))))
                body = [St('if', arms=[(guard, base)], els=None)] + rest
                if s.chance(30):
                    body.append(St('if', arms=[(B('>', V(s.pick(self.names)), L(3)), [St('return', e=self.e(0))])], els=None))
                body.append(St('return', e=B('+', V(s.pick(self.names)), L(s.int(0, 2)))))
                prog.append(St('func', name=g.name, params=g.params, rtype='INTEGER', body=body))
            else:
                prog.append(St('proc', name=g.name, params=g.params, rtype=None, body=[St('if', arms=[(guard, base)], els=rest)]))
        self.cur, self.names = None, self.POOL
        for _ in range(s.int(2, 5)):
            self.calls = 3
            if s.chance(30):
                prog += self.stmts(1, [])
            elif s.chance(30):
                prog.append(St('for', name='top', a=L(0), b=L(s.int(1, 3)), step=None, nextname=True, body=self.call()))
            else:
                prog += self.call()
            f = self.fcall()
            if f and s.chance(50):
                prog.append(out(S('f='), f))
            prog.append(self.dump())
        if s.chance(4):
            # locals and parameters do not exist outside
            prog.append(out(V(s.pick(['u1', 'p', 'q', 'n', 'it2']))))
        prog.append(out(*sum([[V(x, ('[', [L(k)])), S(' ')] for x in self.ARR for k in range(3)], []), V('g', ('.', 'f'))))
        return prog


def calls_case(src, env, i):
    prog = Calls(src).program()
    m, o = diff(env, prog, variant='san' if i % 12 == 11 else 'plain')
    env.mark(m.kind if m.exc is None else 'runtime: %s' % m.exc)
    env.mark(*[c for c in m.cov if c.startswith('depth')])
    env.nontrivial = 'depth 2' in m.cov


# ------------------------------------------------------------------ deep recursion with chains of references
def deep_case(src, env, i):
    s = src
    d = s.int(5, 50)
    two = s.chance(40)
    t = s.pick(['INTEGER', 'STRING', 'REAL'])
    one = {'INTEGER': L(1), 'STRING': S('.'), 'REAL': ('real', '0.5')}[t]
    op = '&' if t == 'STRING' else '+'
    zero = {'INTEGER': L(0), 'STRING': S(''), 'REAL': ('real', '0.0')}[t]
    prog = [St('typerec', name='R', body=[decl(t, 'f'), decl(t, 'a', bounds=[(1, 3)])]), decl('R', 'r'), decl(t, 'g', 'h'), decl(t, 'arr', bounds=[(1, 3)]),
            decl('INTEGER', 'lo')]
    for lv in (('g', []), ('h', []), ('r', [('.', 'f')]), ('arr', [('[', [L(2)])]), ('r', [('.', 'a'), ('[', [L(3)])])):
        prog.append(assign(lv, zero))
    lo = s.pick(['lo', 'loc'])
    body = [decl('INTEGER', lo), decl(t, 'mine'), assign(lo, V('n')), assign('mine', V('v')),
            St('if', arms=[(B('>', V('n'), L(0)), [
                assign('x', B(op, V('x'), one)),
                assign('v', B(op, V('v'), one)),
                St('call', name='Q' if two else 'P', args=[B('-', V('n'), L(1)), V('x'), V('v')], parens=True),
                St('if', arms=[(B('=', B('MOD', V('n'), L(s.int(3, 9))), L(0)), [out(V(lo), S(' '), V('mine'), S(' '), V('v'), S(' '), V('x'), S(' '), V('g'))])], els=None),
            ])], els=[out(S('bottom '), V('x'), S(' '), V('v'), S(' '), V('g'))])]
    ps = [('n', 'INTEGER', None, False), ('x', t, 'BYREF', False), ('v', t, 'BYVAL', False)]
    prog.append(St('proc', name='P', params=ps, rtype=None, body=body))
    if two:
        ps2 = [('n', 'INTEGER', 'BYVAL', False), ('y', t, 'BYREF', False), ('g', t, 'BYVAL', False)]
        prog.append(St('proc', name='Q', params=ps2, rtype=None, body=[assign('y', B(op, V('y'), one)), decl(t, 'v'), assign('v', V('g')),
                                                                         St('call', name='P', args=[V('n'), V('y'), V('g')], parens=True)]))
    for lv in s.sample([('g', []), ('h', []), ('r', [('.', 'f')]), ('arr', [('[', [L(2)])]), ('r', [('.', 'a'), ('[', [L(3)])])], s.int(1, 3)):
        prog += [St('call', name='P', args=[L(d if not two else d // 2), ('var', lv), s.pick([V('h'), one])], parens=True), out(('var', lv), S(' '), V('g'), S(' '), V('h'))]
    fb = [St('if', arms=[(B('<=', V('n'), L(1)), [St('return', e=L(1))])], els=None)]
    fb += [decl('INTEGER', 'k'), assign('k', ('call', 'Fac', [B('-', V('n'), L(1))]))] if s.chance(50) else [assign('k', ('call', 'Fac', [B('-', V('n'), L(1))]))]
    fb.append(St('return', e=B('MOD', ('paren', B('+', B('*', V('k'), L(3)), V('n'))), L(1009))))
    prog += [St('func', name='Fac', params=[('n', 'INTEGER', None, False)], rtype='INTEGER', body=fb), out(('call', 'Fac', [L(d)]), S(' '), ('call', 'Fac', [L(3)]))]

    class Deep(Interp):
        MAX_STEPS = 60000
    m, o = diff(env, prog, interp=Deep, variant='san' if i % 10 == 9 else 'plain')
    env.mark('depth %d0s' % (d // 10))
    env.nontrivial = True


def typed_case(src, env, i):
    g = Gen(src, size=12, depth=2, errors=4, minprocs=2, morecalls=25)
    prog = g.program()
    m, o = diff(env, prog, g.stdin, variant='san' if i % 12 == 11 else 'plain')
    env.mark(m.kind if m.exc is None else 'runtime: %s' % m.exc)
    env.mark(*[c for c in m.cov if c.startswith('depth')])
    env.nontrivial = 'depth 2' in m.cov


# ------------------------------------------------------------------ every value survives every way in and out of an activation
def cexpr(v):
    """an expression for any string"""
    parts = [('"%s"' % q if ord(q[0]) < 128 and q[0].isalnum() else 'CHR(%d)' % ord(q)) for q in re.findall(r'(?s)[A-Za-z0-9]+|.', v)]
    return ' & '.join(['""'] + parts)


def edge(src, t):
    if t == 'INTEGER':
        k = src.n(4)
        v = src.int(-100, 100) if k == 0 else src.pick([1, -1]) * ((1 << src.n(63)) + src.int(-2, 2)) if k < 3 else src.pick([1, -1]) * 10 ** src.n(19) + src.int(-1, 1)
        v = max(-(1 << 63), min((1 << 63) - 1, v))
        return '(%d - 1)' % (v + 1) if v == -(1 << 63) else '%d' % v
    if t == 'REAL':
        k = src.n(4)
        neg = '-' if src.chance(40) else ''
        if k == 0:
            return neg + '%d.%s' % (src.n(1000), src.n(10 ** 9))
        if k == 1:
            return neg + '%d.%d' % ((1 << src.n(62)) + src.n(3), src.pick([0, 5, 25, 125]))
        if k == 2:
            return '(%s%d.0 / %d.0)' % (neg, src.int(1, 10 ** src.int(1, 12)), src.pick([3, 7, 9, 11, 1000, 10 ** 9]))
        return neg + '0.%s%d' % ('0' * src.n(30), src.int(1, 10 ** 6))
    if t == 'BOOLEAN':
        return src.pick(['TRUE', 'FALSE', '(1 = 1)', '(NOT TRUE)'])
    if t == 'CHAR':
        return src.pick(["'%s'" % chr(src.pick([c for c in range(33, 127) if chr(c) not in "'\\"])), 'CHR(%d)' % src.int(1, 255)])
    if t == 'STRING':
        n = src.pick([0, 1, 2, 7, 14, 15, 16, 17, 31, 32, 64, 255, 256, 300])
        return '(' + cexpr(''.join(chr(src.int(1, 255)) if src.chance(15) else src.pick('ab 01.Z') for _ in range(n))) + ')'
    return 'SETDATE(%d, %d, %d)' % (src.int(1, 28), src.int(1, 12), src.pick([1, 99, 100, 1582, 1600, 1752, 1900, 1969, 1970, 2000, 2024, 2038, 9999, 12345]))


CONV = {'INTEGER': ['INTEGER', 'INTEGER', 'REAL'], 'REAL': ['REAL'], 'BOOLEAN': ['BOOLEAN'], 'CHAR': ['CHAR', 'CHAR', 'STRING'], 'STRING': ['STRING'], 'DATE': ['DATE']}


def values_case(src, env, i):
    """functions and procedures that only hand a value on; i picks the type of the value"""
    t = list(CONV)[i % 6]
    u = src.pick(CONV[t])
    vals = [edge(src, t) for _ in range(src.int(2, 6))]
    pre = ['TYPE Box', '    DECLARE f : ' + u, '    DECLARE a : ARRAY[1:3] OF ' + u, 'ENDTYPE', 'DECLARE gb : Box', 'DECLARE ga : ARRAY[0:2] OF ' + u,
           'DECLARE gv : ' + t, 'DECLARE w, other, back : ' + u]
    other = edge(src, t)
    X = 'x : ' + u
    fn = {'F1': (X, ['RETURN x']), 'F2': (X, ['DECLARE y : ' + u, 'y <- x', 'x <- other', 'RETURN y']), 'F3': (X, ['gb.f <- x', 'RETURN gb.f']),
          'F4': (X, ['DECLARE l : ARRAY[1:2] OF ' + u, 'l[2] <- x', 'l[1] <- other', 'RETURN l[2]']), 'F5': ('n : INTEGER, ' + X, ['IF n > 0 THEN', '    RETURN F5(n - 1, x)', 'ENDIF', 'RETURN x']),
          'F6': ('BYREF ' + X, ['RETURN x']), 'F7': (X, ['ga[1] <- other', 'CALL Put(ga[2], x)', 'RETURN ga[2]']), 'F8': (X, ['DECLARE b : Box', 'b.f <- other', 'CALL Fill(b, x)', 'RETURN b.a[3]']),
          'F9': (X, ['FOR q <- 1 TO 3', '    IF q = 2 THEN', '        RETURN x', '    ENDIF', 'NEXT q', 'RETURN other']),
          'FA': ('a : %s, %s, b : %s' % (u, X, u), ['a <- b', 'b <- other', 'RETURN x']), 'FB': (X, ['RETURN F1(F2(x))']), 'FC': ('x : ' + t, ['RETURN x']),
          'FD': ('x : ' + t, ['DECLARE z : ' + t, 'z <- x', 'RETURN z'])}
    names = src.sample(sorted(fn), src.int(3, 7))
    if 'FB' in names:
        names = ['F1', 'F2'] + [n for n in names if n not in ('F1', 'F2')]
    prog = pre + ['w <- ' + other, 'other <- w', 'PROCEDURE Put(BYREF d : %s, BYVAL x : %s)' % (u, u), '    d <- x', '    x <- other', 'ENDPROCEDURE', 'PROCEDURE Fill(BYREF b : Box, BYVAL x : %s)' % u,
                  '    b.a[3] <- x', 'ENDPROCEDURE', 'PROCEDURE Swap(BYREF p : %s, BYREF q : %s)' % (u, u), '    DECLARE h : ' + u, '    h <- p', '    p <- q', '    q <- h', 'ENDPROCEDURE']
    for n in sorted(names):
        prog += ['FUNCTION %s(%s) RETURNS %s' % (n, fn[n][0], u)] + ['    ' + l for l in fn[n][1]] + ['ENDFUNCTION']
    for k, v in enumerate(vals):
        prog += ['FUNCTION K%d() RETURNS %s' % (k, u), '    RETURN ' + v, 'ENDFUNCTION']
    # the twin says the same without a call
    twin = pre + ['DECLARE h0 : ' + u, 'w <- ' + other, 'other <- w']
    for k, v in enumerate(vals):
        prog += ['gv <- ' + v, 'w <- ' + v]
        twin += ['gv <- ' + v, 'w <- ' + v]
        for n in names + ['K']:
            if n == 'K':
                e = 'K%d()' % k
            elif n == 'F6':
                e = 'F6(w)'
            elif n == 'F5':
                e = 'F5(%d, %s)' % (src.n(12), src.pick(['gv', 'w', v]))
            elif n == 'FA':
                e = 'FA(other, %s, other)' % src.pick(['gv', 'w', v])
            elif n in ('FC', 'FD'):
                e = '%s(%s)' % (n, src.pick(['gv', v]))
            else:
                e = '%s(%s)' % (n, src.pick(['gv', 'w', v]))
            for p, x in ((prog, e), (twin, 'w')):
                p += ['OUTPUT %s = w, " ", w = %s' % (x, x), 'back <- ' + x, 'OUTPUT back = w, " ", w']
                if t != 'DATE':
                    p.append('OUTPUT "", ' + x)
        prog += ['back <- other', 'CALL Put(back, %s)' % src.pick(['w', 'gv', v]), 'OUTPUT back = w', 'CALL Swap(back, other)', 'OUTPUT other = w, back = other', 'CALL Swap(other, back)', 'OUTPUT back = w']
        twin += ['back <- w', 'OUTPUT back = w', 'h0 <- back', 'back <- other', 'other <- h0', 'OUTPUT other = w, back = other', 'h0 <- back', 'back <- other', 'other <- h0', 'OUTPUT back = w']
    text, tw = '\n'.join(prog) + '\n', '\n'.join(twin) + '\n'
    r = env.file(text, variant='san' if i % 12 == 11 else 'plain')
    q = env.file(tw)
    if q.code != 0:
        raise Fail('a program that only assigns values failed', program=numbered(tw), observed=q.out[-300:], stderr=q.err)
    bad = ['exit %s' % r.code] if r.code != 0 else ['output'] if q.out != r.out else []
    outs = r.out.decode('latin-1')
    if bad:
        raise Fail('a value changed on its way through a call (%s)' % bad[0], program=numbered(text), twin=numbered(tw), expected=q.out[-600:], observed=r.out[-600:], stderr=r.err[-400:])
    env.mark('%s as %s' % (t, u), *names)
    env.nontrivial, env.digest = True, text
    env.sample = dict(values=vals, functions=names, output=outs[:200])


# ------------------------------------------------------------------ long parameter lists, long names, calls one after the other
def wide_case(src, env, i):
    n = src.pick([4, 5, 6, 8, 9, 12, 16, 17, 18, 24, 32, 33, 40, 64, 65, 100])
    t = ['INTEGER', 'STRING'][i % 2]
    func = src.chance(40)
    pre = src.pick(['', '', 'x', 'TheParameterOfTheProcedureWithALongName', 'p' * 63, 'q' * 254])
    names = [pre + 'p%d' % k for k in range(n)] if pre or src.chance(60) else [''.join(c.upper() if (k + 1) >> j & 1 else c for j, c in enumerate('pargument')) for k in range(n)]
    src.shuffle(names)
    ref = [src.chance(45) for _ in range(n)]
    if src.chance(30):
        cut = src.int(0, n)
        ref = [k >= cut for k in range(n)]
    if src.chance(10):
        ref = [True] * n
    ps, k = [], 0
    while k < n:
        g = 1
        while k + g < n and ref[k + g] == ref[k] and src.chance(60):
            g += 1
        ps.append('%s %s : %s' % ('BYREF' if ref[k] else 'BYVAL', ', '.join(names[k:k + g]), t))
        k += g
    lit = (lambda v: str(v) if v >= 0 else '(%d)' % v) if t == 'INTEGER' else (lambda v: '"%s"' % v)
    zero = (lambda k: 100 * k + 1) if t == 'INTEGER' else (lambda k: 'v%d' % k)
    step = (lambda v, k: v + 1000 * (k + 1)) if t == 'INTEGER' else (lambda v, k: v + '<%d' % k)
    up = (lambda x, k: '%s + %d' % (x, 1000 * (k + 1))) if t == 'INTEGER' else (lambda x, k: '%s & "<%d"' % (x, k))
    # places of the caller
    P = ['v%d' % k for k in range(6)] + ['a[%d]' % k for k in range(1, 8)] + ['r.f%d' % k for k in range(5)] + ['m[%d, %d]' % (a, b) for a in (0, 1) for b in (-1, 0)]
    L_ = ['TYPE R', '    DECLARE f0, f1, f2, f3, f4 : ' + t, 'ENDTYPE', 'DECLARE r : R', 'DECLARE a : ARRAY[1:7] OF ' + t, 'DECLARE m : ARRAY[0:1, -1:0] OF ' + t, 'DECLARE v0, v1, v2, v3, v4, v5, got : ' + t]
    L_.append('%s P(%s)%s' % ('FUNCTION' if func else 'PROCEDURE', 'BYVAL d : INTEGER, ' + ', '.join(ps), ' RETURNS ' + t if func else ''))
    shown = [src.n(n) for _ in range(min(n, 12))] + [0, n - 1]
    order = src.shuffle(list(range(n)))[:40] if n > 40 else src.shuffle(list(range(n)))
    show = '    OUTPUT d, ' + ', '.join('" ", %s' % names[k] for k in shown)
    L_.append(show)
    L_ += ['    %s <- %s' % (names[k], up(names[k], k)) for k in order[:len(order) // 2]]
    rot = src.n(n)
    again = ['d - 1'] + [names[(k + rot) % n] for k in range(n)]
    retk = src.n(n)
    L_ += ['    IF d > 0 THEN', '        ' + ('%s <- P(%s)' % (names[retk], ', '.join(again)) if func else 'CALL P(%s)' % ', '.join(again)), '    ENDIF']
    L_ += ['    %s <- %s' % (names[k], up(names[k], k)) for k in order[len(order) // 2:]]
    L_.append(show)
    if func:
        L_.append('    RETURN ' + names[retk])
    L_.append('ENDFUNCTION' if func else 'ENDPROCEDURE')
    cell = {q: [zero(k)] for k, q in enumerate(P)}
    for q in P:
        L_.append('%s <- %s' % (q, lit(cell[q][0])))
    W = []

    def act(d, args):
        loc = [a if ref[k] else [a[0]] for k, a in enumerate(args)]
        W.append(' '.join([str(d)] + [str(loc[k][0]) for k in shown]))
        for k in order[:len(order) // 2]:
            loc[k][0] = step(loc[k][0], k)
        if d > 0:
            v = act(d - 1, [loc[(k + rot) % n] for k in range(n)])
            if func:
                loc[retk][0] = v
        for k in order[len(order) // 2:]:
            loc[k][0] = step(loc[k][0], k)
        W.append(' '.join([str(d)] + [str(loc[k][0]) for k in shown]))
        return loc[retk][0]
    for c in range(src.int(1, 3)):
        d = src.pick([0, 0, 1, 2])
        if t == 'STRING' and n > 40:
            d = 0
        texts, args = [], []
        for k in range(n):
            if ref[k] or src.chance(60):
                q = src.pick(P)
                texts.append(q)
                args.append(cell[q])
            else:
                v = zero(k + 50)
                texts.append(lit(v))
                args.append([v])
        call = 'P(%s)' % ', '.join([str(d)] + texts)
        v = act(d, args)
        if func:
            L_ += ['got <- ' + call, 'OUTPUT got']
            W.append(str(v))
        else:
            L_.append('CALL ' + call)
        for j in range(0, len(P), 6):
            L_.append('OUTPUT ' + ', " ", '.join(P[j:j + 6]))
            W.append(' '.join(str(cell[q][0]) for q in P[j:j + 6]))
    text = '\n'.join(L_) + '\n'
    if max(map(len, W)) > 100000:
        raise Skip('long')
    o = env.file(text, variant='san' if i % 25 == 24 else 'plain')
    g = o.out.decode('latin-1').split('\n')
    if o.code != 0 or g[:-1] != W:
        j = next((j for j in range(min(len(g), len(W))) if g[j] != W[j]), min(len(g), len(W)))
        raise Fail('a call with many parameters', 'wide', program=numbered(text)[:6000], parameters=n, expected=W[j:j + 2], observed=g[j:j + 2], code=o.code, stderr=o.err[-300:])
    env.mark('function' if func else 'procedure', '%d parameters' % n)
    env.nontrivial, env.digest = True, text
    env.sample = dict(parameters=n, byref=sum(ref), output=W[0][:120])


STREAMS = [
    Stream('values', values_case, 600, 12000),
    Stream('wide', wide_case, 500, 12000),
    Stream('modes', modes_case, 27 * 2 * 4 * 4, 27 * 2 * 4 * 80),
    Stream('rejected', argerr_case, 1400, 30000),
    Stream('rejected-session', reject_session, 210, 4000),
    Stream('activations', calls_case, 9000, 220000),
    Stream('deep', deep_case, 800, 15000),
    Stream('typed', typed_case, 6000, 150000),
]
