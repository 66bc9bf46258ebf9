"""C03: selection and loop statements execute exactly the documented control flow."""
import math, re
from decimal import Decimal
from common import *
from gen import Gen, lit

VARIANTS = ['plain']
RULE = ('a case is non-trivial when at least one loop body or one non-first branch was executed (nests), or a row of the FOR cube / CASE '
        'table / condition-type table was decided; distinct by program text')
ASSUMPTIONS = ['STEP 0, iterator overflow, iterators assigned in the body, clauses of another type than the selector are only '
               'required not to match (skipped or a runtime error), CHAR against STRING clauses and CHAR/DATE ranges are not judged']


# ------------------------------------------------------------------ FOR cube
STEPS = [None] + [s for s in range(-4, 5) if s]
STARTS = list(range(-5, 6))


def forms(src, n, i, pre):
    """an expression with value n; may add set-up statements"""
    k = src.n(5)
    if k == 0:
        return L(n)
    if k == 1:
        v = 'v%d' % i
        pre.append(assign(v, L(n)))
        return V(v)
    if k == 2:
        return B('+', L(n - 3), ('int', 3))
    if k == 3:
        return ('paren', L(n))
    return B('-', ('call', 'LENGTH', [S('abcdefgh')]), L(8 - n))


def cube_case(src, env, i):
    start, step = STARTS[i // len(STEPS)], STEPS[i % len(STEPS)]
    prog = [decl('INTEGER', 'v0', 'v1', 'v2', 'n')]
    for stop in range(-6, 7):
        pre = []
        a, b = forms(src, start, 0, pre), forms(src, stop, 1, pre)
        c = None if step is None else forms(src, step, 2, pre)
        body = [St('output', es=[S('  '), V('it')])]
        # the bounds are evaluated once: changing what they read has no effect
        body += [assign('v%d' % k, B('+', V('v%d' % k), L(src.pick([5, -5, 1])))) for k in range(3) if src.chance(50)]
        if src.chance(25):
            body.append(St('if', arms=[(B('=', V('it'), L(start + (step or 1))), [St(src.pick(['break', 'continue']))])], els=None))
            body.append(out(S('after')))
        loop = [St('for', name='it', a=a, b=b, step=c, body=body, nextname=src.chance(50))]
        if src.chance(20):
            # the iterator is global, the loop in a procedure
            name = 'P%d' % (stop + 6)
            loop = [assign('it', L(77)), St('proc', name=name, params=[], rtype=None, body=loop), St('call', name=name, args=[], parens=False)]
        prog += pre + [out(S('stop %d' % stop))] + loop + [out(S('= '), V('it'))]
    m, o = diff(env, prog)
    env.nontrivial = True
    env.sample = dict(start=start, step=step, stops='-6..6', output=m.text()[:200])


BIGS = [(1 << 31) - 2, 1 << 31, (1 << 32) - 1, (1 << 53) - 1, (1 << 63) - 6, -(1 << 31), -(1 << 62), -(1 << 63) + 5]


def big_case(src, env, i):
    prog = []
    for _ in range(6):
        a = src.pick(BIGS) + src.int(-2, 2)
        st = src.pick([1, 1, 2, 3, -1, -2, 1 << 20, 1 << 40, -(1 << 33)])
        k = src.int(0, 4)
        b = a + st * k + (src.int(0, abs(st) - 1) if abs(st) > 1 else 0) * (1 if st > 0 else -1)
        if abs(b + 2 * st) >= (1 << 63) - 1 or abs(b) >= (1 << 63) - 1 or abs(a) >= (1 << 63) - 1:
            continue
        prog += [St('for', name='big', a=L(a), b=L(b), step=None if st == 1 and src.chance(50) else L(st), body=[out(S('b '), V('big'))], nextname=False),
                 out(V('big'))]
    if not prog:
        raise Skip('empty')
    diff(env, prog)
    env.nontrivial = True


# ------------------------------------------------------------------ CASE
CV = {
    'INTEGER': [0, 1, 2, 3, 4, 5, -1, -3],
    'REAL': ['0.5', '1.0', '1.5', '2.0', '3.25'],
    'CHAR': ['a', 'b', 'z', '1', ' '],
    'STRING': ['', 'a', 'ab', 'b', '1'],
    'BOOLEAN': [True, False],
    'Day': ['Mon', 'Tue', 'Wed'],
    'DATE': [(1, 1, 2000), (2, 1, 2000), (29, 2, 2024)],
}


def cval(t, v):
    if t == 'INTEGER':
        return L(v)
    if t == 'REAL':
        return ('real', v)
    if t == 'DATE':
        return ('date',) + v
    if t == 'Day':
        return V(v)
    return ({'CHAR': 'char', 'STRING': 'str', 'BOOLEAN': 'bool'}[t], v)


def case_case(src, env, i):
    t = list(CV)[i % len(CV)]
    prog = [St('typeenum', name='Day', names=['Mon', 'Tue', 'Wed']), decl(t, 'sel'), decl('INTEGER', 'k'), assign('k', ('int', 2))]
    for rep in range(3):
        clauses = []
        for c in range(src.int(1, 5)):
            body = [out(S('clause %d' % c))]
            if src.chance(25):
                body.append(assign('k', B('+', V('k'), ('int', 1))))
            if src.chance(15):
                body.append(assign('sel', cval(t, src.pick(CV[t]))))
            if t in ('INTEGER', 'REAL') and src.chance(45):
                x = L(src.int(-4, 5)) if src.chance(70) else src.pick([('real', '0.5'), ('real', '1.5'), V('k')])
                y = L(src.int(-4, 6)) if src.chance(70) else src.pick([('real', '2.5'), B('+', V('k'), ('int', 2))])
                clauses.append((x, y, body))
            else:
                v = cval(t, src.pick(CV[t]))
                if t == 'INTEGER' and src.chance(25):
                    v = src.pick([V('k'), B('-', V('k'), ('int', 1)), ('call', 'LENGTH', [S('ab')]), ('real', '2.0'), ('real', '2.5')])
                elif t == 'REAL' and src.chance(25):
                    v = src.pick([('int', 1), ('int', 2), V('k')])
                clauses.append((v, None, body))
        els = [out(S('otherwise'))] if src.chance(60) else None
        for v in CV[t]:
            prog += [assign('sel', cval(t, v)), St('case', name='sel', clauses=clauses, els=els), out(S('done '), V('k'))]
    m, o = diff(env, prog)
    env.mark(t + ' ' + m.kind)
    env.nontrivial = True


# ------------------------------------------------------------------ clauses that nearly match: the first equal value, exactly
def sexpr(v):
    parts = [('"%s"' % q if ord(q[0]) < 128 and q[0].isalnum() else 'CHR(%d)' % ord(q)) for q in re.findall(r'(?s)[A-Za-z0-9]+|.', v)]
    return ' & '.join(['""'] + parts)


def neighbours(src, t):
    """a value and others that differ from it as little as the type allows, in exact form"""
    if t == 'INTEGER':
        b = src.pick([1, -1]) * (1 << src.n(63)) if src.chance(70) else src.int(-300, 300)
        vs = [b, b + 1, b - 1, -b, b ^ (1 << src.n(62)), b + (1 << 32), b - (1 << 32), b + 256, b + 65536, b ^ 1, 0]
        return [v for v in vs if abs(v) < (1 << 63) - 2]
    if t == 'REAL':
        b = src.pick([src.int(-1000, 1000) / 8, float(src.int(-10 ** 6, 10 ** 6)), src.int(1, 10 ** 9) / 1024, 2.0 ** src.int(-20, 60), 0.1 * src.int(1, 99)])
        return [b, math.nextafter(b, 1e300), math.nextafter(b, -1e300), -b, b + 1, b + 1e-6, b + 1e-9, b * 2, float(int(b)), float(int(b)) + 0.5] if b else [0.0, 0.5, 1e-9, -1e-9]
    if t == 'CHAR':
        c = src.int(1, 255)
        return [chr(x) for x in {c, c ^ 32, c ^ 128, c % 255 + 1, c ^ 1} if x]
    if t == 'STRING':
        b = ''.join(src.pick('ab 0\nA\xe9') for _ in range(src.pick([0, 1, 2, 5, 8, 15, 16, 17, 40, 130, 260])))
        vs = [b, b + 'a', b + ' ', ' ' + b, b[:-1], b.swapcase(), b[:len(b) // 2] + 'x' + b[len(b) // 2 + 1:], b[:-1] + 'z', 'z' + b[1:], '', b + b, b.strip(), b + chr(src.int(1, 255))]
        return vs
    if t == 'DATE':
        d, m, y = src.int(1, 28), src.int(1, 12), src.pick([src.int(1, 9999), src.int(1900, 2100), src.int(1, 32000)])
        vs = [(d, m, y), (d % 28 + 1, m, y), (d, m % 12 + 1, y), (d, m, y + 1), (d, m, y + 100), (d, m, y + 256), (d, m, max(1, y - 100)), (d, m, y % 100 + 1900), (d, m, y % 100 or 1), (d, m, y + 400), (m, d % 12 + 1, y), (d, m, max(1, y - 1))]
        return vs
    return [True, False]


def write_value(t, v):
    if t == 'INTEGER':
        return str(v)
    if t == 'REAL':
        s = format(Decimal(repr(abs(v))), 'f')
        return ('-' if v < 0 else '') + (s if '.' in s else s + '.0')
    if t == 'CHAR':
        return "'%s'" % v if v.isalnum() and ord(v) < 128 else 'CHR(%d)' % ord(v)
    if t == 'STRING':
        return sexpr(v)
    if t == 'DATE':
        return '%d/%d/%d' % v
    return 'TRUE' if v else 'FALSE'


def near_case(src, env, i):
    t = ['INTEGER', 'REAL', 'CHAR', 'STRING', 'DATE', 'BOOLEAN'][i % 6]
    lines, want = ['DECLARE sel, v0, v1, v2, v3, v4, v5 : ' + t], []
    for rep in range(src.int(1, 3)):
        vs = neighbours(src, t)
        clauses = []
        for k in range(src.int(1, 6)):
            if t in ('INTEGER', 'REAL') and src.chance(40):
                a, b = src.pick(vs), src.pick(vs)
                clauses.append((a, b))
            else:
                clauses.append((src.pick(vs),))
        text = []
        for k, c in enumerate(clauses):
            names = [write_value(t, x) for x in c]
            if len(c) == 1 and src.chance(35):
                lines.append('v%d <- %s' % (k, names[0]))
                names = ['v%d' % k]
            text.append('    %s : OUTPUT "%d"' % (' TO '.join(names), k))
        other = src.chance(70)
        if other:
            text.append('    OTHERWISE : OUTPUT "other"')
        for v in vs:
            lines += ['sel <- ' + write_value(t, v), 'CASE OF sel'] + text + ['ENDCASE', 'OUTPUT "."']
            hit = next((k for k, c in enumerate(clauses) if (v == c[0] if len(c) == 1 else c[0] <= v <= c[1])), None)
            want += ([str(hit)] if hit is not None else ['other'] if other else []) + ['.']
    text = '\n'.join(lines) + '\n'
    r = env.file(text)
    got = r.out.decode('latin-1').split('\n')
    if r.code != 0 or got != want + ['']:
        k = next((k for k in range(len(want)) if k >= len(got) or got[k] != want[k]), len(want))
        raise Fail('CASE did not execute the first clause whose value or range contains the selector', 'near', program=numbered(text), expected=want[max(0, k - 2):k + 2], observed=got[max(0, k - 2):k + 2], stderr=r.err[-400:])
    env.mark(t)
    env.nontrivial, env.digest = True, text
    env.sample = dict(program=text[:500], output=got[:6])


# ------------------------------------------------------------------ clauses of another type than the selector
MIXED = """TYPE Season = (Spring, Summer, Autumn)
TYPE Colour = (Red, Green, Blue)
TYPE P = ^INTEGER
TYPE Q = ^STRING
TYPE R
    DECLARE f : INTEGER
ENDTYPE
DECLARE n : INTEGER
DECLARE t : STRING
DECLARE p : P
DECLARE q : Q
DECLARE r : R
p <- ^n
q <- ^t
"""
MIX = {'INTEGER': ['1', '0', '2', '65'], 'REAL': ['1.5', '0.5', '65.25'], 'BOOLEAN': ['TRUE', 'FALSE'], 'CHAR': ["'1'", "'A'", "'a'"], 'STRING': ['"1"', '"A"', '"TRUE"', '""', '"Green"', '"1.5"', '"1/1/2000"'],
       'DATE': ['1/1/2000', '2/1/2000'], 'Season': ['Spring', 'Summer', 'Autumn'], 'Colour': ['Red', 'Green', 'Blue'], 'P': ['p'], 'Q': ['q'], 'R': ['r']}
LIKE = [{'INTEGER', 'REAL'}, {'CHAR', 'STRING'}]
MIXES = [(a, b) for a in MIX for b in MIX if a != b and {a, b} not in LIKE]


def mixed_case(src, env, i):
    """a clause whose value or bound has a type that cannot equal the selector's is never the one executed (it may be an error)"""
    a, b = MIXES[i]
    for va in MIX[a]:
        for vb in MIX[b]:
            for how, clause in (('value', vb), ('range', '%s TO %s' % (vb, vb)), ('upper', '%s TO %s' % (va, vb)), ('lower', '%s TO %s' % (vb, va))):
                if how in ('upper', 'lower', 'range') and a not in ('INTEGER', 'REAL'):
                    continue
                text = MIXED + 'DECLARE sel : %s\nsel <- %s\nOUTPUT "start"\nCASE OF sel\n    %s : OUTPUT "other"\n    OTHERWISE : OUTPUT "rest"\nENDCASE\nOUTPUT "end"\n' % (a, '^n' if a == 'P' else '^t' if a == 'Q' else va, clause)
                r = env.file(text)
                o = Obs(r)
                if o.kind not in ('ok', 'runtime') or r.out.split() not in ([b'start', b'rest', b'end'], [b'start']) or (o.kind == 'ok') != (b'end' in r.out):
                    raise Fail('a clause with a %s %s for a selector of type %s was taken for a match' % (b, how, a), 'mixed', program=numbered(text), stdout=r.out, stderr=r.err)
                env.mark('%s %s' % (how, o.kind))
    env.nontrivial = True


# ------------------------------------------------------------------ conditions of every type
CONDS = [('INTEGER', ('int', 1)), ('INTEGER', ('int', 0)), ('REAL', ('real', '1.0')), ('CHAR', ('char', 'T')), ('STRING', ('str', 'TRUE')),
         ('STRING', ('str', '')), ('DATE', ('date', 1, 1, 2000)), ('Day', V('Tue')), ('P', V('p')), ('R', V('r')), ('INTEGER', V('i')),
         ('STRING', V('s')), ('INTEGER', B('+', ('int', 1), ('int', 1))), ('STRING', B('&', S('TR'), S('UE'))), ('CHAR', V('c')),
         ('BOOLEAN', ('bool', True)), ('BOOLEAN', ('bool', False)), ('BOOLEAN', V('b'))]
PLACES = ['if', 'elseif', 'elseif2', 'while', 'while later', 'until', 'until later', 'nested if', 'in proc', 'in func']


def cond_case(src, env, i):
    t, c = CONDS[i // len(PLACES)]
    place = PLACES[i % len(PLACES)]
    o1 = [out(S('body'))]
    prog = [St('typeenum', name='Day', names=['Mon', 'Tue']), St('typeptr', name='P', target='INTEGER'),
            St('typerec', name='R', body=[decl('INTEGER', 'f')]), decl('P', 'p'), decl('R', 'r'), decl('INTEGER', 'i', 'n'), decl('STRING', 's'),
            decl('CHAR', 'c'), decl('BOOLEAN', 'b'), assign('i', ('int', 1)), assign('s', S('TRUE')), assign('c', ('char', 'T')),
            assign('n', ('int', 0)), St('ptrassign', lv=('p', []), to=('i', [])), out(S('start'))]
    up = assign('n', B('+', V('n'), ('int', 1)))
    stop = St('if', arms=[(B('>', V('n'), ('int', 3)), [St('break')])], els=None)
    later = lambda fine: B('AND' if fine else 'OR', B('<' if fine else '>', V('n'), ('int', 2)), c)
    if place == 'if':
        prog.append(St('if', arms=[(c, o1)], els=[out(S('else'))]))
    elif place == 'elseif':
        prog.append(St('if', arms=[(('bool', False), o1), (c, o1)], els=[out(S('else'))]))
    elif place == 'elseif2':
        prog.append(St('if', arms=[(('bool', False), o1), (B('=', V('i'), ('int', 2)), o1), (c, o1)], els=None))
    elif place == 'while':
        prog.append(St('while', c=c, body=[out(S('w')), up, stop]))
    elif place == 'while later':
        prog.append(St('while', c=later(True), body=[out(S('w')), up, stop]))
    elif place == 'until':
        prog.append(St('repeat', c=c, body=[out(S('u')), up, stop]))
    elif place == 'until later':
        prog.append(St('repeat', c=later(False), body=[out(S('u')), up, stop]))
    elif place == 'nested if':
        prog.append(St('for', name='j', a=L(1), b=L(3), step=None, body=[St('if', arms=[(B('=', V('j'), L(2)), [St('if', arms=[(c, o1)], els=None)])],
                                                                         els=[out(S('j'), V('j'))])], nextname=True))
    elif place == 'in proc':
        prog += [St('proc', name='Pr', params=[], body=[St('while', c=c, body=[up, stop])], rtype=None), St('call', name='Pr', args=[], parens=False)]
    else:
        prog += [St('func', name='Fn', params=[], rtype='INTEGER', body=[St('if', arms=[(c, [St('return', e=L(1))])], els=None), St('return', e=L(2))]),
                 out(('call', 'Fn', []))]
    prog.append(out(S('end '), V('n')))
    m, o = diff(env, prog)
    env.mark('%s %s' % ('BOOLEAN' if t == 'BOOLEAN' else 'other', m.kind))
    if t != 'BOOLEAN' and m.kind != 'runtime' and 'later' not in place:
        raise RuntimeError('model accepts a %s condition' % t)
    env.nontrivial = True


# ------------------------------------------------------------------ random nests
class Nest:
    def __init__(self, src):
        self.s = src
        self.k = 0
        self.n = 0
        self.iters = []
        self.loops = 0
        self.budget = 40

    def trace(self):
        self.k += 1
        es = [S('t%d ' % self.k)]
        if self.iters and self.s.chance(60):
            es += [V(self.s.pick(self.iters)), S(',')]
        if self.s.chance(40):
            es.append(V(self.s.pick(['x', 'y', 'z'])))
        return out(*es)

    def iv(self, d=1):
        s = self.s
        x = s.n(8)
        if x < 3:
            return V(s.pick(['x', 'y', 'z']))
        if x < 5 and self.iters:
            return V(s.pick(self.iters))
        if x == 5 and d:
            return B(s.pick(['+', '-', '*']), self.iv(0), self.iv(0))
        return L(s.int(-3, 6))

    def cond(self, d=2):
        s = self.s
        x = s.n(10)
        if d and x < 2:
            return B(s.pick(['AND', 'OR']), self.cond(d - 1), self.cond(d - 1))
        if d and x == 2:
            return ('not', self.cond(d - 1))
        if x < 5:
            return B('=', B('MOD', ('paren', B('+', B('*', self.iv(0), self.iv(0)), ('int', 100))), L(s.int(2, 3))), L(s.int(0, 1)))
        if x == 5:
            return V(s.pick(['p', 'q']))
        if x == 6:
            return ('bool', bool(s.n(2)))
        if x == 7 and s.chance(3):
            return self.iv()
        return B(s.pick(['<', '>', '=', '<>', '<=', '>=']), self.iv(), self.iv())

    def block(self, depth):
        out_ = [self.trace()]
        for _ in range(self.s.int(1, 3)):
            if self.budget > 0:
                out_ += self.stmt(depth)
        if self.s.chance(40):
            out_.append(self.trace())
        return out_

    def name(self, b):
        self.n += 1
        return b + str(self.n)

    def stmt(self, depth):
        s = self.s
        self.budget -= 1
        x = s.n(100)
        if depth <= 0 or x < 12:
            y = s.n(10)
            if y < 4:
                return [assign(s.pick(['x', 'y', 'z']), self.iv(1))]
            if y < 6:
                return [assign(s.pick(['p', 'q']), self.cond(1))]
            if y < 9 and self.loops:
                k = St(s.pick(['break', 'continue']))
                return [k] if s.chance(12) else [St('if', arms=[(self.cond(), [self.trace(), k] if s.chance(50) else [k])], els=None)]
            return [self.trace()]
        if x < 32:
            arms = [(self.cond(), self.block(depth - 1))]
            while s.chance(40) and len(arms) < 4:
                arms.append((self.cond(), self.block(depth - 1)))
            if s.chance(3):
                arms += [(self.cond(), [self.trace()]) for _ in range(s.pick([4, 5, 9, 14, 30]))]
            return [St('if', arms=arms, els=self.block(depth - 1) if s.chance(50) else None, own=s.chance(8))]
        if x < 46:
            v = s.pick(['x', 'y', 'z', 'sc', 'ss', 'p', 'sr'] + self.iters)
            cl = []
            for _ in range(s.int(1, 4)):
                if v == 'sc':
                    cl.append((('char', s.pick('abc')), None, self.block(depth - 1)))
                elif v == 'ss':
                    cl.append((S(s.pick(['', 'one', 'two'])), None, self.block(depth - 1)))
                elif v == 'p':
                    cl.append((self.cond(0), None, self.block(depth - 1)))
                elif s.chance(50):
                    cl.append((self.iv(), self.iv(), self.block(depth - 1)))
                else:
                    cl.append((('real', '1.5') if v == 'sr' and s.chance(50) else self.iv(), None, self.block(depth - 1)))
            if v in ('x', 'y', 'z') and s.chance(6):
                cl += [(L(k), None, [self.trace()]) for k in range(-3, s.pick([3, 9, 15, 40]))]
            pre = [assign('sc', ('char', s.pick('abcd')))] if v == 'sc' else [assign('ss', S(s.pick(['', 'one', 'two', 'x'])))] if v == 'ss' else \
                [assign('sr', s.pick([('real', '1.5'), self.iv()]))] if v == 'sr' else []
            return pre + [St('case', name=v, clauses=cl, els=self.block(depth - 1) if s.chance(50) else None)]
        if x < 62:
            c = self.name('w')
            self.loops += 1
            # CONTINUE must not skip the progress of the loop
            body = [assign(c, B('+', V(c), ('int', 1)))] + self.block(depth - 1)
            self.loops -= 1
            lim = B('<', V(c), L(s.int(0, 4)))
            return [assign(c, ('int', 0)), St('while', c=lim if s.chance(40) else B('AND', lim, self.cond(1)) if s.chance(50) else B('AND', self.cond(1), lim),
                                              body=body, do=s.weighted([(85, True), (10, False), (5, 'line')]))]
        if x < 76:
            c = self.name('r')
            self.loops += 1
            body = [assign(c, B('+', V(c), ('int', 1)))] + self.block(depth - 1)
            self.loops -= 1
            lim = B('>=', V(c), L(s.int(1, 4)))
            return [assign(c, ('int', 0)), St('repeat', c=lim if s.chance(40) else B('OR', lim, self.cond(1)), body=body)]
        if x < 94:
            n = self.name('i')
            a, b = self.iv(1), self.iv(1)
            if s.chance(70):
                a = L(s.int(-2, 3))
                b = L(s.int(-2, 5))
            st = None if s.chance(50) else L(s.pick([1, 2, 3, -1, -2, -3])) if s.chance(70) else B('-', ('int', s.int(1, 2)), ('int', 5))
            if st is not None and s.chance(35):
                # a step that differs between two executions of the loop
                v = V(s.pick(['x', 'y', 'z'] + self.iters * 3))
                r = B('MOD', ('paren', B('*', v, v)), ('int', s.int(2, 3)))
                st = s.pick([B('+', r, ('int', 1)), B('-', L(-1), r), B('-', B('*', B('MOD', ('paren', B('*', v, v)), ('int', 2)), ('int', 2)), ('int', 1))])
            a2 = B('MOD', ('paren', B('+', B('*', a, a), ('int', 50))), ('int', 4)) if a[0] != 'int' and a[0] != 'neg' else a
            b2 = B('MOD', ('paren', B('+', B('*', b, b), ('int', 50))), ('int', 6)) if b[0] != 'int' and b[0] != 'neg' else b
            self.iters.append(n)
            self.loops += 1
            body = self.block(depth - 1)
            self.loops -= 1
            self.iters.pop()
            return [St('for', name=n, a=a2, b=b2, step=st, body=body, nextname=s.chance(60)), out(S(n + '='), V(n))]
        return [St('call', name=s.pick(['Pa', 'Pb']), args=[], parens=False)] if self.procs else [self.trace()]

    procs = False

    def program(self):
        s = self.s
        pre = [decl('INTEGER', 'x', 'y', 'z'), decl('BOOLEAN', 'p', 'q'), decl('CHAR', 'sc'), decl('STRING', 'ss'), decl('REAL', 'sr'),
               assign('x', L(s.int(0, 4))), assign('y', L(s.int(-2, 3))), assign('p', ('bool', True))]
        if s.chance(50):
            for n in ('Pa', 'Pb'):
                self.budget = 8
                lo, self.loops = self.loops, 1 if s.chance(3) else 0
                b = self.block(2)
                self.loops = lo
                pre.append(St('proc', name=n, params=[], body=b, rtype=None))
            if s.chance(60):
                # RETURN from inside loops
                self.budget = 8
                self.iters, save = ['d'], self.iters
                b = self.block(2)
                b = [St(s.pick(['while', 'repeat']), c=('bool', True), do=True, body=b + [self.ret_if(), St('return', e=L(9))])] if s.chance(50) else \
                    [St('for', name='fi', a=L(1), b=L(4), step=None, nextname=True, body=[self.trace(), self.ret_if()] + b), St('return', e=L(7))]
                self.iters = save
                pre.append(St('func', name='Fn', params=[('d', 'INTEGER', None, False)], rtype='INTEGER', body=b))
                pre += [out(('call', 'Fn', [L(k)])) for k in range(s.int(1, 3))]
            self.procs = True
        self.budget = s.int(6, 30)
        body = []
        while self.budget > 0:
            body += self.stmt(4)
        return pre + body + [out(V('x'), S(' '), V('y'), S(' '), V('z'), S(' '), V('p'), V('q'))]

    def ret_if(self):
        return St('if', arms=[(self.cond(1), [St('return', e=self.iv())])], els=None)


def nest_case(src, env, i):
    m, o = diff(env, Nest(src).program())
    env.mark(m.kind if m.exc is None else 'runtime: %s' % m.exc)
    env.mark(*['covered: ' + c for c in m.cov])
    env.nontrivial = bool(m.cov)


def typed_case(src, env, i):
    g = Gen(src, depth=4, pointers=False, records=False, size=18, recursion=False, errors=3)
    prog = g.program()
    m, o = diff(env, prog, g.stdin)
    env.mark(m.kind)
    env.nontrivial = any(c.split()[0] in ('for', 'while', 'repeat', 'else', 'case', 'otherwise') for c in m.cov)


# ------------------------------------------------------------------ many iterations, branches, clauses and levels
MANY = [100, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1023, 1025, 4095, 4097, 10000, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000, 100001]
SHAPES = ['for', 'for down', 'for step', 'while', 'repeat', 'for break', 'while break', 'repeat break', 'for continue', 'while continue', 'repeat continue', 'nested', 'executed often', 'procedure', 'return',
          'if arms', 'case clauses', 'case ranges', 'nested ifs', 'nested loops', 'block', 'nested cases', 'case of words']


def long_case(src, env, i):
    shape = SHAPES[i % len(SHAPES)]
    n = MANY[i // len(SHAPES) % len(MANY)]
    lo = src.pick([0, 1, -1, -100, 1000000, -(1 << 40), (1 << 31) - 50, (1 << 32) - 3])
    k = src.pick([1, 2, n - 1, n, n // 2, min(n, 256), min(n, 257), min(n, 129)])
    L_, W = ['DECLARE n, m, i, s : INTEGER', 'n <- 0', 'm <- 0', 'i <- 0', 's <- 0'], []
    if shape in ('for', 'for down', 'for step'):
        st = {'for': 1, 'for down': src.pick([-1, -1, -3, -7]), 'for step': src.pick([2, 3, 5, 255, 256, 65537])}[shape]
        end = lo + st * (n - 1) + (src.n(abs(st)) * (1 if st > 0 else -1))
        L_ += ['FOR i <- %d TO %d%s' % (lo, end, '' if st == 1 else ' STEP %d' % st), '    n <- n + 1', '    s <- s + i', 'NEXT i', 'OUTPUT n, " ", i, " ", s']
        W.append('%d %d %d' % (n, lo + st * n, n * lo + st * (n * (n - 1) // 2)))
    elif shape == 'while':
        L_ += ['WHILE n < %d DO' % n, '    n <- n + 1', '    s <- s + n', 'ENDWHILE', 'OUTPUT n, " ", s']
        W.append('%d %d' % (n, n * (n + 1) // 2))
    elif shape == 'repeat':
        L_ += ['REPEAT', '    n <- n + 1', '    s <- s + n', 'UNTIL n >= %d' % n, 'OUTPUT n, " ", s']
        W.append('%d %d' % (n, n * (n + 1) // 2))
    elif shape.endswith('break') or shape.endswith('continue'):
        kind, what = shape.split()
        head, tail = {'for': ('FOR i <- 1 TO %d' % n, 'NEXT i'), 'while': ('WHILE n < %d DO' % n, 'ENDWHILE'), 'repeat': ('REPEAT', 'UNTIL n >= %d' % n)}[kind]
        L_ += [head, '    n <- n + 1', '    IF n %s %d THEN' % ('=' if what == 'break' else '<=', k), '        ' + what.upper(), '    ENDIF', '    m <- m + 1', tail, 'OUTPUT n, " ", m']
        W.append('%d %d' % (k, k - 1) if what == 'break' else '%d %d' % (n, n - k))
    elif shape == 'nested':
        a = src.pick([1, 2, 3, 7, 16, 250, 300])
        b = max(1, n // a)
        kind = src.n(3)
        L_ += ['FOR i <- 1 TO %d' % a] + [['    FOR s <- 1 TO %d' % b, '        n <- n + 1', '    NEXT s'], ['    s <- 0', '    WHILE s < %d DO' % b, '        s <- s + 1', '        n <- n + 1', '    ENDWHILE'], ['    s <- 0', '    REPEAT', '        s <- s + 1', '        n <- n + 1', '    UNTIL s >= %d' % b]][kind] + ['    m <- m + s', 'NEXT i', 'OUTPUT n, " ", m, " ", i']
        W.append('%d %d %d' % (a * b, a * (b + (kind == 0)), a + 1))
    elif shape == 'executed often':
        # the statement itself is executed n times, with other bounds each time
        w = src.n(3)
        body = [['    FOR m <- i TO i + 2 STEP i MOD 2 + 1', '        s <- s + 1', '    NEXT m'], ['    IF i MOD 3 = 0 THEN', '        s <- s + 1', '    ELSE IF i MOD 3 = 1 THEN', '        s <- s + 2', '    ENDIF'], ['    m <- i MOD 5', '    CASE OF m', '        0 : s <- s + 1', '        1 TO 3 : s <- s + 2', '        OTHERWISE : s <- s + 3', '    ENDCASE']][w]
        if w == 1:
            body = ['    IF i MOD 3 = 0 THEN', '        s <- s + 1', '    ELSE', '        IF i MOD 3 = 1 THEN', '            s <- s + 2', '        ENDIF', '    ENDIF']
        n = min(n, 40000)
        L_ += ['FOR i <- 1 TO %d' % n] + body + ['NEXT i', 'OUTPUT s']
        W.append(str(sum([2 if j % 2 else 3, (1, 2, 0)[j % 3], (1, 2, 2, 2, 3)[j % 5]][w] for j in range(1, n + 1))))
    elif shape == 'procedure':
        n = min(n, 40000)
        L_ += ['PROCEDURE P(BYREF n : INTEGER, BYVAL k : INTEGER)', '    DECLARE i : INTEGER', '    FOR i <- 1 TO k', '        IF i = 3 THEN', '            BREAK', '        ENDIF', '        n <- n + 1', '    NEXT i', 'ENDPROCEDURE', 'FOR i <- 1 TO %d' % n, '    CALL P(n, i MOD 4)', 'NEXT i', 'OUTPUT n, " ", i']
        W.append('%d %d' % (sum(min(2, j % 4) for j in range(1, n + 1)), n + 1))
    elif shape == 'return':
        loop, end = src.pick([('FOR i <- 1 TO %d' % (n + 5), 'NEXT i'), ('WHILE TRUE', 'ENDWHILE'), ('REPEAT', 'UNTIL FALSE')])
        L_ += ['FUNCTION F(k : INTEGER) RETURNS INTEGER', '    DECLARE i, c : INTEGER', '    c <- 0', '    ' + loop, '        c <- c + 1', '        IF c = k THEN', '            RETURN c * 10', '        ENDIF', '    ' + end, '    RETURN 0', 'ENDFUNCTION', 'OUTPUT F(%d), " ", F(%d)' % (k, n)]
        W.append('%d %d' % (k * 10, n * 10))
    elif shape in ('if arms', 'case clauses', 'case ranges', 'case of words'):
        n = min(n, 1025)
        js = sorted({1, 2, 3, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, n - 1, n, n + 1, k, src.int(1, n)})
        other = src.chance(60)
        ind = '    '
        if shape == 'if arms':
            body = [ind + 'IF i = 1 THEN', ind + '    OUTPUT "arm 1"']
            for j in range(2, n + 1):
                body += [ind + 'ELSE IF i = %d THEN' % j, ind + '    OUTPUT "arm %d"' % j]
            body += ([ind + 'ELSE', ind + '    OUTPUT "other"'] if other else []) + [ind + 'ENDIF']
        elif shape == 'case of words':
            body = [ind + 'w <- "word " & i', ind + 'CASE OF w'] + [ind + '    "word %d" : OUTPUT "arm %d"' % (j, j) for j in range(1, n + 1)] + ([ind + '    OTHERWISE : OUTPUT "other"'] if other else []) + [ind + 'ENDCASE']
        else:
            r = shape == 'case ranges'
            body = [ind + 'CASE OF i'] + [ind + ('    %d TO %d : OUTPUT "arm %d"' % (j, j + (j % 3), j) if r else '    %d : OUTPUT "arm %d"' % (j, j)) for j in range(1, n + 1)] + ([ind + '    OTHERWISE : OUTPUT "other"'] if other else []) + [ind + 'ENDCASE']

        def arm(j):
            if shape == 'case ranges':
                return next((a for a in range(max(1, j - 2), n + 1) if a <= j <= a + a % 3), None)
            return j if 1 <= j <= n else None
        if shape == 'if arms':
            # an ELSE IF chain is one statement in this language or nested ones; both are written with the same words
            body = [l for l in body]
        L_ += ['DECLARE w : STRING', 'PROCEDURE P(i : INTEGER)', '    DECLARE w : STRING'] + body + ['ENDPROCEDURE'] + ['CALL P(%d)' % j for j in js]
        for j in js:
            if arm(j) is not None:
                W.append('arm %d' % arm(j))
            elif other:
                W.append('other')
    elif shape == 'nested ifs':
        n = min(n, 60) - src.n(20)
        L_ += ['PROCEDURE P(i : INTEGER)']
        for j in range(1, n + 1):
            L_.append('IF i >= %d THEN' % j)
        L_.append('OUTPUT "deepest"')
        for j in range(n, 0, -1):
            L_ += ['ELSE', 'OUTPUT "else %d"' % j, 'ENDIF']
        L_ += ['ENDPROCEDURE'] + ['CALL P(%d)' % j for j in range(0, n + 2)]
        W += ['else %d' % (j + 1) for j in range(0, n)] + ['deepest'] * 2
    elif shape == 'nested loops':
        # one iteration at all but a few levels; a BREAK or CONTINUE at the bottom ends only the innermost
        n = src.int(8, 40)
        two = set(src.int(1, n) for _ in range(4))
        kinds = [src.n(3) for _ in range(n)]
        tail = []
        brk = src.pick(['BREAK', 'CONTINUE'])
        tot = 1
        for j in range(1, n + 1):
            c = 2 if j in two else 1
            tot *= c
            L_ += [['FOR l%d <- 1 TO %d' % (j, c)], ['l%d <- 0' % j, 'WHILE l%d < %d DO' % (j, c), 'l%d <- l%d + 1' % (j, j)], ['l%d <- 0' % j, 'REPEAT', 'l%d <- l%d + 1' % (j, j)]][kinds[j - 1]]
            tail.insert(0, ['NEXT l%d' % j, 'ENDWHILE', 'UNTIL l%d >= %d' % (j, c)][kinds[j - 1]])
        last = 2 if n in two else 1
        L_ += ['n <- n + 1', brk, 'n <- n + 1000'] + [tail[0], 's <- s + 1'] + tail[1:] + ['OUTPUT n, " ", s']
        W.append('%d %d' % (tot // last if brk == 'BREAK' else tot, tot // last))
    elif shape == 'nested cases':
        n = src.int(5, 40)
        L_ += ['PROCEDURE P(i : INTEGER)']
        for j in range(1, n + 1):
            L_ += ['CASE OF i', '%d : OUTPUT "at %d"' % (j, j), 'OTHERWISE :']
        L_.append('OUTPUT "none"')
        L_ += ['ENDCASE'] * n + ['ENDPROCEDURE'] + ['CALL P(%d)' % j for j in range(0, n + 2)]
        W += ['none'] + ['at %d' % j for j in range(1, n + 1)] + ['none']
    elif shape == 'block':
        n = min(n, 5000)
        L_ += src.pick([['IF n = 0 THEN'], ['FOR i <- 1 TO 1'], ['WHILE n = 0 DO'], ['CASE OF n', '0 :']])
        L_ += ['n <- n + 1'] * n
        L_.append({'I': 'ENDIF', 'F': 'NEXT i', 'W': 'ENDWHILE', '0': 'ENDCASE'}[next(l for l in reversed(L_[:-n]))[0]])
        L_.append('OUTPUT n')
        W.append(str(n))
    text = '\n'.join(L_) + '\n'
    r = env.file(text, flags=32)
    if r.code != 0 or r.out.decode('latin-1').split('\n')[:-1] != W or r.err:
        g = r.out.decode('latin-1').split('\n')
        raise Fail('many iterations, branches or levels', shape, program=numbered(text)[:4000], size=n, expected=W[:40], observed=g[:40], code=r.code, stderr=r.err[-300:])
    env.mark('large: ' + shape)
    env.nontrivial, env.digest = True, text
    env.sample = dict(shape=shape, size=n, output=W[:3])


STREAMS = [
    Stream('for-cube', cube_case, len(STARTS) * len(STEPS), len(STARTS) * len(STEPS), exhaustive=True),
    Stream('many', long_case, len(SHAPES) * len(MANY), len(SHAPES) * len(MANY) * 12),
    Stream('for-64bit', big_case, 200, 2000),
    Stream('case', case_case, 3000, 40000),
    Stream('case-near', near_case, 900, 20000),
    Stream('case-mixed', mixed_case, len(MIXES), len(MIXES), exhaustive=True),
    Stream('conditions', cond_case, len(CONDS) * len(PLACES), len(CONDS) * len(PLACES), exhaustive=True),
    Stream('nests', nest_case, 20000, 500000),
    Stream('typed', typed_case, 8000, 200000),
]
