"""C19: enumerated values keep their type and cycle through their declared order."""
import itertools
from vals import *

VARIANTS = ['plain']
RULE = ('a case is non-trivial when at least one enumerated value was produced by arithmetic, a comparison or a store and its name judged, or a store between '
        'different enumerated types was attempted and judged; distinct by program or session text')
ASSUMPTIONS = ['an INTEGER minus an enumerated value, comparisons between different enumerated types and ordering comparisons are left open',
               'no name belongs to two types visible at once', 'default (unassigned) enumerated values are left open']

MAXI = (1 << 63) - 1
KS = list(range(-40, 41)) + [MAXI, MAXI - 1, MAXI - 2, MAXI - 3, MAXI - 6, MAXI - 7, -MAXI, -MAXI - 1, -MAXI + 1, -MAXI + 2, -MAXI + 6, 1 << 31, -(1 << 31), (1 << 31) - 1, 1 << 32, -(1 << 32) - 1, 1 << 62, -(1 << 62), (1 << 62) + 5,
                             1 << 53, 10 ** 18, -10 ** 18 - 1, 65535, 65536, -32768, 127, 128, 255, 256, 257, -256, 1000000, 840, -840, 839, 841]
assert all(-(1 << 63) <= k <= MAXI for k in KS)


def ktext(k):
    if k == -MAXI - 1:
        return '(-%d - 1)' % MAXI
    return '(%d)' % k if k < 0 else str(k)


def names(n, pre='N'):
    return ['%s%d' % (pre, j) for j in range(n)]


def typeline(t, ns):
    return 'TYPE %s = (%s)' % (t, ', '.join(ns))


def run(env, lines, want, what, **kw):
    text = '\n'.join(lines) + '\n'
    o = Obs(env.file(text))
    w = '\n'.join(want) + '\n'
    if o.kind != 'ok' or o.out != w:
        g, e = o.out.split('\n'), w.split('\n')
        k = next((k for k in range(min(len(g), len(e))) if g[k] != e[k]), min(len(g), len(e)))
        raise Fail(what, '', program=numbered(text)[:6000], at='line %d of the output' % (k + 1), expected=e[k:k + 3], observed=g[k:k + 3], outcome=o.kind, stderr=o.err[-600:], **kw)
    env.nontrivial = True
    env.digest = text
    env.sample = dict(program=text[:700], output=w[:200])


# ------------------------------------------------------------------ where a start value stands
PLACES = ['name', 'variable', 'element', 'element 2', 'field', 'nested', 'deref', 'byval', 'byref', 'result', 'paren', 'by arithmetic', 'local', 'local element', 'recursive', 'copy', 'for', 'local record', 'file', 'name in proc', 'in function']


def placed(place, n, start, body, other=None):
    """lines and repetition: the body (function of the text of the start expression -> lines, outputs) put where the value is at the place.
    -> lines, want"""
    ns = names(n)
    v = ns[start]
    T = typeline('T', ns)
    U = typeline('U', names(3, 'M'))

    def b(x, ind=''):
        ls, w = body(x)
        return [ind + l for l in ls], w
    if place == 'name':
        ls, w = b(v)
        return [T] + ls, w
    if place == 'paren':
        ls, w = b('(' + v + ')')
        return [U, T] + ls, w
    if place == 'variable':
        ls, w = b('x')
        return [U, T, 'DECLARE x : T', 'x <- ' + v] + ls, w
    if place == 'element':
        ls, w = b('a[2]')
        return [T, 'DECLARE a : ARRAY[1:3] OF T', 'a[1] <- N0', 'a[2] <- ' + v, 'a[3] <- N0'] + ls, w
    if place == 'element 2':
        ls, w = b('a[0, -1]')
        return [T, 'DECLARE a : ARRAY[0:1, -1:0] OF T', 'a[0, -1] <- ' + v, 'a[0, 0] <- N0', 'a[1, -1] <- N0'] + ls, w
    if place == 'field':
        ls, w = b('r.f')
        return [T, 'TYPE R', '  DECLARE k : INTEGER', '  DECLARE f, g : T', 'ENDTYPE', 'DECLARE r : R', 'r.g <- N0', 'r.f <- ' + v] + ls, w
    if place == 'nested':
        ls, w = b('q[1].r.f[2]')
        return [U, T, 'TYPE R', '  DECLARE f : ARRAY[1:2] OF T', 'ENDTYPE', 'TYPE Q', '  DECLARE r : R', 'ENDTYPE', 'DECLARE q : ARRAY[1:1] OF Q', 'q[1].r.f[1] <- N0', 'q[1].r.f[2] <- ' + v] + ls, w
    if place == 'deref':
        ls, w = b('p^')
        return [T, 'TYPE P = ^T', 'DECLARE x : T', 'DECLARE p : P', 'p <- ^x', 'p^ <- ' + v] + ls, w
    if place in ('byval', 'byref'):
        ls, w = b('x', '  ')
        return [U, T, 'DECLARE y : T', 'PROCEDURE Pr(%s x : T)' % place.upper()] + ls + ['ENDPROCEDURE', 'y <- ' + v, 'CALL Pr(y)'] + (['CALL Pr(%s)' % v] if place == 'byval' else []) + ['OUTPUT y'], w * (2 if place == 'byval' else 1) + [v]
    if place == 'result':
        ls, w = b('Fn(%d)' % start)
        return [T, 'FUNCTION Fn(i : INTEGER) RETURNS T', '  RETURN N0 + i', 'ENDFUNCTION'] + ls, w
    if place == 'by arithmetic':
        ls, w = b('(N%d + %d)' % ((start + 3) % n, n * 5 - 3))
        return [T] + ls, w
    if place == 'copy':
        ls, w = b('b[1].f')
        return [T, 'TYPE R', '  DECLARE f, g : T', 'ENDTYPE', 'DECLARE r : R', 'DECLARE a, b : ARRAY[1:2] OF R', 'r.g <- N0', 'r.f <- ' + v, 'a[1] <- r', 'a[2] <- r', 'b <- a', 'a[1].f <- N0', 'r.f <- N0'] + ls, w
    if place == 'for':
        ls, w = b('x', '  ')
        return [T, 'DECLARE x : T'] + [l for l in ls if 'DECLARE' in l] + ['FOR i <- 1 TO 2', '  x <- N0', '  x <- x + %d' % start] + [l for l in ls if 'DECLARE' not in l] + ['NEXT i'], w * 2
    if place == 'file':
        ls, w = b('y.f')
        return [T, 'TYPE R', '  DECLARE f : T', 'ENDTYPE', 'DECLARE x, y : R', 'x.f <- ' + v, 'OPENFILE "d.dat" FOR RANDOM', 'SEEK "d.dat", 1', 'PUTRECORD "d.dat", x', 'x.f <- N0', 'GETRECORD "d.dat", y', 'CLOSEFILE "d.dat"'] + ls, w
    if place == 'name in proc':
        ls, w = b(v, '  ')
        return [T, 'PROCEDURE Pr'] + ls + ['ENDPROCEDURE', 'CALL Pr', 'CALL Pr'], w * 2
    if place == 'in function':
        ls, w = b('x', '  ')
        return [T, 'FUNCTION Fn(x : T) RETURNS T'] + ls + ['  RETURN x', 'ENDFUNCTION', 'OUTPUT Fn(%s)' % v], w + [v]
    if place in ('local', 'local element', 'local record'):
        # the type belongs to a procedure, called repeatedly
        x, pre = {'local': ('x', ['DECLARE x : T', 'x <- ' + v]), 'local element': ('a[2]', ['DECLARE a : ARRAY[1:2] OF T', 'a[1] <- N0', 'a[2] <- ' + v]),
                  'local record': ('x', ['DECLARE x : T', 'x <- N0', 'x <- x - %d' % (n - start)])}[place]
        ls, w = b(x, '  ')
        return [U, 'PROCEDURE Pr', '  ' + T] + ['  ' + l for l in pre] + ls + ['ENDPROCEDURE', 'CALL Pr', 'CALL Pr', 'CALL Pr'], w * 3
    if place == 'recursive':
        # each level has its own definition, alive while the deeper ones run
        ls, w = b('x', '  ')
        return [U, 'PROCEDURE Pr(lvl : INTEGER)', '  ' + T, '  DECLARE x : T', '  x <- ' + v, '  IF lvl > 0 THEN', '    CALL Pr(lvl - 1)', '  ENDIF'] + ls + ['ENDPROCEDURE', 'CALL Pr(1)', 'CALL Pr(0)'], w * 3
    raise AssertionError(place)


PAIRS_ = [(n, s) for n in range(1, 9) for s in range(n)]


def arith_case(src, env, i):
    """every k in [-40, 40] and the boundary values, all three forms"""
    n, start = PAIRS_[i // len(PLACES) % len(PAIRS_)]
    place = PLACES[i % len(PLACES)]
    via = (i + i // len(PLACES) + i // len(PLACES) // len(PAIRS_)) % 4  # literal, variable, expression, assigned to a variable

    def body(x):
        ls, w = ['DECLARE k : INTEGER', 'DECLARE z : T'], []
        for j, k in enumerate(KS):
            f = (ktext(k) if via in (0, 3) else 'k' if via == 1 else '(k * 1)')
            if via in (1, 2):
                ls.append('k <- ' + ktext(k))
            es = ['%s + %s' % (x, f), '%s + %s' % (f, x), '%s - %s' % (x, f)]
            if via == 3:
                for e in es:
                    ls += ['z <- ' + e, 'OUTPUT z']
            else:
                ls += ['OUTPUT ' + e for e in es]
            w += ['N%d' % ((start + k) % n), 'N%d' % ((start + k) % n), 'N%d' % ((start - k) % n)]
        ls.append('OUTPUT ' + x)
        w.append('N%d' % start)
        return ls, w
    lines, want = placed(place, n, start, body)
    run(env, lines, want, 'arithmetic on an enumerated value differs', names=n, start=start, place=place)
    env.mark('place ' + place, 'names %d' % n)


def big_case(src, env, i):
    """types with many names"""
    n = src.pick([9, 10, 12, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 300]) if i % 2 else src.int(9, 200)
    start = src.pick([0, 1, n - 1, n - 2, n // 2, src.n(n)])
    ks = [src.pick(KS) if src.chance(30) else src.int(-3 * n, 3 * n) if src.chance(60) else any_int(src) for _ in range(60)] + [n, -n, n - 1, 1 - n, n + 1, -n - 1, start, -start, 2 * n]
    place = src.pick(PLACES)

    def body(x):
        ls, w = [], []
        for k in ks:
            ls += ['OUTPUT %s + %s' % (x, ktext(k)), 'OUTPUT %s + %s' % (ktext(k), x), 'OUTPUT %s - %s' % (x, ktext(k))]
            w += ['N%d' % ((start + k) % n), 'N%d' % ((start + k) % n), 'N%d' % ((start - k) % n)]
        # names at a distance of a power of two, and any
        for k in {start, (start + 1) % n} | {(start + d) % n for d in (16, 32, 64, 128, 256, -16, -32, -64, -128, -256)} | {src.n(n) for _ in range(4)}:
            y = src.pick(['N%d' % k, '(N0 + %d)' % k, '(%s + %d)' % (x, k - start)])
            ls.append('OUTPUT (%s = %s), (%s = %s), (%s <> %s), (%s <> %s)' % (x, y, y, x, x, y, y, x))
            w.append(('TRUETRUEFALSEFALSE' if k == start else 'FALSEFALSETRUETRUE'))
        return ls, w
    lines, want = placed(place, n, start, body)
    # other types in front of and behind its definition
    m = src.pick([0, 0, 1, 3, 8, 16, 17, 20, 40, 70])
    extra = ['TYPE E%d = (%s)' % (k, ', '.join('e%d_%d' % (k, j) for j in range(src.pick([1, 2, 5, 6, 9, 20])))) for k in range(m)]
    cut = src.pick([0, m, src.n(m + 1)])
    lines, extra = extra[:cut] + lines[:1] + extra[cut:] + lines[1:], 0
    run(env, lines, want, 'arithmetic on an enumerated value of a large type differs', names=n, start=start, place=place)
    env.mark('place ' + place)


EQPL = [p for p in PLACES if p != 'file']


def eq_case(src, env, i):
    """= and <> between the value and every name, both ways round, as values and as conditions; CASE selects by position"""
    n, start = PAIRS_[i // len(EQPL)]
    place = EQPL[i % len(EQPL)]

    def body(x):
        ls, w = ['DECLARE y, z : T', 'DECLARE t : BOOLEAN'], []
        for j in range(n):
            ls += ['y <- N%d' % j]
            tf = ['FALSE', 'TRUE']
            for e in ['N%d' % j, 'y', '(N0 + %d)' % j, '(y - %d)' % n]:
                ls += ['OUTPUT (%s = %s), (%s = %s), (%s <> %s), (%s <> %s)' % (x, e, e, x, x, e, e, x)]
                a, b = tf[j == start], tf[j != start]
                w.append(a + a + b + b)
            ls += ['t <- %s = y' % x, 'OUTPUT t', 'IF %s = y THEN' % x, '  OUTPUT "same"', 'ELSE', '  OUTPUT "other"', 'ENDIF', 'IF y <> %s AND TRUE THEN' % x, '  OUTPUT "other"', 'ELSE', '  OUTPUT "same"', 'ENDIF']
            w += [tf[j == start], ['other', 'same'][j == start], ['other', 'same'][j == start]]
        # count the steps to come back with a loop
        ls += ['z <- %s + 1' % x, 'k <- 1', 'WHILE z <> %s DO' % x, '  z <- z + 1', '  k <- k + 1', 'ENDWHILE', 'OUTPUT k', 'k <- 0', 'z <- %s' % x, 'REPEAT', '  z <- z - 1', '  k <- k + 1', 'UNTIL z = %s' % x, 'OUTPUT k, z']
        w += [str(n), '%dN%d' % (n, start)]
        for off in range(n):
            ls += ['z <- %s + %d' % (x, off), 'CASE OF z'] + ['  N%d : OUTPUT "is %d"' % (j, j) for j in range(n) if j != 1] + ['  OTHERWISE : OUTPUT "is 1"', 'ENDCASE']
            w.append('is %d' % ((start + off) % n))
        return ls, w
    lines, want = placed(place, n, start, body)
    run(env, lines, want, 'a comparison of enumerated values differs', names=n, start=start, place=place)
    env.mark('place ' + place, 'names %d' % n)


# ------------------------------------------------------------------ histories with the reference model
class Sc:
    """a scope: enumerated types and the places that hold their values"""
    def __init__(self):
        self.types, self.places, self.ints = [], {}, []

    def place(self, src, t):
        return src.pick(self.places[t.name])


class Hist:
    def __init__(self, src, bad=0):
        self.s, self.bad = src, bad
        self.uid = 0
        self.procs = []  # (name, params types)
        self.funcs = []

    def fresh(self, p):
        self.uid += 1
        return '%s%d' % (p, self.uid)

    def newtype(self, name=None):
        n = self.s.weighted([(2, 1), (4, 2), (6, 3), (3, 4), (2, 5), (2, 8), (1, 17), (1, 40)])
        name = name or self.fresh('T')
        p = self.fresh('')
        return EnumT(name, ['V%s%s' % (p, c) for c in 'abcdefgh'[:n]] if n <= 8 else ['V%sn%d' % (p, c) for c in range(n)])

    def typedefs(self, sc, t):
        sc.types.append(t)
        sc.places[t.name] = []
        return [St('typeenum', name=t.name, names=t.names)]

    def places(self, sc, local=''):
        s = self.s
        o = []
        for t in sc.types:
            if t.name in sc.done:
                continue
            sc.done.add(t.name)
            x = [local + self.fresh('x') for _ in range(s.int(1, 3))]
            o.append(decl(t.name, *x))
            sc.places[t.name] += [(n, []) for n in x]
            if s.chance(50):
                a = self.fresh('a')
                lo = s.pick([0, 1, -1])
                o.append(decl(t.name, a, bounds=[(lo, lo + 1)]))
                sc.places[t.name] += [(a, [I(lo)]), (a, [I(lo + 1)])]
            if not hasattr(sc, 'local') and s.chance(50):
                # (a local record type with fields of another local type is left open, see C13)
                r, R = self.fresh('r'), self.fresh('R')
                o += [St('typerec', name=R, body=[decl(t.name, 'f'), decl('INTEGER', 'k'), decl(t.name, 'g', bounds=[(1, 2)])]), decl(R, r)]
                sc.places[t.name] += [(r, [F('f')]), (r, [F('g'), I(2)])]
                o.append(assign((r, [F('g'), I(1)]), V(t.names[0])))
            if s.chance(40):
                p, P = self.fresh('p'), self.fresh('P')
                o += [St('typeptr', name=P, target=t.name), decl(P, p), St('ptrassign', lv=(p, []), to=(x[0], []))]
                sc.places[t.name].append((p, [('^',)]))
            for lv in sc.places[t.name]:
                o.append(assign(lv, V(s.pick(t.names))))
        return o

    def k(self, sc, d=1):
        s = self.s
        x = s.n(10)
        if x < 4:
            return L(s.int(-9, 9))
        if x < 5:
            return int_expr(s.pick(KS))
        if x < 6:
            return int_expr(any_int(s))
        if sc.ints:
            return V(s.pick(sc.ints))
        return L(s.n(4))

    def ev(self, sc, t, d=2):
        """expression of enumerated type t"""
        s = self.s
        x = s.n(10)
        fs = [f for f in self.funcs if f[2] is t]
        if d and fs and s.chance(15):
            n, ps, _ = s.pick(fs)
            return ('call', n, [self.ev(sc, p, d - 1) for p in ps])
        if x < 3 or not d:
            return V(s.pick(t.names)) if s.chance(50) else ('var', sc.place(s, t))
        if x < 5:
            return ('var', sc.place(s, t))
        if x < 7:
            return B('+', self.ev(sc, t, d - 1), self.k(sc))
        if x < 8:
            return B('+', self.k(sc), self.ev(sc, t, d - 1))
        return B('-', self.ev(sc, t, d - 1), self.k(sc))

    def cond(self, sc, d=1):
        s = self.s
        t = s.pick(sc.types)
        c = B(s.pick(['=', '<>']), self.ev(sc, t, d), self.ev(sc, t, d))
        if d and s.chance(25):
            c = B(s.pick(['AND', 'OR']), c, self.cond(sc, 0))
        return ('not', c) if s.chance(10) and d == 0 else c

    def dump(self, sc):
        return out(*sum([[('var', lv), S(' ')] for t in sc.types for lv in sc.places[t.name]], []))

    def stmt(self, sc, d):
        s = self.s
        t = s.pick(sc.types)
        x = s.n(20)
        if self.bad and s.chance(self.bad):
            us = [u for u in sc.types if u is not t]
            if us:
                return [assign(sc.place(s, t), self.ev(sc, s.pick(us), 1))]
        if x < 6:
            return [assign(sc.place(s, t), self.ev(sc, t))]
        if x < 8:
            return [out(self.ev(sc, t), S(','), self.ev(sc, s.pick(sc.types)))]
        if x < 9:
            return [out(B('=', self.ev(sc, t), self.ev(sc, t)))]
        if x < 10 and sc.ints:
            return [assign(s.pick(sc.ints), L(s.int(-20, 20)))]
        if x < 12 and d:
            return [St('if', arms=[(self.cond(sc), self.body(sc, d - 1))], els=self.body(sc, d - 1) if s.chance(50) else None)]
        if x < 13 and d:
            # walk to a target: ends because + 1 visits every name
            lv = sc.place(s, t)
            return [St('while', c=B('<>', ('var', lv), V(s.pick(t.names))), body=[assign(lv, B(s.pick('+-'), ('var', lv), L(1))), out(('var', lv))])]
        if x < 14 and d:
            i = self.fresh('i')
            return [decl('INTEGER', i), St('for', name=i, a=L(s.int(-5, 0)), b=L(s.int(0, 5)), step=None, body=[out(B('+', self.ev(sc, t, 1), V(i))), assign(sc.place(s, t), B('-', ('var', sc.place(s, t)), V(i)))], nextname=True)]
        if x < 16 and d:
            c = [lv for lv in sc.places[t.name] if not lv[1]]
            if c:
                ns = s.shuffle(t.names)
                k = s.int(1, len(ns))
                return [St('case', name=s.pick(c)[0], clauses=[(V(n), None, [out(S('case ' + n))]) for n in ns[:k]], els=[out(S('none'))] if s.chance(60) else None)]
        if x < 18 and self.procs:
            n, ps = s.pick(self.procs)
            if all(any(p is u for u in sc.types) for p, _ in ps):
                return [St('call', name=n, args=[('var', sc.place(s, p)) if m == 'BYREF' else self.ev(sc, p, 1) for p, m in ps], parens=True)]
        return [self.dump(sc)]

    def body(self, sc, d, n=None):
        o = []
        for _ in range(n or self.s.int(1, 3)):
            o += self.stmt(sc, d)
        return o

    def program(self):
        s = self.s
        g = Sc()
        g.done = set()
        prog = []
        for _ in range(s.int(2, 3)):
            prog += self.typedefs(g, self.newtype())
        prog += self.places(g)
        g.ints = ['gi', 'gj']
        prog += [decl('INTEGER', 'gi', 'gj'), assign('gi', L(s.int(-9, 9))), assign('gj', int_expr(any_int(s)))]
        for _ in range(s.int(1, 3)):
            nm = self.fresh('Pr')
            ps = [(s.pick(g.types), s.pick(['BYVAL', 'BYREF'])) for _ in range(s.n(3))]
            l = Sc()
            l.done = set()
            l.types = list(g.types)
            l.ints = list(g.ints)
            l.local = True
            l.places = {t.name: list(g.places[t.name]) for t in g.types}
            params = []
            # local names hide nothing: fresh
            for p, m in ps:
                q = self.fresh('q')
                params.append((q, p.name, m, False))
                l.places[p.name].append((q, []))
            l.done = {t.name for t in g.types}
            body = []
            for _ in range(s.n(3)):
                # a local type; sometimes with the name of a global one (which it then hides)
                hide = s.chance(20)
                t = self.newtype(s.pick(g.types).name if hide else None)
                if hide:
                    if t.name in [u.name for u in l.types if u not in g.types]:
                        continue
                    u = next(u for u in l.types if u.name == t.name)
                    l.types.remove(u)
                    l.done.discard(t.name)
                body += self.typedefs(l, t)
            body += self.places(l)
            if s.chance(50):
                k = self.fresh('k')
                body += [decl('INTEGER', k), assign(k, L(s.int(-30, 30)))]
                l.ints.append(k)
            body += self.body(l, 1, s.int(2, 5))
            body.append(self.dump(l))
            if s.chance(35):
                rt = s.pick(g.types)
                if any(rt is u for u in l.types):
                    body.append(St('return', e=self.ev(l, rt, 1)))
                    ps2 = [(p, 'BYVAL') for p, _ in ps]
                    prog.append(St('func', name=nm, params=[(q, t, None, False) for q, t, _, _ in params], rtype=rt.name, body=body, parens=True))
                    self.funcs.append((nm, [p for p, _ in ps2], rt))
                    continue
            prog.append(St('proc', name=nm, params=params, rtype=None, body=body, parens=True))
            self.procs.append((nm, ps))
        prog += self.body(g, 2, s.int(6, 14))
        prog.append(self.dump(g))
        return prog


def hist_case(src, env, i):
    h = Hist(src, bad=8 if i % 4 == 0 else 0)
    m, o = diff(env, h.program())
    env.mark(m.kind if m.exc is None else 'runtime: %s' % m.exc)
    env.nontrivial = True


# ------------------------------------------------------------------ the cross-type clause
GT = [EnumT('A', ['a0', 'a1', 'a2']), EnumT('B', ['b0', 'b1', 'b2']), EnumT('C', ['c0']), EnumT('D', ['d0', 'd1', 'd2', 'd3', 'd4']), EnumT('E', ['e0', 'e1'])]
SRC = ['name', 'variable', 'arith', 'arith var', 'element', 'field', 'deref', 'result', 'const', 'byval param']
CHAN = ['var', 'element', 'field', 'nested', 'deref', 'byval', 'return', 'array', 'record', 'byref', 'func arg', 'param write', 'ref write', 'local', 'assign of other result', 'func byref', 'second parameter', 'byref of byref', 'through a pointer', 'case']
CROSS = [(a, b) for a in range(5) for b in range(5)]


def srcs(U, k=0):
    x = U.name.lower()
    return {'name': V(U.names[-1]), 'variable': V('v' + U.name), 'arith': B('+', V(U.names[0]), L(k + 1)), 'arith var': B('-', L(3), L(2)) and B('-', V('v' + U.name), L(2)), 'element': V('w' + U.name, I(1)),
            'field': V('r' + U.name, F('f')), 'deref': V('p' + U.name, ('^',)), 'result': ('call', 'F' + U.name, []), 'const': B('+', L(0), V('v' + U.name)), 'byval param': ('call', 'G' + U.name, [V(U.names[0])])}


def cross_case(src, env, i):
    """every ordered pair of types, every channel, every form of the source; equal types as the accepted control"""
    a, b = CROSS[i % len(CROSS)]
    ch = CHAN[i // len(CROSS) % len(CHAN)]
    T, U = GT[a], GT[b]
    pre = [typedef(t) for t in GT]
    for t in GT:
        n = t.name
        pre += [St('typeptr', name='P' + n, target=n), St('typerec', name='R' + n, body=[decl(n, 'f'), decl('INTEGER', 'k')]), St('typerec', name='H' + n, body=[decl('R' + n, 'r'), decl(n, 'g', bounds=[(0, 1)])]),
                decl(n, 'v' + n, 'x' + n), decl(n, 'w' + n, 'y' + n, bounds=[(1, 2)]), decl('R' + n, 'r' + n, 's' + n), decl('H' + n, 'h' + n), decl('P' + n, 'p' + n), decl('P' + n, 'o' + n),
                assign('v' + n, V(t.names[src.n(len(t.names))])), assign('x' + n, V(t.names[0])), St('ptrassign', lv=('p' + n, []), to=('v' + n, [])), St('ptrassign', lv=('o' + n, []), to=('x' + n, []))]
        for lv in [('w' + n, [I(1)]), ('w' + n, [I(2)]), ('y' + n, [I(1)]), ('y' + n, [I(2)]), ('r' + n, [F('f')]), ('s' + n, [F('f')]), ('h' + n, [F('r'), F('f')]), ('h' + n, [F('g'), I(0)]), ('h' + n, [F('g'), I(1)])]:
            pre.append(assign(lv, V(t.names[src.n(len(t.names))])))
        pre += [St('func', name='F' + n, params=[], rtype=n, body=[St('return', e=V(t.names[-1]))]), St('func', name='G' + n, params=[('z', n, None, False)], rtype=n, body=[St('return', e=V('z'))], parens=True)]
    tn = T.name
    lv = {'var': ('x' + tn, []), 'element': ('y' + tn, [I(2)]), 'field': ('s' + tn, [F('f')]), 'nested': ('h' + tn, [F('g'), I(1)]), 'deref': ('o' + tn, [('^',)])}.get(ch, ('x' + tn, []))
    dump = out(*sum([[('var', q), S(' ')] for t in (T, U) for q in [('x' + t.name, []), ('v' + t.name, []), ('y' + t.name, [I(1)]), ('y' + t.name, [I(2)]), ('w' + t.name, [I(1)]), ('s' + t.name, [F('f')]), ('r' + t.name, [F('f')]),
                                                                ('h' + t.name, [F('r'), F('f')]), ('h' + t.name, [F('g'), I(1)])]], []))
    entries = []
    forms = srcs(U, src.n(5))
    for k, nm in enumerate(src.shuffle(SRC)):
        e = forms[nm]
        p = 'Q%d' % k
        if ch == 'byval':
            entries += [St('proc', name=p, params=[('q', tn, 'BYVAL', False)], rtype=None, body=[out(V('q')), assign('x' + tn, V('q'))], parens=True), St('call', name=p, args=[e], parens=True)]
        elif ch == 'byref':
            if e[0] != 'var' or e[1][0] in U.names:
                continue
            entries += [St('proc', name=p, params=[('q', tn, 'BYREF', False)], rtype=None, body=[out(V('q')), assign('q', V(T.names[0]))], parens=True), St('call', name=p, args=[e], parens=True)]
        elif ch in ('func byref', 'second parameter', 'byref of byref'):
            if ch != 'second parameter' and (e[0] != 'var' or e[1][0] in U.names):
                continue
            if ch == 'func byref':
                entries += [St('func', name=p, params=[('q', tn, 'BYREF', False)], rtype='INTEGER', body=[out(V('q')), assign('q', V(T.names[-1])), St('return', e=L(1))], parens=True), out(('call', p, [e]))]
            elif ch == 'second parameter':
                w = 'BYREF' if k % 2 and e[0] == 'var' and e[1][0] not in U.names else 'BYVAL'
                entries += [St('func', name=p, params=[('o', 'INTEGER', 'BYVAL', False), ('z', tn, None, False), ('q', tn, w, False)], rtype=tn, body=[out(V('q')), St('return', e=V('q'))], parens=True), out(('call', p, [L(1), V('x' + tn), e]))]
            else:
                entries += [St('proc', name=p, params=[('q', tn, 'BYREF', False)], rtype=None, body=[out(V('q')), assign('q', V(T.names[0]))], parens=True),
                            St('proc', name=p + 'o', params=[('q', U.name, 'BYREF', False)], rtype=None, body=[out(V('q')), St('call', name=p, args=[V('q')], parens=True)], parens=True), St('call', name=p + 'o', args=[e], parens=True)]
        elif ch == 'through a pointer':
            if e[0] != 'var' or e[1][0] in U.names:
                continue
            entries += [St('ptrassign', lv=('o' + tn, []), to=e[1]), assign(('o' + tn, [('^',)]), V(T.names[-1])), out(V('o' + tn, ('^',)))]
        elif ch == 'case':
            # a clause of another type is never the one taken
            entries += [St('case', name='x' + tn, clauses=[(e, None, [out(S('taken'))])], els=[out(S('not taken'))])] if a == b else [assign(lv, e)]
        elif ch == 'return':
            entries += [St('func', name=p, params=[], rtype=tn, body=[St('return', e=e)]), assign(('x' + tn, []), ('call', p, [])), out(('call', p, []))]
        elif ch == 'array':
            if k > 2:
                break
            entries += [assign('y' + tn, V('w' + U.name))]
        elif ch == 'record':
            if k > 2:
                break
            entries += [assign('s' + tn, V('r' + U.name)), assign(('h' + tn, [F('r')]), V('r' + U.name)), assign(('s' + tn, []), V('h' + U.name, F('r')))]
        elif ch == 'func arg':
            entries += [St('func', name=p, params=[('q', tn, None, False)], rtype='INTEGER', body=[out(V('q')), St('return', e=L(1))], parens=True), St('expr', e=('call', p, [e]))]
        elif ch in ('param write', 'ref write'):
            entries += [St('proc', name=p, params=[('q', tn, 'BYVAL' if ch == 'param write' else 'BYREF', False)], rtype=None, body=[assign('q', e), out(V('q'))], parens=True), St('call', name=p, args=[V('x' + tn)], parens=True)]
        elif ch == 'local':
            entries += [St('proc', name=p, params=[], rtype=None, body=[decl(tn, 'q'), assign('q', V(T.names[-1])), out(V('q')), assign('q', e), out(V('q'))], parens=True), St('call', name=p, args=[], parens=True)]
        elif ch == 'assign of other result':
            # the name of the function's type, not the value, decides
            entries += [St('func', name=p, params=[('q', tn, None, False)], rtype=U.name, body=[out(V('q')), St('return', e=e)], parens=True), assign(lv, ('call', p, [V(T.names[-1])]))]
        else:
            entries += [assign(lv, e)]
        entries.append(dump)
        if src.chance(30):
            entries += [assign(lv, B('+', ('var', lv), L(src.int(-4, 4)))), dump]
    m, rows = msession(env, entries, pre=pre)
    rej = sum(r[1][0] == 'runtime' for r in rows)
    if a != b and not rej and not m.cut:
        raise AssertionError('model accepts %s <- %s' % (T.name, U.name))
    env.mark('channel ' + ch, 'same type' if a == b else 'cross', *(['cut: ' + m.cut] if m.cut else []))
    env.nontrivial = True


# ------------------------------------------------------------------ ... with types of procedures
LCH = ['to global', 'global to local', 'local to local', 'name', 'arith', 'pass byval', 'pass nested', 'return', 'hidden to global', 'global to hidden', 'hidden return', 'hidden pass', 'own types of callee', 'own types of caller', 'again', 'element', 'field', 'byref']


def local_case(src, env, i):
    """a procedure's own types against global ones, also ones of the same name, and against those of its callers"""
    ch = LCH[i % len(LCH)]
    G, K = EnumT('G', ['g0', 'g1', 'g2']), EnumT('K', ['k0', 'k1'])
    n = src.int(1, 4)
    hid = EnumT('G', names(n, 'h'))
    M = EnumT('M', names(src.int(1, 4), 'm'))
    N = EnumT('N', names(src.int(1, 4), 'n'))
    pre = [typedef(G), typedef(K), decl('G', 'x', 'y'), decl('K', 'z'), assign('x', V('g1')), assign('y', V('g2')), assign('z', V('k1')), decl('G', 'ga', bounds=[(1, 2)]), assign(('ga', [I(1)]), V('g1')), assign(('ga', [I(2)]), V('g0')),
           St('typerec', name='R', body=[decl('G', 'f')]), decl('R', 'r'), assign(('r', [F('f')]), V('g2'))]
    dump = out(V('x'), S(' '), V('y'), S(' '), V('z'), S(' '), V('ga', I(1)), V('ga', I(2)), V('r', F('f')))
    P = lambda name, body, params=(): St('proc', name=name, params=list(params), rtype=None, body=body, parens=True)
    C = lambda name, *a: St('call', name=name, args=list(a), parens=True)
    use = lambda t, v: [out(V(v)), assign(v, B('+', V(v), L(src.int(-9, 9)))), out(V(v))]
    loc = lambda t, v: [typedef(t), decl(t, v), assign(v, V(src.pick(t.names)))] + use(t, v)
    k = L(src.int(-9, 9))
    hv = src.pick(hid.names)
    E = {
        'to global': [P('P', loc(M, 'm') + [assign('x', V('m')), out(S('stored'))]), C('P')],
        'global to local': [P('P', loc(M, 'm') + [assign('m', V('x')), out(S('stored'))]), C('P')],
        'local to local': [P('P', loc(M, 'm') + loc(N, 'n') + [assign('n', V('m')), out(S('stored'))]), C('P')],
        'name': [P('P', loc(M, 'm') + [assign('x', V(src.pick(M.names))), out(S('stored'))]), C('P'), P('P2', loc(M, 'm') + [assign('m', V('g1'))]), C('P2')],
        'arith': [P('P', loc(M, 'm') + [assign('x', B('+', V('m'), k))]), C('P'), P('P2', loc(M, 'm') + [assign('m', B('-', V('x'), k))]), C('P2')],
        'pass byval': [P('W', [out(V('q'))], [('q', 'G', 'BYVAL', False)]), P('P', loc(M, 'm') + [C('W', V('x')), C('W', V('m'))]), C('P')],
        'pass nested': [St('func', name='Fw', params=[('q', 'G', None, False)], rtype='G', body=[St('return', e=V('q'))], parens=True), P('P', loc(M, 'm') + [out(('call', 'Fw', [V('x')])), out(('call', 'Fw', [V('m')]))]), C('P')],
        'return': [St('func', name='Fw', params=[], rtype='G', body=loc(M, 'm') + [St('return', e=V('m'))], parens=True), out(('call', 'Fw', [])), assign('x', ('call', 'Fw', []))],
        'hidden to global': [P('P', loc(hid, 'h') + [assign('x', V('h')), out(S('stored'))]), C('P')],
        'global to hidden': [P('P', loc(hid, 'h') + [assign('h', V('x')), out(S('stored'))]), C('P')],
        'hidden return': [St('func', name='Fw', params=[], rtype='G', body=loc(hid, 'h') + [St('return', e=V('h'))], parens=True), out(('call', 'Fw', [])), assign('x', ('call', 'Fw', []))],
        'hidden pass': [P('W', [out(V('q'))], [('q', 'G', 'BYVAL', False)]), P('P', loc(hid, 'h') + [C('W', V('x')), C('W', V('h'))]), C('P')],
        'own types of callee': [P('W', loc(M, 'm') + [assign('x', B('+', V('x'), k)), out(V('x'))]), P('P', loc(N, 'n') + [C('W')] + use(N, 'n')), C('P'), C('W'), C('P')],
        'own types of caller': [P('W', [out(S('W')), assign('x', V(N.names[0]))]), P('P', loc(N, 'n') + [C('W')]), C('P')],
        'again': [P('P', loc(M, 'm') + [St('if', arms=[(B('=', V('x'), V('g1')), [assign('x', V('g2'))])], els=[assign('x', V('m'))])]), C('P'), C('P'), C('P')],
        'element': [P('P', loc(hid, 'h') + [assign(('ga', [I(2)]), V('h'))]), C('P'), P('P2', loc(M, 'm') + [decl('M', 'la', bounds=[(1, 2)]), assign(('la', [I(1)]), V('m')), assign(('la', [I(2)]), V('x'))]), C('P2'),
                    P('P3', [typedef(hid), decl('G', 'la', bounds=[(1, 2)]), assign('la', V('ga')), out(V('la', I(1)))]), C('P3'), P('P4', [typedef(hid), decl('G', 'la', bounds=[(1, 2)]), assign(('la', [I(1)]), V(hv)), assign(('la', [I(2)]), V(hv)), assign('ga', V('la')), out(V('ga', I(1)))]), C('P4')],
        'field': [P('P', loc(hid, 'h') + [assign(('r', [F('f')]), V('h'))]), C('P'), P('P2', loc(M, 'm') + [assign('m', V('r', F('f')))]), C('P2')],
        'byref': [P('W', [out(V('q')), assign('q', V('g0'))], [('q', 'G', 'BYREF', False)]), P('P', loc(hid, 'h') + [C('W', V('x')), C('W', V('h'))]), C('P'), P('P2', loc(M, 'm') + [C('W', V('m'))]), C('P2')],
    }[ch]
    entries = []
    for e in E:
        entries += [e] + ([dump] if e.k != 'proc' and e.k != 'func' else [])
    entries += [assign('x', B('+', V('x'), k)), dump]
    m, rows = msession(env, entries, pre=pre)
    env.mark('%s%s' % (ch, ' cut: ' + m.cut if m.cut else ''))
    env.nontrivial = True
    # the same as a program: the first error ends it
    prog = pre + [x for e in E for x in ([e] if e.k in ('proc', 'func') else [e, dump])] + [dump]
    m, o = diff(env, prog)
    env.mark('program ' + (m.kind if m.exc is None else 'runtime: %s' % m.exc))


# ------------------------------------------------------------------ echo and names
def names_case(src, env, i):
    """names of every legal shape, shown by OUTPUT and by the echo of a session"""
    n = src.int(1, 8)
    alph = 'abcXYZ_019'
    ns = []
    pre = ''
    if src.chance(25):
        # names that agree in a long part
        pre = src.pick(['The', 'A_long_common_part_of_the_names_', 'n' * src.pick([7, 8, 15, 16, 17, 31, 32, 63, 64, 127, 128, 255])])
        ns = [pre + str(k) + src.pick(['', 'x', pre]) for k in range(1, n + 1)]
    for _ in range(2 * n if not pre else 0):
        w = src.pick('abcXYZqrs') + ''.join(src.pick(alph) for _ in range(src.n(src.pick([1, 3, 12, 60]))))
        if w.upper() not in [x.upper() for x in ns] and w not in ('xx', 'Tt'):
            ns.append(w)
    from toks import KEYWORDS as KW
    ns = [w for w in ns if w.upper() not in KW] or ['only']
    if len({*ns}) > 1 and src.chance(30):
        # names that differ by case only
        w = ns[0].swapcase()
        if w not in ns and w.upper() not in KW and w not in ('xx', 'Tt'):
            ns.append(w)
    t = EnumT('Tt', ns)
    ents = []
    for w in src.shuffle(ns):
        ents += [assign('xx', V(w)), out(V('xx')), St('expr', e=V('xx')), St('expr', e=V(w)), St('expr', e=B('+', V(w), L(src.int(-9, 9)))), out(B('=', V('xx'), V(w))), out(V(w), S('|'), B('-', V('xx'), L(1)))]
    msession(env, ents, pre=[typedef(t), decl('Tt', 'xx')])
    diff(env, [typedef(t), decl('Tt', 'xx')] + [e for e in ents if e.k != 'expr'])
    env.nontrivial = True


STREAMS = [
    Stream('arith', arith_case, len(PAIRS_) * len(PLACES), len(PAIRS_) * len(PLACES) * 4, exhaustive=True),
    Stream('equal', eq_case, len(PAIRS_) * len(EQPL), len(PAIRS_) * len(EQPL), exhaustive=True),
    Stream('big', big_case, 300, 4000),
    Stream('cross', cross_case, len(CROSS) * len(CHAN), len(CROSS) * len(CHAN) * 10, exhaustive=True),
    Stream('local-types', local_case, len(LCH) * 12, len(LCH) * 200),
    Stream('histories', hist_case, 6000, 150000),
    Stream('names', names_case, 300, 5000),
]
