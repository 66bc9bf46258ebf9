"""Record types whose array bounds are variables: two records of one type can have arrays of different size.  Own small model: cells with identity.
Assignment makes the target equal to the source, bounds included; elements that exist before and after it keep their identity."""
from common import *

PRE = ['DECLARE n, m, num : INTEGER', 'TYPE In\n  DECLARE v : INTEGER\n  DECLARE b : ARRAY[1:m] OF INTEGER\nENDTYPE', 'TYPE T\n  DECLARE h : INTEGER\n  DECLARE a : ARRAY[1:n] OF INTEGER\n  DECLARE g : ARRAY[1:n] OF In\nENDTYPE',
       'TYPE PI = ^INTEGER', 'TYPE PIn = ^In', 'TYPE PT = ^T', 'DECLARE p1, p2, p3 : PI', 'DECLARE q1, q2 : PIn', 'DECLARE t1 : PT']


class Cell:
    def __init__(self, v=0):
        self.v, self.live = v, True


class InV:
    def __init__(self, m):
        self.v, self.b, self.live = Cell(), [Cell() for _ in range(m)], True


class TV:
    def __init__(self, n, m):
        self.h, self.a, self.g, self.live = Cell(), [Cell() for _ in range(n)], [InV(m) for _ in range(n)], True


def kill(x):
    x.live = False
    if isinstance(x, InV):
        for c in [x.v] + x.b:
            kill(c)


def put(dst, src):
    if isinstance(dst, Cell):
        dst.v = src.v
    elif isinstance(dst, InV):
        put(dst.v, src.v)
        seq(dst.b, src.b, Cell)
    else:
        put(dst.h, src.h)
        seq(dst.a, src.a, Cell)
        seq(dst.g, src.g, lambda: InV(1))


def seq(d, s, new):
    while len(d) > len(s):
        kill(d.pop())
    while len(d) < len(s):
        d.append(new())
    for x, y in zip(d, s):
        put(x, y)


def clone(x):
    r = Cell() if isinstance(x, Cell) else InV(1) if isinstance(x, InV) else TV(1, 1)
    put(r, x)
    return r


class World:
    def __init__(self, src, wild=5):
        self.s, self.k, self.wild = src, 0, wild
        self.rows = []                     # (entry, expected output or None when it has to fail, or ANY)
        self.recs, self.P, self.Q, self.t1 = {}, {'p1': None, 'p2': None, 'p3': None}, {'q1': None, 'q2': None}, None
        self.num = Cell()
        self.stale = 0
        self.resized = 0
        for e in PRE:
            self.row(e, '')
        for name in ('r1', 'r2', 'r3', 'r4')[:src.int(2, 4)]:
            n, m = src.int(1, 4), src.int(1, 3)
            self.row('n <- %d' % n, '')
            self.row('m <- %d' % m, '')
            self.row('DECLARE %s : T' % name, '')
            self.recs[name] = TV(n, m)
        self.row('n <- %d' % src.int(1, 4), '')
        rs = sorted(self.recs)
        # routines that copy records while a BYREF parameter, a pointer or an iterator refers to an element
        self.pairs = [(src.pick(rs), src.pick(rs)) for _ in range(3)]
        for k, (x, y) in enumerate(self.pairs):
            self.row('PROCEDURE Ref%d(BYREF x : INTEGER, BYVAL k : INTEGER)\n  x <- k\n  %s <- %s\n  OUTPUT x\n  x <- k + 1\nENDPROCEDURE' % (k, x, y), '')
            self.row('PROCEDURE Rin%d(BYREF x : In, BYVAL k : INTEGER)\n  x.v <- k\n  %s <- %s\n  OUTPUT x.v\n  x.b[1] <- k + 1\nENDPROCEDURE' % (k, x, y), '')
            self.row('PROCEDURE Val%d(x : T, k : INTEGER)\n  x.a[1] <- k\n  %s <- x\n  x.h <- k + 1\n  OUTPUT x.h, %s.h\nENDPROCEDURE' % (k, x, x), '')
            self.row('FUNCTION Fun%d(x : T) RETURNS T\n  x.h <- x.h + 1\n  %s <- %s\n  RETURN x\nENDFUNCTION' % (k, x, y), '')
        for k in range(src.int(2, 6)):
            self.setint()

    def row(self, e, o):
        self.rows.append((e, o))

    def lit(self):
        self.k += 1
        return self.k

    # ---- places: text, object
    def tplace(self):
        s = self.s
        if self.t1 is not None and s.chance(12):
            return 't1^', self.recs[self.t1]
        x = s.pick(sorted(self.recs))
        return x, self.recs[x]

    def inplace(self):
        s = self.s
        if s.chance(20):
            q = s.pick(sorted(self.Q))
            if self.Q[q] is not None and self.Q[q].live:
                return q + '^', self.Q[q]
        t, r = self.tplace()
        i = s.n(len(r.g))
        return '%s.g[%s]' % (t, self.idx(i)), r.g[i]

    def idx(self, i):
        return self.s.pick(['%d' % (i + 1), '%d' % (i + 1), '%d + 1' % i])

    def iplace(self):
        s = self.s
        k = s.n(10)
        if k < 2:
            p = s.pick(sorted(self.P))
            if self.P[p] is not None and self.P[p].live:
                return p + '^', self.P[p]
        if k < 5:
            t, r = self.tplace()
            i = s.n(len(r.a))
            return '%s.a[%s]' % (t, self.idx(i)), r.a[i]
        if k < 6:
            t, r = self.tplace()
            return t + '.h', r.h
        t, x = self.inplace()
        if s.chance(35):
            return t + '.v', x.v
        i = s.n(len(x.b))
        return '%s.b[%s]' % (t, self.idx(i)), x.b[i]

    def setint(self):
        t, c = self.iplace()
        v = self.lit()
        self.row('%s <- %d' % (t, v), '')
        c.v = v

    def beyond(self):
        """an index outside the bounds the array has now"""
        s = self.s
        t, r = self.tplace()
        k = s.n(3)
        if k == 0:
            return '%s.a[%d]' % (t, s.pick([0, len(r.a) + 1, len(r.a) + 3]))
        if k == 1:
            return '%s.g[%d].v' % (t, s.pick([0, len(r.g) + 1]))
        i = s.n(len(r.g))
        return '%s.g[%d].b[%d]' % (t, i + 1, s.pick([0, len(r.g[i].b) + 1]))

    def dump(self):
        for name in sorted(self.recs):
            r = self.recs[name]
            es, vs = ['%s.h' % name], [r.h.v]
            for i, c in enumerate(r.a):
                es.append('%s.a[%d]' % (name, i + 1))
                vs.append(c.v)
            for i, g in enumerate(r.g):
                es.append('%s.g[%d].v' % (name, i + 1))
                vs.append(g.v.v)
                for j, c in enumerate(g.b):
                    es.append('%s.g[%d].b[%d]' % (name, i + 1, j + 1))
                    vs.append(c.v)
            self.row('OUTPUT ' + ', " ", '.join(es), ' '.join(map(str, vs)) + '\n')
            self.row('OUTPUT %s.a[%d]' % (name, len(r.a) + 1), None)

    def copy(self, x, y):
        a, b = self.recs[x], self.recs[y]
        self.resized += len(a.a) != len(b.a)
        put(a, clone(b))

    def step(self):
        s = self.s
        k = s.n(100)
        if k < 15:
            self.setint()
        elif k < 32:
            x, y = s.pick(sorted(self.recs)), s.pick(sorted(self.recs))
            self.row('%s <- %s' % (x, y), '')
            self.copy(x, y)
        elif k < 42:
            tx, x = self.inplace()
            ty, y = self.inplace()
            self.row('%s <- %s' % (tx, ty), '')
            self.resized += len(x.b) != len(y.b)
            put(x, clone(y))
        elif k < 54:
            p = s.pick(sorted(self.P))
            t, c = self.iplace()
            self.row('%s <- ^%s' % (p, t), '')
            self.P[p] = c
        elif k < 60:
            q = s.pick(sorted(self.Q))
            t, c = self.inplace()
            self.row('%s <- ^%s' % (q, t), '')
            self.Q[q] = c
        elif k < 63:
            x = s.pick(sorted(self.recs))
            self.row('t1 <- ^' + x, '')
            self.t1 = x
        elif k < 72:
            es, vs = [], []
            for p in sorted(self.P):
                c = self.P[p]
                if c is not None and c.live:
                    es.append(p + '^')
                    vs.append(c.v)
                elif c is not None:
                    # its element is gone: what it denotes is open, but reading it is executed or diagnosed
                    self.row('OUTPUT %s^' % p, ANY)
                    self.stale += 1
            for q in sorted(self.Q):
                c = self.Q[q]
                if c is not None and c.live:
                    es.append('%s^.v, " ", %s^.b[%d]' % (q, q, len(c.b)))
                    vs += [c.v.v, c.b[-1].v]
                elif c is not None:
                    self.row('OUTPUT %s^.v' % q, ANY)
                    self.stale += 1
            if es:
                self.row('OUTPUT ' + ', " ", '.join(es), ' '.join(map(str, vs)) + '\n')
        elif k < 79:
            j = s.n(len(self.pairs))
            t, c = self.iplace()
            v = self.lit()
            self.k += 1
            c.v = v
            self.copy(*self.pairs[j])
            self.row('CALL Ref%d(%s, %d)' % (j, t, v), '%d\n' % c.v if c.live else ANY)
            c.v = v + 1 if c.live else 0
        elif k < 84:
            j = s.n(len(self.pairs))
            t, c = self.inplace()
            v = self.lit()
            self.k += 1
            c.v.v = v
            self.copy(*self.pairs[j])
            self.row('CALL Rin%d(%s, %d)' % (j, t, v), '%d\n' % c.v.v if c.live else ANY)
            if c.live:
                c.b[0].v = v + 1
        elif k < 89:
            j = s.n(len(self.pairs))
            t, r = self.tplace()
            v = self.lit()
            self.k += 1
            x = clone(r)
            x.a[0].v = v
            a = self.recs[self.pairs[j][0]]
            put(a, x)
            self.row('CALL Val%d(%s, %d)' % (j, t, v), '%d%d\n' % (v + 1, a.h.v))
        elif k < 93:
            j = s.n(len(self.pairs))
            t, r = self.tplace()
            y = s.pick(sorted(self.recs))
            x = clone(r)
            x.h.v += 1
            self.copy(*self.pairs[j])
            put(self.recs[y], x)
            self.row('%s <- Fun%d(%s)' % (y, j, t), '')
        elif k < 96:
            t = self.beyond()
            self.row(s.pick(['OUTPUT %s', '%s <- 1', 'p1 <- ^%s', 'CALL Ref0(%s, 1)']) % t, None)
        else:
            self.dump()


ANY = object()


def case(src, env, i):
    w = World(src)
    for _ in range(src.int(8, 40)):
        w.step()
    w.dump()
    res, r = session(env, [e for e, _ in w.rows], variant='san' if i % 3 == 0 else 'plain')
    for k, ((e, o), x) in enumerate(zip(w.rows, res)):
        if o is ANY:
            ok = x.kind in ('ok', 'runtime')
        elif o is None:
            ok = x.kind == 'runtime' and x.out.strip('\n') == ''
        else:
            ok = x.kind == 'ok' and x.out == o
        if not ok:
            raise Fail('a record with arrays of another size: outcome differs from the model', '', entry=e, expected='a runtime error' if o is None else str(o), observed=repr(x),
                       session='\n'.join(q[0] for q in w.rows[:k + 1]))
    env.nontrivial = w.resized > 0
    env.mark('resized %d' % min(5, w.resized), 'element gone %d' % min(3, w.stale))
    env.digest = '\n'.join(q[0] for q in w.rows)
    env.sample = dict(entries=[q[0] for q in w.rows[-12:]])
