"""Programs in which every expression can be a call that changes what the surrounding statement is working on: indices whose evaluation resizes the array,
written values whose evaluation closes the file, arguments whose evaluation retargets the pointer, bounds, labels and FOR headers with side effects.
Text only: the oracle is the one of C01."""

PRE = '''DECLARE n, m, i, j, k, dep : INTEGER
DECLARE s : STRING
DECLARE c : CHAR
DECLARE x : REAL
DECLARE b : BOOLEAN
TYPE En = (red, green, blue)
TYPE PI = ^INTEGER
TYPE In
  DECLARE v : INTEGER
  DECLARE b : ARRAY[1:m] OF INTEGER
ENDTYPE
TYPE PIn = ^In
TYPE Rec
  DECLARE h : INTEGER
  DECLARE a : ARRAY[1:n] OF INTEGER
  DECLARE g : ARRAY[1:m, 1:n] OF INTEGER
  DECLARE q : ARRAY[1:n] OF In
  DECLARE one : In
  DECLARE t : STRING
ENDTYPE
TYPE PRec = ^Rec
TYPE Node
  DECLARE val : INTEGER
  DECLARE next : PI
  DECLARE rec : Rec
ENDTYPE
TYPE PNode = ^Node
'''
RECS = ['r1', 'r2', 'r3', 'ra[1]', 'ra[2]', 'rb[1]', 'rb[2]', 'pr^', 'nd.rec', 'pn^.rec']
INS = ['one1', 'one2', 'r1.one', 'r2.one', 'pr^.one', 'ra[1].one', 'r1.q[1]', 'r2.q[2]', 'pq^']
FILES = ['"f.txt"', '"g.txt"', '"r.dat"']
TYPES = ['INTEGER', 'STRING', 'BOOLEAN', 'Rec', 'In', 'PI', 'PRec', 'PIn', 'En', 'REAL', 'CHAR']
RET = {'INTEGER': ['1', '2', 'i', 'r1.a[1]', 'pi^', 'n', 'LENGTH(s)'], 'STRING': ['"f.txt"', '"g.txt"', '"r.dat"', 's', '"ab"', 'r1.t'], 'BOOLEAN': ['TRUE', 'FALSE', 'b'], 'Rec': RECS, 'In': INS,
       'PI': ['pi', 'pj'], 'PRec': ['pr', 'ps'], 'PIn': ['pq'], 'En': ['red', 'blue', 'e'], 'REAL': ['1.5', 'x'], 'CHAR': ["'a'", 'c']}


class Eff:
    def __init__(self, src, repl):
        self.s, self.repl, self.k = src, repl, 0
        self.funs, self.procs, self.local, self.hot = [], [], {}, 'r1'

    # ---- expressions
    def call(self, t, d):
        s = self.s
        fs = [f for f in self.funs if f[1] == t]
        if not fs:
            return None
        f = s.pick(fs)
        return '%s(%s)' % (f[0], ', '.join(self.arg(p, d - 1) for p in f[2]))

    def arg(self, t, d):
        return self.place(t, d) if self.s.chance(60) else self.e(t, d)

    def ix(self, d):
        s = self.s
        if d > 0 and s.chance(55):
            f = self.call('INTEGER', d)
            if f:
                return f
        return s.weighted([(10, '1'), (8, '2'), (3, '3'), (2, '4'), (2, '9'), (2, 'i'), (2, 'n'), (1, '0'), (1, 'm'), (1, 'r1.h')])

    def rec(self, d):
        s = self.s
        if self.local.get('Rec') and s.chance(30):
            return s.pick(self.local['Rec'])
        r = s.pick([self.hot, 'r1', 'r1', 'r2', 'r3', 'pr^', 'nd.rec', 'pn^.rec', 'A', 'A'])
        return '%s[%s]' % (s.pick(['ra', 'rb']), self.ix(d)) if r == 'A' else r

    def inn(self, d):
        s = self.s
        if self.local.get('In') and s.chance(30):
            return s.pick(self.local['In'])
        return s.weighted([(2, 'one1'), (1, 'pq^'), (3, None), (3, 0)]) or (self.rec(d) + '.one' if s.chance(40) else '%s.q[%s]' % (self.rec(d), self.ix(d)))

    def place(self, t, d):
        s = self.s
        loc = self.local.get(t)
        if loc and s.chance(30):
            return s.pick(loc)
        if t == 'INTEGER':
            y = s.n(10)
            if y < 2:
                return s.pick(['i', 'j', 'k', 'n', 'm'])
            if y < 4:
                return '%s.a[%s]' % (self.rec(d), self.ix(d))
            if y < 6:
                return '%s.g[%s, %s]' % (self.rec(d), self.ix(d), self.ix(d))
            if y < 8:
                return '%s.b[%s]' % (self.inn(d), self.ix(d))
            return s.pick(['pi^', 'pj^', 'aa[%s]' % self.ix(d), self.inn(d) + '.v', self.rec(d) + '.h', 'nd.next^', 'ag[%s, %s]' % (self.ix(d), self.ix(d))])
        if t == 'Rec':
            return self.rec(d)
        if t == 'In':
            return self.inn(d)
        if t == 'STRING':
            return s.pick(['s', self.rec(d) + '.t'])
        return {'BOOLEAN': 'b', 'PI': s.pick(['pi', 'pj', 'nd.next', 'pn^.next']), 'PRec': s.pick(['pr', 'ps']), 'PIn': 'pq', 'En': 'e', 'REAL': 'x', 'CHAR': 'c'}[t]

    def e(self, t, d):
        s = self.s
        if d > 0 and s.chance(55):
            f = self.call(t, d)
            if f:
                return f
        if t in ('Rec', 'In', 'PI', 'PRec', 'PIn', 'En') or s.chance(30):
            return self.place(t, d - 1)
        d -= 1
        if t == 'INTEGER':
            y = s.n(8)
            if y < 3 and d > 0:
                return '%s %s %s' % (self.e(t, d), s.pick(['+', '-', '*', 'DIV', 'MOD']), self.e(t, d))
            if y < 5 and d > 0:
                return s.pick(['LENGTH(%s)' % self.e('STRING', d), '(%s)' % self.e(t, d), 'DIV(%s, %s)' % (self.e(t, d), self.e(t, d))])
            return str(s.int(0, 4))
        if t == 'STRING':
            y = s.n(8)
            if y < 3 and d > 0:
                return '%s & %s' % (self.e(t, d), self.e(s.pick(['STRING', 'CHAR', 'INTEGER']), d))
            if y < 4 and d > 0:
                return 'MID(%s, %s, %s)' % (self.e(t, d), self.e('INTEGER', d), self.e('INTEGER', d))
            return s.pick(FILES + ['"text"', '"1"'])
        if t == 'BOOLEAN':
            y = s.n(8)
            if y < 4 and d > 0:
                u = s.pick(['INTEGER', 'STRING', 'En', 'PI'])
                return '%s %s %s' % (self.e(u, d), s.pick(['=', '<>', '<', '>=']), self.e(u, d))
            if y < 5:
                return 'EOF(%s)' % self.file(d)
            if y < 7 and d > 0:
                return '%s %s %s' % (self.e(t, d), s.pick(['AND', 'OR']), self.e(t, d))
            return s.pick(['TRUE', 'FALSE'])
        return {'REAL': '2.5', 'CHAR': "'z'"}[t]

    def file(self, d):
        s = self.s
        if d > 0 and s.chance(25):
            f = self.call('STRING', d)
            if f:
                return f
        return s.weighted([(5, '"f.txt"'), (4, '"r.dat"'), (1, '"g.txt"'), (1, 's')])

    # ---- statements
    def effect(self):
        """one that moves, resizes, closes or retargets something"""
        s = self.s
        y = s.n(100)
        if y < 30:
            return '%s <- %s' % (s.pick(RECS), s.pick(RECS))
        if y < 36:
            return s.pick(['ra <- rb', 'rb <- ra', 'r1.q <- r2.q', 'r2.q <- r1.q', 'r1.one <- r2.one', 'nd <- pn^', 'pn^ <- nd', 'aa <- r1.a', 'r1.a <- aa'])
        if y < 50:
            return s.pick(['pi <- ^%s.a[%d]' % (s.pick(RECS), s.int(1, 4)), 'pi <- ^%s.b[%d]' % (s.pick(INS), s.int(1, 3)), 'pr <- ^%s' % s.pick(RECS), 'pq <- ^%s' % s.pick(INS), 'pj <- pi', 'ps <- pr',
                           'pq <- ^%s.q[%d]' % (s.pick(RECS), s.int(1, 4)), 'pn <- ^nd', 'nd.next <- ^%s.a[2]' % s.pick(RECS)])
        if y < 70:
            f = s.pick(['"f.txt"', '"f.txt"', '"r.dat"', '"g.txt"'])
            return s.pick(['CLOSEFILE %s' % f, 'CLOSEFILE %s' % f, 'OPENFILE "f.txt" FOR %s' % s.pick(['READ', 'WRITE', 'APPEND', 'RANDOM']), 'OPENFILE "r.dat" FOR RANDOM', 'OPENFILE "r.dat" FOR RANDOM', 'OPENFILE "g.txt" FOR WRITE',
                           'WRITEFILE %s, "w"' % f, 'READFILE %s, s' % f, 'SEEK "r.dat", %d' % s.int(1, 4), 'CLOSEFILE "r.dat"\nOPENFILE "r.dat" FOR RANDOM', 'CLOSEFILE "f.txt"\nOPENFILE "f.txt" FOR WRITE'])
        if y < 80:
            return s.pick(['GETRECORD "r.dat", %s', 'PUTRECORD "r.dat", %s']) % s.pick(['r1', 'r2', 'one1', 'one2', 'i', 's', 'aa'])
        if y < 92:
            return s.pick(['n <- %d', 'm <- %d', 'i <- %d', 'k <- %d', 's <- "f.txt" & %d', 'r1.h <- %d']) % s.int(0, 3)
        return s.pick(['DECLARE loc%d : Rec\nr1 <- loc%d' % (self.k, self.k), 'b <- NOT b', 'e <- green', 'INPUT s', 'OUTPUT i'])

    def stmt(self, d=3, nest=1):
        s = self.s
        self.k += 1
        y = s.n(100)
        if y < 5 and self.hot in self.dims:
            m, n = self.dims[self.hot]
            ix = self.ix(d), self.ix(d)
            ix = s.pick([(str(m), ix[1]), (ix[0], str(n)), (str(m), str(n))])
            return s.pick(['OUTPUT %s.g[%s, %s]' % ((self.hot,) + ix), '%s.g[%s, %s] <- %s' % ((self.hot,) + ix + (self.e('INTEGER', d),))])
        if y < 14:
            return 'OUTPUT %s' % ', '.join(self.e(s.pick(['INTEGER', 'INTEGER', 'STRING', 'BOOLEAN', 'En', 'REAL']), d) for _ in range(s.int(1, 3)))
        if y < 34:
            t = s.pick(TYPES + ['INTEGER', 'Rec', 'In', 'Rec', 'INTEGER'])
            return '%s <- %s' % (self.place(t, d), self.e(t, d))
        if y < 40:
            t = s.pick(['INTEGER', 'Rec', 'In', 'INTEGER'])
            return '%s <- ^%s' % (self.place({'INTEGER': 'PI', 'Rec': 'PRec', 'In': 'PIn'}[t], d), self.place(t, d))
        if y < 45:
            r, q = self.rec(d), self.rec(d)
            f = s.pick(['a', 'g', 'q'])
            return s.pick(['%s.%s <- %s.%s' % (r, f, q, f), '%s.a <- aa' % r, 'aa <- %s.a' % r, 'ag <- %s.g' % r, '%s.b <- %s.b' % (self.inn(d), self.inn(d)), 'ra <- rb'])
        if y < 55 and self.procs:
            p = s.pick(self.procs)
            return 'CALL %s(%s)' % (p[0], ', '.join(self.arg(t, d) for t in p[2]))
        if y < 75:
            f = self.file(d)
            return s.weighted([(4, 'WRITEFILE %s, %s' % (f, self.e(s.pick(['STRING', 'STRING', 'INTEGER', 'BOOLEAN']), d))), (2, 'READFILE %s, %s' % (f, self.place('STRING', d))),
                               (2, 'SEEK %s, %s' % (f, self.e('INTEGER', d))), (2, 'OPENFILE %s FOR %s' % (f, s.pick(['READ', 'WRITE', 'APPEND', 'RANDOM', 'RANDOM']))), (1, 'CLOSEFILE ' + f),
                               (2, 'PUTRECORD %s, %s' % (f, self.place(s.pick(['Rec', 'In', 'INTEGER']), d))), (2, 'GETRECORD %s, %s' % (f, self.place(s.pick(['Rec', 'In', 'INTEGER']), d)))])
        if y < 79:
            return 'DECLARE v%d : ARRAY[%s:%s] OF %s' % (self.k, self.e('INTEGER', d - 1), self.e('INTEGER', d - 1), s.pick(['INTEGER', 'Rec', 'In']))
        if y < 81:
            return 'DECLARE v%d : Rec' % self.k
        if nest <= 0 or y < 86:
            return self.effect()
        body = lambda: '\n'.join(self.stmt(d, nest - 1) for _ in range(s.int(1, 3)))
        y = s.n(5)
        if y == 0:
            return 'FOR %s <- %s TO %s STEP %s\n%s\nNEXT' % (s.pick(['i', 'w%d' % self.k]), self.e('INTEGER', d), self.e('INTEGER', d), s.pick(['1', '2', self.e('INTEGER', d - 1)]), body())
        if y == 1:
            return 'CASE OF %s\n%s : %s\n%s TO %s : %s\nOTHERWISE : %s\nENDCASE' % (self.e('INTEGER', d), self.e('INTEGER', 1), body(), self.e('INTEGER', 1), self.e('INTEGER', 1), body(), body())
        if y == 2:
            return 'IF %s THEN\n%s\nELSE\n%s\nENDIF' % (self.e('BOOLEAN', d), body(), body())
        if y == 3:
            return 'REPEAT\n%s\nk <- k + 1\nUNTIL k > 3 OR %s' % (body(), self.e('BOOLEAN', d))
        return 'k <- 0\nWHILE k < 3 AND %s\n%s\nk <- k + 1\nENDWHILE' % (self.e('BOOLEAN', d), body())

    def routine(self, k):
        s = self.s
        if k < 2 and s.chance(50):
            r = s.pick(RECS)
            x = '%s <- %s' % (r, s.pick(RECS)) if s.chance(70) else self.effect()
            self.funs += [('F%d' % k, 'INTEGER', [])] * 2
            self.hot = r
            return 'FUNCTION F%d() RETURNS INTEGER\n%s\nRETURN %d\nENDFUNCTION' % (k, x, s.int(1, 2))
        fun = s.chance(75)
        t = s.weighted([(6, 'INTEGER'), (3, 'STRING'), (2, 'BOOLEAN'), (4, 'Rec'), (2, 'In'), (1, 'PI'), (1, 'PRec'), (1, 'PIn'), (1, 'En'), (1, 'REAL'), (1, 'CHAR')]) if fun else None
        params = [s.pick(TYPES[:8]) for _ in range(s.weighted([(4, 0), (4, 1), (2, 2), (1, 3)]))]
        name = '%s%d' % ('F' if fun else 'P', k)
        save, self.local = self.local, {}
        ps = []
        for q, p in enumerate(params):
            ps.append('%s a%d : %s' % (s.pick(['BYREF', 'BYVAL', 'BYREF']), q, p))
            self.local.setdefault(p, []).append('a%d' % q)
        body = []
        for _ in range(s.int(1, 3)):
            x = self.effect() if s.chance(70) else self.stmt(1, 0)
            body.append('IF %s THEN\n%s\nENDIF' % (s.pick(['dep = 1', 'b', 'i = 1']), x) if s.chance(20) else x)
        # what is passed BYREF is used after the effects as well
        for p, names in self.local.items():
            for nm in names:
                if s.chance(50):
                    body.append({'INTEGER': '%s <- %s + 1', 'STRING': '%s <- %s & "x"', 'Rec': '%s.h <- %s.a[1]', 'In': '%s.v <- %s.b[1]', 'BOOLEAN': '%s <- NOT %s', 'PI': '%s^ <- %s^ + 1'}.get(p, '%s <- %s') % (nm, nm))
        if s.chance(25) and self.funs:
            body.append('dep <- dep + 1\nIF dep < 4 THEN\n%s\nENDIF' % self.stmt(2, 0))
        if fun:
            r = s.pick(RET[t]) if s.chance(60) else self.e(t, 1)
            if self.local.get(t) and s.chance(40):
                r = s.pick(self.local[t])
            if s.chance(30):
                loc = {'Rec': 'lr', 'In': 'li'}.get(t)
                if loc:
                    body.append('DECLARE %s : %s' % (loc, t))
                    r = loc
            body.append('RETURN ' + r)
        self.local = save
        head = ('FUNCTION %s(%s) RETURNS %s' % (name, ', '.join(ps), t)) if fun else 'PROCEDURE %s(%s)' % (name, ', '.join(ps))
        (self.funs if fun else self.procs).append((name, t, params))
        return '%s\n%s\n%s' % (head, '\n'.join(body), 'ENDFUNCTION' if fun else 'ENDPROCEDURE')

    def program(self):
        s = self.s
        ents = []
        pre = PRE
        self.dims = {}
        for r in ['r1', 'r2', 'r3', 'ra', 'rb', 'nd', 'one1', 'one2']:
            nn, mm = s.pick([1, 1, 2, 2, 3, 4, 9]), s.pick([1, 1, 2, 3, 9])
            for q in {'ra': ['ra[1]', 'ra[2]'], 'rb': ['rb[1]', 'rb[2]'], 'nd': ['nd.rec', 'pn^.rec']}.get(r, [r]):
                self.dims[q] = mm, nn
            pre += 'n <- %d\nm <- %d\n' % (nn, mm)
            pre += 'DECLARE %s : %s\n' % (r, {'ra': 'ARRAY[1:2] OF Rec', 'rb': 'ARRAY[1:2] OF Rec', 'nd': 'Node'}.get(r, 'In' if r[0] == 'o' else 'Rec'))
        pre += ('DECLARE aa : ARRAY[1:%d] OF INTEGER\nDECLARE ag : ARRAY[1:2, 1:2] OF INTEGER\nDECLARE e : En\nDECLARE pi, pj : PI\nDECLARE pr, ps : PRec\nDECLARE pq : PIn\nDECLARE pn : PNode\n' % s.int(1, 4))
        pre += 'i <- 1\nj <- 2\npi <- ^r1.a[1]\npj <- ^i\npr <- ^%s\nps <- ^r2\npq <- ^r1.one\npn <- ^nd\nnd.next <- ^j\ns <- "f.txt"\n' % s.pick(['r1', 'r2', 'ra[1]'])
        pre += s.pick(['OPENFILE "f.txt" FOR %s\n' % s.pick(['READ', 'WRITE', 'WRITE', 'APPEND', 'RANDOM']), '']) + s.pick(['OPENFILE "r.dat" FOR RANDOM\nPUTRECORD "r.dat", r1\nSEEK "r.dat", 2\nPUTRECORD "r.dat", i\nSEEK "r.dat", 1\n', ''])
        for ln in pre.rstrip('\n').split('\n'):
            ents.append(ln)
        if self.repl:
            ents = [pre.replace('ENDTYPE\n', 'ENDTYPE\n\n').rstrip('\n')]
        else:
            ents = [pre.rstrip('\n')]
        for k in range(s.int(2, 6)):
            ents.append(self.routine(k))
        for _ in range(s.int(2, 14) if self.repl else s.int(1, 5)):
            ents.append(self.stmt())
        end = 'OUTPUT r1.h, r1.a[1], pi^, r2.g[1, 1], pr^.t, pq^.v'
        ents.append(end)
        return ('\n\n' if self.repl else '\n').join(ents) + '\n'
