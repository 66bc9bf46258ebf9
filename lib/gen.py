"""Typed program generator: mostly valid programs over every construct of the language."""
from lang import *

RESERVED = set('''DIV MOD AND OR NOT TRUE FALSE DECLARE CONSTANT INTEGER REAL BOOLEAN CHAR STRING DATE ARRAY TYPE ENDTYPE IF
THEN ELSE ENDIF CASE OF OTHERWISE ENDCASE WHILE DO ENDWHILE REPEAT UNTIL FOR TO STEP NEXT BREAK CONTINUE PROCEDURE BYREF
BYVAL ENDPROCEDURE CALL FUNCTION ENDFUNCTION RETURNS RETURN OUTPUT PRINT INPUT OPENFILE READFILE WRITEFILE CLOSEFILE READ
WRITE APPEND RANDOM SEEK GETRECORD PUTRECORD EXIT RUNFILE'''.split()) | set(BUILTINS) | set(OTHER_BUILTINS)

BASES = ['x', 'n', 'Count', 'val', 'Tot_1', 'e5', 'IFx', 'DOit', 'OF2', 'Index', 'tmp', 'Name', 'b', 'to', 'End', 'K',
         'TYPEs', 'aB', 'y2', 'NOTE', 'zz', 'ORe', 'first', 'CASEy', 'Step_', 'q', 'w', 'u1', 'Real1', 'fORm']
STRS = ['', 'a', 'Hello', 'two words', "it's", '12', '3.5', '-7', 'TRUE', ' lead', 'tail ', '//no', 'a"b', 'x\\y', 'l1\nl2',
        'tab\there', '#', 'ENDIF', 'abc', 'Zz9', '[1]', '%d', "''", 'abcdefghij', '(', ')', ',', ':', '<-']
CHARS = ['a', 'Z', '0', ' ', "'", '"', '\\', '\n', '\t', '/', '#', '~', 'q', 'M']
REALS = ['0.5', '1.0', '2.25', '3.75', '10.125', '0.0625', '100.0', '7.', '12.5', '0.25', '1.5', '99.875']
INTS = [0, 1, 2, 3, 4, 5, 7, 9, 10, 12, 17, 31, 64, 100, 255, 1000, 99999]
BIG = [2147483647, 2147483648, 4294967296, 9007199254740993, 1099511627777, 123456789012345678]


class Info:
    def __init__(self, name, t, bounds=None, const=False, prot=False):
        self.name, self.t, self.bounds, self.const, self.prot = name, t, bounds, const, prot
        self.set = False        # a pointer variable that certainly points somewhere


class Sig:
    def __init__(self, name, params, rtype, depth):
        """params: [(name, T, byref)]; depth: index of the recursion-depth parameter or None"""
        self.name, self.params, self.rtype, self.depth = name, params, rtype, depth


DEFAULT = dict(arrays=True, records=True, pointers=True, enums=True, dates=True, inputs=True, implicit=True, breaks=True,
               elseif=True, casts=True, procs=True, recursion=True, consts=True, errors=4, size=14, depth=3, localtypes=False,
               wild_index=1, exprdepth=3, readvar=True, bareexpr=False, stray=1, deref=True, boolinput=False, minprocs=0, morecalls=0, minrecs=0, minptrs=0, minconsts=0, writeconst=0)


class Gen:
    def __init__(self, src, **cfg):
        self.s = src
        self.c = dict(DEFAULT, **cfg)
        self.style = ('plain', '')
        if src.n(10) >= 8:
            self.style = src.pick([('prefix', src.pick(['Customer', 'ThePricesOfThe', 'AVeryLongNameWhichGoesOnAndOnForever_']) + 'n' * src.pick([0, 1, 8, 30, 60])), ('middle', 'TheNumberOfThingsInTheStore' + 'x' * src.pick([0, 5, 40])), ('case', 'totals'), ('case', 'Subset'), ('anagram', 'abcdef')])
        self.used = set()
        self.fieldnames = set()
        self.localnames = []
        self.sig = None
        self.globals = {}
        self.locals = None
        self.enums, self.ptrs, self.recs = [], [], []
        self.procs = []
        self.loop = 0
        self.cur = None
        self.stdin = []
        self.defs_done = []
        self.counters = set()
        self.budget = 0

    # ---------------------------------------------------------------- names
    def styled(self, b, i):
        """the i-th name made from a base in the style of this program: names that agree in all but a few places"""
        kind, w = self.style
        if kind == 'prefix':
            return w + b + (str(i) if i > 1 else '')
        if kind == 'middle':
            return '%s%s%d%s' % (w[:len(w) // 2], b[:3], 10 + i, w[len(w) // 2:])
        if kind == 'case':
            # every spelling of one word, in an order which is not that of the alphabet
            k = (i * 5 + len(b) * 3) % (1 << len(w))
            return ''.join(c.upper() if k >> j & 1 else c.lower() for j, c in enumerate(w)) + (str(i // 8) if i >= 1 << len(w) else '')
        if kind == 'anagram':
            l, k, o = list(w), i * 7 + len(b), []
            while l:
                o.append(l.pop(k % len(l)))
                k //= len(l) + 1
            return ''.join(o) + (str(i // 8) if i > 60 else '')
        return b + (str(i) if i > 1 else '')

    def fresh(self, base=None):
        b = base or self.s.pick(BASES)
        i = 1
        n = self.styled(b, i)
        if self.style[0] != 'plain':
            while n in self.used or n in self.fieldnames or n in RESERVED:
                i += 1
                n = self.styled(b, i)
            self.used.add(n)
            return n
        while n in self.used or n in RESERVED:
            i += 1
            n = '%s%d' % (b, i)
        self.used.add(n)
        return n

    def local(self, base=None, taken=()):
        """a name for a parameter or local variable: fresh, or one that another procedure uses for its own"""
        if self.locals is None and self.sig is None:
            return self.fresh(base)
        if self.s.chance(35):
            c = [n for n in self.localnames if n not in taken and (self.locals is None or n not in self.locals)]
            if c:
                return self.s.pick(c)
        n = self.fresh(base)
        self.localnames.append(n)
        return n

    def visible(self):
        d = dict(self.globals)
        if self.locals is not None:
            d.update(self.locals)
        return d

    def add(self, info):
        (self.globals if self.locals is None else self.locals)[info.name] = info
        return info

    # ---------------------------------------------------------------- types
    def scalar(self):
        opts = [(5, INTEGER), (2, REAL), (2, BOOLEAN), (2, STRING), (2, CHAR)]
        if self.c['dates']:
            opts.append((1, DATE))
        if self.enums:
            opts.append((2, self.s.pick(self.enums)))
        return self.s.weighted(opts)

    def anytype(self):
        x = self.s.n(10)
        if x >= 8 and self.recs:
            return self.s.pick(self.recs)
        if x == 7 and self.ptrs:
            return self.s.pick(self.ptrs)
        return self.scalar()

    def bounds(self, maxdim=3, maxsize=4):
        nd = self.s.weighted([(6, 1), (3, 2), (1, min(3, maxdim))])
        out = []
        for _ in range(min(nd, maxdim)):
            lo = self.s.pick([1, 0, -2, 5, -1, 3])
            out.append((lo, lo + self.s.n(maxsize)))
        return out

    def typedefs(self):
        out = []
        if self.c['enums']:
            for _ in range(self.s.n(3)):
                n = self.fresh('Col')
                names = [self.fresh(self.s.pick(['Red', 'Up', 'Low', 'A', 'Mon'])) for _ in range(self.s.int(1, 5))]
                if self.s.n(8) == 7:
                    # more names than any small table would hold
                    names += [self.fresh('Nm') for _ in range(self.s.pick([4, 5, 12, 28]))]
                t = EnumT(n, names)
                self.enums.append(t)
                out.append(St('typeenum', name=n, names=names))
        if self.c['records']:
            for _ in range(max(self.c['minrecs'], self.s.n(3))):
                n = self.fresh('Rec')
                fields, body = [], []
                for _ in range(self.s.int(1, 4)):
                    x = self.s.n(10)
                    t = self.s.pick(self.recs) if self.recs and x > 7 else self.scalar()
                    b = self.bounds(2, 3) if self.c['arrays'] and self.s.chance(25) else None
                    names = [self.fieldname(fields)]
                    fields.append((names[0], t, b))
                    if self.s.chance(15):
                        names.append(self.fieldname(fields))
                        fields.append((names[1], t, b))
                    body.append(St('declare', names=names, type=t.name, bounds=None if b is None else [(lit(x), lit(y)) for x, y in b]))
                t = RecT(n, fields)
                self.recs.append(t)
                out.append(St('typerec', name=n, body=body))
        if self.c['pointers']:
            for _ in range(max(self.c['minptrs'], self.s.n(3))):
                n = self.fresh('Ptr')
                t = self.s.weighted([(3, INTEGER), (2, self.scalar()), (2, self.s.pick(self.recs) if self.recs else STRING)])
                p = PtrT(n, t)
                self.ptrs.append(p)
                out.append(St('typeptr', name=n, target=t.name))
        return out

    def fieldname(self, fields):
        have = {f[0] for f in fields}
        b = self.s.pick(['f', 'x', 'Name', 'val', 'n', 'arr', 'sub'])
        i, n = 1, self.styled(b, 1)
        # a field may have the name of a variable, not that of a type
        while n in have or n in RESERVED or self.style[0] != 'plain' and n in self.used:
            i += 1
            n = self.styled(b, i)
        if self.style[0] != 'plain':
            self.fieldnames.add(n)
        return n

    # ---------------------------------------------------------------- lvalues
    nest = 0

    def index(self, bounds, d):
        self.nest += 1
        try:
            return self.index_(bounds, d)
        finally:
            self.nest -= 1

    def index_(self, bounds, d):
        out = []
        for lo, hi in bounds:
            x = self.s.n(100) if self.nest < 4 else 0
            if x < 60:
                out.append(lit(self.s.int(lo, hi)))
            elif x < 100 - self.c['wild_index']:
                n = hi - lo + 1
                e = self.expr(INTEGER, min(d, 1))
                m = ('bin', 'MOD', ('bin', '+', ('bin', 'MOD', e, lit(n)), lit(n)), lit(n))
                out.append(m if lo == 0 else ('bin', '+', m, lit(lo)))
            else:
                out.append(self.s.pick([lit(lo - 1), lit(hi + 1), lit(hi), self.expr(INTEGER, 1)]))
        return out

    def paths(self, t, write, arrays=False):
        """(info, list of steps) of every visible place of type t; steps are fields, ('i', bounds) and '^'"""
        out = []

        def go(info, ct, b, steps, depth):
            if b is not None:
                if arrays:
                    out.append((info, steps, ct, b))
                go(info, ct, None, steps + [('i', b)], depth)
                return
            if ct is t and not arrays:
                out.append((info, steps))
            if depth <= 0:
                return
            if isinstance(ct, RecT):
                for fn, ft, fb in ct.fields:
                    go(info, ft, fb, steps + [('.', fn)], depth - 1)
            elif isinstance(ct, PtrT) and self.c['deref'] and (wild or info.set and not steps):
                go(info, ct.target, None, steps + ['^'], depth - 1)

        wild = self.c['errors'] and self.s.chance(2)
        for info in self.visible().values():
            if write and (info.prot or info.const) and not (self.c['writeconst'] and info.const and self.s.chance(self.c['writeconst'])):
                continue
            go(info, info.t, info.bounds, [], 3)
        return out

    def build(self, info, steps, d=1):
        ops = []
        for st in steps:
            if st == '^':
                ops.append(('^',))
            elif st[0] == '.':
                ops.append(st)
            else:
                ops.append(('[', self.index(st[1], d)))
        return info.name, ops

    def place(self, t, write=False, d=1, noderef=False):
        ps = self.paths(t, write)
        if noderef:
            ps = [p for p in ps if '^' not in p[1]]
        if not ps:
            return None
        # prefer places without dereference: pointers are often unset
        if any('^' in p[1] for p in ps) and self.s.chance(70):
            q = [p for p in ps if '^' not in p[1]]
            ps = q or ps
        return self.build(*self.s.pick(ps), d=d)

    # ---------------------------------------------------------------- expressions
    def literal(self, t):
        s = self.s
        if t is INTEGER:
            n = s.pick(BIG) if s.chance(3) else s.pick(INTS)
            return ('neg', ('int', n)) if s.chance(15) else ('int', n)
        if t is REAL:
            r = ('real', s.pick(REALS))
            return ('neg', r) if s.chance(15) else r
        if t is BOOLEAN:
            return ('bool', bool(s.n(2)))
        if t is STRING:
            return ('str', s.pick(STRS))
        if t is CHAR:
            return ('char', s.pick(CHARS))
        if t is DATE:
            return ('date', s.int(1, 28), s.int(1, 12), s.int(1900, 2100))
        if isinstance(t, EnumT):
            return ('var', (s.pick(t.names), []))
        return None

    def expr(self, t, d):
        s = self.s
        if d <= 0 or s.chance(25):
            if not isinstance(t, (RecT, PtrT)) and s.chance(45):
                return self.literal(t)
            p = self.place(t, d=0)
            if p is not None:
                return ('var', p)
            l = self.literal(t)
            if l is not None:
                return l
            return ('var', (self.missing(t), []))
        if self.c['errors'] and s.n(1000) < self.c['errors']:
            # a value of some other type
            t = s.pick([INTEGER, REAL, BOOLEAN, STRING, CHAR])
        f = self.fncall(t, d)
        if f is not None:
            return f
        if s.chance(4):
            return ('paren', self.expr(t, d - 1))
        if t is INTEGER:
            x = s.n(12)
            if x < 6:
                op = s.weighted([(4, '+'), (3, '-'), (2, '*')])
                return ('bin', op, self.expr(t, d - 1), self.expr(t, d - 1))
            if x < 8:
                op = s.pick(['DIV', 'MOD'])
                den = lit(s.pick([2, 3, 5, 7, 10])) if not s.chance(5) else self.expr(t, 0)
                if s.chance(20):
                    return ('fn2', op, self.expr(t, d - 1), den)
                return ('bin', op, self.expr(t, d - 1), den)
            if x == 8:
                return ('neg', self.expr(t, d - 1))
            if x == 9:
                return ('call', 'LENGTH', [self.expr(STRING, d - 1)])
            if x == 10:
                if self.c['dates'] and s.chance(40):
                    return ('call', s.pick(['DAY', 'MONTH', 'YEAR', 'DAYINDEX']), [self.datex(d - 1)])
                return ('call', 'ASC', [self.expr(CHAR, d - 1)])
            if self.c['casts'] and s.chance(40):
                return ('cast', 'INTEGER', ('str', s.pick(['12', '0', '345'])))
            return ('call', 'INT', [self.expr(REAL, d - 1)])
        if t is REAL:
            x = s.n(8)
            if x < 5:
                op = s.pick(['+', '-', '*'])
                a, b = (REAL, REAL) if x < 2 else (REAL, INTEGER) if x < 4 else (INTEGER, REAL)
                return ('bin', op, self.expr(a, d - 1), self.expr(b, d - 1))
            if x == 5:
                return ('bin', '/', self.expr(s.pick([INTEGER, REAL]), d - 1), lit(s.pick([2, 4, 8, 16])))
            if x == 6:
                return ('neg', self.expr(t, d - 1))
            if self.c['casts']:
                return ('cast', 'REAL', self.expr(INTEGER, d - 1))
            return self.literal(t)
        if t is BOOLEAN:
            x = s.n(12)
            if x < 3:
                return ('bin', s.pick(['AND', 'OR']), self.expr(t, d - 1), self.expr(t, d - 1))
            if x < 5:
                return ('not', self.expr(t, d - 1))
            a = s.weighted([(6, INTEGER), (2, REAL), (2, CHAR), (2, STRING), (1, BOOLEAN)] + ([(1, DATE)] if self.c['dates'] else [])
                           + ([(2, s.pick(self.enums))] if self.enums else []))
            b = a
            if a is INTEGER and s.chance(15):
                b = REAL
            if a in (STRING, BOOLEAN) or isinstance(a, EnumT):
                op = s.pick(['=', '<>'])
            else:
                op = s.pick(['=', '<>', '<', '<=', '>', '>='])
            mk = self.datex if a is DATE else None
            return ('bin', op, mk(d - 1) if mk else self.expr(a, d - 1), mk(d - 1) if mk else self.expr(b, d - 1))
        if t is STRING:
            x = s.n(10)
            if x < 5:
                return ('bin', '&', self.expr(s.weighted([(5, STRING), (2, INTEGER), (1, CHAR), (1, BOOLEAN), (1, REAL)]), d - 1),
                        self.expr(s.weighted([(5, STRING), (2, INTEGER), (1, CHAR)]), d - 1))
            if x < 7:
                return ('call', s.pick(['LEFT', 'RIGHT']), [('str', s.pick(['abcdef', 'xyz'])), lit(s.int(0, 3 if not s.chance(8) else 7))])
            if x == 7:
                return ('call', 'MID', [('str', 'pseudocode'), lit(s.int(1, 5)), lit(s.int(0, 5))])
            if x == 8:
                return ('call', s.pick(['TO_UPPER', 'TO_LOWER']), [self.expr(STRING, d - 1)])
            return ('call', 'NUM_TO_STR', [self.expr(REAL, d - 1)])
        if t is CHAR:
            x = s.n(4)
            if x < 2:
                return ('call', s.pick(['UCASE', 'LCASE']), [self.expr(CHAR, d - 1)])
            if x == 2:
                return ('call', 'CHR', [lit(s.int(32, 126))])
            return self.literal(t)
        if t is DATE:
            if s.chance(30):
                return ('call', 'SETDATE', [lit(s.int(1, 28)), lit(s.int(1, 12)), lit(s.int(1900, 2100))])
            return self.literal(t)
        if isinstance(t, EnumT):
            e = self.expr(t, 0)
            return ('bin', s.pick(['+', '-']), e, lit(s.int(0, 9)) if s.chance(70) else self.expr(INTEGER, d - 1))
        p = self.place(t, d=1)
        return ('var', p) if p is not None else ('var', (self.missing(t), []))

    def datex(self, d):
        """a DATE expression that is never an unset variable"""
        if self.s.chance(30):
            return ('call', 'SETDATE', [lit(self.s.int(1, 28)), lit(self.s.int(1, 12)), lit(self.s.int(1900, 2100))])
        return self.literal(DATE)

    def missing(self, t):
        return 'undefined1'

    def callable(self, rtype):
        out = []
        vis = self.visible().values()
        for p in self.procs:
            if p.rtype is not rtype:
                continue
            if any(r and not any(i.t is t and i.bounds is None and not i.prot and not i.const for i in vis) for _, t, r in p.params):
                continue
            if p.depth is not None:
                if self.cur is None or self.cur.depth is not None or p in self.defs_done:
                    if self.cur is None and p not in self.defs_done:
                        continue
                    if self.cur is not None and self.cur.depth is None and p not in self.defs_done:
                        continue
                    out.append(p)
            elif p in self.defs_done and p is not self.cur:
                out.append(p)
        return out

    def args(self, sig, d):
        s = self.s
        out = []
        for i, (n, t, ref) in enumerate(sig.params):
            if i == sig.depth:
                if self.cur is not None and self.cur.depth is not None:
                    out.append(('bin', '-', ('var', (self.cur.params[self.cur.depth][0], [])), lit(1)))
                else:
                    out.append(lit(s.int(0, 3)))
                continue
            if ref:
                p = self.place(t, write=True, d=0)
                if p is None or s.n(3000) < self.c['errors']:
                    e = self.literal(t)
                    out.append(e if e is not None and not isinstance(t, EnumT) else ('var', (self.missing(t), [])))
                else:
                    out.append(('var', p))
            else:
                x = s.n(100)
                if t is REAL and x < 25:
                    out.append(self.expr(INTEGER, d))
                elif t is STRING and x < 25:
                    out.append(self.expr(CHAR, d))
                elif t is CHAR and x < 25:
                    out.append(('str', s.pick(['a', '#', '"'])))
                else:
                    out.append(self.expr(t, d))
        if s.n(1500) < self.c['errors']:
            if out and s.chance(50):
                out.pop()
            else:
                out.append(lit(1))
        return out

    def fncall(self, t, d):
        if not self.c['procs'] or d < 1 or not self.s.chance(18):
            return None
        fs = self.callable(t)
        if not fs:
            return None
        f = self.s.pick(fs)
        return ('call', f.name, self.args(f, d - 1))

    # ---------------------------------------------------------------- statements
    def init(self, info):
        """an assignment giving a fresh variable some value"""
        return St('assign', lv=(info.name, []), e=self.expr(info.t, 1))

    def maybe_init(self, i):
        if i.bounds is not None or isinstance(i.t, RecT):
            return []
        if isinstance(i.t, PtrT):
            st = self.ptrassign(i.t, (i.name, []), True) if self.s.chance(90) else None
            if st is not None and st.k == 'ptrassign':
                i.set = True
                return [st]
            return []
        return [self.init(i)] if self.s.chance(60) else []

    def declare(self, t=None, array=None):
        s = self.s
        t = t or self.anytype()
        if array is None:
            array = self.c['arrays'] and s.chance(25)
        b = self.bounds() if array else None
        names = [self.newname()]
        if s.chance(15):
            names.append(self.newname())
        for n in names:
            self.add(Info(n, t, b))
        return St('declare', names=names, type=t.name, bounds=None if b is None else [(lit(x), lit(y)) for x, y in b])

    def newname(self):
        """a fresh name; inside a procedure sometimes one that hides a global"""
        if self.locals is not None and self.s.chance(30):
            c = [n for n, i in self.globals.items() if n not in self.locals and not i.prot and not i.const]
            if c:
                return self.s.pick(c)
        return self.local()

    def output(self):
        s = self.s
        es = []
        for _ in range(s.weighted([(5, 1), (3, 2), (2, 3)])):
            t = self.scalar()
            e = self.datex(1) if t is DATE else self.expr(t, self.c['exprdepth'] - 1)
            es.append(e)
        return St('output', es=es, word=s.pick(['OUTPUT', 'OUTPUT', 'OUTPUT', 'PRINT']))

    def show(self):
        """outputs the value of some place"""
        t = self.scalar()
        if t is DATE:
            t = INTEGER
        p = self.place(t)
        return St('output', es=[('str', '%s=' % (p[0] if p else '?')), ('var', p)]) if p else self.output()

    def assign(self):
        s = self.s
        t = self.anytype()
        x = s.n(20)
        if x == 0 and self.c['implicit']:
            n = self.local()
            st = St('assign', lv=(n, []), e=self.expr(t if not isinstance(t, (RecT, PtrT)) else INTEGER, 2))
            self.add(Info(n, t if not isinstance(t, (RecT, PtrT)) else INTEGER))
            return st
        if x == 1 and self.c['arrays']:
            arrs = self.paths(None, True, arrays=True)
            if arrs:
                a = s.pick(arrs)
                same = [b for b in arrs if b[2] is a[2] and b[3] == a[3]]
                b = s.pick(same) if not s.chance(10) else s.pick(arrs)
                return St('assign', lv=self.build(a[0], a[1], 0), e=('var', self.build(b[0], b[1], 0)))
        lv = self.place(t, write=True)
        if lv is None:
            return self.show()
        e = None
        if t is REAL and s.chance(30):
            e = self.expr(INTEGER, 2)
        elif t is STRING and s.chance(20):
            e = self.expr(CHAR, 1)
        elif t is CHAR and s.chance(20):
            e = ('str', s.pick(['a', '#', '"', 'xy' if self.c['errors'] and s.chance(5) else 'q']))
        elif s.n(800) < self.c['errors']:
            e = self.expr(self.scalar(), 1)
        if e is None:
            if isinstance(t, PtrT):
                return self.ptrassign(t, lv)
            e = self.expr(t, self.c['exprdepth'])
        return St('assign', lv=lv, e=e)

    def ptrassign(self, t, lv, force=False):
        if force or self.s.chance(75):
            tt = t.target if not self.s.n(300) < self.c['errors'] else self.scalar()
            to = None
            if self.locals is not None and lv[0] not in self.locals and not (self.c['errors'] and self.s.chance(8)):
                # a global pointer mostly gets a global target
                loc, self.locals = self.locals, {}
                to = self.place(tt, write=True)
                self.locals = loc
                if to is not None and to[0] in loc:
                    to = None
                if to is None:
                    return St('assign', lv=lv, e=('var', lv))
            else:
                to = self.place(tt, write=True)
            if to is not None:
                return St('ptrassign', lv=lv, to=to)
        p = self.place(t)
        return St('assign', lv=lv, e=('var', p or lv))

    def input(self):
        s = self.s
        t = s.weighted([(3, STRING), (4, INTEGER), (2, REAL), (2, CHAR), (1, BOOLEAN if self.c['boolinput'] else STRING)])
        lv = self.place(t, write=True)
        if lv is None or s.chance(10) and self.c['implicit']:
            if not self.c['implicit']:
                return self.show()
            n = self.local()
            self.add(Info(n, STRING))
            lv = (n, [])
            t = STRING
        # input statements run in another order than they are generated, so most lines suit every type
        self.stdin.append(str(s.n(10)) if s.chance(75) else {STRING: ['', 'some text', ' x ', '12'], INTEGER: ['5', '-3', 'abc', '007'], REAL: ['2.5', '-1', 'bcd', '10.5'],
                           CHAR: ['c', 'Z', ' '], BOOLEAN: ['TRUE', 'FALSE']}[t][s.n(3 if t is CHAR else 2 if t is BOOLEAN else 4)])
        return St('input', lv=lv, word=s.pick(['INPUT', 'INPUT', 'READ']))

    def block(self, depth, n=None, minimum=1):
        out = []
        d = self.globals if self.locals is None else self.locals
        names, const = list(d), n is None
        for _ in range(n if n is not None else self.s.int(minimum, 3)):
            out += self.statement(depth)
            if self.budget <= 0:
                break
        if const:
            # what the block declares may never come into existence
            for x in [x for x in d if x not in names]:
                del d[x]
        if not out:
            out = [self.show()]
        return out

    def cond(self):
        if self.s.n(600) < self.c['errors']:
            return self.expr(INTEGER, 1)
        return self.expr(BOOLEAN, 2)

    def counter(self):
        n = self.local('c')
        self.add(Info(n, INTEGER, prot=True))
        self.counters.add(n)
        return n

    def bump(self, c):
        return St('assign', lv=(c, []), e=('bin', '+', ('var', (c, [])), lit(1)))

    def statement(self, depth):
        s = self.s
        self.budget -= 1
        x = s.n(100)
        c = self.c
        if c['morecalls'] and s.chance(c['morecalls']):
            x = 49
        if depth > 0:
            if x < 12:
                return [self.ifst(depth)]
            if x < 17:
                return self.casest(depth)
            if x < 22:
                return self.whilest(depth)
            if x < 27:
                return self.repeatst(depth)
            if x < 35:
                return [self.forst(depth)]
        if x < 42 and self.loop and c['breaks']:
            k = s.pick(['break', 'continue'])
            if s.chance(85) and depth > 0:
                return [St('if', arms=[(self.cond(), [St(k)])], els=None)]
            return [St(k)]
        if x < 42 and c['stray'] and s.chance(c['stray']) and c['breaks']:
            return [St(s.pick(['break', 'continue']))]
        if x < 50 and c['procs']:
            ps = self.callable(None)
            if ps:
                p = s.pick(ps)
                a = self.args(p, 1)
                return [St('call', name=p.name, args=a, parens=s.chance(50))]
        if x < 54 and c['inputs']:
            return [self.input()]
        if x < 60 and depth == c['depth'] and self.loop == 0:
            d = self.declare()
            out = [d]
            for n in d.names:
                out += self.maybe_init(self.visible()[n])
            return out
        if x < 61 and c['consts'] and depth == c['depth'] and self.loop == 0:
            return [self.const()]
        if x < 63 and self.cur is not None and self.cur.rtype is not None and depth < c['depth']:
            return [self.ret()]
        if x < 64 and c['bareexpr'] and depth == c['depth']:
            return [St('expr', e=self.expr(self.s.pick([INTEGER, STRING, REAL, BOOLEAN]), 2))]
        if x < 80:
            return [self.output() if s.chance(60) else self.show()]
        return [self.assign()]

    def const(self):
        s = self.s
        t = s.pick([INTEGER, REAL, BOOLEAN, CHAR, STRING])
        n = self.fresh('K')
        e = self.literal(t)
        st = St('const', name=n, e=e, eq=s.pick(['=', '<-']))
        self.add(Info(n, t, const=True))
        return st

    def ifst(self, depth):
        s = self.s
        arms = [(self.cond(), self.block(depth - 1))]
        if self.c['elseif']:
            while s.chance(30) and len(arms) < 4:
                arms.append((self.cond(), self.block(depth - 1)))
        els = self.block(depth - 1) if s.chance(45) else None
        return St('if', arms=arms, els=els)

    def casest(self, depth):
        s = self.s
        t = s.weighted([(6, INTEGER), (2, CHAR), (2, STRING), (1, REAL), (1, BOOLEAN)] + ([(2, s.pick(self.enums))] if self.enums else []))
        cands = [i for i in self.visible().values() if i.t is t and i.bounds is None]
        pre = []
        if not cands or s.chance(30):
            if depth != self.c['depth'] or self.loop:
                if not cands:
                    return [self.show()]
            else:
                n = self.local()
                pre = [St('declare', names=[n], type=t.name, bounds=None)]
                self.add(Info(n, t))
                pre.append(St('assign', lv=(n, []), e=self.expr(t, 2)))
                cands = [self.visible()[n]]
        i = s.pick(cands)
        clauses = []
        for _ in range(s.int(1, 4)):
            if t in (INTEGER, REAL) and s.chance(40):
                a = self.literal(INTEGER) if s.chance(80) else self.expr(INTEGER, 1)
                b = ('bin', '+', a, lit(s.int(0, 12))) if s.chance(70) else self.literal(INTEGER)
                clauses.append((a, b, self.caseblock(depth - 1)))
            else:
                a = self.literal(t) if s.chance(75) else self.expr(t, 1)
                clauses.append((a, None, self.caseblock(depth - 1)))
        els = self.caseblock(depth - 1) if s.chance(60) else None
        return pre + [St('case', name=i.name, clauses=clauses, els=els)]

    def caseblock(self, depth):
        # a line with ':' other than DECLARE would start a new clause
        return [x for x in self.block(depth, minimum=0) if x.k not in ('proc', 'func', 'typerec', 'case')] or [self.show()]

    def whilest(self, depth):
        s = self.s
        c = self.counter()
        self.loop += 1
        k = s.int(0, 4)
        lim = ('bin', '<', ('var', (c, [])), lit(k))
        cond = lim if s.chance(40) else ('bin', 'AND', lim, self.cond())
        body = [self.bump(c)] + self.block(depth - 1)
        self.loop -= 1
        return [St('assign' if self.c['implicit'] and s.chance(40) else 'declare', lv=(c, []), e=lit(0), names=[c], type='INTEGER', bounds=None)
                if self.loop == 0 and depth == self.c['depth'] else St('assign', lv=(c, []), e=lit(0))] + \
            [St('while', c=cond, body=body, do=not s.chance(10))]

    def repeatst(self, depth):
        s = self.s
        c = self.counter()
        self.loop += 1
        k = s.int(1, 4)
        lim = ('bin', '>=', ('var', (c, [])), lit(k))
        cond = lim if s.chance(40) else ('bin', 'OR', lim, self.cond())
        body = [self.bump(c)] + self.block(depth - 1)
        self.loop -= 1
        return [St('assign', lv=(c, []), e=lit(0)), St('repeat', c=cond, body=body)]

    def forst(self, depth):
        s = self.s
        n = self.local('i')
        self.add(Info(n, INTEGER, prot=True))
        self.loop += 1
        a = lit(s.int(-2, 5)) if s.chance(75) else self.small()
        b = lit(s.int(-2, 6)) if s.chance(75) else self.small()
        step = None
        if s.chance(40):
            step = lit(s.pick([1, 2, 3, -1, -2]))
            if s.chance(25):
                # one that differs between two executions of the loop
                v = self.small()
                sq = ('bin', '*', ('paren', v), ('paren', v))
                step = s.pick([('bin', '+', ('bin', 'MOD', ('paren', sq), lit(3)), lit(1)), ('bin', '-', lit(-1), ('bin', 'MOD', ('paren', sq), lit(2))), ('bin', '-', ('bin', '*', ('bin', 'MOD', ('paren', sq), lit(2)), lit(2)), lit(1))])
        body = self.block(depth - 1)
        self.loop -= 1
        return St('for', name=n, a=a, b=b, step=step, body=body, nextname=s.chance(70))

    def small(self):
        return ('bin', 'MOD', self.expr(INTEGER, 1), lit(self.s.int(2, 5)))

    def ret(self):
        t = self.cur.rtype
        if self.s.n(300) < self.c['errors']:
            return St('return', e=self.expr(self.scalar(), 1))
        if t is REAL and self.s.chance(25):
            return St('return', e=self.expr(INTEGER, 1))
        return St('return', e=self.datex(1) if t is DATE else self.expr(t, 2))

    # ---------------------------------------------------------------- procedures
    def signature(self):
        s = self.s
        func = s.chance(55)
        name = self.fresh(s.pick(['Do', 'calc', 'P', 'fn_', 'Swap']))
        params = []
        depth = None
        self.sig = name
        for i in range(s.n(4)):
            t = self.anytype()
            params.append((self.local(s.pick(['p', 'arg', 'n']), [p[0] for p in params]) if not s.chance(15) else self.hide(params), t, s.chance(45)))
        if self.c['recursion'] and s.chance(45):
            depth = s.n(len(params) + 1)
            params.insert(depth, (self.local('d', [p[0] for p in params]), INTEGER, False))
        self.sig = None
        rt = None
        if func:
            rt = s.pick(self.recs) if self.recs and s.chance(15) else self.scalar()
        return Sig(name, params, rt, depth)

    def hide(self, params):
        c = [n for n, i in self.globals.items() if not i.prot and n not in [p[0] for p in params]]
        return self.s.pick(c) if c else self.fresh('p')

    def define(self, sig):
        s = self.s
        self.locals, self.cur = {}, sig
        save, self.loop = self.loop, 0
        mode = False
        wp = []
        for n, t, ref in sig.params:
            self.locals[n] = Info(n, t, prot=(len(wp) == sig.depth))
            w = None
            if ref != mode:
                w = 'BYREF' if ref else 'BYVAL'
            elif s.chance(20):
                w = 'BYREF' if ref else 'BYVAL'
            mode = ref
            wp.append([n, t.name, w, False])
        for i in range(len(wp) - 1):
            if sig.params[i][1] is sig.params[i + 1][1] and s.chance(40):
                wp[i][3] = True
        body = []
        if sig.depth is not None:
            base = [self.ret()] if sig.rtype is not None else [St('output', es=[('str', 'base')])]
            guard = ('bin', '<=', ('var', (sig.params[sig.depth][0], [])), lit(0))
            rest = self.block(self.c['depth'], n=s.int(1, 4))
            if sig.rtype is not None:
                body = [St('if', arms=[(guard, base)], els=None)] + rest
            else:
                body = [St('if', arms=[(guard, base)], els=rest)]
        else:
            body = self.block(self.c['depth'], n=s.int(1, 4))
        if sig.rtype is not None and not s.n(100) < self.c['errors'] // 2:
            body.append(self.ret())
        self.locals, self.cur, self.loop = None, None, save
        self.defs_done.append(sig)
        k = 'func' if sig.rtype is not None else 'proc'
        return St(k, name=sig.name, params=[tuple(p) for p in wp], rtype=sig.rtype.name if sig.rtype is not None else None, body=body,
                  parens=s.chance(30))

    # ---------------------------------------------------------------- programs
    def program(self):
        s = self.s
        self.budget = 10 ** 6
        out = self.typedefs()
        out += [self.const() for _ in range(self.c['minconsts'])]
        for _ in range(s.int(1, 5)):
            d = self.declare()
            out.append(d)
            for n in d.names:
                out += self.maybe_init(self.globals[n])
        for t in self.recs + [p.target for p in self.ptrs if not isinstance(p.target, RecT)] + self.ptrs:
            # every type has a global variable
            if not any(i.t is t and i.bounds is None for i in self.globals.values()):
                d = self.declare(t, False)
                out.append(d)
                for n in d.names:
                    out += self.maybe_init(self.globals[n])
        if self.c['procs']:
            for _ in range(max(self.c['minprocs'], s.n(4))):
                self.procs.append(self.signature())
            self.budget = self.c['size']
            for sig in list(self.procs):
                self.budget = self.c['size'] // 2
                out.append(self.define(sig))
        self.budget = self.c['size']
        while self.budget > 0:
            out += self.statement(self.c['depth'])
        for _ in range(s.n(3)):
            out.append(self.show())
        return out


def lit(n):
    return ('int', n) if n >= 0 else ('neg', ('int', -n))
