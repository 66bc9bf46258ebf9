"""Abstract syntax, printer and reference interpreter for the pseudocode language.

Written from Syntax.md, grammar.txt and the property texts, independently of the C++ sources.
Whatever those leave open raises Unspec, and the case is not judged."""
import copy as _copy
import math
import re

# ------------------------------------------------------------------ types and values


class Prim:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


INTEGER, REAL, BOOLEAN, CHAR, STRING, DATE = [Prim(n) for n in ('INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE')]
PRIMS = {t.name: t for t in (INTEGER, REAL, BOOLEAN, CHAR, STRING, DATE)}


class EnumT:
    def __init__(self, name, names):
        self.name, self.names = name, names

    def __repr__(self):
        return 'enum ' + self.name


class PtrT:
    def __init__(self, name, target):
        self.name, self.target = name, target

    def __repr__(self):
        return 'pointer ' + self.name


class RecT:
    """fields: list of (name, type, None | bounds)"""
    def __init__(self, name, fields):
        self.name = name
        self.set(fields)

    def set(self, fields):
        self.fields = fields
        self.open = any(isinstance(f[1], str) for f in fields)

    def __repr__(self):
        return 'record ' + self.name


class Act:
    """An activation (main program or one call)."""
    def __init__(self, name, kind, rtype=None):
        self.name, self.kind, self.rtype = name, kind, rtype
        self.vars, self.arrs, self.types = {}, {}, {}
        self.alive = True
        self.cur = None


class Cell:
    __slots__ = ('t', 'v', 'const', 'act', 'name')

    def __init__(self, t, v, act, const=False, name=''):
        self.t, self.v, self.act, self.const, self.name = t, v, act, const, name


class Arr:
    __slots__ = ('t', 'bounds', 'cells', 'act', 'name')

    def __init__(self, t, bounds, act, name=''):
        self.t, self.bounds, self.act, self.name = t, bounds, act, name
        self.cells = {}

    def at(self, idx):
        c = self.cells.get(idx)
        if c is None:
            c = self.cells[idx] = Cell(self.t, default(self.t, self.act), self.act, name='%s[%s]' % (self.name, idx))
        return c

    def tuples(self):
        out = [()]
        for lo, hi in self.bounds:
            out = [x + (i,) for x in out for i in range(lo, hi + 1)]
        return out

    def copy_from(self, o):
        for k in list(self.cells):
            if k not in o.cells:
                store(self.cells[k], default(self.t, self.act))
        for k, c in o.cells.items():
            store(self.at(k), copy(self.t, c.v))


class Rec:
    __slots__ = ('t', 'f', 'act')

    def __init__(self, t, act):
        self.t, self.act = t, act
        self.f = {}
        if t.open:
            raise Unspec('a field of undefined type')
        for n, ft, b in t.fields:
            self.f[n] = Cell(ft, default(ft, act), act, name=n) if b is None else Arr(ft, b, act, n)


class Ptr:
    __slots__ = ('cell',)

    def __init__(self, cell=None):
        self.cell = cell


ZERO = {INTEGER: 0, REAL: 0.0, BOOLEAN: False, CHAR: '\0', STRING: '', DATE: None}


def default(t, act):
    if isinstance(t, Prim):
        return ZERO[t]
    if isinstance(t, EnumT):
        return 0
    if isinstance(t, PtrT):
        return Ptr()
    return Rec(t, act)


def copy(t, v, act=None):
    """An independent copy of a value."""
    if isinstance(t, PtrT):
        return Ptr(v.cell)
    if isinstance(t, RecT):
        r = Rec(t, act if act is not None else v.act)
        rec_into(r, v)
        return r
    return v


def rec_into(dst, src):
    for n, ft, b in src.t.fields:
        if b is None:
            store(dst.f[n], copy(ft, src.f[n].v))
        else:
            dst.f[n].copy_from(src.f[n])


def store(cell, v):
    """Replaces the value of a cell; fields and elements keep their identity."""
    if isinstance(cell.t, RecT):
        if v is not cell.v:
            rec_into(cell.v, v)
    elif isinstance(cell.t, PtrT):
        cell.v = Ptr(v.cell)
    else:
        cell.v = v


class Unspec(Exception):
    """The program reaches behaviour the properties and documents leave open."""


class RtErr(Exception):
    """A runtime error: the lines of each active frame, innermost first (sets of acceptable lines)."""
    def __init__(self, why, chain):
        super().__init__(why)
        self.why, self.chain = why, chain


class Pedantic(Exception):
    def __init__(self, line):
        self.line = line


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, val):
        self.val = val


INT_MIN, INT_MAX = -(1 << 63), (1 << 63) - 1


def chk_int(n):
    if not INT_MIN <= n <= INT_MAX:
        raise Unspec('integer overflow')
    return n


def chk_real(x):
    if math.isinf(x) or math.isnan(x):
        raise Unspec('real overflow')
    return x


def fmt_real(x):
    """OUTPUT form of a REAL"""
    s = '%.10g' % x
    if x == math.floor(x):
        s += '.0'
    return s


def real_text(x):
    """text form of a REAL: at most 6 decimals"""
    s = '%.6f' % x
    s = s.rstrip('0')
    return s[:-1] if s.endswith('.') else s


def fmt_date(d):
    return '%d/%d/%d' % d


def out_text(t, v):
    if t is INTEGER:
        return str(v)
    if t is REAL:
        return fmt_real(v)
    if t is BOOLEAN:
        return 'TRUE' if v else 'FALSE'
    if t is CHAR or t is STRING:
        return v
    if t is DATE:
        if v is None:
            raise Unspec('default DATE')
        return fmt_date(v)
    if isinstance(t, EnumT):
        return t.names[v]
    return t.name + ' object'


def echo_text(t, v, interp=None):
    if t is CHAR:
        return "'%s'" % v
    if t is STRING:
        return '"%s"' % v
    if isinstance(t, EnumT):
        return '%s: %s' % (t.name, t.names[v])
    if isinstance(t, PtrT):
        raise Unspec('pointer echo')
    return out_text(t, v)


def cat_text(t, v):
    if t is REAL:
        return real_text(v)
    if isinstance(t, Prim):
        return out_text(t, v)
    return None


def valid_date(d, m, y):
    if not (1 <= m <= 12 and 1 <= d):
        return False
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    return d <= (31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[m - 1]


# ------------------------------------------------------------------ statements


class St:
    def __init__(self, k, **kw):
        self.k = k
        self.line = 0
        self.sub = []
        self.__dict__.update(kw)

    def __repr__(self):
        return 'St(%s)' % ', '.join('%s=%r' % i for i in self.__dict__.items() if i[0] not in ('line', 'sub'))


# ------------------------------------------------------------------ printer

ESC = {'\n': '\\n', '\t': '\\t', '"': '\\"', "'": "\\'", '\\': '\\\\'}


def str_lit(s):
    return '"' + ''.join(ESC[c] if c in '\n"\\' else c for c in s) + '"'


def char_lit(c):
    return "'" + (ESC[c] if c in "\n'\\" else c) + "'"


LV = {'AND': 10, 'OR': 10, '=': 20, '<>': 20, '<': 20, '<=': 20, '>': 20, '>=': 20, '&': 30, '+': 40, '-': 40,
      '*': 50, '/': 50, 'DIV': 50, 'MOD': 50}


# The rounding direction of DIV and MOD on negative operands is outside the properties (only the laws of C02 bind it):
# the engine asks the build under test once which of the three usual conventions it has.
ROUND = ['trunc']


def divmod_int(a, b):
    q, r = divmod(a, b)
    if ROUND[0] == 'trunc' and r != 0 and (a < 0) != (b < 0):
        q, r = q + 1, r - b
    elif ROUND[0] == 'euclid' and r < 0:
        q, r = q + 1, r - b
    return q, r


def probe_rounding(run):
    r = run('OUTPUT -7 DIV 2, " ", -7 MOD 2\nOUTPUT 7 DIV -2, " ", 7 MOD -2\nOUTPUT -7 DIV -2, " ", -7 MOD -2\n')
    got = r.out.decode('latin-1').split('\n')[:3]
    for m in ('trunc', 'floor', 'euclid'):
        ROUND[0] = m
        if got == ['%d %d' % divmod_int(a, b) for a, b in ((-7, 2), (7, -2), (-7, -2))]:
            return
    ROUND[0] = 'trunc'


def has_call(e):
    if isinstance(e, tuple):
        if e and e[0] == 'call' and e[1] not in BUILTINS:
            return True
        return any(has_call(x) for x in e)
    return isinstance(e, list) and any(has_call(x) for x in e)


def level(e):
    k = e[0]
    if k == 'bin':
        return LV[e[1]]
    if k == 'not':
        return 15
    if k == 'neg':
        return 60
    return 70


def etoks(e, req=0):
    """tokens of an expression in a position that needs at least precedence req"""
    k = e[0]
    if level(e) < req:
        return ['('] + etoks(e) + [')']
    if k == 'int':
        return [str(e[1])]
    if k == 'real':
        return [e[1]]
    if k == 'bool':
        return ['TRUE' if e[1] else 'FALSE']
    if k == 'char':
        return [char_lit(e[1])]
    if k == 'str':
        return [str_lit(e[1])]
    if k == 'date':
        return ['%d/%d/%d' % e[1:]]
    if k == 'lit':
        return [e[1]]
    if k == 'var':
        return lvtoks(e[1])
    if k == 'neg':
        return ['-'] + etoks(e[1], 70)
    if k == 'not':
        return ['NOT'] + etoks(e[1], 15)
    if k == 'paren':
        return ['('] + etoks(e[1]) + [')']
    if k == 'bin':
        lv = LV[e[1]]
        # AND and OR are never mixed without parentheses
        other = lv == 10 and e[2][0] == 'bin' and LV[e[2][1]] == 10 and e[2][1] != e[1]
        return etoks(e[2], 71 if other else lv) + [e[1]] + etoks(e[3], lv + 1)
    if k == 'call' or k == 'cast':
        return [e[1], '('] + commas([etoks(a) for a in (e[2] if k == 'call' else [e[2]])]) + [')']
    if k == 'fn2':
        return [e[1], '('] + etoks(e[2]) + [','] + etoks(e[3]) + [')']
    raise ValueError(k)


def commas(parts):
    out = []
    for i, p in enumerate(parts):
        if i:
            out.append(',')
        out += p
    return out


def lvtoks(lv):
    out = [lv[0]]
    for op in lv[1]:
        if op[0] == '.':
            out += ['.', op[1]]
        elif op[0] == '^':
            out.append('^')
        else:
            out += ['['] + commas([etoks(i, 40) for i in op[1]]) + [']']
    return out


def ptoks(params):
    """params: list of (name, type, written mode or None, join) ; join=True shares the type of the next one"""
    out = ['(']
    for i, p in enumerate(params):
        if i:
            out.append(',')
        if p[2]:
            out.append(p[2])
        out.append(p[0])
        if not (len(p) > 3 and p[3]):
            out += [':', p[1]]
    return out + [')']


class Line:
    __slots__ = ('ind', 'toks', 'st', 'kind')

    def __init__(self, ind, toks, st=None, kind='stmt'):
        self.ind, self.toks, self.st, self.kind = ind, toks, st, kind


def lines_of(stmts, ind=0, out=None):
    """The program as lines of tokens.  Line.st/kind tie a line to its statement."""
    if out is None:
        out = []

    def add(toks, st=None, kind='stmt'):
        out.append(Line(ind, toks, st, kind))

    for s in stmts:
        k = s.k
        if k == 'declare':
            t = ['DECLARE'] + commas([[n] for n in s.names]) + [':']
            if s.bounds is not None:
                t += ['ARRAY', '['] + commas([etoks(a, 40) + [':'] + etoks(b, 40) for a, b in s.bounds]) + [']', 'OF']
            add(t + [s.type], s)
        elif k == 'const':
            add(['CONSTANT', s.name, s.eq] + etoks(s.e), s)
        elif k == 'assign':
            add(lvtoks(s.lv) + ['<-'] + etoks(s.e), s)
        elif k == 'ptrassign':
            add(lvtoks(s.lv) + ['<-', '^'] + lvtoks(s.to), s)
        elif k == 'output':
            add([getattr(s, 'word', 'OUTPUT')] + commas([etoks(e) for e in s.es]), s)
        elif k == 'input':
            add([getattr(s, 'word', 'INPUT')] + lvtoks(s.lv), s)
        elif k == 'expr':
            add(etoks(s.e), s)
        elif k == 'if':
            for i, (c, b) in enumerate(s.arms):
                own = getattr(s, 'own', False)
                add((['IF'] if i == 0 else ['ELSE', 'IF']) + etoks(c) + ([] if own else ['THEN']), s, 'stmt' if i == 0 else 'sub')
                if own:
                    add(['THEN'], s, 'part')
                lines_of(b, ind + 1, out)
            if s.els is not None:
                add(['ELSE'], s, 'part')
                lines_of(s.els, ind + 1, out)
            add(['ENDIF'], s, 'part')
        elif k == 'case':
            add(['CASE', 'OF', s.name], s)
            for a, b, body in s.clauses:
                t = etoks(a)
                if b is not None:
                    t = t + ['TO'] + etoks(b)
                out.append(Line(ind + 1, t + [':'], s, 'sub'))
                lines_of(body, ind + 2, out)
            if s.els is not None:
                out.append(Line(ind + 1, ['OTHERWISE', ':'], s, 'part'))
                lines_of(s.els, ind + 2, out)
            add(['ENDCASE'], s, 'part')
        elif k == 'while':
            do = getattr(s, 'do', True)
            add(['WHILE'] + etoks(s.c) + (['DO'] if do is True else []), s)
            if do == 'line':
                add(['DO'], s, 'part')
            lines_of(s.body, ind + 1, out)
            add(['ENDWHILE'], s, 'part')
        elif k == 'repeat':
            add(['REPEAT'], s)
            lines_of(s.body, ind + 1, out)
            add(['UNTIL'] + etoks(s.c), s, 'sub')
        elif k == 'for':
            t = ['FOR', s.name, '<-'] + etoks(s.a, 40) + ['TO'] + etoks(s.b, 40)
            if s.step is not None:
                t += ['STEP'] + etoks(s.step, 40)
            add(t, s)
            lines_of(s.body, ind + 1, out)
            add(['NEXT'] + ([s.name] if s.nextname else []), s, 'part')
        elif k == 'call':
            t = ['CALL', s.name]
            if s.args or s.parens:
                t += ['('] + commas([etoks(a) for a in s.args]) + [')']
            add(t, s)
        elif k == 'return':
            add(['RETURN'] + etoks(s.e), s)
        elif k in ('break', 'continue'):
            add([k.upper()], s)
        elif k == 'typeenum':
            add(['TYPE', s.name, '=', '('] + commas([[n] for n in s.names]) + [')'], s)
        elif k == 'typeptr':
            add(['TYPE', s.name, '=', '^', s.target], s)
        elif k == 'typerec':
            add(['TYPE', s.name], s)
            lines_of(s.body, ind + 1, out)
            add(['ENDTYPE'], s, 'part')
        elif k in ('proc', 'func'):
            w = 'PROCEDURE' if k == 'proc' else 'FUNCTION'
            t = [w, s.name]
            if s.params or getattr(s, 'parens', False):
                t += ptoks(s.params)
            if k == 'func':
                t += ['RETURNS', s.rtype]
            add(t, s)
            lines_of(s.body, ind + 1, out)
            add(['END' + w], s, 'part')
        elif k == 'open':
            add(['OPENFILE'] + etoks(s.f, 30) + ['FOR', s.mode], s)
        elif k == 'readfile':
            add(['READFILE'] + etoks(s.f, 30) + [',', s.name], s)
        elif k == 'writefile':
            add(['WRITEFILE'] + etoks(s.f, 30) + [','] + etoks(s.e), s)
        elif k == 'closefile':
            add(['CLOSEFILE'] + etoks(s.f, 30), s)
        elif k == 'seek':
            add(['SEEK'] + etoks(s.f, 30) + [','] + etoks(s.e), s)
        elif k in ('getrecord', 'putrecord'):
            add([k.upper()] + etoks(s.f, 30) + [',', s.name], s)
        elif k == 'raw':
            for i, l in enumerate(s.text.split('\n')):
                add([l], s, 'stmt' if i == 0 else 'part')
        elif k == 'seq':
            lines_of(s.body, ind, out)
        else:
            raise ValueError(k)
    return out


NOSPACE_BEFORE = {',', ')', ']', '.'}
NOSPACE_AFTER = {'(', '[', '.'}
IO_WORDS = {'OUTPUT', 'PRINT', 'INPUT', 'READ', 'OPENFILE', 'READFILE', 'WRITEFILE', 'CLOSEFILE', 'SEEK', 'GETRECORD',
            'PUTRECORD'}
WORD = re.compile(r'[A-Za-z][A-Za-z0-9_]*$')
OPWORDS = {'AND', 'OR', 'NOT', 'DIV', 'MOD', 'TO', 'STEP', 'OF', 'IF', 'WHILE', 'UNTIL', 'RETURN', 'THEN', 'DO', 'FOR'}


def join(toks):
    """One line in the usual layout."""
    s = ''
    prev = None
    for t in toks:
        if prev is None:
            s = t
        elif t in NOSPACE_BEFORE or prev in NOSPACE_AFTER:
            s += t
        elif t == '^' and prev != '<-' and prev != '=':
            s += t
        elif t == '[' or t == '(' and WORD.match(prev) and prev not in IO_WORDS and prev not in OPWORDS:
            s += t
        elif t == ':' and prev != ':':
            s += ' ' + t
        else:
            s += ' ' + t
        prev = t
    return s


def number_lines(lines, linenos=None):
    """Records in each statement the line number of its parts."""
    for i, l in enumerate(lines):
        n = i + 1 if linenos is None else linenos[i]
        if l.st is None:
            continue
        if l.kind == 'stmt':
            l.st.line = n
            l.st.sub = []
        elif l.kind == 'sub':
            l.st.sub.append(n)


def render(stmts, indent='    '):
    lines = lines_of(stmts)
    number_lines(lines)
    return ''.join(indent * l.ind + join(l.toks) + '\n' for l in lines)


def walk(stmts):
    """All statements, depth first."""
    for s in stmts:
        yield s
        k = s.k
        if k == 'if':
            for _, b in s.arms:
                yield from walk(b)
            if s.els is not None:
                yield from walk(s.els)
        elif k == 'case':
            for _, _, b in s.clauses:
                yield from walk(b)
            if s.els is not None:
                yield from walk(s.els)
        elif k in ('while', 'repeat', 'for', 'proc', 'func', 'typerec', 'seq'):
            yield from walk(s.body)


def unshare(stmts, seen=None):
    """The statements with every statement that occurs twice copied, so that each occurrence has its own line."""
    if seen is None:
        seen = set()
    out = []
    for s in stmts:
        if id(s) in seen:
            s = _copy.copy(s)
            s.sub = []
        seen.add(id(s))
        k = s.k
        if k == 'if':
            s.arms = [(c, unshare(b, seen)) for c, b in s.arms]
            s.els = None if s.els is None else unshare(s.els, seen)
        elif k == 'case':
            s.clauses = [(a, b, unshare(c, seen)) for a, b, c in s.clauses]
            s.els = None if s.els is None else unshare(s.els, seen)
        elif k in ('while', 'repeat', 'for', 'proc', 'func', 'typerec', 'seq'):
            s.body = unshare(s.body, seen)
        out.append(s)
    return out


# ------------------------------------------------------------------ reference interpreter

class Proc:
    def __init__(self, st, params, rtype):
        self.st, self.params, self.rtype = st, params, rtype


def sticky(params):
    """(name, type, byref) with the passing mode carried over until changed"""
    out, mode = [], 'BYVAL'
    for p in params:
        if p[2]:
            mode = p[2]
        out.append((p[0], p[1], mode == 'BYREF'))
    # 'a, b : T' gives T to both
    for i in range(len(params) - 2, -1, -1):
        if len(params[i]) > 3 and params[i][3]:
            out[i] = (out[i][0], out[i + 1][1], out[i][2])
    return out


def has_any_call(e):
    return isinstance(e, (tuple, list)) and (len(e) > 0 and e[0] == 'call' or any(has_any_call(x) for x in e))


class Interp:
    MAX_STEPS = 4000
    MAX_DEPTH = 60

    def __init__(self, stdin=(), pedantic=False, echo=False):
        self.out = []
        self.g = Act('Program', 'main')
        self.stack = [self.g]
        self.procs, self.funcs = {}, {}
        self.stdin, self.inpos = list(stdin), 0
        self.outlen = 0
        self.steps = 0
        self.pedantic, self.echo = pedantic, echo
        self.cov = set()

    # -------- names
    @property
    def act(self):
        return self.stack[-1]

    def err(self, why):
        raise RtErr(why, [a.cur for a in reversed(self.stack)])

    def find(self, name):
        for a in (self.act, self.g):
            if name in a.vars:
                return a.vars[name]
            if name in a.arrs:
                return a.arrs[name]
        return None

    def find_type(self, name):
        if name in PRIMS:
            return PRIMS[name]
        for a in (self.act, self.g):
            if name in a.types:
                return a.types[name]
        return None

    def type(self, name):
        t = self.find_type(name)
        if t is None:
            self.err('undefined type')
        return t

    def enum_elem(self, name):
        for a in (self.act, self.g):
            for t in a.types.values():
                if isinstance(t, EnumT) and name in t.names:
                    return t, t.names.index(name)
        return None

    # -------- lvalues
    def resolve(self, lv):
        h = self.find(lv[0])
        if h is None:
            return None
        for op in lv[1]:
            if op[0] == '.':
                if isinstance(h, Arr) or not isinstance(h.t, RecT):
                    self.err('not a record')
                f = h.v.f.get(op[1])
                if f is None:
                    self.err('no such field')
                h = f
            elif op[0] == '^':
                if isinstance(h, Arr) or not isinstance(h.t, PtrT):
                    self.err('not a pointer')
                c = h.v.cell
                if c is None:
                    self.err('pointer not set')
                if not c.act.alive:
                    self.cov.add('dead pointer')
                    self.err('dead pointer')
                h = c
            else:
                if not isinstance(h, Arr):
                    self.err('not an array')
                if len(op[1]) != len(h.bounds):
                    self.err('number of indices')
                idx = []
                for e, (lo, hi) in zip(op[1], h.bounds):
                    t, v = self.ev(e)
                    if t is not INTEGER:
                        self.err('index type')
                    if not lo <= v <= hi:
                        self.err('index out of bounds')
                    idx.append(v)
                h = h.at(tuple(idx))
        return h

    # -------- expressions
    def ev(self, e):
        self.tick()
        k = e[0]
        if k == 'int':
            return INTEGER, chk_int(e[1])
        if k == 'real':
            return REAL, float(e[1])
        if k == 'bool':
            return BOOLEAN, e[1]
        if k == 'char':
            return CHAR, e[1]
        if k == 'str':
            return STRING, e[1]
        if k == 'date':
            if not valid_date(*e[1:]):
                self.err('invalid date')
            return DATE, e[1:]
        if k == 'var':
            h = self.resolve(e[1])
            if h is None:
                if not e[1][1]:
                    x = self.enum_elem(e[1][0])
                    if x:
                        return x
                self.err('undefined')
            if isinstance(h, Arr):
                self.err('array used as a value')
            return h.t, copy(h.t, h.v)
        if k == 'paren':
            return self.ev(e[1])
        if k == 'neg':
            t, v = self.ev(e[1])
            if t is INTEGER:
                return t, chk_int(-v)
            if t is REAL:
                return t, -v
            self.err('operand type')
        if k == 'not':
            t, v = self.ev(e[1])
            if t is not BOOLEAN:
                self.err('operand type')
            return t, not v
        if k == 'bin' or k == 'fn2':
            return self.binop(e[1], e[2], e[3])
        if k == 'call':
            return self.callfn(e[1], e[2])
        if k == 'cast':
            return self.cast(PRIMS[e[1]], e[2])
        raise ValueError(k)

    def tick(self):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Unspec('too many steps')

    def binop(self, op, ea, eb):
        ta, a = self.ev(ea)
        if op == 'AND' or op == 'OR':
            if op == 'AND' and ta is BOOLEAN and not a:
                # whether the right operand is evaluated is left open: it must not matter
                self.cov.add('short circuit')
                if has_call(eb):
                    raise Unspec('FALSE AND call')
                try:
                    if self.ev(eb)[0] is not BOOLEAN:
                        raise Unspec('FALSE AND non-BOOLEAN')
                except RtErr:
                    raise Unspec('FALSE AND error')
                return BOOLEAN, False
            tb, b = self.ev(eb)
            if ta is not BOOLEAN or tb is not BOOLEAN:
                self.err('operand type')
            return BOOLEAN, (a and b) if op == 'AND' else (a or b)
        tb, b = self.ev(eb)
        if ta is None or tb is None:
            self.err('no value')
        num = (ta is INTEGER or ta is REAL) and (tb is INTEGER or tb is REAL)
        if op in ('=', '<>', '<', '<=', '>', '>='):
            return BOOLEAN, self.compare(op, ta, a, tb, b, num)
        if op == '&':
            x, y = cat_text(ta, a), cat_text(tb, b)
            if x is None or y is None:
                self.err('operand type')
            if len(x) + len(y) > 60000:
                raise Unspec('string length')
            return STRING, x + y
        if op in '+-' and (isinstance(ta, EnumT) and tb is INTEGER):
            return ta, (a + b if op == '+' else a - b) % len(ta.names)
        if op in '+-' and (ta is INTEGER and isinstance(tb, EnumT)):
            if op == '-':
                raise Unspec('INTEGER - enum')
            return tb, (a + b) % len(tb.names)
        if not num:
            self.err('operand type')
        ints = ta is INTEGER and tb is INTEGER
        if not ints and op != '/' and op != 'DIV' and op != 'MOD':
            a, b = float(a), float(b)
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '*':
            r = a * b
        else:
            if b == 0:
                self.err('division by zero')
            if op == '/':
                return REAL, chk_real(float(a) / float(b))
            if (a < 0 or b < 0) and not ints and (op == 'DIV' or op == 'MOD') and a % b != 0:
                raise Unspec('rounding of DIV/MOD')
            if op == 'DIV':
                if ints:
                    return INTEGER, chk_int(divmod_int(a, b)[0])
                q = math.floor(float(a) / float(b))
                return INTEGER, chk_int(q)
            if ints:
                return INTEGER, divmod_int(a, b)[1]
            raise Unspec('REAL MOD')
        if ints:
            return INTEGER, chk_int(r)
        return REAL, chk_real(r)

    def compare(self, op, ta, a, tb, b, num):
        eq = op in ('=', '<>')
        if num:
            if ta is not tb:
                a, b = float(a), float(b)
        elif ta is tb and ta is CHAR:
            if not eq and (ord(a) > 127 or ord(b) > 127):
                raise Unspec('order of non-ASCII characters')
        elif ta is tb and ta is DATE:
            if a is None or b is None:
                raise Unspec('default DATE')
            a, b = a[::-1], b[::-1]
        elif not eq:
            self.err('operand type')
        elif ta is not tb:
            raise Unspec('= of different types')
        elif isinstance(ta, (PtrT, RecT)):
            self.err('operand type')
        if op == '=':
            return a == b
        if op == '<>':
            return a != b
        if op == '<':
            return a < b
        if op == '<=':
            return a <= b
        if op == '>':
            return a > b
        return a >= b

    def cast(self, t, e):
        if self.pedantic:
            raise Unspec('pedantic cast is a parse error')
        st, v = self.ev(e)
        if st is t:
            return st, v
        if not isinstance(st, Prim):
            self.err('cast of non-primitive')
        if t is STRING:
            return STRING, cat_text(st, v)
        if t is INTEGER:
            if st is REAL:
                if not -2.0 ** 62 < v < 2.0 ** 62:
                    raise Unspec('REAL to INTEGER range')
                return INTEGER, int(v)
            if st is CHAR:
                if ord(v) > 127:
                    raise Unspec('code of a non-ASCII character')
                return INTEGER, ord(v)
            if st is BOOLEAN:
                return INTEGER, int(v)
            if st is STRING and re.fullmatch(r'[0-9]+', v):
                return INTEGER, chk_int(int(v))
            if st is STRING and not ANY_NOTATION.fullmatch(v):
                return INTEGER, 0
        if t is REAL:
            if st is INTEGER:
                return REAL, float(v)
            if st is STRING:
                return _str2num(v)
        raise Unspec('cast %s to %s' % (st, t))

    # -------- stores
    def convert(self, t, st, v):
        """implicit conversion for a store; None if impossible"""
        if t is st:
            return v,
        if t is REAL and st is INTEGER:
            return float(v),
        if t is CHAR and st is STRING and len(v) == 1:
            return v,
        if t is STRING and st is CHAR:
            return v,
        return None

    def assign(self, cell, st, v):
        if cell.const:
            self.err('constant')
        c = self.convert(cell.t, st, v)
        if c is None:
            self.err('incompatible types')
        store(cell, c[0])

    # -------- calls
    def bind(self, p, args):
        vals = []
        for i, a in enumerate(args):
            if i < len(p.params) and p.params[i][2] and a[0] == 'var':
                h = self.resolve(a[1])
                if h is None:
                    self.err('undefined')
                if isinstance(h, Arr):
                    self.err('array argument')
                vals.append(('ref', h))
            else:
                vals.append(('val',) + self.ev(a))
        if len(vals) != len(p.params):
            self.err('number of arguments')
        a = Act(p.st.name, p.st.k, p.rtype)
        for (n, t, ref), v in zip(p.params, vals):
            if ref:
                if v[0] != 'ref':
                    self.err('BYREF argument is not a variable')
                if v[1].t is not t:
                    self.err('argument type')
                a.vars[n] = v[1]
            else:
                if v[0] == 'ref':
                    raise ValueError
                c = self.convert(t, v[1], v[2])
                if c is None:
                    self.err('argument type')
                a.vars[n] = Cell(t, copy(t, c[0], a), a, name=n)
        return a

    def invoke(self, p, args):
        a = self.bind(p, args)
        if len(self.stack) >= self.MAX_DEPTH:
            raise Unspec('call depth')
        self.stack.append(a)
        self.cov.add('depth %d' % min(len(self.stack), 5))
        a.cur = frozenset([p.st.line])
        try:
            self.block(p.st.body)
            if p.st.k == 'func':
                a.cur = None
                self.err('missing RETURN')
            return None
        except _Return as r:
            return r.val
        except (_Break, _Continue):
            self.err('stray BREAK/CONTINUE')
        finally:
            self.stack.pop()
            a.alive = False

    def callfn(self, name, args):
        f = self.funcs.get(name)
        if f is not None:
            return self.invoke(f, args)
        b = BUILTINS.get(name)
        if b is None:
            self.err('undefined function')
        types, fn = b
        vals = [self.ev(a) for a in args]
        if len(vals) != len(types):
            self.err('number of arguments')
        vs = []
        for t, (st, v) in zip(types, vals):
            c = self.convert(t, st, v)
            if c is None:
                self.err('argument type')
            vs.append(c[0])
        r = fn(*vs)
        if r is None:
            self.err('built-in argument')
        return r

    # -------- statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def cond(self, e, at):
        self.act.cur = at
        t, v = self.ev(e)
        if t is not BOOLEAN:
            self.err('condition type')
        return v

    def stmt(self, s):
        self.tick()
        a = self.act
        a.cur = here = frozenset([s.line])
        k = s.k
        if k == 'assign':
            self.do_assign(s)
        elif k == 'output':
            for e in s.es:
                t, v = self.ev(e)
                x = out_text(t, v)
                self.outlen += len(x)
                self.out.append(x)
            if self.outlen > 1000000:
                raise Unspec('amount of output')
            self.out.append('\n')
        elif k == 'if':
            for i, (c, b) in enumerate(s.arms):
                at = here if i == 0 else frozenset([s.line, s.sub[i - 1]])
                if self.cond(c, at):
                    self.cov.add('if arm %d' % min(i, 3))
                    self.block(b)
                    return
            if s.els is not None:
                self.cov.add('else')
                self.block(s.els)
        elif k == 'case':
            h = self.find(s.name)
            if h is None or isinstance(h, Arr):
                raise Unspec('CASE OF something else')
            t, v = h.t, copy(h.t, h.v)
            for i, (x, y, b) in enumerate(s.clauses):
                a.cur = frozenset([s.line, s.sub[i]])
                if self.case_match(t, v, x, y):
                    self.cov.add('case clause %d%s' % (min(i, 3), '' if y is None else ' range'))
                    self.block(b)
                    return
            if s.els is not None:
                self.cov.add('otherwise')
                self.block(s.els)
        elif k == 'while':
            n = 0
            while True:
                self.tick()
                if not self.cond(s.c, here):
                    break
                n += 1
                try:
                    self.block(s.body)
                except _Break:
                    self.cov.add('break')
                    break
                except _Continue:
                    self.cov.add('continue')
            self.cov.add('while %s' % ('0' if n == 0 else '1' if n == 1 else 'n'))
        elif k == 'repeat':
            at = frozenset([s.line, s.sub[0]])
            n = 0
            while True:
                self.tick()
                n += 1
                try:
                    self.block(s.body)
                except _Break:
                    self.cov.add('break')
                    break
                except _Continue:
                    self.cov.add('continue')
                if self.cond(s.c, at):
                    break
            self.cov.add('repeat %s' % ('1' if n == 1 else 'n'))
        elif k == 'for':
            self.do_for(s, here)
        elif k == 'call':
            p = self.procs.get(s.name)
            if p is None:
                self.err('undefined procedure')
            self.invoke(p, s.args)
        elif k == 'return':
            if a.kind != 'func':
                self.err('RETURN outside a function')
            t, v = self.ev(s.e)
            c = self.convert(a.rtype, t, v)
            if c is None:
                self.err('return type')
            raise _Return((a.rtype, c[0]))
        elif k == 'break':
            raise _Break()
        elif k == 'continue':
            raise _Continue()
        elif k == 'expr':
            r = self.ev(s.e)
            if self.echo and r is not None:
                self.out.append(echo_text(*r) + '\n')
        elif k == 'declare':
            self.do_declare(s)
        elif k == 'const':
            t, v = self.ev(s.e)
            if s.name in a.vars:
                self.err('redeclaration')
            a.vars[s.name] = Cell(t, v, a, True, s.name)
        elif k == 'ptrassign':
            h, to = self.resolve(s.lv), self.resolve(s.to)
            if h is None or to is None:
                self.err('undefined')
            if isinstance(h, Arr) or isinstance(to, Arr):
                self.err('array')
            if not isinstance(h.t, PtrT):
                self.err('not a pointer')
            if h.t.target is not to.t:
                self.err('pointer target type')
            h.v = Ptr(to)
        elif k == 'input':
            self.do_input(s)
        elif k == 'typeenum':
            self.new_type(s, EnumT(s.name, list(s.names)))
        elif k == 'typeptr':
            self.new_type(s, PtrT(s.name, self.type(s.target)))
        elif k == 'typerec':
            fields = []
            for d in s.body:
                b = None
                if d.bounds is not None:
                    b = [(self.const_int(x), self.const_int(y)) for x, y in d.bounds]
                for n in d.names:
                    fields.append((n, self.find_type(d.type) or d.type, b))
            self.new_type(s, RecT(s.name, fields))
        elif k in ('proc', 'func'):
            d = self.procs if k == 'proc' else self.funcs
            if s.name in d or k == 'func' and s.name in BUILTINS:
                self.err('redefinition')
            rt = self.type(s.rtype) if k == 'func' else None
            d[s.name] = Proc(s, [(n, self.type(t), r) for n, t, r in sticky(s.params)], rt)
        elif k == 'seq':
            self.block(s.body)
        elif k == 'raw' and all(not l.strip() or l.lstrip().startswith('//') for l in s.text.split('\n')):
            pass
        else:
            self.file_stmt(s)

    def file_stmt(self, s):
        raise Unspec('file statement')

    def const_int(self, e):
        t, v = self.ev(e)
        if t is not INTEGER:
            self.err('bound type')
        return v

    def new_type(self, s, t):
        if s.name in self.act.types:
            self.err('redefinition')
        self.act.types[s.name] = t
        # a field's type can be defined after the record type (a list node holding a pointer to the next node)
        for r in self.act.types.values():
            if isinstance(r, RecT) and r.open:
                r.set([(n, self.find_type(ft) or ft if isinstance(ft, str) else ft, b) for n, ft, b in r.fields])

    def do_declare(self, s):
        a = self.act
        if s.bounds is not None:
            for n in s.names:
                if n in a.arrs:
                    self.err('redeclaration')
            bs = []
            size = 1
            for x, y in s.bounds:
                lo, hi = self.const_int(x), self.const_int(y)
                if hi < lo:
                    self.err('bounds')
                bs.append((lo, hi))
                size *= hi - lo + 1
            if size > 20000:
                raise Unspec('array size')
            t = self.type(s.type)
            for n in s.names:
                a.arrs[n] = Arr(t, bs, a, n)
            return
        for n in s.names:
            if n in a.vars:
                self.err('redeclaration')
            t = self.type(s.type)
            a.vars[n] = Cell(t, default(t, a), a, name=n)

    def do_assign(self, s):
        if s.e[0] == 'var':
            self.tick()
            src = self.resolve(s.e[1])
            if isinstance(src, Arr):
                dst = self.resolve(s.lv)
                if dst is None or not isinstance(dst, Arr):
                    self.err('array to non-array')
                if dst.t is not src.t or dst.bounds != src.bounds:
                    self.err('array shape')
                if dst is not src:
                    dst.copy_from(src)
                self.cov.add('array copied')
                return
            if src is None:
                x = None if s.e[1][1] else self.enum_elem(s.e[1][0])
                if x is None:
                    self.err('undefined')
                t, v = x
            else:
                t, v = src.t, copy(src.t, src.v)
        else:
            t, v = self.ev(s.e)
        h = self.resolve(s.lv)
        if h is None:
            if s.lv[1]:
                self.err('undefined')
            if self.enum_elem(s.lv[0]):
                self.err('enum element')
            if self.pedantic:
                raise Pedantic(s.line)
            a = self.act
            h = a.vars[s.lv[0]] = Cell(t, default(t, a), a, name=s.lv[0])
        if isinstance(h, Arr):
            self.err('array without indices')
        self.assign(h, t, v)

    def do_input(self, s):
        h = self.resolve(s.lv)
        if isinstance(h, Arr):
            self.err('array')
        if h is None:
            if s.lv[1]:
                self.err('undefined')
            if self.enum_elem(s.lv[0]):
                self.err('enum element')
            if self.pedantic:
                raise Pedantic(s.line)
            a = self.act
            h = a.vars[s.lv[0]] = Cell(STRING, '', a, name=s.lv[0])
        if h.const:
            self.err('constant')
        if not isinstance(h.t, Prim) or h.t is DATE:
            # whether the line is consumed is left open
            self.err('input type')
        line = ''
        if self.inpos < len(self.stdin):
            line = self.stdin[self.inpos]
            self.inpos += 1
        h.v = self.input_value(h.t, line)

    def input_value(self, t, line):
        if t is STRING:
            return line
        if t is CHAR:
            if len(line) != 1:
                self.err('not one character')
            return line
        if t is BOOLEAN:
            if line not in ('TRUE', 'FALSE'):
                raise Unspec('BOOLEAN input')
            return line == 'TRUE'
        if t is INTEGER:
            if re.fullmatch(r'-?[0-9]{1,18}', line):
                return int(line)
            if re.fullmatch(r'[A-Za-z]*', line):
                return 0
            raise Unspec('INTEGER input')
        if re.fullmatch(r'-?[0-9]{1,15}(\.[0-9]{0,15})?', line):
            return float(line)
        if re.fullmatch(r'[b-hj-mo-zB-HJ-MO-Z]*', line):
            return 0.0
        raise Unspec('REAL input')

    def do_for(self, s, here):
        a = self.act
        h = None
        for f in (a, self.g):
            if s.name in f.vars:
                h = f.vars[s.name]
                break
        if h is None:
            if self.find(s.name) is not None:
                raise Unspec('array iterator')
            h = a.vars[s.name] = Cell(INTEGER, 0, a, name=s.name)
        if h.const:
            self.err('constant')
        if h.t is not INTEGER:
            self.err('iterator type')
        vals = []
        for e in (s.a, s.b) + ((s.step,) if s.step is not None else ()):
            t, v = self.ev(e)
            if t is not INTEGER:
                self.err('FOR value type')
            vals.append(v)
        start, stop, step = vals if len(vals) == 3 else vals + [1]
        if step == 0:
            raise Unspec('STEP 0')
        h.v = start
        n = 0
        while (h.v <= stop) if step > 0 else (h.v >= stop):
            self.tick()
            n += 1
            try:
                self.block(s.body)
            except _Break:
                self.cov.add('break')
                break
            except _Continue:
                self.cov.add('continue')
            h.v = chk_int(h.v + step)
        self.cov.add('for %s%s' % ('0' if n == 0 else '1' if n == 1 else 'n', ' down' if step < 0 else ''))

    def case_match(self, t, v, x, y):
        if y is None:
            tx, vx = self.ev(x)
            if t is tx or {t, tx} <= {INTEGER, REAL}:
                if isinstance(t, (PtrT, RecT)):
                    raise Unspec('CASE type')
                return v == vx
            raise Unspec('CASE value of another type')
        if t not in (INTEGER, REAL):
            raise Unspec('CASE range type')
        lo = self.ev(x)
        if lo[0] not in (INTEGER, REAL) and has_any_call(y):
            raise Unspec('whether the other bound is evaluated')
        hi = self.ev(y)
        if lo[0] not in (INTEGER, REAL) or hi[0] not in (INTEGER, REAL):
            self.err('CASE range type')
        return lo[1] <= v <= hi[1]

    # -------- whole programs
    def main(self, stmts):
        """-> ('ok', None) | ('runtime', RtErr) | ('pedantic', line)"""
        try:
            self.block(stmts)
            return 'ok', None
        except (_Break, _Continue):
            e = RtErr('stray BREAK/CONTINUE', [self.g.cur])
            return 'runtime', e
        except RtErr as e:
            return 'runtime', e
        except Pedantic as e:
            return 'pedantic', e

    def text(self):
        return ''.join(self.out)


def _sub(s, i, n):
    return STRING, s[i:i + n]


def _left(s, n):
    return (STRING, s[:n]) if 0 <= n <= len(s) else None


def _right(s, n):
    return (STRING, s[len(s) - n:]) if 0 <= n <= len(s) else None


def _mid(s, x, y):
    if y == 0 and x == len(s) + 1:
        raise Unspec('MID after the end')
    if x < 1 or y < 0 or x > len(s) or x - 1 + y > len(s):
        return None
    return STRING, s[x - 1:x - 1 + y]


def ascii_up(s):
    if any(ord(c) > 127 for c in s):
        raise Unspec('case of non-ASCII')
    return s.upper()


def ascii_low(s):
    if any(ord(c) > 127 for c in s):
        raise Unspec('case of non-ASCII')
    return s.lower()


def _asc(c):
    if ord(c) > 127:
        raise Unspec('ASC of non-ASCII')
    return INTEGER, ord(c)


def _chr(n):
    if not 0 <= n <= 127:
        raise Unspec('CHR range')
    return CHAR, chr(n)


def _setdate(d, m, y):
    if not 1 <= y <= 9999:
        raise Unspec('year')
    return (DATE, (d, m, y)) if valid_date(d, m, y) else None


def weekday(d, m, y):
    """1 = Sunday .. 7 = Saturday"""
    if m < 3:
        m += 12
        y -= 1
    h = (d + 13 * (m + 1) // 5 + y + y // 4 - y // 100 + y // 400) % 7   # 0 = Saturday
    return 7 if h == 0 else h


def _floor(x):
    if not -2.0 ** 62 < x < 2.0 ** 62:
        raise Unspec('INT range')
    return INTEGER, math.floor(x)


NUMERAL = re.compile(r'[0-9]+\.?[0-9]*|\.[0-9]+')
# texts some notation reads as a number: signs, exponents, hexadecimal, infinity, not-a-number, surrounding blanks
ANY_NOTATION = re.compile(r'[ \t\n\v\f\r]*[-+]?([0-9]+\.?[0-9]*([eEpP][-+]?[0-9]+)?|\.[0-9]+([eEpP][-+]?[0-9]+)?|0[xX][0-9a-fA-F]*\.?[0-9a-fA-F]*([pP][-+]?[0-9]+)?|'
                          r'inf(inity)?|nan(\([0-9A-Za-z_]*\))?|0[bB][01]+|0[oO][0-7]+)[fFlLdD]?[ \t\n\v\f\r]*|[0-9][0-9,_\']*[0-9]', re.I)


def _str2num(s):
    m = s[1:] if s.startswith('-') else s
    if NUMERAL.fullmatch(m):
        if len(m.replace('.', '').strip('0')) > 15 or len(m) > 200 or m is not s and float(m) == 0:
            raise Unspec('numeral beyond the precision of REAL')
        return REAL, float(s)
    if ANY_NOTATION.fullmatch(s):
        raise Unspec('numeral in another notation')
    return REAL, 0.0


def _is_num(s):
    if NUMERAL.fullmatch(s):
        return BOOLEAN, True
    if s in ('', '.') or ANY_NOTATION.fullmatch(s):
        raise Unspec('IS_NUM of another notation')
    return BOOLEAN, False


def _need(f):
    def g(d):
        if d is None:
            raise Unspec('default DATE')
        return f(d)
    return g


BUILTINS = {
    'LENGTH': ((STRING,), lambda s: (INTEGER, len(s))),
    'LEFT': ((STRING, INTEGER), _left),
    'RIGHT': ((STRING, INTEGER), _right),
    'MID': ((STRING, INTEGER, INTEGER), _mid),
    'TO_UPPER': ((STRING,), lambda s: (STRING, ascii_up(s))),
    'TO_LOWER': ((STRING,), lambda s: (STRING, ascii_low(s))),
    'NUM_TO_STR': ((REAL,), lambda x: (STRING, real_text(x))),
    'LCASE': ((CHAR,), lambda c: (CHAR, ascii_low(c))),
    'UCASE': ((CHAR,), lambda c: (CHAR, ascii_up(c))),
    'ASC': ((CHAR,), _asc),
    'CHR': ((INTEGER,), _chr),
    'DAY': ((DATE,), _need(lambda d: (INTEGER, d[0]))),
    'MONTH': ((DATE,), _need(lambda d: (INTEGER, d[1]))),
    'YEAR': ((DATE,), _need(lambda d: (INTEGER, d[2]))),
    'DAYINDEX': ((DATE,), _need(lambda d: (INTEGER, weekday(*d)))),
    'SETDATE': ((INTEGER, INTEGER, INTEGER), _setdate),
    'INT': ((REAL,), _floor),
    'STR_TO_NUM': ((STRING,), _str2num),
    'IS_NUM': ((STRING,), _is_num),
}
OTHER_BUILTINS = ('TODAY TIME HOURS MINUTES SECONDS POW EXP SIN COS TAN ASIN ACOS ATAN ATAN2 SQRT '
                  'LOG LN RAND EOF').split()


# ------------------------------------------------------------------ observing the interpreter

class Obs:
    """kind: ok | runtime | syntax | pedantic | crash ; chain: lines of the traceback, innermost first"""
    def __init__(self, r):
        self.r = r
        err = r.err.decode('latin-1')
        self.out = r.out.decode('latin-1')
        self.err = err
        self.chain, self.line = None, None
        self.reports = len(re.findall(r'(?m)^(?:Runtime Error in file |Syntax Error on line |Error\(pedantic\) on line )', err))
        m = re.search(r'(?m)^(Runtime Error in file|Syntax Error on line|Error\(pedantic\) on line|Error on line)', err)
        if r.crashed:
            self.kind = 'crash'
        elif m is None:
            self.kind = 'ok' if r.code == 0 else 'exit1'
        elif m.group(1).startswith('Runtime'):
            self.kind = 'runtime'
            self.chain = parse_chain(err)
            self.line = self.chain[0] if self.chain else None
        else:
            self.kind = 'syntax' if m.group(1).startswith('Syntax') else 'pedantic' if 'pedantic' in m.group(1) else 'error'
            self.line = int(re.match(r' (\d+)', err[m.end():]).group(1))

    def brief(self):
        return 'exit %s%s, %s%s' % (self.r.code, '' if self.r.sig is None else ' signal %d' % self.r.sig, self.kind,
                                    '' if self.chain is None else ' at lines %s' % self.chain)


def parse_chain(err):
    i = err.rfind('\nTraceback:\n')
    if i < 0:
        return []
    out = []
    for l in err[i + 12:].split('\n'):
        m = re.match(r'.*, line (\d+), column (\d+)$', l)
        if m and int(m.group(1)) > 0:
            out.append(int(m.group(1)))
    return out


def chain_ok(model, real):
    if model is None:
        return True
    if len(model) != len(real):
        return False
    return all(m is None or r in m for m, r in zip(model, real))


def strip_err_nl(out):
    return out[:-1] if out.endswith('\n') else out
