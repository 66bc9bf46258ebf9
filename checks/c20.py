"""C20: --pedantic only rejects; it never changes the meaning of an accepted program."""
from vals import *
from gen import Gen
from lang import walk
import os
import zlib
import toks
from catalog import CATALOG
from driver import PROG

VARIANTS = ['plain']
RULE = ('a case is non-trivial when the program ran at least once in each of the three configurations and either printed, wrote a file or ended with an error '
        '(identity), or was rejected because of the construct put into it; distinct by program text')
ASSUMPTIONS = ['assignment through a field, index or dereference of an undeclared name, FOR iterators and READFILE targets are not "assigning to an undeclared variable": they must behave identically',
               'a source that has a syntax error without the option may be refused for either reason with it',
               'the right-hand side of an assignment to an undeclared variable has no effects of its own, so it does not matter whether it is evaluated first',
               'programs that use the random number generator are not compared']
DT = ('INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE')
NAMES_ = {'BREAK': ['break'], 'CONTINUE': ['continue'], 'ELSE IF': ['else if', 'elseif', 'else-if'], 'cast': ['cast'], 'assign': ['assign'], 'input': ['input']}


def statics(text):
    """[(construct, line)] that lexer or parser recognise; None when the text is not made of tokens"""
    r = toks.tokenize(text)
    if r is None:
        return None
    ts = r[0]
    o = []
    for k, t in enumerate(ts):
        n = ts[k + 1].s if k + 1 < len(ts) else ''
        if t.k == 'word':
            if t.s in ('BREAK', 'CONTINUE'):
                o.append((t.s, t.line))
            elif t.s == 'ELSE' and n == 'IF':
                o.append(('ELSE IF', t.line))
            elif t.s in DT and n == '(':
                o.append(('cast', t.line))
    return o


# the program is named in several ways
SPELL = [PROG] * 6 + ['./' + PROG, '.hidden', 'noext', 'two words.txt', 'p', 'DOWN.PSEUDO']


class Runs:
    """one program in the three configurations"""
    def __init__(self, env, text, stdin=b'', files=None, configs=('', '-p', '--pedantic'), path=None):
        path = path or SPELL[zlib.crc32(text.encode('latin-1')) % len(SPELL)]
        self.text, self.stdin, self.before = text, stdin, files or {}
        self.r = {}
        for c in configs:
            def go(s):
                s.fresh()
                for n, d in self.before.items():
                    s.put(n, d)
                s.put(os.path.basename(path), text.encode('latin-1'))
                r = s.run(([c] if c else []) + [path], stdin)
                r.files = s.files()
                r.files.pop(os.path.basename(path), None)
                return r
            self.r[c] = env._go('plain', go)
        env.digest = text
        self.a, self.b = self.r[''], self.r['-p']
        self.oa, self.ob = Obs(self.a), Obs(self.b)
        if env.sample is None:
            env.sample = dict(program=text[:1500], plain=self.oa.brief(), pedantic=self.ob.brief(), stderr=self.ob.err[:200])
        if '--pedantic' in self.r:
            self.same(self.b, self.r['--pedantic'], '-p and --pedantic differ')

    @staticmethod
    def view(r):
        return dict(exit=r.code, signal=r.sig, stdout=r.out, stderr=r.err, files=r.files, consumed=r.consumed)

    def bad(self, msg, **kw):
        raise Fail(msg, '', program=numbered(self.text), stdin=self.stdin, plain=str(self.view(self.a))[:1500], pedantic=str(self.view(self.b))[:1500], **kw)

    def same(self, a, b, msg, **kw):
        x, y = self.view(a), self.view(b)
        for k in x:
            if x[k] != y[k]:
                self.bad(msg + ': ' + k, expected=str(x[k])[:1500], observed=str(y[k])[:1500], **kw)

    def identical(self):
        self.same(self.a, self.b, 'a program without the constructs behaves differently with the option')

    def rejected_static(self, cons):
        """nothing ran, and the diagnostic names a construct of the program"""
        b = self.b
        if self.ob.kind != 'pedantic' or b.code != 1:
            self.bad('a program with %s is not rejected with a pedantic error' % cons)
        if WARN.sub('', self.ob.out).strip('\n') or b.files != self.before or b.consumed:
            self.bad('something ran before the program with %s was rejected' % cons)
        self.named(cons)

    def named(self, cons):
        e = self.ob.err.lower()
        if self.ob.reports != 1:
            self.bad('not exactly one report')
        if not any(l == self.ob.line and any(w in e for w in NAMES_[c]) for c, l in cons):
            self.bad('the pedantic error does not name the construct and its line; present: %s' % cons)


def relation(env, text, stdin=b'', files=None, may=True):
    """What has to hold for any source.  -> (Runs, class)"""
    R = Runs(env, text, stdin, files)
    if R.a.crashed or R.b.crashed:
        if R.a.crashed and R.b.crashed:
            raise Skip('crashes (C01)')
        R.bad('crash in one configuration only')
    st = statics(text)
    if R.oa.kind == 'syntax':
        if R.ob.kind == 'pedantic':
            if WARN.sub('', R.ob.out).strip('\n') or R.b.files != R.before or R.b.code != 1:
                R.bad('something ran before the rejection')
            if not re.search(r'BREAK|CONTINUE|ELSE\s*IF|\b(%s)\b' % '|'.join(DT), text):
                R.bad('pedantic error without a construct')
            return R, 'faulty, pedantic'
        R.identical()
        return R, 'faulty'
    if st is None:
        # text outside the tokenizer's language that runs: only the generic part can be judged
        if R.ob.kind != 'pedantic':
            R.identical()
        return R, 'odd text'
    if st:
        R.rejected_static(st)
        return R, 'static'
    if R.ob.kind == 'pedantic':
        if not may:
            R.bad('a program without the constructs is rejected')
        line = text.split('\n')[R.ob.line - 1] if 0 < R.ob.line <= text.count('\n') + 1 else ''
        if not re.search(r'([A-Za-z][A-Za-z0-9_]*)\s*<-|\b(INPUT|READ)\b', line):
            R.bad('a pedantic error on a line that neither assigns nor inputs')
        if R.b.code != 1 or not R.oa.out.startswith(strip_err_nl(R.ob.out)):
            R.bad('output before the rejection differs')
        return R, 'undeclared'
    R.identical()
    return R, 'identical'


CLEAN = dict(implicit=False, breaks=False, elseif=False, casts=False)


def blocks(stmts, kinds=()):
    """all statement lists of a program, with a description"""
    yield stmts, '/'.join(kinds) or 'main'
    for s in stmts:
        if s.k == 'if':
            for n, (c, b) in enumerate(s.arms):
                yield from blocks(b, kinds + ('if',))
            if s.els is not None:
                yield from blocks(s.els, kinds + ('else',))
        elif s.k == 'case':
            for c in s.clauses:
                yield from blocks(c[2], kinds + ('case',))
            if s.els is not None:
                yield from blocks(s.els, kinds + ('otherwise',))
        elif s.k in ('while', 'repeat', 'for', 'proc', 'func'):
            yield from blocks(s.body, kinds + (s.k,))


def declare_counters(body, counters):
    """loop counters the generator assigns without declaring them"""
    mine = set()
    for b, where in blocks(body):
        if 'proc' in where or 'func' in where:
            continue
        for s in b:
            if s.k == 'assign' and not s.lv[1] and s.lv[0] in counters:
                mine.add(s.lv[0])
    for s in walk(body):
        if s.k == 'declare':
            mine -= set(s.names)
    for s in body:
        if s.k in ('proc', 'func'):
            declare_counters(s.body, counters)
    if mine:
        body.insert(0, decl('INTEGER', *sorted(mine)))


def gen_program(src, clean=True, files=True, **kw):
    c = dict(CLEAN) if clean else {}
    c.update(kw)
    g = Gen(src, errors=src.pick([0, 4, 15]), size=src.pick([6, 12]), **c)
    prog = unshare(g.program())
    if clean and src.chance(90):
        declare_counters(prog, g.counters)
    if files and src.chance(50):
        prog.insert(0, fopen(S('o.txt'), 'WRITE'))
        k = src.int(1, len(prog))
        prog.insert(k, fwrite(S('o.txt'), S('line')))
        k = src.int(k + 1, len(prog))
        prog.insert(k, fwrite(S('o.txt'), S('more')))
        if src.chance(50):
            prog.append(fclose(S('o.txt')))
    return prog, g.stdin


FILES = {'o.txt': b'before\nthe run\n', 'in.txt': b'l1\nl2\n', 'other.txt': b'x'}


# ------------------------------------------------------------------ identity
def clean_case(src, env, i):
    prog, stdin = gen_program(src)
    text = render(prog)
    try:
        m = FInterp(stdin, True, fs={'o.txt': FObj('text', 'before\nthe run\n')})
        kind, _ = m.main(prog)
    except (Unspec, RecursionError):
        kind = None
    R, cl = relation(env, text, to_stdin(stdin).encode('latin-1'), FILES, may=kind in (None, 'pedantic'))
    if kind == 'pedantic' and cl != 'undeclared':
        R.bad('an assignment or INPUT to an undeclared variable is accepted')
    env.mark(cl, R.oa.kind)
    env.nontrivial = bool(R.a.out or R.a.code or R.a.files != FILES)


def implicit_case(src, env, i):
    """programs that may use undeclared variables, against the reference model"""
    prog, stdin = gen_program(src, implicit=True)
    text = render(prog)
    if statics(text):
        raise Skip('static construct')
    fs = {'o.txt': FObj('text', 'before\nthe run\n')}
    try:
        m = FInterp(stdin, True, fs=fs)
        m.kind, m.exc = m.main(prog)
    except (Unspec, RecursionError) as u:
        raise Skip('open: %s' % u)
    R, cl = relation(env, text, to_stdin(stdin).encode('latin-1'), FILES)
    judge_model(R, m, fs, stdin)
    env.mark(m.kind)
    env.nontrivial = True


def judge_model(R, m, fs, stdin=()):
    compare(m, R.ob, R.text, stdin)
    if m.kind == 'pedantic':
        if R.ob.line != m.exc.args[0]:
            R.bad('the pedantic error names another line than the assignment or INPUT', expected=m.exc.args[0])
        if R.b.code != 1:
            R.bad('exit status')
        R.named([('assign', R.ob.line), ('input', R.ob.line)])
    if 'o.txt' in fs and fs['o.txt'].kind == 'text' and R.b.files.get('o.txt', b'').decode('latin-1') != fs['o.txt'].data:
        R.bad('a file differs from the reference', expected=fs['o.txt'].data)


# ------------------------------------------------------------------ one construct at an arbitrary position: recognised before anything runs
def elseif(src):
    arms = [(('bool', False), [out(S('A'))]), (('bool', src.chance(50)), [out(S('B'))])]
    if src.chance(30):
        arms.append((('bool', True), [out(S('C'))]))
    return St('if', arms=arms, els=[out(S('D'))] if src.chance(50) else None)


def caststmt(src):
    t = src.pick(['INTEGER', 'REAL', 'STRING', 'BOOLEAN', 'CHAR'])
    v = {'INTEGER': [S('12'), L(5), ('real', '2.5')], 'REAL': [L(3), S('2.5'), ('real', '1.5')], 'STRING': [L(5), S('s'), ('bool', True)], 'BOOLEAN': [('bool', True)], 'CHAR': [('char', 'a'), S('b')]}[t]
    c = ('cast', t, src.pick(v))
    k = src.n(8)
    if k == 0:
        return out(c)
    if k == 1:
        return out(S('t'), c, S('u'))
    if k == 2:
        return out(('bin', '&', S('t'), c))
    if k == 3:
        return St('if', arms=[(B('=', c, c), [out(S('x'))])], els=None)
    if k == 4:
        return St('while', c=B('<>', c, c), body=[out(S('x'))])
    if k == 5:
        return out(('call', 'LENGTH', [('cast', 'STRING', L(7))]))
    if k == 6:
        return St('repeat', body=[out(S('x'))], c=B('=', ('cast', 'INTEGER', S('1')), L(1)))
    return out(B('+', ('cast', 'INTEGER', S('12')), B('*', L(2), ('cast', 'REAL', L(1)))))


def static_case(src, env, i):
    kind = ['BREAK', 'CONTINUE', 'ELSE IF', 'cast', 'cast token', 'else token'][i % 6]
    prog, stdin = gen_program(src)
    bl = list(blocks(prog))
    where = ''
    if kind in ('BREAK', 'CONTINUE', 'ELSE IF', 'cast'):
        b, where = src.pick(bl)
        st = St(kind.lower()) if kind in ('BREAK', 'CONTINUE') else elseif(src) if kind == 'ELSE IF' else caststmt(src)
        b.insert(src.n(len(b) + 1), st)
        text = render(prog)
    elif kind == 'cast token':
        text = render(prog)
        ts, gaps = toks.tokenize(text)
        cand = [k for k, t in enumerate(ts) if t.k in ('str', 'num', 'chr') or t.s in ('TRUE', 'FALSE')]
        if not cand:
            raise Skip('no literal')
        k = src.pick(cand)
        t = ts[k]
        c = {'str': 'STRING', 'chr': 'CHAR', 'num': 'REAL' if '.' in t.s else 'INTEGER'}.get(t.k, 'BOOLEAN')
        t.s = c + src.pick(['(', ' (', '( ']) + t.s + src.pick([')', ' )'])
        text = ''.join(g + t.s for g, t in zip(gaps, ts)) + gaps[-1]
        kind = 'cast'
    else:
        # an ELSE branch that starts with an IF becomes ELSE IF
        ifs = [s for s in walk(prog) if s.k == 'if' and s.els is not None]
        if not ifs:
            raise Skip('no ELSE')
        s = src.pick(ifs)
        s.arms.append((src.pick([('bool', True), ('bool', False), B('<', L(1), L(2))]), s.els))
        if src.chance(50):
            s.els = None
        text = render(prog)
        kind = 'ELSE IF'
    if kind == 'ELSE IF' and src.chance(40):
        text = text.replace('ELSE IF', src.pick(['ELSE  IF', 'ELSE\tIF', 'ELSE \t  IF']))
    # sources with a syntax error are not programs
    R = Runs(env, text, to_stdin(stdin).encode('latin-1'), FILES)
    if R.oa.kind == 'syntax':
        raise Skip('syntax error')
    if R.a.crashed:
        raise Skip('crashes (C01)')
    st = statics(text)
    assert st and all(c == kind for c, l in st), (st, kind)
    R.rejected_static(st)
    env.mark(kind, where and 'in ' + where.split('/')[-1], 'plain run: ' + R.oa.kind)
    env.nontrivial = True


# ------------------------------------------------------------------ every position of small programs
SMALL = {
'loops': 'DECLARE i, s : INTEGER\nDECLARE b : BOOLEAN\ns <- 0\nFOR i <- 1 TO 3\n    s <- s + i\n    OUTPUT "i", i\nNEXT i\nWHILE s > 3 DO\n    s <- s - 2\n    OUTPUT s\nENDWHILE\nREPEAT\n    s <- s + 1\n    IF s = 4 THEN\n        OUTPUT "four"\n    ELSE\n        OUTPUT "not"\n    ENDIF\nUNTIL s > 5\nOUTPUT "end", s\n',
'procs': 'DECLARE g : INTEGER\nDECLARE t : STRING\nPROCEDURE P(BYVAL n : INTEGER, BYREF m : INTEGER)\n    DECLARE l : INTEGER\n    l <- n * 2\n    m <- m + l\n    OUTPUT "P", l\n    IF n > 0 THEN\n        CALL P(n - 1, m)\n    ENDIF\n    OUTPUT "out", n\nENDPROCEDURE\nFUNCTION F(a : STRING) RETURNS STRING\n    t <- a & "!"\n    RETURN t & a\nENDFUNCTION\nPROCEDURE Never\n    OUTPUT "never"\nENDPROCEDURE\ng <- 1\nCALL P(2, g)\nOUTPUT g\nOUTPUT F("a") & F("b")\nOUTPUT LENGTH(t)\n',
'files': 'DECLARE l : STRING\nDECLARE n : INTEGER\nOPENFILE "o.txt" FOR WRITE\nWRITEFILE "o.txt", "first"\nOPENFILE "in.txt" FOR READ\nn <- 0\nWHILE NOT EOF("in.txt") DO\n    READFILE "in.txt", l\n    n <- n + 1\n    WRITEFILE "o.txt", l & n\nENDWHILE\nCLOSEFILE "in.txt"\nOUTPUT n\nCLOSEFILE "o.txt"\nOPENFILE "o.txt" FOR APPEND\nWRITEFILE "o.txt", "last"\nOUTPUT "done"\n',
'input': 'DECLARE a : INTEGER\nDECLARE s, t : STRING\nDECLARE c : CHAR\nINPUT a\nOUTPUT a + 1\nINPUT s\nIF LENGTH(s) > 2 THEN\n    INPUT t\n    OUTPUT s & t\nELSE\n    OUTPUT "short"\nENDIF\nINPUT c\nOUTPUT c\n',
'case': 'DECLARE x : INTEGER\nDECLARE v : ARRAY[1:3] OF INTEGER\nCONSTANT K = 2\nFOR x <- 1 TO 4\n    CASE OF x\n        1 : OUTPUT "one"\n            OUTPUT "uno"\n        2 TO 3 : OUTPUT "some"\n            v[x] <- x * K\n        OTHERWISE : OUTPUT "many"\n    ENDCASE\nNEXT x\nOUTPUT v[2], v[3]\nOUTPUT v[K + 2]\nOUTPUT "not reached"\n',
'types': 'TYPE E = (Red, Green, Blue)\nTYPE R\n    DECLARE n : STRING\n    DECLARE e : E\nENDTYPE\nTYPE Q = ^INTEGER\nDECLARE r, s : R\nDECLARE p : Q\nDECLARE k : INTEGER\nr.n <- "name"\nr.e <- Red + 4\ns <- r\nk <- 3\np <- ^k\np^ <- p^ + 1\nOUTPUT s.n, s.e, k\nDECLARE d : DATE\nd <- 1/2/2003\nOUTPUT d, DAY(d)\nOUTPUT s.e = Green\n',
'nest': 'DECLARE i, j, n : INTEGER\nn <- 0\nFOR i <- 1 TO 3\n    j <- 0\n    WHILE j < i DO\n        j <- j + 1\n        IF i = 2 THEN\n            IF j = 1 THEN\n                OUTPUT "in"\n            ELSE\n                OUTPUT "else"\n                IF n > 0 THEN\n                    OUTPUT "deep", n\n                ENDIF\n            ENDIF\n        ENDIF\n        n <- n + 1\n    ENDWHILE\nNEXT i\nOUTPUT n\n',
'recurse': 'DECLARE c : INTEGER\nFUNCTION Fib(n : INTEGER) RETURNS INTEGER\n    c <- c + 1\n    IF n < 2 THEN\n        RETURN n\n    ENDIF\n    RETURN Fib(n - 1) + Fib(n - 2)\nENDFUNCTION\nc <- 0\nOUTPUT Fib(6)\nOUTPUT c\nIF c > 100 THEN\n    OUTPUT "big"\nENDIF\nOUTPUT "end"\n',
}
SMALL_IN = b'41\nabc\ndef\nq\nextra\n'
SINS = [('BREAK', 'BREAK'), ('CONTINUE', 'CONTINUE'), ('ELSE IF', 'IF FALSE THEN\nOUTPUT 1\nELSE IF TRUE THEN\nOUTPUT 2\nENDIF'), ('ELSE IF', 'IF TRUE THEN\nOUTPUT 1\nELSE IF FALSE THEN\nOUTPUT 2\nELSE\nOUTPUT 3\nENDIF'),
        ('cast', 'OUTPUT STRING(1)'), ('cast', 'OUTPUT INTEGER("5") + 1'), ('cast', 'OUTPUT REAL(TRUE)'), ('cast', 'OUTPUT CHAR("x"), BOOLEAN(1)'),
        ('assign', 'newvar <- 1'), ('assign', 'newvar <- "s" & 2'), ('assign', 'newvar <- 1 < 2'), ('input', 'INPUT newvar'), ('input', 'READ newvar')]
POSNS = [(n, k) for n in sorted(SMALL) for k in range(SMALL[n].count('\n') + 1)]


def position_case(src, env, i):
    name, k = POSNS[i // len(SINS)]
    con, ins = SINS[i % len(SINS)]
    lines = SMALL[name].split('\n')[:-1]
    text = '\n'.join(lines[:k] + [ins] + lines[k:]) + '\n'
    R = Runs(env, text, SMALL_IN, FILES)
    if R.oa.kind == 'syntax':
        env.mark('no statement can stand here')
        # the lexer's constructs are still found first
        if R.ob.kind not in ('syntax', 'pedantic') or WARN.sub('', R.ob.out).strip('\n') or R.b.files != R.before or R.b.code != 1:
            R.bad('something ran although the source has a syntax error')
        env.nontrivial = True
        return
    if con not in ('assign', 'input'):
        st = statics(text)
        R.rejected_static(st)
        env.mark(con)
    else:
        runtime_rejection(env, R, '\n'.join(lines[:k] + ['OUTPUT 1 DIV 0'] + lines[k:]) + '\n', k + 1, con)
    env.nontrivial = True


def runtime_rejection(env, R, failing, line, con):
    """the same program with a failing statement in place of the construct says what precedes it"""
    def go(s):
        s.fresh()
        for n, d in R.before.items():
            s.put(n, d)
        s.put(PROG, failing.encode('latin-1'))
        r = s.run([PROG], R.stdin)
        r.files = s.files()
        return r
    f = env._go('plain', go)
    o = Obs(f)
    if o.kind == 'runtime' and o.line == line:
        if R.ob.kind != 'pedantic' or R.b.code != 1:
            R.bad('an undeclared variable is accepted (%s)' % con)
        if (R.b.out, R.b.files, R.b.consumed) != (f.out, f.files, f.consumed):
            R.bad('what precedes the construct differs from the prefix of the run', prefix=str(Runs.view(f))[:1500])
        R.named([(con, line)])
        env.mark('%s, reached' % con)
    else:
        if R.ob.kind == 'pedantic':
            R.bad('rejected although the construct is not executed')
        R.identical()
        env.mark('%s, not reached' % con)


# ------------------------------------------------------------------ undeclared variables at arbitrary positions of generated programs
RHS = ['1', '"s"', '2.5', 'TRUE', "'c'", '-3', '1 + 2 * 3', '"a" & 1', '1/2/2020', 'NOT FALSE', 'LENGTH("abc")', '(7)', 'TODAY()', "'x' & 'y'", '4 DIV 2', '1 < 2 AND TRUE', 'MID("hello", 2, 2)']


def runtime_case(src, env, i):
    prog, stdin = gen_program(src)
    bl = list(blocks(prog))
    b, where = src.pick(bl)
    mark = St('raw', text='OUTPUT 1 DIV 0')
    b.insert(src.n(len(b) + 1), mark)
    failing = render(prog)
    line = mark.line
    lines = failing.split('\n')
    assert 'OUTPUT 1 DIV 0' in lines[line - 1], (line, failing)
    con = src.pick(['assign', 'input'])
    name = src.pick(['newvar', 'Zq', 'BREAKS', 'ELSEIF', 'INTEGER1', 'inputx', 'CONTINUEd', 'x_' + 'y' * src.n(60)])
    ins = '%s <- %s' % (name, src.pick(RHS)) if con == 'assign' else src.pick(['INPUT ', 'READ ']) + name
    lines[line - 1] = lines[line - 1].replace('OUTPUT 1 DIV 0', ins)
    text = '\n'.join(lines)
    R = Runs(env, text, to_stdin(stdin).encode('latin-1'), FILES)
    if R.a.crashed:
        raise Skip('crashes (C01)')
    if R.oa.kind == 'syntax':
        raise Skip('syntax error')
    # the program itself must not use an undeclared variable
    if R.ob.kind == 'pedantic' and R.ob.line != line:
        f = env.file(failing, to_stdin(stdin), True)
        if Obs(f).kind == 'pedantic':
            raise Skip('another undeclared variable comes first')
    runtime_rejection(env, R, failing, line, con)
    env.mark('in ' + where.split('/')[-1])
    env.nontrivial = True


# ------------------------------------------------------------------ what counts as declared
def scope_case(src, env, i):
    """names that are declared elsewhere, later, in another scope, as something else"""
    con = ['assign', 'input'][i % 2]
    sit = i // 2 % 26
    n = 'v'
    use = assign(n, S('t')) if con == 'assign' else St('input', lv=(n, []), word=src.pick(['INPUT', 'READ']))
    st = lambda *b: list(b)
    D = decl('STRING', n)
    o = out(S('before'))
    z = out(S('after'))
    sh = out(V(n))
    P = lambda name, body, params=(): St('proc', name=name, params=list(params), rtype=None, body=body, parens=bool(params))
    C = lambda name, *a: St('call', name=name, args=list(a), parens=True)
    T, F_ = ('bool', True), ('bool', False)
    prog = [
        st(o, use, sh, z),
        st(o, D, use, sh, z),
        st(o, use, D, sh, z),
        st(o, St('if', arms=[(F_, [D])], els=None), use, sh, z),
        st(o, St('if', arms=[(T, [D])], els=None), use, sh, z),
        st(P('P', [D, use, sh]), o, C('P'), use, z),
        st(P('P', [D, assign(n, S('l'))]), o, C('P'), P('Q', [use, sh]), C('Q'), z),
        st(D, P('P', [use, sh]), o, C('P'), sh, z),
        st(P('P', [use, sh]), o, D, C('P'), sh, z),
        st(P('P', [use, sh]), o, C('P'), D, z),
        st(P('P', [use, sh], [(n, 'STRING', 'BYVAL', False)]), o, C('P', S('arg')), use, z),
        st(D, P('P', [use, sh], [(n, 'STRING', 'BYREF', False)]), o, C('P', V(n)), sh, z),
        st(P('P', [D, use, C('Q'), sh]), P('Q', [use, sh]), o, C('P'), z),
        st(St('for', name='i', a=L(1), b=L(2), step=None, body=[o, use, sh], nextname=True), z),
        st(D, St('for', name='i', a=L(1), b=L(2), step=None, body=[o, use, sh], nextname=True), z),
        st(St('for', name=n, a=L(1), b=L(2), step=None, body=[o], nextname=True), assign(n, L(5)), sh, z),
        st(P('v1', [o]), P(n, [o]), use, sh, z) if con == 'assign' else st(P(n, [o]), o, use, z),
        st(St('typerec', name='R', body=[D]), decl('R', 'r'), o, assign(('r', [F('v')]), S('q')), use, sh, z),
        st(decl('STRING', 'V'), o, use, sh, z),
        st(D, decl('STRING', 'w'), o, assign('w', S('k')), use, sh, assign('w', V(n)), out(V('w')), z),
        st(St('const', name=n, e=S('c'), eq='='), o, use, z),
        st(decl('STRING', n, bounds=[(1, 2)]), o, St('assign', lv=(n, [I(1)]), e=S('el')), out(V(n, I(1))), z, use, z),
        st(St('case', name='k', clauses=[(L(1), None, [o, use, sh])], els=[z]), z) if False else st(decl('INTEGER', 'k'), assign('k', L(src.n(2))), St('case', name='k', clauses=[(L(1), None, [o, use, sh])], els=[z]), z),
        st(St('func', name='F', params=[], rtype='STRING', body=[use, St('return', e=V(n))]), o, out(('call', 'F', [])), z),
        st(St('func', name='F', params=[], rtype='STRING', body=[D, use, St('return', e=V(n))]), o, out(('call', 'F', [])), z),
        st(St('typeenum', name='E', names=['v1', n]), o, use, z),
    ][sit]
    if src.chance(50):
        k = src.n(len(prog) + 1)
        prog.insert(k, fopen(S('o.txt'), 'WRITE'))
        prog.insert(src.int(k + 1, len(prog)), fwrite(S('o.txt'), S('w')))
    prog = unshare(prog)
    text = render(prog)
    stdin = ['line', 'line2', 'line3']
    fs = {'o.txt': FObj('text', 'before\nthe run\n')}
    m = FInterp(stdin, True, fs=fs)
    try:
        m.kind, m.exc = m.main(prog)
    except Unspec as u:
        raise Skip('open: %s' % u)
    R, cl = relation(env, text, to_stdin(stdin).encode('latin-1'), FILES)
    judge_model(R, m, fs, stdin)
    env.mark('%s' % m.kind, 'situation %d' % sit)
    env.nontrivial = True


# ------------------------------------------------------------------ things that only look like the constructs
LOOK = ['// BREAK', '// ELSE IF x THEN', '// INTEGER(5)', '// CONTINUE', 'OUTPUT "BREAK"', 'OUTPUT "ELSE IF INTEGER(5)"', "OUTPUT 'B'", 'DECLARE BREAKER, xBREAK : INTEGER\nBREAKER <- 5\nxBREAK <- BREAKER + 1\nOUTPUT xBREAK',
        'DECLARE CONTINUES : STRING\nCONTINUES <- "CONTINUE"\nOUTPUT CONTINUES', 'DECLARE break, continue : INTEGER\nbreak <- 1\ncontinue <- break\nOUTPUT continue', 'IF FALSE THEN\n    OUTPUT 1\nELSE\n    IF TRUE THEN\n        OUTPUT 2\n    ENDIF\nENDIF',
        'IF FALSE THEN\n    OUTPUT 1\nELSE // here\n    IF TRUE THEN\n        OUTPUT 2\n    ELSE\n        OUTPUT 3\n    ENDIF\nENDIF', 'DECLARE ELSEIF : INTEGER\nELSEIF <- 4\nOUTPUT ELSEIF', 'DECLARE Integer, INTEGERS : INTEGER\nInteger <- (5)\nINTEGERS <- (Integer)\nOUTPUT INTEGERS',
        'DECLARE aa : ARRAY[1:2] OF INTEGER\naa[1] <- 5\nOUTPUT aa[1]', 'PROCEDURE Lk(BYREF p : INTEGER, BYVAL q : REAL)\n    p <- 1\n    OUTPUT q\nENDPROCEDURE\nDECLARE li : INTEGER\nCALL Lk(li, 2.5)\nOUTPUT li',
        'FUNCTION Lf(q : INTEGER) RETURNS STRING\n    RETURN "r" & q\nENDFUNCTION\nOUTPUT Lf(3)', 'OUTPUT NUM_TO_STR(5), STR_TO_NUM("12"), LENGTH("abc"), CHR(65), ASC(\'A\'), INT(2.5)', 'TYPE Lp = ^INTEGER\nDECLARE lp : Lp\nDECLARE lx : INTEGER\nlp <- ^lx\nlp^ <- 3\nOUTPUT lx',
        'FOR undeclit <- 1 TO 2\n    OUTPUT undeclit\nNEXT undeclit', 'FOR undeclit2 <- 1 TO 2\n    OUTPUT undeclit2\nNEXT undeclit2\nundeclit2 <- 9\nOUTPUT undeclit2', 'CONSTANT Kk = 5\nCONSTANT Ks <- "s"\nOUTPUT Kk, Ks',
        'OPENFILE "in.txt" FOR READ\nREADFILE "in.txt", readvar\nOUTPUT readvar\nreadvar <- "x"\nOUTPUT readvar\nCLOSEFILE "in.txt"', 'DECLARE eq : INTEGER\neq = 5\nOUTPUT eq', 'IF TRUE THEN OUTPUT 5\nENDIF', 'OUTPUT "a" // ELSE IF\nOUTPUT "\\"BREAK\\""',
        'undef[1] <- 5', 'undef.f <- 5', 'undef^ <- 5', 'OUTPUT undef', 'CALL Undef', 'INPUT undef[1]', 'INPUT undef.f', 'DECLARE u : Undef', 'DECLARE kk : INTEGER\nkk <- "text"', 'CONSTANT Kc = 5\nKc <- 6', 'CONSTANT Kd = 5\nINPUT Kd', 'DECLARE dup : INTEGER\nDECLARE dup : REAL',
        'TYPE Le = (La, Lb)\nLa <- 5', 'TYPE Lg = (Lc, Ld)\nINPUT Lc', 'OUTPUT 1 DIV 0', 'OUTPUT (1', 'RETURN 5', 'x y', '@']


def look_case(src, env, i):
    parts = [LOOK[i]] if i < len(LOOK) else src.sample(LOOK, src.int(1, 5)) if hasattr(src, 'sample') else [src.pick(LOOK)]
    k = src.n(4)
    text = 'OUTPUT "start"\n' + '\n'.join(parts) + '\nOUTPUT "end"\n'
    if k == 1:
        text = 'PROCEDURE Main1()\n' + '\n'.join(x for x in parts if not x.startswith(('PROC', 'FUNC', 'x y', 'OUTPUT (1', '@', 'OUTPUT "\n'))) + '\nENDPROCEDURE\nCALL Main1()\nOUTPUT "end"\n'
    elif k == 2:
        text = SMALL[src.pick(sorted(SMALL))] + text
    elif k == 3:
        text += SMALL[src.pick(sorted(SMALL))]
    R = Runs(env, text, SMALL_IN, FILES)
    if R.ob.kind == 'pedantic':
        R.bad('a program that only contains lookalikes is rejected')
    R.identical()
    env.mark(R.oa.kind)
    env.nontrivial = True


# ------------------------------------------------------------------ every statement with every type of value
TYPED = {'INTEGER': ['5', '-3', '0', '70000000000'], 'REAL': ['2.5', '3.0', '-0.125', '1 / 4'], 'BOOLEAN': ['TRUE', 'FALSE', '1 > 2'], 'CHAR': ["'q'", "'0'", "' '", "CHR(66)"],
         'STRING': ['"x"', '""', '"12"', '"2.5"', '"TRUE"', '"several words"', '"a" & \'b\''], 'DATE': ['SETDATE(1, 2, 2003)', 'SETDATE(29, 2, 2024)'],
         'En': ['Ea', 'Eb', 'Ec'], 'Pt': ['^tgt']}
MOST = ['INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE']
NUMERIC = ['INT(%s)', 'NUM_TO_STR(%s)', 'SQRT(%s * %s)', 'POW(%s, 2)', 'SIN(%s)', 'COS(%s)', 'ATAN(%s)', 'EXP(%s)', '-%s', '%s + 1', '%s * 2.5', '%s / 2', '%s DIV 2', '%s MOD 2', '%s > 1', 'CHR(65)']
TEXTUAL = ['LENGTH(%s)', 'LEFT(%s, 1)', 'RIGHT(%s, 1)', 'MID(%s, 1, 1)', 'UCASE(%s)', 'TO_UPPER(%s)', 'TO_LOWER(%s)', 'STR_TO_NUM(%s)', 'IS_NUM(%s)', 'LENGTH(%s) + 1', '%s & "."', '%s & %s', '%s = %s', '%s < "m"']
DATES = ['DAY(%s)', 'MONTH(%s)', 'YEAR(%s)', 'DAYINDEX(%s)', 'DAY(%s) + YEAR(%s)']
TPRE = 'TYPE En = (Ea, Eb, Ec)\nDECLARE tgt : INTEGER\ntgt <- 11\nTYPE Pt = ^INTEGER\n'


def typed_piece(src, k):
    """-> (lines that define routines, statements, lines of input)"""
    t = src.pick(list(TYPED)) if src.chance(92) else src.pick(MOST)
    u = t if t != 'Pt' and src.chance(75) else src.pick(MOST + ['En'])
    v, w = src.pick(TYPED[t]), src.pick(TYPED[t if src.chance(90) else u])
    x, y, f = 'x%d' % k, 'y%d' % k, 'r%d' % k
    if t == 'Pt':
        dec = ['DECLARE %s : Pt' % x, '%s <- %s' % (x, v)]
        return [], dec + src.pick([['OUTPUT %s^' % x], ['%s^ <- %s' % (x, w), 'OUTPUT tgt'], ['DECLARE %s : Pt' % y, '%s <- %s' % (y, x), '%s^ <- 3' % y, 'OUTPUT %s^' % x]]), []
    dec = ['DECLARE %s, %s : %s' % (x, y, t), '%s <- %s' % (x, w)]
    pool = NUMERIC if t in ('INTEGER', 'REAL') else TEXTUAL if t in ('STRING', 'CHAR') else DATES if t == 'DATE' else ['NOT %s', '%s AND TRUE', '%s OR %s'] if t == 'BOOLEAN' else ['%s + 1', '%s = Eb', '%s > Ea']
    if src.chance(10):
        pool = NUMERIC + TEXTUAL + DATES
    e = src.pick(pool)
    ex = lambda a: e.replace('%s', a)
    see_ = src.pick(['OUTPUT §', 'OUTPUT §', 'OUTPUT § = ' + v, 'OUTPUT "[" & § & "]"' if t in ('STRING', 'CHAR') or src.chance(20) else 'OUTPUT "[", §', 'OUTPUT ' + e.replace('%s', '§')])
    see = lambda a: see_.replace('§', a)
    z = src.n(14)
    if z in (0, 1, 8) and src.chance(90):
        # literals are wanted there
        t = u = t if t not in ('DATE', 'En') else src.pick(MOST[:5])
        v, w = src.pick(TYPED[t][:2]), src.pick(TYPED[t][:2])
        see_ = 'OUTPUT §'
        dec = ['DECLARE %s, %s : %s' % (x, y, t), '%s <- %s' % (x, w)]
    if z == 0:
        return [], ['CONSTANT %s %s %s' % (x, src.pick(['=', '<-']), v), see(x)], []
    if z == 1:
        return ['PROCEDURE %s(BYREF a : %s)' % (f, u), 'OUTPUT "got ", a', 'ENDPROCEDURE'], ['CONSTANT %s = %s' % (x, v), 'CALL %s(%s)' % (f, x)] if src.chance(50) else dec + ['CALL %s(%s)' % (f, x), see(x)], []
    if z == 2:
        return ['PROCEDURE %s(%sa : %s)' % (f, src.pick(['', 'BYVAL ']), u), see('a'), 'ENDPROCEDURE'], dec + ['CALL %s(%s)' % (f, src.pick([x, v, w]))], []
    if z == 3:
        return ['FUNCTION %s(a : %s) RETURNS %s' % (f, t, u), 'RETURN %s' % src.pick(['a', ex('a'), w]), 'ENDFUNCTION'], ['OUTPUT %s(%s)' % (f, v)], []
    if z == 4:
        return [], dec + ['OUTPUT ' + ex(src.pick([x, v])), see(x)], []
    if z == 5:
        return [], ['DECLARE %s : ARRAY[1:3] OF %s' % (x, t), '%s[2] <- %s' % (x, v), see(x + '[2]'), 'OUTPUT %s[1]' % x], []
    if z == 6:
        return [], ['TYPE R%d' % k, 'DECLARE f : %s' % t, 'DECLARE g : ARRAY[0:1] OF %s' % u, 'ENDTYPE', 'DECLARE %s, %s : R%d' % (x, y, k), '%s.f <- %s' % (x, v), '%s <- %s' % (y, x), see(y + '.f'), '%s.g[1] <- %s' % (y, w), 'OUTPUT %s.g[1]' % y], []
    if z == 7:
        return [], dec + ['%s %s' % (src.pick(['INPUT', 'READ']), x), see(x)], [src.pick(['5', '2.5', 'q', 'TRUE', 'a line', '', '01/02/2003'])]
    if z == 8:
        return [], dec + ['CASE OF %s' % x, '%s: OUTPUT "first"' % v, '%s: OUTPUT "second"' % w, 'OTHERWISE: OUTPUT "none"', 'ENDCASE'], []
    if z == 9:
        return [], dec + ['OPENFILE "f%d" FOR WRITE' % k, 'WRITEFILE "f%d", %s' % (k, src.pick([x, v, ex(x)])), 'CLOSEFILE "f%d"' % k, 'OPENFILE "f%d" FOR READ' % k, 'READFILE "f%d", %s' % (k, x if t == 'STRING' or src.chance(10) else 'z%d' % k), 'OUTPUT EOF("f%d")' % k, see(x)], []
    if z == 10:
        return [], dec + ['OPENFILE "f%d" FOR RANDOM' % k, 'PUTRECORD "f%d", %s' % (k, x), 'SEEK "f%d", 1' % k, 'GETRECORD "f%d", %s' % (k, y), see(y), 'CLOSEFILE "f%d"' % k], []
    if z == 11:
        if t != 'INTEGER' and src.chance(80):
            return [], dec + ['FOR i%d <- 1 TO 3' % k, see(x), '%s <- %s' % (x, v), 'NEXT i%d' % k], []
        return [], dec + ['FOR i%d <- %s TO %s' % (k, src.pick(['1', x]), src.pick(['3', w if w != '70000000000' else '4'])), see(x), '%s <- %s' % (x, src.pick([v, 'i%d' % k])), 'NEXT i%d' % k], []
    if z == 12:
        return [], dec + ['TYPE P%d = ^%s' % (k, u), 'DECLARE %s : P%d' % ('p%d' % k, k), 'p%d <- ^%s' % (k, x), 'p%d^ <- %s' % (k, v), see(x)], []
    return [], dec + ['IF %s THEN' % src.pick(['%s = %s' % (x, v), '%s <> %s' % (x, w), x if t == 'BOOLEAN' else ex(x) + ' = ' + ex(x)]), see(x), 'ELSE', 'OUTPUT "no"', 'ENDIF', '%s <- %s' % (y, x), see(y)], []


def typed_case(src, env, i):
    routines, body, inp = [], [], []
    for k in range(src.int(1, 4)):
        r, b, n = typed_piece(src, k)
        if src.chance(12):
            r = r + ['PROCEDURE w%d()' % k] + b + ['ENDPROCEDURE']
            b = ['CALL w%d()' % k]
        elif src.chance(12):
            b = src.pick([['IF TRUE THEN', *b, 'ENDIF'], ['WHILE TRUE DO', *b, 'OUTPUT 1 DIV 0', 'ENDWHILE'], ['REPEAT', *b, 'UNTIL TRUE'], ['FOR q%d <- 1 TO 1' % k, *b, 'NEXT q%d' % k]])
        routines += r
        body += b
        inp += n
    text = TPRE + '\n'.join(routines + body) + '\nOUTPUT "end"\n'
    R = Runs(env, text, to_stdin(inp).encode('latin-1'), FILES)
    if R.ob.kind == 'pedantic':
        R.bad('a program without the constructs is rejected')
    R.identical()
    env.mark(R.oa.kind)
    env.nontrivial = bool(R.a.out.strip() or R.a.code)


# ------------------------------------------------------------------ any source: mutations of programs of every kind
def mutated_case(src, env, i):
    k = src.n(5)
    stdin = b'5\nabc\n2.5\nTRUE\nq\n'
    if k == 0:
        text = src.pick(toks.corpus())[1]
    elif k == 1:
        text, inp = CATALOG[src.pick(sorted(CATALOG))]
        stdin = to_stdin(inp).encode('latin-1') + stdin
    elif k == 2:
        text = SMALL[src.pick(sorted(SMALL))]
    else:
        prog, inp = gen_program(src, clean=src.chance(50))
        text = render(prog)
        stdin = to_stdin(inp).encode('latin-1')
    if 'RAND' in text:
        raise Skip('random numbers')
    s = toks.strs(text)
    n = src.weighted([(4, 0), (5, 1), (1, 2), (1, 3)])
    if s is not None and n:
        s, what = toks.mutate(src, s, n)
        text = toks.write(s)
        if not text.endswith('\n'):
            text += '\n'
    R, cl = relation(env, text, stdin, FILES)
    env.mark(cl, R.oa.kind)
    env.nontrivial = bool(R.b.out.strip() or R.b.code)


# ------------------------------------------------------------------ sessions
class PInterp(FInterp):
    """a session with the option: entries with a construct are refused as a whole"""
    def __init__(self, echo, fs):
        super().__init__((), True, echo, fs=fs)

    def main(self, stmts):
        st = statics(render(stmts))
        if st:
            return 'pedantic', None
        return super().main(stmts)


def session_case(src, env, i):
    g = Gen(src, errors=8, size=src.pick([5, 10]), implicit=src.chance(50), breaks=src.chance(50), elseif=src.chance(50), casts=src.chance(50), inputs=False)
    prog = unshare(g.program())
    ents = []
    for s in prog:
        ents.append(s)
        x = src.n(12)
        if x == 0:
            ents += [St('break')] if src.chance(50) else [St('continue')]
        elif x == 1:
            ents.append(elseif(src))
        elif x == 2:
            ents.append(caststmt(src))
        elif x == 3:
            n = 'nv%d' % src.n(3)
            ents += [assign(n, src.pick([L(1), S('s')])), src.pick([decl('STRING', n), out(V(n)), out(S('on'))])]
        elif x == 4:
            n = 'nw%d' % src.n(3)
            ents.append((St('input', lv=(n, []), word='INPUT'), ['// a line for INPUT']))
        elif x == 5:
            ents.append(St('proc', name='Pz%d' % len(ents), params=[], rtype=None, body=[out(S('x')), src.pick([St('break'), elseif(src), caststmt(src), assign('nx', L(1))])], parens=True))
        elif x == 6:
            k = [e.name for e in ents if isinstance(e, St) and e.k == 'proc' and not e.params]
            if k:
                ents.append(St('call', name=src.pick(k), args=[], parens=True))
    fs = {}
    m, rows = msession(env, ents, interp=lambda echo: PInterp(echo, fs), pedantic=True)
    env.mark(*sorted({r[1][0] for r in rows}), 'cut' if m.cut else 'complete')
    env.nontrivial = any(r[1][0] == 'pedantic' for r in rows)


def session_same(src, env, i):
    """a session of clean entries is the same with the option (byte for byte), RUNFILE included"""
    prog, stdin = gen_program(src, inputs=False)
    text = render(prog)
    ents = [lines_text([s]) for s in prog]
    lines = []
    for e in ents:
        lines.append(e + '\n')
        if opens_block(e):
            lines.append('\n')
    kind = src.n(3)
    if kind:
        lines.insert(src.n(len(lines) + 1) if not any('\n\n' in l or l == '\n' for l in lines) else len(lines), 'RUNFILE sub.psc\n')
    sub, _ = gen_program(src, files=False, inputs=False)
    subtext = render(sub)
    try:
        m = FInterp((), True)
        clean = m.main(sub)[0] != 'pedantic'
        m = FInterp((), True)
        m.echo = True
        for s in prog:
            m.steps, m.stack = 0, [m.g]
            if m.main([s])[0] == 'pedantic':
                clean = False
    except (Unspec, RecursionError):
        clean = None
    rs = []
    for c in ([], ['-p'], ['--pedantic']):
        def go(s):
            s.fresh()
            s.put('sub.psc', subtext.encode('latin-1'))
            r = s.run(c, ''.join(lines).encode('latin-1'))
            r.files = s.files()
            return r
        rs.append(env._go('plain', go))
    v = [Runs.view(r) for r in rs]
    if v[1] != v[2]:
        raise Fail('-p and --pedantic differ in a session', '', session=''.join(lines), p=str(v[1])[:2000], pedantic=str(v[2])[:2000])
    env.digest = ''.join(lines)
    if clean:
        if v[0] != v[1]:
            k = next(k for k in v[0] if v[0][k] != v[1][k])
            raise Fail('a session without the constructs behaves differently with the option: ' + k, '', session=''.join(lines), sub=subtext, plain=str(v[0][k])[-3000:], pedantic=str(v[1][k])[-3000:])
        env.nontrivial = True
    env.mark('clean' if clean else 'not clean' if clean is False else 'open')


def runfile_case(src, env, i):
    """RUNFILE in a session with the option applies it to the file"""
    con, ins = SINS[i % len(SINS)]
    name = sorted(SMALL)[i // len(SINS) % len(SMALL)]
    lines = SMALL[name].split('\n')[:-1]
    k = src.n(len(lines) + 1)
    text = '\n'.join(lines[:k] + [ins] + lines[k:]) + '\n'
    R = Runs(env, text, SMALL_IN, FILES)
    if R.oa.kind == 'syntax':
        raise Skip('syntax error')

    def go(s):
        s.fresh()
        for n, d in FILES.items():
            s.put(n, d)
        s.put(PROG, text.encode('latin-1'))
        r = s.run(['-p'], b'RUNFILE ' + PROG.encode() + b'\n' + SMALL_IN[:0] + b'OUTPUT "alive"\nzz <- 1\nDECLARE zz : INTEGER\nzz <- 1\nOUTPUT zz + 1\n')
        r.files = s.files()
        return r
    if 'INPUT' in text or 'READ ' in text:
        raise Skip('reads the session')
    r = env._go('plain', go)
    out_ = r.out.decode('latin-1')
    err = r.err.decode('latin-1')
    if r.crashed or r.code != 0:
        R.bad('the session did not survive')
    if 'alive\n' not in out_ or '2\n' not in out_[out_.find('alive'):]:
        R.bad('the session after RUNFILE differs', observed=out_)
    want = R.ob.out
    if want not in out_:
        R.bad('RUNFILE with the option prints something else than the program', expected=want, observed=out_)
    if r.files != R.b.files:
        R.bad('files differ', observed=str(r.files))
    ok = R.b.code == 0
    if ('successfully' in out_) != ok:
        R.bad('RUNFILE reports another ending', observed=out_)
    if len(re.findall(r'Error\(pedantic\)', err)) != (2 if R.ob.kind == 'pedantic' else 1):
        R.bad('pedantic reports of the session', stderr=err)
    env.mark(con)
    env.nontrivial = True


# ------------------------------------------------------------------ a construct behind many lines, columns, tokens or beside many names
FAR = sorted({(1 << k) + d for k in (5, 6, 7, 8, 9, 10, 12, 15, 16) for d in (-1, 0, 1, 2)} | {512, 768, 1000, 1280, 5000, 10000})
FILLERS = ['', '// a comment', '    ', 'k <- k + 1', 'OUTPUT "line"', 'DECLARE f%d : INTEGER']


def far_case(src, env, i):
    """the construct stands on line (column) n, alone or as the last of several"""
    n = FAR[i % len(FAR)] if i < 4 * len(FAR) else src.int(2, 3000)
    fill = src.pick(FILLERS[:3] if n > 3000 else FILLERS)
    con, ins = src.pick(SINS)
    if con in ('BREAK', 'CONTINUE'):
        pre, post = ['DECLARE k : INTEGER', 'FOR k <- 1 TO 1'], ['NEXT k', 'OUTPUT "end"']
        if fill[:1] in 'kD' and fill:
            fill = ''
    else:
        pre, post = ['DECLARE k : INTEGER'], ['OUTPUT "end"']
    pre = pre[:max(1, n)]
    lines = pre + [fill % j if '%' in fill else fill for j in range(n - 1 - len(pre))]
    ins = ins.split('\n')
    wide = src.chance(20)
    if wide:
        ins[0] = src.pick([' ', '\t']) * src.pick([200, 255, 256, 257, 1000, 4097]) + ins[0]
    text = '\n'.join(lines + ins + post) + '\n'
    R = Runs(env, text, SMALL_IN, FILES)
    if R.oa.kind == 'syntax' or R.a.crashed:
        R.bad('the program does not run')
    if con in ('assign', 'input'):
        runtime_rejection(env, R, '\n'.join(lines + ['OUTPUT 1 DIV 0'] + post) + '\n', len(lines) + 1, con)
    else:
        R.rejected_static(statics(text))
    env.mark(con, 'line 2^%d' % n.bit_length())
    env.nontrivial = True


def crowd_case(src, env, i):
    """many names beside the one that is not declared; the same program without the construct is accepted"""
    nv, na, nc, np, nt = (src.pick([0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 200, 256, 257]) if src.chance(40) else src.n(4) for _ in range(5))
    names = ['v%d' % j for j in range(nv)]
    L_ = []
    if names and src.chance(50):
        L_.append('DECLARE %s : STRING' % ', '.join(names))
    else:
        L_ += ['DECLARE %s : STRING' % x for x in names]
    L_ += ['DECLARE a%d : ARRAY[1:2] OF INTEGER' % j for j in range(na)] + ['CONSTANT c%d = %d' % (j, j) for j in range(nc)]
    L_ += ['PROCEDURE p%d\n    DECLARE q : INTEGER\n    q <- 1\nENDPROCEDURE' % j for j in range(np)] + ['TYPE t%d = (x%d, y%d)' % (j, j, j) for j in range(nt)]
    L_ = src.shuffle(L_) if hasattr(src, 'shuffle') else L_
    uses = [x for v in names[-3:] for x in (v + ' <- "s"', 'INPUT ' + v)] + ['a%d[1] <- 5' % (na - 1)] * (na > 0)
    con, ins = src.pick([c for c in SINS if c[0] in ('assign', 'input')])
    where = src.n(3)
    if where == 0:
        body = L_ + uses
        bad = body + [ins]
    elif where == 1:
        body = L_ + ['PROCEDURE last', '    OUTPUT "in"', 'ENDPROCEDURE'] + uses + ['CALL last']
        k = len(L_) + 2
        bad = body[:k] + ['    ' + ins] + body[k:]
    else:
        loc = ['    DECLARE l%d : INTEGER' % j for j in range(src.pick([0, 1, 16, 64, 100]))]
        body = L_ + ['FUNCTION last(z : INTEGER) RETURNS INTEGER'] + loc + ['    OUTPUT "in"', '    RETURN z', 'ENDFUNCTION'] + uses + ['OUTPUT last(4)']
        k = len(L_) + 2 + len(loc)
        bad = body[:k] + ['    ' + ins] + body[k:]
    text = '\n'.join(body) + '\n'
    R = Runs(env, text, SMALL_IN, FILES)
    if R.ob.kind == 'pedantic':
        R.bad('a program without the constructs is rejected')
    R.identical()
    text = '\n'.join(bad) + '\n'
    at = text[:text.index(ins)].count('\n') + 1
    R = Runs(env, text, SMALL_IN, FILES)
    runtime_rejection(env, R, text.replace(ins, 'OUTPUT 1 DIV 0'), at, con)
    env.mark('names 2^%d' % (nv + na + nc + np + nt).bit_length(), ['main', 'procedure', 'function'][where])
    env.nontrivial = True


STREAMS = [
    Stream('positions', position_case, len(POSNS) * len(SINS), len(POSNS) * len(SINS), exhaustive=True),
    Stream('far', far_case, 240, 2400),
    Stream('crowd', crowd_case, 300, 8000),
    Stream('clean', clean_case, 4000, 100000),
    Stream('implicit', implicit_case, 2000, 50000),
    Stream('static', static_case, 4000, 80000),
    Stream('run-time', runtime_case, 2500, 60000),
    Stream('scopes', scope_case, 52 * 6, 52 * 60),
    Stream('lookalikes', look_case, 400, 6000),
    Stream('typed', typed_case, 6000, 150000),
    Stream('mutated', mutated_case, 5000, 150000),
    Stream('sessions', session_case, 1500, 30000),
    Stream('session-same', session_same, 600, 12000),
    Stream('runfile', runfile_case, len(SINS) * len(SMALL) * 2, len(SINS) * len(SMALL) * 20),
]
