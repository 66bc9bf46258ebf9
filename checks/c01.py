"""C01: every input is executed or diagnosed; the interpreter never crashes."""
import os, shutil, subprocess, tempfile
from common import *
from gen import Gen
from driver import NOBODY, SCRATCH_BASE, SAN_OPTS, ServerDied
from catalog import CATALOG
from effects import Eff
from toks import VOCAB, KEYWORDS, tokenize, strs, write, split_lines, corpus, mutate
import vals

VARIANTS = ['plain', 'san']
OPTIONAL = ['fuzz', 'mem']
RULE = ('a case is non-trivial when at least one of its runs was not stopped by the first token, i.e. executed a statement or was rejected by '
        'the parser or at run time; exhaustive streams count each block of token sequences once')
ASSUMPTIONS = ['signed 64-bit overflow wraps (the sanitizer build does not report it)',
               'runs that use up the execution budget end with an ordinary runtime error; runs that use up the CPU limit are skipped unless '
               'their program has no loop and no call',
               'the sanitizer build runs with a stack of 512 MB because its frames are larger; the plain one is also run with 8 MB',
               'no program text of the generators names a device file']

LOOPS = re.compile(r'WHILE|REPEAT|FOR|CALL|FUNCTION|RUNFILE')
REPORT = re.compile(rb'(?m)^(Runtime Error in file |Syntax Error on line \d+, column \d+ of |Error\(pedantic\) on line \d+, column \d+ of )')
OTHERS = re.compile(rb'(?m)^(Runtime Error:\nFailed to write|Error: File )')
SAN = re.compile(rb'(?m)(ERROR: \w*Sanitizer|: runtime error: |terminate called|Assertion)')


def judge(env, text, stdin=b'', pedantic=False, variant='plain', repl=False, files=(), flags=0, redirect=None, what=''):
    """One run under the oracle of the property.  -> Result"""
    if isinstance(text, str):
        text = text.encode('latin-1')
    if isinstance(stdin, str):
        stdin = stdin.encode('latin-1')
    variant = env.force or variant
    for attempt in (0, 1):
        s = env.server(variant)
        try:
            s.fresh()
            for n, d in files:
                s.put(n, d)
            env.runs += 1
            if repl:
                r = s.repl(text, pedantic, cpu_ms=6000, flags=flags)
            else:
                r = s.run_file(text, stdin, pedantic, cpu_ms=6000, flags=flags)
            break
        except (ServerDied, BrokenPipeError, OSError):
            env.drop()
            if attempt:
                raise

    def bad(msg, key):
        raise Fail(msg + what, key, redirect=redirect, program=numbered(text), stdin=stdin, mode='REPL' if repl else 'file', pedantic=pedantic,
                   build=variant, files={n: d for n, d in files}, outcome='exit %s signal %s' % (r.code, r.sig), stdout=r.out[-800:], stderr=r.err[:1500] + r.err[-2500:])
    if r.inconclusive:
        if variant != 'mem' and len(text) <= 4096 and not LOOPS.search(text.decode('latin-1')):
            bad('a program without loops and calls does not end', 'hang')
        raise Skip('inconclusive run (resource limit)')
    if r.crashed:
        bad('the interpreter ended abnormally: exit %s signal %s' % (r.code, r.sig), 'crash')
    if SAN.search(r.err) and not REPORT.search(r.err):
        bad('an internal error was reported', 'internal')
    if repl:
        if r.code != 0 and not OTHERS.search(r.err):
            bad('the session ended with exit status %s' % r.code, 'repl-exit')
    elif r.code == 0:
        if REPORT.search(r.err) or OTHERS.search(r.err):
            bad('an error is reported but the exit status is 0', 'status')
    elif not (REPORT.search(r.err) or OTHERS.search(r.err)):
        bad('exit status 1 without a diagnostic', 'silent')
    return r


def kind(r):
    if r.code == 0:
        return 'executed'
    m = REPORT.search(r.err)
    if m is None:
        return 'other error'
    k = m.group(1)
    if k.startswith(b'Syntax'):
        return 'lexical error' if b'Invalid character' in r.err or b"Expected '\"'" in r.err else 'syntax error'
    return 'runtime error' if k.startswith(b'Run') else 'pedantic error'


def note(env, r, text, stdin=b'', **kw):
    k = kind(r)
    env.mark(k)
    if k != 'lexical error':
        env.nontrivial = True
    env.digest = (text if isinstance(text, bytes) else text.encode('latin-1')) + b'\0' + repr((stdin, sorted(kw.items()))).encode()
    if env.sample is None:
        env.sample = dict(program=text[:600], outcome=k, **kw)


# ------------------------------------------------------------------ every token sequence up to length 3
PRELUDES = [
    '',
    'DECLARE x : INTEGER\nDECLARE y : ARRAY[0:7] OF INTEGER\nx <- 1\n'
    'FUNCTION f(a : INTEGER) RETURNS INTEGER\n    RETURN a\nENDFUNCTION\n\n',
    'TYPE f\n    DECLARE x : INTEGER\n    DECLARE y : ARRAY[0:1] OF STRING\nENDTYPE\n\nDECLARE x : f\nDECLARE y : STRING\ny <- "s"\nx.x <- 7\n',
    'TYPE f = ^INTEGER\nDECLARE x : f\ny <- 1\nx <- ^y\n',
    'TYPE f = (x, z)\nDECLARE y : f\ny <- z\n',
    'PROCEDURE f(BYREF x : INTEGER)\n    x <- x + 1\nENDPROCEDURE\n\nOPENFILE "s" FOR READ\nDECLARE x : DATE\nDECLARE y : CHAR\n',
    'CONSTANT x = 7\nCONSTANT y = "s"\nOPENFILE "s" FOR RANDOM\n',
]
CONTEXTS = [('', ''), ('OUTPUT ', ''), ('x <- ', ''), ('y ', ''), ('IF TRUE THEN\n', '\nENDIF\n'), ('PROCEDURE pp(', ')\nENDPROCEDURE\n'),
            ('TYPE t\n', '\nENDTYPE\n'), ('CASE OF x\n', '\nENDCASE\n'), ('FUNCTION g() RETURNS INTEGER\n', '\nENDFUNCTION\n'), ('FOR i <- ', '\nNEXT i\n'),
            ('WHILE ', '\nBREAK\nENDWHILE\n'), ('REPEAT\n', '\nUNTIL TRUE\n'), ('DECLARE q : ', ''), ('DECLARE ', ''), ('OUTPUT f(', ')'), ('x[', '] <- 1'), ('TYPE t = ', ''),
            ('CASE OF ', '\n1 : OUTPUT 1\nENDCASE\n'), ('OPENFILE ', ''), ('IF ', ' THEN\nENDIF\n'), ('CALL ', ''), ('SEEK "s", ', ''), ('RETURN ', ''), ('INPUT ', ''),
            ('OUTPUT "a" & ', ''), ('OUTPUT 7 - ', ' * 7')]


def entry(pre, toks, post):
    return pre + write(toks) + post


def block(env, heads, prelude, ctx, variant, pedantic):
    """All continuations of the given token prefix by one token, each an entry of one REPL session."""
    pre, post = ctx
    entries = [entry(pre, list(heads) + [t], post) for t in VOCAB]
    text = prelude + ''.join(e + '\n\n\n' for e in entries)
    files = [('s', b'line 1\nline 2\n')]
    single = None
    try:
        r = judge(env, text, pedantic=pedantic, variant=variant, repl=True, files=files)
        if b'budget exceeded' not in r.out + r.err:
            return r
    except Fail as f:
        single = f
    except Skip:
        pass
    for e in entries:
        r = judge(env, prelude + e + '\n\n\n', pedantic=pedantic, variant=variant, repl=True, files=files)
    if single:
        raise single
    return r


NV = len(VOCAB)


def triples(src, env, i):
    """i -> (prelude, first two tokens); the third runs over the whole vocabulary"""
    p, i = divmod(i, NV * NV)
    a, b = divmod(i, NV)
    block(env, [VOCAB[a], VOCAB[b]], PRELUDES[p], CONTEXTS[0], 'plain', p == 2)
    env.nontrivial = True
    env.runs += NV - 1
    env.sample = dict(prelude=p, first_two=[VOCAB[a], VOCAB[b]], sequences=NV)


def triples_san(src, env, i):
    triples_any(src, env, i, VOCAB[src.n(NV)], VOCAB[src.n(NV)])


def triples_any(src, env, i, a, b):
    p, c = src.n(len(PRELUDES)), src.n(len(CONTEXTS))
    ped = src.chance(30)
    block(env, [a, b], PRELUDES[p], CONTEXTS[c], 'san', ped)
    env.nontrivial = True
    env.runs += NV - 1
    env.digest = repr((p, c, a, b, ped))
    env.mark('context %r' % CONTEXTS[c][0], 'prelude %d' % p)
    env.sample = dict(prelude=p, context=CONTEXTS[c], first_two=[a, b], sequences=NV)


def pairs(src, env, i):
    """every sequence of one or two tokens in every context, in REPL mode on the sanitizer build: i -> (first token, context)"""
    c, a = divmod(i, NV)
    for p in range(len(PRELUDES)):
        block(env, [VOCAB[a]], PRELUDES[p], CONTEXTS[c], 'san', i % 5 == p)
    env.nontrivial = True
    env.runs += (NV - 1) * len(PRELUDES)
    env.sample = dict(context=CONTEXTS[c], first=VOCAB[a], sequences=NV)


def pairs_some(src, env, i):
    c, a, p = src.n(len(CONTEXTS)), src.n(NV), src.n(len(PRELUDES))
    block(env, [VOCAB[a]], PRELUDES[p], CONTEXTS[c], 'san', src.chance(20))
    env.nontrivial = True
    env.runs += NV - 1
    env.digest = repr((c, a, p))
    env.sample = dict(context=CONTEXTS[c], first=VOCAB[a], sequences=NV)


def pairs_file(src, env, i):
    """every sequence of up to two tokens as a whole program: i -> first token"""
    for b in [None] + VOCAB:
        text = write([VOCAB[i]] + ([b] if b is not None else []))
        for final in ('', '\n'):
            for ped in (False, True):
                r = judge(env, text + final, '5\n', ped, 'plain' if final else 'san')
    note(env, r, text)
    env.nontrivial = True


def triples_file(src, env, i):
    """every sequence of three tokens as a whole program (a block of them per case)"""
    a, b = divmod(i, NV)
    for c in VOCAB:
        r = judge(env, write([VOCAB[a], VOCAB[b], c]) + ('\n' if i % 2 else ''), '5\n', i % 3 == 0, 'plain')
    env.nontrivial = True
    env.digest = repr((a, b))
    env.sample = dict(first_two=[VOCAB[a], VOCAB[b]], sequences=NV)


def triples_file_some(src, env, i):
    a, b = src.n(NV), src.n(NV)
    var = src.pick(['plain', 'san'])
    ped = src.chance(30)
    nl = src.chance(50)
    for k in range(12):
        t = [VOCAB[a], VOCAB[b], src.pick(VOCAB)]
        r = judge(env, write(t) + ('\n' if nl else ''), '5\n', ped, var)
    note(env, r, write(t))
    env.nontrivial = True


# ------------------------------------------------------------------ programs to start from
def program(src):
    """(text, stdin lines)"""
    k = src.n(10)
    if k < 3:
        t, i = CATALOG[src.pick(sorted(CATALOG))]
        return t, list(i)
    if k < 5:
        t, inp = '', []
        for _ in range(src.int(2, 4)):
            a, i = CATALOG[src.pick(sorted(CATALOG))]
            t += a
            inp += i
        return t, inp
    if k < 8:
        t = src.pick(corpus())[1]
        if len(t) > 2048:
            ls = t.split('\n')
            p = src.n(len(ls))
            t = '\n'.join(ls[p:p + 60])
        return t, ['3', '4', '2.5', 'TRUE', 'c', 'word', '9']
    g = Gen(src, errors=src.pick([2, 15, 40]), size=src.pick([4, 8, 12]), localtypes=True, bareexpr=src.chance(50), stray=src.pick([1, 10]))
    try:
        t = render(unshare(g.program()))
    except Unspec:
        return program(src)
    return t, list(g.stdin)


INTERESTING = ['\x00', '\xff', '\x80', '\x7f', '\r', '\t', '\\', '"', "'", '\n', '/', '//', '.', '^', '<-', '&', '_', '\x0b', '\x1b', '9' * 25, '0' * 30, '1.' + '0' * 60 + '1',
               '9223372036854775807', '9223372036854775808', '1/1/1', '31/2/2020', '99999999999/1/1', '1/99999999999999999999/1', '1e5', '0x10', '"\\', "'\\", "''", '"\n"', 'A' * 300,
               '\xe2\x86\x90', '\xef\xbb\xbf', '==', '!', '#', '$', '%', '@', '[', ']', '{', '}', '~', '`', '|', ';', '?', '\\n', '\\0', '\\x41', "'ab'", "'\\q'", '"\\q"',
               '.5', '5.', '5..5', '1.2.3', '-', '--', '- -', '<', '>', '< -', '<<', '<->', '<>-', '//\n', '/', '/*', '*/']


def bytemutate(src, t):
    t = t[:2048]
    for _ in range(src.weighted([(6, 1), (3, 3), (1, 12)])):
        k = src.n(8)
        i = src.n(len(t) + 1)
        if k == 0:
            t = t[:i] + chr(src.n(256)) + t[i + 1:]
        elif k == 1:
            t = t[:i] + src.pick(INTERESTING) + t[i:]
        elif k == 2:
            t = t[:i] + t[i + src.int(1, 8):]
        elif k == 3:
            t = t[:i]
        elif k == 4:
            j = src.n(len(t) + 1)
            t = t[:i] + t[j:j + src.int(1, 40)] + t[i:]
        elif k == 5:
            t = t[:i] + chr(src.n(256)) * src.int(1, 3) + t[i:]
        elif k == 6 and i < len(t):
            t = t[:i] + chr(ord(t[i]) ^ (1 << src.n(8))) + t[i + 1:]
        else:
            u = program(src)[0]
            j = src.n(len(u) + 1)
            t = t[:i] + u[j:j + src.int(1, 200)] + t[i + src.n(200):]
    return t[:2048]


def anystdin(src, inp):
    k = src.n(6)
    if k < 2:
        return to_stdin(inp)
    if k == 2:
        return ''
    if k == 3:
        return ''.join(src.pick(INTERESTING + list('09 .-aT\n')) for _ in range(src.n(30)))
    if k == 4:
        return ''.join(chr(src.n(256)) for _ in range(src.n(80)))
    return '\n'.join(src.pick(VALUES_IN) for _ in range(src.int(1, 10)))


VALUES_IN = ['', ' ', '0', '-0', '5', '-5', '+5', '2.5', '.5', '5.', '.', '-', '-.', '1e5', '1e999', 'nan', 'inf', '0x1F', '9' * 18, '9' * 19, '9' * 20, '-9223372036854775808', '9' * 400, '1' + '0' * 400,
             '0.' + '0' * 400 + '1', 'TRUE', 'FALSE', 'true', 'a', 'ab', '1/1/2020', '31/12/9999', '32/1/2020', '1/1', '1/1/1/1', '99999999999999999999/1/1', '-1/-1/-1', '\x00', '5\x00', '\xff\xfe', '"s"', 'Red',
             'x' * 5000, '\t5', '5 ', ' 5', '5 6', '\r', '5\r']


def anyfiles(src, names=('f.txt', 'r.dat', 's')):
    out_ = []
    for n in names:
        k = src.n(6)
        if k == 0:
            continue
        if k == 1:
            d = ''
        elif k == 2:
            d = ''.join(chr(src.n(256)) for _ in range(src.n(60)))
        elif k == 3:
            d = '\n'.join(src.pick(VALUES_IN) for _ in range(src.n(8)))
        else:
            d = randomfile(src)
        out_.append((n, d.encode('latin-1')))
    return out_


def randomfile(src):
    """text resembling a random file, edited"""
    parts = []
    for _ in range(src.n(6)):
        parts.append(src.pick(['INTEGER 5', 'INTEGER -9223372036854775808', 'INTEGER ' + '9' * 30, 'REAL 2.5', 'REAL 1e999', 'REAL nan', 'REAL 0x1.8p3', 'BOOLEAN TRUE', 'BOOLEAN 2', 'CHAR a',
                               'CHAR ', 'STRING 3 abc', 'STRING 99999999999999999999 a', 'STRING -1 a', 'STRING 5 abc', 'STRING abc', 'STRING', 'DATE 1/2/2020', 'DATE 99/99/99', 'DATE 1 2 2020', 'ENUM 1',
                               'ENUM 99', 'COMPOSITE', 'ARRAY 3', 'INTEGER', 'R 5', '5', '#', '', '-1', src.pick(VALUES_IN)]) + src.pick(['\n', '\n#', '\n#\n', '#', ' ', '']))
    t = ''.join(parts)
    for _ in range(src.n(3)):
        i = src.n(len(t) + 1)
        t = t[:i] + src.pick(['\x00', '#', '\n', ' ', '9', '-', 'x', chr(src.n(256))]) + t[i + src.n(3):]
    return t


def mode(src):
    return dict(pedantic=src.chance(25), variant=src.weighted([(3, 'san'), (2, 'plain')]), repl=src.chance(25))


def go(env, src, t, inp, files=(), **kw):
    m = mode(src)
    stdin = anystdin(src, inp)
    if m['repl']:
        r = judge(env, t + '\n\n' + stdin, b'', m['pedantic'], m['variant'], True, files, **kw)
    else:
        r = judge(env, t, stdin, m['pedantic'], m['variant'], False, files, **kw)
    note(env, r, t, stdin, **m)
    return r


def bytes_(src, env, i):
    t, inp = program(src)
    t = bytemutate(src, t)
    env.mark('bytes >= 0x80' if any(ord(c) > 127 for c in t) else 'ascii', *(['NUL'] if '\0' in t else []))
    go(env, src, t, inp, anyfiles(src) if src.chance(30) else ())


def lines_(t):
    return t.split('\n')


def tokens(src, env, i):
    """token- and line-level edits and splices of one or two programs"""
    t, inp = program(src)
    k = src.n(4)
    if k == 0:
        ls = lines_(t)
        for _ in range(src.int(1, 4)):
            a = src.n(len(ls))
            x = src.n(5)
            if x == 0:
                del ls[a]
            elif x == 1:
                ls.insert(src.n(len(ls) + 1), ls[a])
            elif x == 2:
                b = src.n(len(ls))
                ls[a], ls[b] = ls[b], ls[a]
            elif x == 3:
                us = lines_(program(src)[0])
                p = src.n(len(us))
                ls[a:a] = us[p:p + src.int(1, 8)]
            else:
                p = a + src.int(1, 6)
                ls[a:a] = ls[a:p]
            ls = ls or ['']
        t = '\n'.join(ls)
        env.mark('lines')
    else:
        r = tokenize(t)
        if r is None:
            raise Skip('not tokenizable')
        ts = [x.s for x in r[0]]
        if k == 1 and ts:
            own = [x for x in ts if x != '\n']
            for _ in range(src.int(1, 4)):
                a = src.n(len(ts))
                ts[a] = src.pick(own or ts)
            env.mark('own tokens')
        elif k == 2:
            us = strs(program(src)[0]) or []
            a, b = src.n(len(ts) + 1), src.n(len(us) + 1)
            ts = ts[:a] + us[b:b + src.int(1, 30)] + ts[a + src.n(30):]
            env.mark('token splice')
        ts, what = mutate(src, ts, src.int(0 if k else 1, 3))
        t = write(ts)
    go(env, src, t[:4096], inp, anyfiles(src) if src.chance(20) else ())


def soup(src, env, i):
    """random tokens, with line structure and closed blocks preferred"""
    ts = []
    for _ in range(src.int(1, 40)):
        k = src.n(10)
        if k < 3:
            ts.append('\n')
        elif k < 5:
            ts.append(src.pick(['x', 'y', 'f', '1', '"s"', "'a'", '2.5', 'TRUE', '7']))
        else:
            ts.append(src.pick(VOCAB))
    t = src.pick(PRELUDES).replace('\n\n', '\n') + write(ts)
    if src.chance(50):
        t += '\n'
    env.mark('%d0 tokens' % (len(ts) // 10))
    go(env, src, t, ['1', '2', '3'])


def typed(src, env, i):
    """generated programs with deliberate type confusion and other errors"""
    g = Gen(src, errors=src.pick([10, 30, 60]), size=src.pick([8, 14, 20]), localtypes=src.chance(50), bareexpr=src.chance(50), stray=src.pick([1, 10]), wild_index=src.pick([1, 20]), depth=src.pick([2, 3, 4]))
    t = render(unshare(g.program()))
    if src.chance(50):
        # names exchanged: every use of a variable as something else
        names = sorted(set(re.findall(r'\b[A-Za-z]\w*\b', t)) & g.used)
        if len(names) > 1:
            for _ in range(src.int(1, 3)):
                a, b = src.pick(names), src.pick(names)
                occ = [m.start() for m in re.finditer(r'\b%s\b' % a, t)]
                if occ:
                    p = src.pick(occ)
                    t = t[:p] + b + t[p + len(a):]
            env.mark('names exchanged')
    go(env, src, t, list(g.stdin), ())


# ------------------------------------------------------------------ statement templates filled with values of every type
SESSION = '''TYPE Col = (Red, Green, Blue)
TYPE Pi = ^INTEGER
TYPE Pc = ^Col
TYPE Rec
    DECLARE n : INTEGER
    DECLARE s : STRING
    DECLARE a : ARRAY[0:2] OF INTEGER
    DECLARE p : Pi
    DECLARE c : Col
ENDTYPE

TYPE Rec2
    DECLARE r : Rec
    DECLARE q : ARRAY[1:2] OF Rec
ENDTYPE

TYPE Pr = ^Rec
DECLARE i : INTEGER
DECLARE r : REAL
DECLARE b : BOOLEAN
DECLARE k : CHAR
DECLARE s : STRING
DECLARE d : DATE
DECLARE e : Col
DECLARE pi : Pi
DECLARE pu : Pi
DECLARE pc : Pc
DECLARE pr : Pr
DECLARE rec : Rec
DECLARE rec2 : Rec2
DECLARE ai : ARRAY[0:3] OF INTEGER
DECLARE am : ARRAY[-1:1, 5:6] OF STRING
DECLARE ar : ARRAY[1:2] OF Rec
DECLARE ap : ARRAY[1:2] OF Pi
DECLARE ae : ARRAY[1:2] OF Col
CONSTANT ci = 5
CONSTANT cs = "text"
pi <- ^i
pr <- ^rec
e <- Green
d <- 1/2/2020
s <- "abc"
k <- 'k'
PROCEDURE noarg
    OUTPUT "noarg"
ENDPROCEDURE

PROCEDURE byval(a : INTEGER, b : STRING)
    OUTPUT a, b
ENDPROCEDURE

PROCEDURE byref(BYREF a : INTEGER)
    a <- a + 1
ENDPROCEDURE

PROCEDURE byrec(BYREF a : Rec, BYVAL b : Rec)
    a.n <- b.n
ENDPROCEDURE

FUNCTION fi(a : INTEGER) RETURNS INTEGER
    RETURN a
ENDFUNCTION

FUNCTION fnone() RETURNS INTEGER
    OUTPUT "none"
ENDFUNCTION

FUNCTION fs RETURNS STRING
    RETURN s
ENDFUNCTION

FUNCTION frec() RETURNS Rec
    RETURN rec
ENDFUNCTION

FUNCTION fp() RETURNS Pi
    DECLARE l : INTEGER
    DECLARE q : Pi
    q <- ^l
    RETURN q
ENDFUNCTION

pu <- fp()
'''
FILES_S = '''OPENFILE "t.txt" FOR WRITE
WRITEFILE "t.txt", "1"
CLOSEFILE "t.txt"
OPENFILE "r.dat" FOR RANDOM
OPENFILE "f.txt" FOR READ
OPENFILE "o.txt" FOR APPEND
'''
TARGETS = ['i', 'r', 'b', 'k', 's', 'd', 'e', 'pi', 'pu', 'pc', 'pr', 'rec', 'rec2', 'ai', 'am', 'ar', 'ap', 'ae', 'ci', 'cs', 'pi^', 'pu^', 'pr^', 'pr^.n', 'pr^.p', 'pr^.p^', 'pc^', 'rec.n', 'rec.s', 'rec.a',
           'rec.a[1]', 'rec.p', 'rec.p^', 'rec.c', 'rec2.r', 'rec2.q', 'rec2.q[1]', 'rec2.q[2].a[0]', 'ai[0]', 'ai[9]', 'am[0, 5]', 'am[0]', 'ar[1]', 'ar[1].n', 'ap[1]', 'ap[1]^', 'ae[1]', 'Red', 'noarg', 'fi', 'Rec',
           'Col', 'Pi', 'nope', 'nope2', 'nope[1]', 'nope.x', 'nope^', 'i.x', 'i[1]', 'i^', 's[1]', 'rec[1]', 'rec.zz', 'rec^', 'ai.n', 'ai^', 'LENGTH', 'fi.x', 'fi[1]', 'noarg^']
SIMPLE = ['0', '1', '-1', '2', '5', '9223372036854775807', '-9223372036854775807', '(-9223372036854775807 - 1)', '2147483648', '4294967296', '0.0', '-0.5', '2.5', '1.0', '9' * 300 + '.0', '0.' + '0' * 320 + '1',
          '(1.0 / 3)', 'TRUE', 'FALSE', "'a'", "'\\n'", "' '", '"a"', '""', '"12"', '"2.5"', '"TRUE"', '"Red"', '"f.txt"', '"r.dat"', '"t.txt"', '"o.txt"', '"n.txt"', '"1/2/2020"', '"\\n"', 'CHR(0)', 'CHR(255)', '1/1/2020', '29/2/2024', '31/12/9999',
          'fi(3)', 'fnone()', 'fs()', 'frec()', 'fp()', 'noarg()', 'byval(1, "a")', 'Green', 'TODAY()', 'TIME()', '^i', '^rec', '^s', '^e', '^ai', '^ai[1]', '^rec.n', '^ci', '^nope', '(i)', '("a" & "b")', '(1 = 1)', '(x <- 1)', '("9" & "999999999999999999999")', '(0.0 - 0.0)',
          '(1.0 / 0.0000000001)', '(' + '9' * 300 + '.0 * ' + '9' * 300 + '.0)', '(0 * (' + '9' * 300 + '.0 * ' + '9' * 300 + '.0))']
BINOPS = ['+', '-', '*', '/', 'DIV', 'MOD', '&', '=', '<>', '<', '>', '<=', '>=', 'AND', 'OR']
TYPES = ['INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE', 'Col', 'Pi', 'Pc', 'Pr', 'Rec', 'Rec2', 'nope', 'i', 'fi']
ALLFN = sorted(BUILTINS) + ['TODAY', 'TIME', 'HOURS', 'MINUTES', 'SECONDS', 'POW', 'EXP', 'SIN', 'COS', 'TAN', 'ASIN', 'ACOS', 'ATAN', 'ATAN2', 'SQRT', 'LOG', 'LN', 'RAND', 'EOF', 'fi', 'fs', 'frec', 'fnone', 'byval', 'nope']
MORE = {'POW': ['REAL', 'REAL'], 'ATAN2': ['REAL', 'REAL'], 'RAND': ['INTEGER'], 'EOF': ['STRING'], 'TODAY': [], 'TIME': [], 'HOURS': [], 'MINUTES': [], 'SECONDS': []}
MORE.update((f, ['REAL']) for f in ('EXP', 'SIN', 'COS', 'TAN', 'ASIN', 'ACOS', 'ATAN', 'SQRT', 'LOG', 'LN', 'INTEGER', 'STRING', 'BOOLEAN', 'CHAR'))
SIGS = {f: [t.name for t in BUILTINS[f][0]] for f in BUILTINS}
SIGS.update(MORE)
PRIMS = ['INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE']


def val(src, d=2):
    k = src.n(12)
    if k < 4 or d == 0:
        return src.pick(SIMPLE)
    if k < 7:
        return src.pick(TARGETS)
    if k == 7:
        return '(%s %s %s)' % (val(src, d - 1), src.pick(BINOPS), val(src, d - 1))
    if k == 8:
        return '%s%s' % (src.pick(['-', 'NOT ']), val(src, d - 1))
    if k == 9:
        return '%s(%s)' % (src.pick(PRIMS), val(src, d - 1))
    if k == 10:
        f = src.pick(ALLFN)
        n = src.weighted([(5, None), (1, 0), (1, 1), (1, 2), (1, 3), (1, 4)])
        if n is None:
            n = len(SIGS[f]) if f in SIGS else src.n(3)
            if src.chance(60) and f in SIGS:
                return '%s(%s)' % (f, ', '.join(src.pick(TYPED[t]) for t in SIGS[f]))
        return '%s(%s)' % (f, ', '.join(val(src, d - 1) for _ in range(n)))
    return '%s[%s]' % (src.pick(['ai', 'am', 'ar', 'rec.a', 'rec2.q', 'ae']), ', '.join(val(src, d - 1) for _ in range(src.int(1, 3))))


TYPED = {'INTEGER': ['0', '1', '-1', '2', '3', '13', '32', '1000', '9223372036854775807', '(-9223372036854775807 - 1)', '-9223372036854775807', '4294967297', '256', '255', '-128', 'i', 'ai[1]', 'rec.n', '1900', '9999', '10000', '65535', '-32768'],
         'REAL': ['0.0', '-0.0', '1.5', '-2.5', '9' * 300 + '.0', '-' + '9' * 300 + '.0', '(' + '9' * 300 + '.0 * ' + '9' * 300 + '.0)', '(0 * (' + '9' * 300 + '.0 * ' + '9' * 300 + '.0))', '0.' + '0' * 320 + '1', '1', 'i', 'r',
                  '65536', '2147483648', '4294967296.0', '4294967296', '4294967297', '8589934592', '-4294967296.0', '1099511627776', '18446744073709551616.0', '9223372036854775808.0', '-9223372036854775808.0'],
         'STRING': ['""', '"a"', '"abc"',  '"abcdefghijklmnopqrst"', 's', 'cs', '"\\n"', 'CHR(0)', '(CHR(200) & CHR(255))', '"-"', '"."', '"9223372036854775808"', '"1e5"', '"1e999"', '" 5"', '"5x"', '"nan"', '"0x1p5"', '"abcdefghijklmnopqrst"', '"' + 'z' * 300 + '"', '"' + '9' * 400 + '"'],
         'CHAR': ["'a'", "'Z'", 'k', "' '", "'\\n'", 'CHR(0)', 'CHR(128)', 'CHR(255)', "'\\''"],
         'DATE': ['1/1/2020', 'd', '29/2/2024', '31/12/9999', '1/1/1', 'SETDATE(1, 1, 32767)', 'TODAY()'],
         'BOOLEAN': ['TRUE', 'FALSE', 'b', '(1 = 1)']}


def stmt(src, k):
    """(text of an entry, may contain line breaks)"""
    v, t = val, lambda: src.pick(TARGETS)
    x = src.n(40)
    if x < 4:
        return 'OUTPUT ' + ', '.join(v(src, 3) for _ in range(src.int(1, 2)))
    if x < 7:
        return '%s <- %s' % (t(), v(src))
    if x == 7:
        return '%s' % v(src)
    if x == 8:
        return 'DECLARE n%d : ARRAY[%s:%s] OF %s' % (k, v(src, 1), v(src, 1), src.pick(TYPES))
    if x == 9:
        return 'DECLARE n%d : %s' % (k, src.pick(TYPES))
    if x == 10:
        return 'IF %s THEN\n    OUTPUT 1\nENDIF' % v(src)
    if x == 11:
        return 'WHILE %s DO\n    BREAK\nENDWHILE' % v(src)
    if x == 12:
        return 'FOR %s <- %s TO %s STEP %s\n    BREAK\nNEXT' % (src.pick(['n%d' % k] + TARGETS), v(src, 1), v(src, 1), v(src, 1))
    if x == 13:
        return 'CASE OF %s\n    %s : OUTPUT 1\n    %s TO %s : OUTPUT 2\n    OTHERWISE : OUTPUT 3\nENDCASE' % (src.pick(TARGETS), v(src, 1), v(src, 1), v(src, 1))
    if x == 14:
        return 'CALL %s(%s)' % (src.pick(['noarg', 'byval', 'byref', 'byrec', 'fi', 'nope', 'LENGTH']), ', '.join(v(src) for _ in range(src.n(4))))
    if x == 15:
        return 'CALL byref(%s)' % t()
    if x == 16:
        return 'CALL byrec(%s, %s)' % (t(), v(src))
    if x == 17:
        return '%s %s' % (src.pick(['INPUT', 'READ']), t())
    if x == 18:
        return 'FUNCTION n%d() RETURNS %s\n    RETURN %s\nENDFUNCTION\nOUTPUT n%d()' % (k, src.pick(TYPES), v(src), k)
    if x == 19:
        return 'PROCEDURE n%d(%s a : %s)\n    OUTPUT a\n    a <- %s\nENDPROCEDURE\nCALL n%d(%s)' % (k, src.pick(['BYREF', 'BYVAL', '']), src.pick(TYPES), v(src), k, v(src))
    if x == 20:
        return 'OPENFILE %s FOR %s' % (v(src, 1), src.pick(['READ', 'WRITE', 'APPEND', 'RANDOM']))
    if x == 21:
        return 'CLOSEFILE %s' % v(src, 1)
    if x == 22:
        return 'READFILE %s, %s' % (src.pick(['"f.txt"', v(src, 1)]), t())
    if x == 23:
        return 'WRITEFILE %s, %s' % (src.pick(['"o.txt"', v(src, 1)]), v(src))
    if x == 24:
        return 'SEEK %s, %s' % (src.pick(['"r.dat"', v(src, 1)]), v(src))
    if x in (25, 26):
        return 'GETRECORD %s, %s' % (src.pick(['"r.dat"', v(src, 1)]), t())
    if x in (27, 28):
        return 'PUTRECORD %s, %s' % (src.pick(['"r.dat"', v(src, 1)]), t())
    if x == 29:
        return 'OUTPUT EOF(%s)' % v(src, 1)
    if x == 30:
        return 'CONSTANT n%d = %s' % (k, v(src, 1))
    if x == 31:
        return 'TYPE n%d = ^%s' % (k, src.pick(TYPES))
    if x == 32:
        return 'TYPE n%d\n    DECLARE a : %s\n    DECLARE b : ARRAY[%s:%s] OF %s\n    DECLARE c : n%d\nENDTYPE\nDECLARE m%d : n%d' % (k, src.pick(TYPES), v(src, 0), v(src, 0), src.pick(TYPES), k - src.n(3), k, k)
    if x == 33:
        return 'TYPE n%d\n    %s\nENDTYPE\nDECLARE m%d : n%d\nOUTPUT m%d' % (k, stmt(src, k + 1000).replace('\n', '\n    '), k, k, k)
    if x == 34:
        return 'TYPE n%d = (a%d, b%d)\nDECLARE m%d : n%d\nm%d <- %s\nOUTPUT m%d + %s' % (k, k, k, k, k, k, v(src, 1), k, v(src, 1))
    if x == 35:
        return 'PROCEDURE n%d\n    %s\n    %s\nENDPROCEDURE\nCALL n%d\nCALL n%d' % (k, stmt(src, k + 1000).replace('\n', '\n    '), stmt(src, k + 2000).replace('\n', '\n    '), k, k)
    if x == 36:
        return 'FOR n%d <- 1 TO 3\n    %s\n    %s\nNEXT' % (k, stmt(src, k + 1000).replace('\n', '\n    '), src.pick(['CONTINUE', 'BREAK', 'OUTPUT 1']))
    if x == 37:
        return 'REPEAT\n    %s\nUNTIL %s' % (src.pick(['BREAK', 'CONTINUE', 'OUTPUT 1']), v(src))
    if x == 38:
        return '%s <- %s' % (t(), t())
    return 'IF %s THEN\n    OUTPUT 1\nELSE IF %s THEN\n    %s\nELSE\n    %s\nENDIF' % (v(src), v(src), stmt(src, k + 1000), stmt(src, k + 2000))


def templates(src, env, i):
    """a session of statements whose operands have every type and boundary value"""
    n = src.int(1, 40)
    parts = []
    for k in range(n):
        e = stmt(src, k)
        # RETURN and definitions need the blank line, an INPUT line follows as data
        parts.append(e + '\n\n')
        if 'INPUT' in e or 'READ ' in e:
            parts.append(src.pick(VALUES_IN) + '\n')
    var = src.weighted([(3, 'san'), (2, 'plain')])
    files = anyfiles(src, ('f.txt', 'r.dat', 'o.txt'))
    withfiles = src.chance(70)
    t = SESSION + (FILES_S if withfiles else '') + '\n'.join(parts)
    ped = src.chance(15)
    if not src.chance(25):
        r = judge(env, t, b'', ped, var, True, files)
        errors = r.err.count(b'Runtime Error in')
        env.mark('errors per session: %d' % (errors // 10 * 10))
    else:
        t = SESSION.replace('\n\n', '\n') + (FILES_S if withfiles else '') + parts[0].replace('\n\n', '\n')
        r = judge(env, t, src.pick(VALUES_IN) + '\n', ped, var, False, files)
    env.mark(*sorted({re.match(r'\w*', p).group(0) or '?' for p in parts})[:12])
    note(env, r, '\n'.join(parts), b'', variant=var, pedantic=ped)
    env.nontrivial = True


EDGE_I = [0, 1, -1, 2, -2, 3, 10, 255, 256, 32767, -32768, 65536, (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, 1 << 32, -(1 << 32), (1 << 53) + 1, 10 ** 18,
          (1 << 62), -(1 << 62), (1 << 63) - 1, -(1 << 63) + 1, -(1 << 63)]
EDGE_R = ['0.0', '-0.0', '1.0', '-1.0', '2.0', '-2.0', '0.5', '-0.5', '0.1', '-3.7', '2147483648.0', '-2147483649.0', '4294967296.5', '9007199254740993.0', '9223372036854775807.0', '-9223372036854775807.0',
          '9223372036854775808.0', '-9223372036854775808.0', '18446744073709551616.0', '-99999999999999999999999.0', '9' * 300 + '.0', '-' + '9' * 300 + '.0', '0.' + '0' * 320 + '1', '-0.' + '0' * 300 + '1',
          '(' + '9' * 300 + '.0 * ' + '9' * 300 + '.0)', '(0.0 - ' + '9' * 300 + '.0 * ' + '9' * 300 + '.0)', '(0 * (' + '9' * 300 + '.0 * ' + '9' * 300 + '.0))']
EDGES = ['(%d - 1)' % (v + 1) if v == -(1 << 63) else '%d' % v for v in EDGE_I] + EDGE_R
ARITH = ['+', '-', '*', '/', 'DIV', 'MOD', '=', '<>', '<', '>', '<=', '>=']


def arith(src, env, i):
    """every arithmetic operator on every pair of edge values, as literals and through variables: i -> (operator, left operand)"""
    o, a = divmod(i, len(EDGES))
    x, t = EDGES[a], lambda k: 'i' if k < len(EDGE_I) else 'r'
    lines = ['%s <- %s' % (t(a) + t(a), x)]
    for k, y in enumerate(EDGES):
        lines += ['%s <- %s' % (t(k), y), 'OUTPUT %s %s %s' % (x, ARITH[o], y), 'OUTPUT %s %s %s' % (t(a) + t(a), ARITH[o], t(k)),
                  'i <- %s %s %s' % (x, ARITH[o], y), 'r <- %s %s %s' % (t(a) + t(a), ARITH[o], y)]
    pre = 'DECLARE i, ii : INTEGER\nDECLARE r, rr : REAL\n'
    try:
        judge(env, pre + '\n'.join(lines) + '\n', b'', False, 'san', True, [])
    except Fail:
        for l in lines[1:]:
            judge(env, pre + lines[0] + '\n' + l + '\n\n', b'', False, 'san', True, [])
        raise
    env.runs += len(lines) - 1
    env.nontrivial = True
    env.mark(ARITH[o])
    env.sample = dict(lines=lines[:5])


def ops(src, env, i):
    """every operator x pair of operands: i -> (operator, left operand), all right operands in one session"""
    allv = SIMPLE + TARGETS
    o, a = divmod(i, len(allv))
    lines = []
    for v in allv:
        if o < len(BINOPS):
            lines.append('OUTPUT %s %s %s' % (allv[a], BINOPS[o], v))
        elif o == len(BINOPS):
            lines.append('%s <- %s' % (allv[a], v))
        elif o == len(BINOPS) + 1:
            lines.append('OUTPUT ai[%s], am[%s, %s], rec.a[%s]' % (v, allv[a], v, v))
        elif o == len(BINOPS) + 2:
            lines.append('CASE OF i\n    %s TO %s : OUTPUT 1\nENDCASE\n' % (allv[a], v))
        elif o == len(BINOPS) + 3:
            lines.append('CALL byval(%s, %s)' % (allv[a], v))
            lines.append('CALL byrec(%s, %s)' % (allv[a], v))
        elif o == len(BINOPS) + 4:
            lines.append('%s' % ' '.join(('SEEK', allv[a] + ',', v)))
            lines.append('%s' % ' '.join(('PUTRECORD', v + ',', allv[a])))
            lines.append('%s' % ' '.join(('GETRECORD', v + ',', allv[a])))
            lines.append('%s' % ' '.join(('READFILE', v + ',', allv[a])))
            lines.append('%s' % ' '.join(('WRITEFILE', v + ',', allv[a])))
        elif o == len(BINOPS) + 5:
            lines.append('FOR zz <- %s TO %s\n    BREAK\nNEXT\n' % (allv[a], v))
        elif o == len(BINOPS) + 6:
            lines.append('DECLARE z%d : ARRAY[%s:%s] OF CHAR' % (len(lines), allv[a], v))
        else:
            lines.append('OUTPUT ATAN2(%s, %s), POW(%s, %s)' % (allv[a], v, allv[a], v))
            lines.append('OUTPUT LEFT(%s, %s), RIGHT(%s, %s), MID(%s, 1, %s), MID(%s, %s, 1)' % ((allv[a], v) * 4))
            lines.append('OUTPUT SETDATE(%s, %s, 2020), SETDATE(1, %s, %s)' % ((allv[a], v) * 2))
    t = SESSION + FILES_S + '\n'.join(lines) + '\n'
    try:
        judge(env, t, b'', False, 'san', True, [('f.txt', b'1\n2\n'), ('r.dat', b'INTEGER 5\n')])
    except Fail as f:
        for l in lines:
            judge(env, SESSION + FILES_S + l + '\n\n', b'', False, 'san', True, [('f.txt', b'1\n2\n'), ('r.dat', b'INTEGER 5\n')])
        raise
    env.runs += len(lines) - 1
    env.nontrivial = True
    env.mark(BINOPS[o] if o < len(BINOPS) else 'statement %d' % (o - len(BINOPS)))
    env.sample = dict(lines=lines[:6])


NOPS = (len(BINOPS) + 8) * (len(SIMPLE) + len(TARGETS))


def ops_some(src, env, i):
    ops(src, env, src.n(NOPS))
    env.digest = repr(src.rec)


# ------------------------------------------------------------------ every value in every position of otherwise sound statements
HOLES = [
    'OUTPUT %s', 'OUTPUT 1, %s, 2', '%s', 'z# <- %s', 'i <- %s', 'r <- %s', 's <- %s', 'k <- %s', 'b <- %s', 'd <- %s', 'e <- %s', 'pi <- %s', 'rec <- %s', 'ai <- %s', 'rec.n <- %s', 'rec.a <- %s', 'ai[1] <- %s', 'pi^ <- %s',
    '%s <- 5', '%s <- "a"', '%s <- ^i', '%s <- rec', 'ai[%s] <- 1', 'am[%s, 5] <- "a"', 'am[0, %s] <- "a"', 'OUTPUT ai[%s]', 'OUTPUT am[%s, 5]', 'OUTPUT am[0, %s]', 'OUTPUT rec.a[%s]', 'OUTPUT rec2.q[%s].n', 'rec2.q[%s].n <- 1',
    'z# <- ^%s', 'OUTPUT %s^', 'OUTPUT %s.n', 'OUTPUT %s[1]', 'OUTPUT -%s', 'OUTPUT NOT %s', 'OUTPUT (%s)', 'OUTPUT +%s',
    'IF %s THEN\n    OUTPUT 1\nENDIF\n', 'IF FALSE THEN\n    OUTPUT 1\nELSE IF %s THEN\n    OUTPUT 2\nELSE\n    OUTPUT 3\nENDIF\n', 'WHILE %s DO\n    BREAK\nENDWHILE\n', 'REPEAT\n    OUTPUT 1\n    IF TRUE THEN\n        BREAK\n    ENDIF\nUNTIL %s\n',
    'REPEAT\n    i <- 0\nUNTIL (%s) = 1 OR TRUE\n',
    'FOR z# <- %s TO 9\n    BREAK\nNEXT\n', 'FOR z# <- 1 TO %s\n    BREAK\nNEXT\n', 'FOR z# <- 1 TO 9 STEP %s\n    BREAK\nNEXT\n', 'FOR %s <- 1 TO 2\n    BREAK\nNEXT\n', 'FOR z# <- 1 TO 2 STEP %s\n    BREAK\nNEXT z#\n',
    'CASE OF %s\n    0 : OUTPUT 1\n    OTHERWISE : OUTPUT 3\nENDCASE\n', 'CASE OF %s\n    -5 TO 5 : OUTPUT 1\nENDCASE\n', 'CASE OF %s\n    "a" : OUTPUT 1\n    \'a\' : OUTPUT 2\nENDCASE\n',
    'CASE OF i\n    %s : OUTPUT 1\nENDCASE\n', 'CASE OF i\n    -9 TO %s : OUTPUT 1\nENDCASE\n', 'CASE OF i\n    %s TO 9 : OUTPUT 1\nENDCASE\n', 'CASE OF r\n    -9.5 TO %s : OUTPUT 1\nENDCASE\n', 'CASE OF r\n    %s TO 9.5 : OUTPUT 1\nENDCASE\n',
    'CASE OF s\n    %s : OUTPUT 1\nENDCASE\n', 'CASE OF k\n    %s : OUTPUT 1\nENDCASE\n', 'CASE OF b\n    %s : OUTPUT 1\nENDCASE\n', 'CASE OF d\n    %s : OUTPUT 1\nENDCASE\n', 'CASE OF e\n    %s : OUTPUT 1\nENDCASE\n', 'CASE OF pi\n    %s : OUTPUT 1\nENDCASE\n',
    'CASE OF rec\n    %s : OUTPUT 1\nENDCASE\n', 'CASE OF s\n    "a" TO %s : OUTPUT 1\nENDCASE\n', 'CASE OF k\n    %s TO \'z\' : OUTPUT 1\nENDCASE\n',
    'DECLARE z# : ARRAY[%s:5] OF INTEGER\nz#[5] <- 1', 'DECLARE z# : ARRAY[-5:%s] OF STRING\nz#[-5] <- "a"', 'DECLARE z# : ARRAY[1:2, %s:3] OF CHAR\nz#[1, 3] <- \'a\'', 'TYPE z#\n    DECLARE a : ARRAY[%s:3] OF REAL\nENDTYPE\n\nDECLARE y# : z#\ny#.a[3] <- 1',
    'CONSTANT z# = %s\nOUTPUT z#', 'CALL byval(%s, "a")', 'CALL byval(1, %s)', 'CALL byref(%s)', 'CALL byrec(%s, rec)', 'CALL byrec(rec, %s)', 'OUTPUT fi(%s)', 'CALL %s', 'CALL noarg(%s)',
    'OPENFILE %s FOR READ', 'OPENFILE %s FOR WRITE', 'OPENFILE %s FOR APPEND', 'OPENFILE %s FOR RANDOM', 'CLOSEFILE %s', 'READFILE %s, s', 'READFILE "f.txt", %s', 'WRITEFILE %s, "a"', 'WRITEFILE "o.txt", %s', 'SEEK %s, 1', 'SEEK "r.dat", %s',
    'GETRECORD %s, i', 'GETRECORD "r.dat", %s', 'PUTRECORD %s, i', 'PUTRECORD "r.dat", %s', 'OUTPUT EOF(%s)', 'INPUT %s\n5', 'READ %s\nabc',
    'FUNCTION z#() RETURNS INTEGER\n    RETURN %s\nENDFUNCTION\n\nOUTPUT z#()', 'FUNCTION z#() RETURNS STRING\n    RETURN %s\nENDFUNCTION\n\nOUTPUT z#()', 'FUNCTION z#() RETURNS Rec\n    RETURN %s\nENDFUNCTION\n\ny# <- z#()', 'FUNCTION z#() RETURNS REAL\n    RETURN %s\nENDFUNCTION\n\nOUTPUT z#()',
    'PROCEDURE z#(a : INTEGER)\n    a <- %s\n    OUTPUT a\nENDPROCEDURE\n\nCALL z#(1)', 'PROCEDURE z#(BYREF a : Rec)\n    a.s <- %s\nENDPROCEDURE\n\nCALL z#(rec)', 'FOR z# <- 1 TO 2\n    OUTPUT %s\nNEXT\n', 'RUNFILE "%s"',
]


def holes(src, env, i):
    """a statement with one value of its own, and every value there is in its place"""
    allv = SIMPLE + TARGETS
    lines = [HOLES[i].replace('#', str(k)).replace('%s', v) for k, v in enumerate(allv)]
    files = [('f.txt', b'1\n2\n'), ('r.dat', b'INTEGER 5\n')]
    try:
        judge(env, SESSION + FILES_S + '\n'.join(l + '\n' for l in lines), b'', False, 'san', True, files)
    except Fail:
        for l in lines:
            judge(env, SESSION + FILES_S + l + '\n\n', b'', False, 'san', True, files)
        raise
    env.runs += len(lines) - 1
    env.nontrivial = True
    env.mark(HOLES[i].split()[0])
    env.sample = dict(lines=lines[:6])


# ------------------------------------------------------------------ every pair of types through every route
TWINS = """TYPE Ea = (A0, A1, A2)
TYPE Eb = (B0, B1, B2, B3)
TYPE Pa = ^INTEGER
TYPE Pb = ^Ea
TYPE Pc = ^INTEGER
TYPE Ra
    DECLARE x : INTEGER
    DECLARE y : STRING
    DECLARE z : ARRAY[1:2] OF Ea
ENDTYPE

TYPE Rb
    DECLARE x : INTEGER
    DECLARE y : STRING
    DECLARE z : ARRAY[1:2] OF Ea
ENDTYPE

TYPE Rc
    DECLARE e : Eb
    DECLARE r : Ra
ENDTYPE

TYPE Pr = ^Ra
"""
TWIN_TYPES = ['INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE', 'Ea', 'Eb', 'Pa', 'Pb', 'Pc', 'Pr', 'Ra', 'Rb', 'Rc']
for _t in TWIN_TYPES:
    TWINS += 'DECLARE v%s, w%s : %s\nDECLARE a%s, b%s : ARRAY[1:2] OF %s\n' % ((_t,) * 6)
TWINS += 'vEa <- A2\nvEb <- B3\nvPa <- ^vINTEGER\nvPb <- ^vEa\nvPc <- ^wINTEGER\nvPr <- ^vRa\nvSTRING <- "text"\nvCHAR <- \'c\'\nvDATE <- 1/2/2003\n'
FORMS = {'v': ('v%s', 'w%s'), 'element': ('a%s[1]', 'b%s[2]'), 'array': ('a%s', 'b%s')}
ROUTES = {
    'assign': lambda k, a, b, A, B: '%s <- %s' % (a, b),
    'point': lambda k, a, b, A, B: '%s <- ^%s' % (a, b),
    'store through': lambda k, a, b, A, B: '%s^ <- %s' % (a, b),
    'load through': lambda k, a, b, A, B: '%s <- %s^' % (a, b),
    'byval': lambda k, a, b, A, B: 'PROCEDURE p%d(q : %s)\n    DECLARE l : %s\n    l <- q\n    q <- l\n    OUTPUT q\nENDPROCEDURE\n\nCALL p%d(%s)' % (k, A, A, k, b),
    'byref': lambda k, a, b, A, B: 'PROCEDURE p%d(BYREF q : %s)\n    DECLARE l : %s\n    l <- q\n    q <- l\n    OUTPUT q\nENDPROCEDURE\n\nCALL p%d(%s)' % (k, A, A, k, b),
    'byref of byref': lambda k, a, b, A, B: 'PROCEDURE o%d(BYREF q : %s)\n    OUTPUT q\nENDPROCEDURE\n\nPROCEDURE p%d(BYREF q : %s)\n    CALL o%d(q)\nENDPROCEDURE\n\nCALL p%d(%s)' % (k, A, k, B, k, k, b),
    'function argument': lambda k, a, b, A, B: 'FUNCTION p%d(q : %s) RETURNS %s\n    RETURN q\nENDFUNCTION\n\n%s <- p%d(%s)\nOUTPUT %s' % (k, A, A, a, k, b, a),
    'return': lambda k, a, b, A, B: 'FUNCTION p%d() RETURNS %s\n    RETURN %s\nENDFUNCTION\n\nOUTPUT p%d()\n%s <- p%d()\nOUTPUT %s' % (k, A, b, k, a, k, a),
    'return to other': lambda k, a, b, A, B: 'FUNCTION p%d() RETURNS %s\n    RETURN %s\nENDFUNCTION\n\n%s <- p%d()' % (k, A, a, b, k),
    'compare': lambda k, a, b, A, B: 'OUTPUT %s = %s, %s <> %s\nOUTPUT %s < %s' % ((a, b) * 3),
    'case': lambda k, a, b, A, B: 'CASE OF v%s\n    %s : OUTPUT 1\n    %s TO %s : OUTPUT 2\nENDCASE\n' % (A, b, b, b),
    'arithmetic': lambda k, a, b, A, B: 'OUTPUT %s + %s\nOUTPUT %s - %s\nOUTPUT %s * %s\nOUTPUT %s & %s\nOUTPUT %s AND %s' % ((a, b) * 5),
    'record': lambda k, a, b, A, B: 'PUTRECORD "r.dat", %s\nGETRECORD "r.dat", %s\nOUTPUT %s\nPUTRECORD "r.dat", %s' % (b, a, a, a),
    'field': lambda k, a, b, A, B: 'TYPE t%d\n    DECLARE f : %s\n    DECLARE g : ARRAY[1:2] OF %s\nENDTYPE\n\nDECLARE z%d : t%d\nz%d.f <- %s\nz%d.g[2] <- %s\nz%d.g <- %s\n%s <- z%d.g\nOUTPUT z%d.f' % (k, A, A, k, k, k, b, k, b, k, b, b, k, k),
    'local': lambda k, a, b, A, B: 'PROCEDURE p%d()\n    DECLARE q : %s\n    DECLARE r : ARRAY[1:2] OF %s\n    q <- %s\n    r[1] <- q\n    r <- %s\n    OUTPUT q\nENDPROCEDURE\n\nCALL p%d' % (k, A, A, b, b, k),
    'index': lambda k, a, b, A, B: 'OUTPUT a%s[%s]\na%s[%s] <- %s' % (A, b, A, b, a),
    'bound': lambda k, a, b, A, B: 'DECLARE z%d : ARRAY[%s:%s] OF %s' % (k, b, b, A),
    'loop': lambda k, a, b, A, B: 'FOR v%s <- %s TO %s\n    BREAK\nNEXT\n\nWHILE %s\n    BREAK\nENDWHILE\n' % (A, b, b, b),
    'text': lambda k, a, b, A, B: 'WRITEFILE "o.txt", %s\nREADFILE "f.txt", v%s\nINPUT %s\n5' % (b, A, a),
    'cast': lambda k, a, b, A, B: '%s <- %s(%s)\nOUTPUT %s(%s)' % (a, A, b, A, b),
    'undeclared': lambda k, a, b, A, B: 'z%d <- %s\nz%d <- %s\n%s <- z%d\nOUTPUT z%d' % (k, b, k, a, a, k, k),
}
RNAMES = sorted(ROUTES)
TWIN_CASES = [(r, f, g, t) for r in RNAMES for f in sorted(FORMS) for g in sorted(FORMS) for t in range(len(TWIN_TYPES))]


def twins(src, env, i):
    """i -> (route, form of both sides, type of the left side); the type of the right side runs over all types"""
    r, f, g, t = TWIN_CASES[i]
    A = TWIN_TYPES[t]
    parts = []
    for k, B in enumerate(TWIN_TYPES):
        a, b = FORMS[f][0] % A, FORMS[g][1] % B
        if src.chance(30):
            b = FORMS[g][0] % B
        parts.append(ROUTES[r](k, a, b, A, B) + '\n\n')
    head = TWINS + 'OPENFILE "r.dat" FOR RANDOM\nOPENFILE "o.txt" FOR WRITE\nOPENFILE "f.txt" FOR READ\n'
    files = [('f.txt', b'1\n2\n3\n'), ('r.dat', b'INTEGER 5\n')]
    try:
        res = judge(env, head + ''.join(parts), b'', False, 'san', True, files)
    except Fail:
        for p_ in parts:
            judge(env, head + p_, b'', False, 'san', True, files)
        raise
    # one of them as a program of its own
    k = src.n(len(parts))
    if r != 'text':
        judge(env, head + parts[k], b'', False, src.pick(['san', 'plain']), False, files)
    env.runs += len(parts) - 1
    env.nontrivial = True
    env.mark(r, '%s/%s' % (f, g))
    env.sample = dict(route=r, entries=parts[:3], diagnosed=res.err.count(b'Runtime Error in'))


def twins_some(src, env, i):
    n = len(FORMS) ** 2 * len(TWIN_TYPES)
    twins(src, env, (i % len(RNAMES)) * n + src.n(n))
    env.digest = repr(src.rec)


# ------------------------------------------------------------------ every built-in over its boundary arguments
def fnargs():
    r = []
    ints = TYPED['INTEGER'] + ['4', '5', '6', '7', '12', '31', '20', '21', '60', '2147483648', '4294967296', '65536', '-2', '300', '301']
    for f in sorted(SIGS):
        ps = [ints if t == 'INTEGER' else TYPED[t] for t in SIGS[f]]
        if not ps:
            r.append((f, []))
        elif len(ps) == 1:
            r += [(f, [x]) for x in ps[0]]
        elif len(ps) == 2:
            r += [(f, [x, y]) for x in ps[0] for y in ps[1]]
        else:
            few = [x for x in ps[0] if x != 's'][:13]
            r += [(f, [x, y, z]) for x in few for y in ps[1] for z in ps[2]]
    return r


FNARGS = fnargs()
FNBLOCK = 120


def fns(src, env, i):
    """i -> block of calls; every call is repeated with one argument too few, too many and of another type"""
    calls = []
    for f, a in FNARGS[i * FNBLOCK:(i + 1) * FNBLOCK]:
        calls.append('%s(%s)' % (f, ', '.join(a)))
        k = src.n(8)
        if k == 0:
            calls.append('%s(%s)' % (f, ', '.join(a[:-1])))
        elif k == 1:
            calls.append('%s(%s)' % (f, ', '.join(a + [src.pick(SIMPLE)])))
        elif k == 2 and a:
            a = list(a)
            a[src.n(len(a))] = src.pick(SIMPLE + TARGETS)
            calls.append('%s(%s)' % (f, ', '.join(a)))
    lines = ['OUTPUT ' + c for c in calls]
    try:
        r = judge(env, SESSION + FILES_S + '\n'.join(lines) + '\n', b'', False, 'san', True, [('f.txt', b'1\n'), ('r.dat', b'INTEGER 5\n')])
    except Fail:
        for l in lines:
            judge(env, SESSION + FILES_S + l + '\n', b'', False, 'san', True, [('f.txt', b'1\n'), ('r.dat', b'INTEGER 5\n')])
        raise
    env.runs += len(lines) - 1
    env.nontrivial = True
    env.mark(*sorted({c.split('(')[0] for c in calls}))
    env.sample = dict(calls=lines[:4], diagnosed=r.err.count(b'Runtime Error in'))


NFNS = -(-len(FNARGS) // FNBLOCK)


# ------------------------------------------------------------------ expressions that change what the statement around them works on
def effects(src, env, i):
    repl = i % 3 != 0
    text = Eff(src, repl).program()
    stdin = b'' if repl else b'7\nabc\n'
    r = judge(env, text, stdin, variant='plain' if i % 6 == 1 else 'san', repl=repl, files=[('f.txt', b'one\ntwo\nthree\n')])
    note(env, r, text, stdin, repl=repl)


# ------------------------------------------------------------------ arbitrary data files and input
def data(src, env, i):
    """arbitrary contents of files opened FOR READ or RANDOM, read into every type"""
    types = ['INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE', 'Col', 'Pi', 'Rec', 'Rec2', 'Flat', 'Deep']
    n = src.int(1, 8)
    plan = [(src.pick(types), src.int(1, 3) if src.chance(25) else 0) for _ in range(n)]
    t = FLAT + ''.join('DECLARE v%d : %s%s\n' % (k, 'ARRAY[1:%d] OF ' % m if m else '', ty) for k, (ty, m) in enumerate(plan))
    body = []
    if src.chance(60):
        body.append('OPENFILE "r.dat" FOR RANDOM\n')
        for k in range(src.int(1, 10)):
            body.append(src.pick(['GETRECORD "r.dat", v%d\n' % src.n(n), 'SEEK "r.dat", %d\n' % src.int(0, 9), 'PUTRECORD "r.dat", v%d\n' % src.n(n), 'OUTPUT v%d\n' % src.n(n), 'OUTPUT EOF("r.dat")\n',
                                  'CLOSEFILE "r.dat"\nOPENFILE "r.dat" FOR RANDOM\n']))
    else:
        body.append('OPENFILE "f.txt" FOR %s\n' % src.pick(['READ', 'APPEND', 'WRITE', 'READ']))
        for k in range(src.int(1, 10)):
            body.append(src.pick(['READFILE "f.txt", v%d\n' % src.n(n), 'OUTPUT v%d\n' % src.n(n), 'OUTPUT EOF("f.txt")\n', 'WRITEFILE "f.txt", v%d\n' % src.n(n), 'READFILE "f.txt", s\n']))
    r = None
    if src.chance(45):
        # records as the interpreter writes them, for the variables that are read
        which = [k for k, (ty, m) in enumerate(plan) if ty not in ('Pi', 'Rec', 'Rec2')] or [0]
        which = [src.pick(which) for _ in range(src.int(1, 6))]
        record = ''.join(wellformed(src, *plan[k]) + '\n' for k in which).encode('latin-1')
        body = ['OPENFILE "r.dat" FOR RANDOM\n']
        for pos, k in enumerate(which):
            body.append('SEEK "r.dat", %d\nGETRECORD "r.dat", v%d\n' % (pos + 1, k))
            v = 'v%d' % k + ('[1]' if plan[k][1] else '')
            flat = lambda x: 'OUTPUT %s.n, %s.s, %s.k, %s.c\nOUTPUT %s.x, %s.d, %s.a[2]\n' % ((x,) * 7)
            body.append({'Flat': flat(v), 'Deep': flat(v + '.f') + flat(v + '.g[2]') + 'OUTPUT %s.h[1], %s.b\n' % (v, v)}.get(plan[k][0], 'OUTPUT %s\n' % v))
            if src.chance(30):
                body.append(src.pick(['PUTRECORD "r.dat", v%d\n', 'v%d <- v%d\n' % (k, k) + 'OUTPUT v%d = v%d\n', 'OUTPUT v%d + 1\n']).replace('%d', str(k)))
        env.mark('records of the types read')
    else:
        record = written(src, env)
    files = [('r.dat', record), ('f.txt', '\n'.join(src.pick(VALUES_IN) for _ in range(src.n(6))).encode('latin-1'))]
    session_ = src.chance(60)
    text = SESSION + t + ''.join(body)
    if not session_:
        text = SESSION.replace('\n\n', '\n') + t + ''.join(body)
    var = src.weighted([(3, 'san'), (1, 'plain')])
    r = judge(env, text, b'', False, var, session_, files)
    note(env, r, t + ''.join(body), repr(files).encode(), repl=session_)
    env.nontrivial = True


FLAT = '''TYPE Flat
    DECLARE n : INTEGER
    DECLARE s : STRING
    DECLARE k : CHAR
    DECLARE c : Col
    DECLARE x : REAL
    DECLARE d : DATE
    DECLARE a : ARRAY[0:2] OF INTEGER
ENDTYPE

TYPE Deep
    DECLARE b : BOOLEAN
    DECLARE f : Flat
    DECLARE g : ARRAY[1:2] OF Flat
    DECLARE h : ARRAY[1:2] OF Col
ENDTYPE

'''


def wellformed(src, ty, m=0):
    """the text of a record of that type, with boundary values and now and then something odd"""
    if m:
        k = m if not src.chance(4) else src.pick([0, m + 1, -1, 1 << 63])
        return 'ARRAY %d %s' % (k, ' '.join(wellformed(src, ty) for _ in range(m)))
    if src.chance(3):
        return src.pick(['', 'INTEGER 5', 'NONE', 'ENUM Col', 'COMPOSITE Flat', 'STRING 3 a', 'ENUM Col 1 ENUM Col 1'])
    if ty == 'INTEGER':
        return 'INTEGER ' + src.pick(['0', '-1', '5', '9223372036854775807', '-9223372036854775808', '9223372036854775808', '+3', '0x1', '1.5', ''])
    if ty == 'REAL':
        return 'REAL ' + src.pick(['0', '-0', '1.5', '1e308', '1e309', '4.9e-324', 'inf', '-inf', 'nan', '0x1p3', '.5', '5.', '1e', ''])
    if ty == 'BOOLEAN':
        return 'BOOLEAN ' + src.pick(['TRUE', 'FALSE', 'true', '1', '0', '2', ''])
    if ty == 'CHAR':
        return 'CHAR ' + src.pick(['a', ' ', '#', '\n#', '\n', '\x00', '\xff', ''])
    if ty == 'STRING':
        v = src.pick(['', 'a', 'a b', 'a\n#b', '\n#', '#', 'INTEGER 5', '\x00', 'z' * 300])
        n = len(v) if not src.chance(10) else src.pick([len(v) + 1, max(0, len(v) - 1), -1, 1 << 40, (1 << 63) - 1, 1 << 64])
        return 'STRING %d %s' % (n, v)
    if ty == 'DATE':
        return 'DATE ' + src.pick(['1 2 2020', '0 0 0', '31 12 32767', '29 2 2023', '32 1 2000', '1 13 2000', '-1 1 1', '1 1 -32768', '99999999999 1 1', '1 1', ''])
    if ty == 'Col':
        return 'ENUM %s %s' % (src.weighted([(20, 'Col'), (1, 'Flat'), (1, '')]), src.pick(['0', '1', '2', '3', '4', '-1', '18446744073709551615', '18446744073709551616', '9223372036854775808', 'x', '2.5']))
    w = lambda t_, k=0: wellformed(src, t_, k)
    if ty == 'Flat':
        return 'COMPOSITE Flat ' + ' '.join([w('INTEGER'), w('STRING'), w('CHAR'), w('Col'), w('REAL'), w('DATE'), w('INTEGER', 3)])
    return 'COMPOSITE Deep ' + ' '.join([w('BOOLEAN'), w('Flat'), w('Flat', 2), w('Col', 2)])


FIELDS = {
    'INTEGER': ['0', '-1', '5', '9223372036854775807', '-9223372036854775808', '9223372036854775808', '+3', '0x1', '1.5', '', 'x', '-', '9' * 400],
    'REAL': ['0', '-0', '1.5', '1e308', '1e309', '4.9e-324', '1e-400', 'inf', '-inf', 'nan', '0x1p3', '.5', '5.', '1e', '', 'x', '9' * 400],
    'BOOLEAN': ['TRUE', 'FALSE', 'true', '1', '0', '2', '', 'TRUEFALSE'],
    'CHAR': ['a', ' ', '#', '\n#', '\n', '\x00', '\xff', '', 'ab'],
    'STRING': ['%s %s' % (n, v) for n in ['0', '1', '3', '-1', '', 'x', '+2', '300', '65536', str(1 << 31), str(1 << 32), str(1 << 40), str(1 << 48), str(1 << 60), str((1 << 62) - 1), str(1 << 62), str((1 << 63) - 8), str((1 << 63) - 1), str(1 << 63), str(1 << 64), '9' * 30, '-' + '9' * 30]
               for v in ['', 'a', 'abc', 'a\n#b']],
    'DATE': ['1 2 2020', '0 0 0', '31 12 32767', '29 2 2023', '32 1 2000', '1 13 2000', '-1 1 1', '1 1 -32768', '99999999999 1 1', '255 255 255', '256 1 2000', '1 1', '1', '', 'x y z', '1 1 99999'],
    'Col': ['%s %s' % (t, n) for t in ['Col', 'Flat', '', 'Rec', 'nope'] for n in ['0', '1', '2', '3', '4', '-1', '18446744073709551615', '18446744073709551616', '9223372036854775808', '9223372036854775807', 'x', '2.5', '']],
}
WORD = {'Col': 'ENUM'}
ANNOUNCED = [(c, ty, v) for ty in sorted(FIELDS) for v in FIELDS[ty] for c in ('alone', 'element', 'field')]
ANNOUNCED += [('count', ty, str(n)) for ty in sorted(FIELDS) for n in (0, 1, 2, 4, 5, -1, '', 'x', 1 << 31, 1 << 32, 1 << 40, 1 << 60, (1 << 62) - 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64, '9' * 30)]


def announced(src, env, i):
    """a record file with one odd value or announced length, alone, in an array and in a record type"""
    how, ty, v = ANNOUNCED[i]
    good = {'INTEGER': '5', 'REAL': '1.5', 'BOOLEAN': 'TRUE', 'CHAR': 'a', 'STRING': '2 ab', 'DATE': '1 2 2020', 'Col': 'Col 1'}
    word = WORD.get(ty, ty)
    one, odd = '%s %s' % (word, good[ty]), '%s %s' % (word, v)
    t = 'TYPE T\n    DECLARE p : %s\n    DECLARE q : ARRAY[1:3] OF %s\n    DECLARE z : INTEGER\nENDTYPE\n\nDECLARE v : %s\nDECLARE a : ARRAY[1:3] OF %s\nDECLARE t, u : T\nDECLARE n : INTEGER\n' % ((ty,) * 4)
    if how == 'alone':
        rec = odd
    elif how == 'element':
        rec = 'ARRAY 3 %s %s %s' % (one, odd, one)
    elif how == 'field':
        rec = 'COMPOSITE T %s ARRAY 3 %s %s %s INTEGER 7' % (odd, one, one, odd)
    else:
        rec = 'ARRAY %s %s %s %s' % (v, one, one, one)
    t += 'OPENFILE "r.dat" FOR RANDOM\n'
    for pos, x in enumerate(('v', 'a', 't', 'n', 'a[2]', 't.q')):
        t += 'SEEK "r.dat", %d\nGETRECORD "r.dat", %s\n' % (pos % 2 + 1, x)
    t += 'OUTPUT v, a[1], a[2], a[3], n\nOUTPUT t.p, t.q[1], t.q[2], t.q[3], t.z\nu <- t\nPUTRECORD "r.dat", u\nGETRECORD "r.dat", t\nCLOSEFILE "r.dat"\nOUTPUT "end"\n'
    files = [('r.dat', (rec + '\nINTEGER 1\n').encode('latin-1'))]
    judge(env, SESSION + t, b'', False, 'san', True, files)
    t2 = SESSION.replace('\n\n', '\n') + t.replace('\n\n', '\n')
    r = judge(env, t2, b'', False, 'plain', False, files)
    note(env, r, t, repr(files).encode(), repl=True)


def written(src, env):
    """contents of a random file: made up, or written by the interpreter and edited"""
    if src.chance(50):
        return randomfile(src).encode('latin-1')
    t = SESSION.replace('\n\n', '\n') + 'OPENFILE "r.dat" FOR RANDOM\n'
    for _ in range(src.int(1, 5)):
        t += src.pick(['i <- %s\n' % src.pick(TYPED['INTEGER'][:10]), 's <- %s\n' % src.pick(TYPED['STRING']), 'r <- %s\n' % src.pick(TYPED['REAL'][:3]), 'rec.s <- "a#\\n#b"\n', 'k <- %s\n' % src.pick(TYPED['CHAR'])])
        t += 'PUTRECORD "r.dat", %s\n' % src.pick(['i', 'r', 'b', 'k', 's', 'd', 'e', 'ai', 'ar[1].n', 'ae', 'am'])
        if src.chance(30):
            t += 'SEEK "r.dat", %d\n' % src.int(1, 6)
    s = env.server('plain')
    s.fresh()
    s.run_file(t, b'')
    d = s.files().get('r.dat', b'').decode('latin-1')
    env.mark('file written by the interpreter')
    for _ in range(src.n(5)):
        i = src.n(len(d) + 1)
        k = src.n(5)
        if k == 0:
            d = d[:i] + chr(src.n(256)) + d[i + 1:]
        elif k == 1:
            d = d[:i] + src.pick(['#', '\n', ' ', '\x00', '9' * 20, '-', 'INTEGER', 'STRING 7', '\n#', 'e', 'x']) + d[i:]
        elif k == 2:
            d = d[:i]
        elif k == 3:
            d = d[:i] + d[i + src.int(1, 5):]
        else:
            d = d[:i] + d[src.n(len(d) + 1):]
    return d.encode('latin-1')


def input_(src, env, i):
    """arbitrary lines into a variable of every type"""
    n = src.int(1, 12)
    t = SESSION.replace('\n\n', '\n')
    lines = []
    tgt = src.pick(TARGETS)
    for k in range(n):
        lines.append(src.pick(VALUES_IN) if src.chance(70) else ''.join(chr(src.n(256)) for _ in range(src.n(10))).replace('\n', ''))
    var = src.weighted([(3, 'san'), (1, 'plain')])
    if src.chance(50):
        text = SESSION + ''.join('INPUT %s\n%s\nOUTPUT %s\n' % (tgt, l, tgt) for l in lines)
        r = judge(env, text, b'', src.chance(20), var, True)
    else:
        r = judge(env, t + 'INPUT %s\nOUTPUT %s\nINPUT %s\n' % (tgt, tgt, src.pick(TARGETS)), '\n'.join(lines) + src.pick(['', '\n']), src.chance(20), var)
    env.mark('into ' + tgt)
    note(env, r, tgt, '\n'.join(lines).encode('latin-1'))
    env.nontrivial = True


# ------------------------------------------------------------------ depth
def nest_text(src, kind_, n):
    a = {
        'parens': lambda: 'OUTPUT ' + '(' * n + '1' + ')' * n,
        'open parens': lambda: 'OUTPUT ' + '(' * n,
        'minus': lambda: 'OUTPUT ' + '-(' * n + '1' + ')' * n,
        'minus2': lambda: 'OUTPUT ' + '- ' * n + '1',
        'not': lambda: 'OUTPUT ' + 'NOT ' * n + 'TRUE',
        'if': lambda: 'IF TRUE THEN\n' * n + 'OUTPUT 1\n' + 'ENDIF\n' * n,
        'if open': lambda: 'IF TRUE THEN\n' * n,
        'else': lambda: 'IF FALSE THEN\nELSE\n' * n + 'OUTPUT nope\n' + 'ENDIF\n' * n,
        'else if': lambda: 'IF FALSE THEN\n' + 'ELSE IF FALSE THEN\n' * n + 'ELSE\nOUTPUT 1\nENDIF',
        'while': lambda: 'WHILE TRUE DO\n' * n + 'OUTPUT 1\n' + 'BREAK\nENDWHILE\n' * n,
        'for': lambda: ''.join('FOR i%d <- 1 TO 1\n' % k for k in range(n)) + 'OUTPUT 1\n' + 'NEXT\n' * n,
        'repeat': lambda: 'REPEAT\n' * n + 'OUTPUT 1\n' + 'UNTIL TRUE\n' * n,
        'case': lambda: 'x <- 1\n' + 'CASE OF x\n1 : ' * n + 'OUTPUT nope\n' + 'ENDCASE\n' * n,
        'case otherwise': lambda: 'x <- 1\n' + 'CASE OF x\n2 : OUTPUT 1\nOTHERWISE : ' * n + 'OUTPUT 2\n' + 'ENDCASE\n' * n,
        'index': lambda: 'DECLARE a : ARRAY[0:1] OF INTEGER\nOUTPUT ' + 'a[' * n + '0' + ']' * n,
        'index left': lambda: 'DECLARE a : ARRAY[0:1] OF INTEGER\n' + 'a[' * n + '0' + ']' * n + ' <- 1',
        'builtin': lambda: 'OUTPUT ' + 'INT(' * n + '2.5' + ')' * n,
        'cast': lambda: 'OUTPUT ' + src.pick(['STRING(', 'INTEGER(', 'REAL(', 'CHAR(']) * n + '"7"' + ')' * n,
        'casts': lambda: 'OUTPUT ' + 'STRING(INTEGER(' * (n // 2) + '"7"' + '))' * (n // 2),
        'call': lambda: 'FUNCTION f(x : INTEGER) RETURNS INTEGER\nRETURN x + 1\nENDFUNCTION\nOUTPUT ' + 'f(' * n + '1' + ')' * n,
        'sum': lambda: 'OUTPUT 1' + src.pick([' + 1', ' - 1', ' * 2', ' / 2', ' DIV 1', ' MOD 3']) * n,
        'sum right': lambda: 'OUTPUT ' + '1 + (' * n + '1' + ')' * n,
        'concat': lambda: 'OUTPUT "a"' + ' & "b"' * n,
        'logic': lambda: 'OUTPUT TRUE' + src.pick([' AND TRUE', ' OR FALSE']) * n,
        'comparison': lambda: 'OUTPUT ' + '(1 = ' * n + '1' + ')' * n,
        'recursion': lambda: 'FUNCTION f(x : INTEGER) RETURNS INTEGER\nIF x <= 1 THEN\nRETURN 1\nENDIF\nRETURN 1 + f(x - 1)\nENDFUNCTION\nOUTPUT f(%d)' % n,
        'recursion error': lambda: 'FUNCTION f(x : INTEGER) RETURNS INTEGER\nIF x <= 1 THEN\nRETURN nope\nENDIF\nRETURN 1 + f(x - 1)\nENDFUNCTION\nOUTPUT f(%d)' % n,
        'recursion proc': lambda: 'PROCEDURE p(BYREF x : INTEGER, s : STRING)\nDECLARE a : ARRAY[1:3] OF STRING\na[1] <- s\nx <- x - 1\nFOR i <- 1 TO 1\nCASE OF i\n1 : WHILE x > 0 DO\nCALL p(x, a[1] & "x")\nENDWHILE\nENDCASE\nNEXT i\nENDPROCEDURE\n'
                                  'n <- %d\nCALL p(n, "")\nOUTPUT n' % n,
        'recursion endless': lambda: 'PROCEDURE p(x : INTEGER)\nCALL p(x + 1)\nENDPROCEDURE\nCALL p(1)',
        'mutual': lambda: 'FUNCTION f(x : INTEGER) RETURNS INTEGER\nIF x <= 1 THEN\nRETURN 1\nENDIF\nRETURN g(x - 1)\nENDFUNCTION\nFUNCTION g(x : INTEGER) RETURNS INTEGER\nIF x <= 1 THEN\nRETURN 2\nENDIF\nRETURN f(x - 1)\nENDFUNCTION\nOUTPUT f(%d)' % n,
        'deref': lambda: 'TYPE P = ^INTEGER\nDECLARE p : P\nDECLARE i : INTEGER\np <- ^i\nOUTPUT p' + '^' * n,
        'fields': lambda: 'TYPE T\nDECLARE x : INTEGER\nENDTYPE\nDECLARE r : T\nOUTPUT r' + '.x' * n,
        'pointer types': lambda: ''.join('TYPE P%d = ^%s\nDECLARE v%d : P%d\n' % (k, 'P%d' % (k - 1) if k else 'INTEGER', k, k) for k in range(n)) + 'DECLARE i : INTEGER\nv0 <- ^i\n' +
                         ''.join('v%d <- ^v%d\n' % (k, k - 1) for k in range(1, n)) + 'OUTPUT v%d' % (n - 1) + '^' * n,
        'record types': lambda: 'TYPE T0\nDECLARE x : INTEGER\nENDTYPE\n' + ''.join('TYPE T%d\nDECLARE x : T%d\nENDTYPE\n' % (k, k - 1) for k in range(1, n + 1)) +
                        'DECLARE r : T%d\nDECLARE s : T%d\ns <- r\nOUTPUT s%s' % (n, n, '.x' * (n + 1)),
        'parameters': lambda: 'PROCEDURE p(%s)\nOUTPUT a0\nENDPROCEDURE\nCALL p(%s)' % (', '.join('a%d : INTEGER' % k for k in range(n)), ', '.join(str(k) for k in range(n))),
        'dimensions': lambda: 'DECLARE a : ARRAY[%s] OF INTEGER\na[%s] <- 3\nOUTPUT a[%s]' % (', '.join(['1:1'] * n), ', '.join(['1'] * n), ', '.join(['1'] * n)),
        'names': lambda: 'DECLARE %s : INTEGER\nOUTPUT %s' % (', '.join('v%d' % k for k in range(n)), ', '.join('v%d' % k for k in range(n))),
        'enum': lambda: 'TYPE E = (%s)\nDECLARE e : E\ne <- E%d\nOUTPUT e + %d' % (', '.join('E%d' % k for k in range(n)), n - 1, n * 7),
        'cases': lambda: 'x <- 5\nCASE OF x\n' + ''.join('%d : OUTPUT %d\n' % (k + 6, k) for k in range(n)) + 'ENDCASE',
        'lines': lambda: '\n' * n + 'OUTPUT nope',
        'identifier': lambda: 'a' * n + ' <- 5\nOUTPUT ' + 'a' * n,
        'string': lambda: 'OUTPUT "' + 'a' * n + '"',
        'digits': lambda: 'OUTPUT ' + '9' * n,
        'fraction': lambda: 'OUTPUT 0.' + '9' * n,
        'runon': lambda: 'x <- 5\n' + 'x = ' * n + '5',
        'records in arrays': lambda: 'TYPE T\nDECLARE a : ARRAY[1:2] OF INTEGER\nENDTYPE\nDECLARE r : ARRAY[1:%d] OF T\nDECLARE q : ARRAY[1:%d] OF T\nq <- r\nOUTPUT q[%d].a[2]' % (n, n, n),
        'type self': lambda: 'TYPE T\nDECLARE x : T\nENDTYPE\nDECLARE r : T',
        'type self array': lambda: 'TYPE T\nDECLARE x : ARRAY[1:2] OF T\nENDTYPE\nDECLARE r : T',
        'type mutual': lambda: 'TYPE A\nDECLARE x : B\nENDTYPE\nTYPE B\nDECLARE x : A\nENDTYPE\nDECLARE r : A',
    }
    return a if kind_ is None else a[kind_]()


KINDS = sorted(nest_text(None, None, 1))


def nest(src, env, i):
    k = KINDS[i % len(KINDS)]
    n = src.weighted([(3, 1000), (1, src.int(900, 1000)), (2, src.int(1, 1000)), (1, src.int(1, 40))])
    t = nest_text(src, k, n)
    if src.chance(15):
        t = t[:src.n(len(t) + 1)]
    if src.chance(10):
        k2 = src.pick(KINDS)
        t = nest_text(src, k2, n // 2) + '\n' + t
    ped = src.chance(10)
    if src.chance(60):
        r = judge(env, t + '\n', '', ped, 'plain', flags=16)
    elif src.chance(30):
        r = judge(env, t + '\n\n', b'', ped, src.pick(['plain', 'san']), repl=True)
    else:
        r = judge(env, t, '', ped, 'san')
    env.mark(k)
    note(env, r, t)
    env.nontrivial = True


# ------------------------------------------------------------------ REPL sessions
def sessions(src, env, i):
    """sessions of random lines: entries of programs, broken entries, commands, RUNFILE, end of input in the middle"""
    parts = []
    files = []
    for k in range(src.n(3)):
        t, inp = program(src)
        if src.chance(50):
            t = bytemutate(src, t)
        files.append(('prog%d' % k, t.encode('latin-1')))
    for _ in range(src.int(1, 12)):
        k = src.n(12)
        if k < 4:
            t = program(src)[0]
            ls = t.split('\n')
            p = src.n(len(ls))
            parts.append('\n'.join(ls[p:p + src.int(1, 12)]))
        elif k == 4:
            parts.append(src.pick(['?', 'EXIT ', ' EXIT', '??', 'EXITx', '\t', ' ', '', '\x00', '\xff', '//', '// c', 'EXIT // c', 'RUNFILE', 'RUNFILE ', 'RUNFILE\t', 'RUNFILEx', 'RUNFILE  ', 'RUNFILE nope', 'RUNFILE .', 'RUNFILE ' + 'a' * 300,
                                   'RUNFILE \x00', ' RUNFILE prog0', 'RUNFILE prog0 prog1', 'RUNFILE prog0  ', 'RUNFILE ./prog0', 'RUNFILE "prog0"', 'RUNFILE   ', 'RUNFILE \t \t']))
        elif k == 5:
            parts.append('RUNFILE prog%d' % src.n(3))
        elif k == 6:
            parts.append(src.pick(['IF', 'IF TRUE THEN', 'FOR', 'FOR i <- 1 TO 3', 'WHILE', 'REPEAT', 'CASE', 'CASE OF x', 'PROCEDURE', 'PROCEDURE p', 'FUNCTION', 'TYPE', 'TYPE t', 'TYPE t =', 'TYPE t // =', 'TYPEx', 'IFx', 'FORx <- 1']) + src.pick(['', '\n', '\n\n', '\n \n\n', '\nOUTPUT 1\n\n']))
        elif k == 7:
            parts.append(write([src.pick(VOCAB) for _ in range(src.int(1, 8))]))
        elif k == 8:
            parts.append(bytemutate(src, program(src)[0])[:300])
        elif k == 9:
            parts.append('INPUT x')
            parts.append(src.pick(VALUES_IN))
        elif k == 10:
            parts.append(stmt(src, 5))
        else:
            parts.append(CATALOG[src.pick(sorted(CATALOG))][0])
        if src.chance(60):
            parts.append('')
    t = '\n'.join(parts) + src.pick(['\n', '', '\nEXIT\nOUTPUT 1', '\nIF TRUE THEN', '\nINPUT x'])
    ped = src.chance(25)
    var = src.weighted([(3, 'san'), (2, 'plain')])
    r = judge(env, t, b'', ped, var, True, files, flags=0)
    env.mark('reports: %d' % min(20, len(REPORT.findall(r.err)) // 5 * 5), *(['RUNFILE'] if 'RUNFILE prog' in t else []))
    note(env, r, t, b'', pedantic=ped, variant=var)
    env.nontrivial = True


def commandline(src, env, i):
    """odd command lines: exit status 0 or 1, nothing abnormal"""
    args = [src.pick(['-p', '--pedantic', '-h', '--help', '-v', '--version', '-x', '--', '-', '', 'p.psc', 'nope', '.', '/', 'a' * 5000, '-pp', '\xff', 'd'])for _ in range(src.int(1, 4))]
    s = env.server(src.pick(['plain', 'san']))
    s.fresh()
    t = program(src)[0]
    s.put('p.psc', t.encode('latin-1'))
    os.mkdir(os.path.join(s.cwd, 'd'))
    env.runs += 1
    r = s.run(args, b'OUTPUT 1\n')
    if r.inconclusive:
        raise Skip('inconclusive run (resource limit)')
    if r.crashed:
        raise Fail('the interpreter ended abnormally: exit %s signal %s' % (r.code, r.sig), 'crash', args=repr(args), stderr=r.err[-2000:])
    env.nontrivial = True
    env.digest = repr(args)
    env.mark(args[0][:10])
    env.sample = dict(args=args, code=r.code)


# ------------------------------------------------------------------ coverage-guided
def raw(src, env, i):
    """bytes as the coverage-guided fuzzer hands them over: mode byte, program, 0x1e, input, 0x1e, files"""
    m = src.n(4)
    n = src.n(4096)
    b = bytes(src.n(256) for _ in range(n))
    raw_run(env, m, b)


def raw_run(env, m, b, redirect=None):
    parts = b.split(b'\x1e', 2)
    prog, inp, data_ = (parts + [b'', b''])[:3]
    files = [('f.txt', data_), ('r.dat', data_)]
    r = None
    for variant in ('san', 'plain'):
        if m & 2:
            r = judge(env, prog + b'\n' + inp, b'', bool(m & 1), variant, True, files, redirect=redirect)
        else:
            r = judge(env, prog, inp, bool(m & 1), variant, False, files, redirect=redirect)
    note(env, r, prog, inp, mode=m)


def seeds():
    r = []
    for n, t in corpus():
        ls = t.split('\n')
        for p in range(0, len(ls), 40):
            r.append(('\n'.join(ls[p:p + 40]) + '\n', ''))
    for n in sorted(CATALOG):
        t, i = CATALOG[n]
        r.append((t, '\x1e' + to_stdin(i)))
    for p in PRELUDES[1:]:
        r.append((p, ''))
    for k in KINDS:
        r.append((nest_text(Null(), k, 3) + '\n', ''))
    return r


class Null:
    def pick(self, s):
        return s[0]

    def n(self, k):
        return 0


def coverage(src, env, i):
    """one libFuzzer process; a crash it finds is repeated outside of it before it counts"""
    seed = src.n(1 << 30) + 1
    exe = env.exes.get('fuzz')
    if exe is None:
        raise Skip('the in-process target does not build')
    secs = float(os.environ.get('PSE_FUZZ_S', '12' if env.tier == 'quick' else '200'))
    d = tempfile.mkdtemp(prefix='pse_fz', dir=SCRATCH_BASE)
    try:
        os.chmod(d, 0o755)
        for n in ('c', 'w', 'a'):
            os.mkdir(os.path.join(d, n))
            os.chown(os.path.join(d, n), NOBODY, NOBODY)
        with open(d + '/vocab', 'w') as f:
            f.write('\n'.join([t for t in VOCAB if t != '\n'] + ALLFN + ['"f.txt"', '"r.dat"', 'INTEGER(', 'STRING(', 'REAL(', 'CHAR(']) + '\n')
        k = 0
        for t, tail in seeds():
            for m in ((0, 2) if tail else (i % 4,)):
                with open('%s/c/s%d' % (d, k), 'wb') as f:
                    f.write(bytes([m]) + t.encode('latin-1') + tail.encode('latin-1'))
                k += 1
        for j in range(20):
            g = Gen(src, errors=10, size=6, localtypes=True)
            try:
                t = render(unshare(g.program()))
            except Unspec:
                continue
            with open('%s/c/g%d' % (d, j), 'wb') as f:
                f.write(bytes([j % 2]) + t.encode('latin-1') + b'\x1e' + to_stdin(g.stdin).encode('latin-1'))
        e = dict(os.environ, PSE_FUZZ_CWD=d + '/w', PSE_FUZZ_VOCAB=d + '/vocab', TZ='UTC', LC_ALL='C', **SAN_OPTS)
        p = subprocess.Popen([exe, '-seed=%d' % seed, '-max_len=%d' % [600, 1200, 2048][i % 3], '-max_total_time=%d' % secs, '-close_fd_mask=3', '-timeout=25', '-rss_limit_mb=2500', '-detect_leaks=0',
                              '-print_final_stats=1', '-artifact_prefix=%s/a/' % d, d + '/c'], env=e, cwd='/', stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, user=NOBODY, group=NOBODY,
                             extra_groups=[], preexec_fn=fuzz_limits)
        try:
            err = p.communicate(timeout=secs + 120)[1].decode('latin-1')
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise Skip('the fuzzer did not end')
        m = re.search(r'stat::number_of_executed_units: (\d+)', err)
        execs = int(m.group(1)) if m else 0
        cov = re.findall(r'cov: (\d+) ft: (\d+) corp: (\d+)', err)
        env.runs += execs
        env.mark('coverage %s00 edges' % (int(cov[-1][0]) // 100 if cov else '?'))
        env.sample = dict(executions=execs, seed=seed, edges=int(cov[-1][0]) if cov else None, features=int(cov[-1][1]) if cov else None, corpus=int(cov[-1][2]) if cov else None)
        for n in sorted(os.listdir(d + '/a')):
            b = open('%s/a/%s' % (d, n), 'rb').read()
            env.mark('artifact ' + n.split('-')[0])
            if len(b) > 1:
                m_, body = b[0] & 3, b[1:]
                raw_run(env, m_, body, redirect=('raw', [m_, len(body)] + list(body)))
        env.nontrivial = execs > 0
        env.digest = 'libfuzzer %d' % seed
    finally:
        shutil.rmtree(d, ignore_errors=True)


def memory(src, env, i):
    """cases of the other streams under memcheck, which also reports the use of values that were never set"""
    if 'mem' not in env.exes:
        raise Skip('valgrind is not there')
    env.force = 'mem'
    try:
        f = MEMORY[i % len(MEMORY)]
        f(src, env, src.n(10000) if f in (effects,) else i)
    finally:
        env.force = None


MEMORY = [templates, effects, typed, data, input_, sessions, tokens, templates, effects, data]


def fuzz_limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    resource.setrlimit(resource.RLIMIT_STACK, (1 << 29, 1 << 29))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


STREAMS = [
    Stream('coverage', coverage, 8, 8),
    Stream('triples', triples, NV * NV, len(PRELUDES) * NV * NV, exhaustive=True),
    Stream('pairs-some', pairs_some, 700, 0),
    Stream('pairs', pairs, 0, len(CONTEXTS) * NV, exhaustive=True),
    Stream('pairs-file', pairs_file, 0, NV, exhaustive=True),
    Stream('triples-san', triples_san, 1200, 16000),
    Stream('triples-some', triples_file_some, 160, 0),
    Stream('bytes', bytes_, 6000, 80000),
    Stream('tokens', tokens, 8000, 80000),
    Stream('soup', soup, 2500, 30000),
    Stream('typed', typed, 2000, 30000),
    Stream('templates', templates, 2500, 30000),
    Stream('ops', ops_some, 500, 0),
    Stream('ops-all', ops, 0, NOPS, exhaustive=True),
    Stream('arith', arith, len(ARITH) * len(EDGES), len(ARITH) * len(EDGES), exhaustive=True),
    Stream('holes', holes, len(HOLES), len(HOLES), exhaustive=True),
    Stream('twins-some', twins_some, 40 * len(RNAMES), 0),
    Stream('twins', twins, 0, len(TWIN_CASES), exhaustive=True),
    Stream('builtins', fns, NFNS, NFNS, exhaustive=True),
    Stream('data', data, 2500, 30000),
    Stream('announced', announced, len(ANNOUNCED), len(ANNOUNCED), exhaustive=True),
    Stream('input', input_, 1200, 15000),
    Stream('effects', effects, 2500, 40000),
    Stream('nest', nest, 6 * len(KINDS), 60 * len(KINDS)),
    Stream('sessions', sessions, 3000, 30000),
    Stream('commands', commandline, 60, 800),
    Stream('memory', memory, 400, 8000),
    Stream('raw', raw, 100, 3000),
    Stream('triples-file', triples_file, 0, NV * NV, exhaustive=True),
]
