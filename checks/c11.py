"""C11: syntax is checked before anything runs, and diagnostics point at the fault."""
import copy as _cp
import re
from common import *
from gen import Gen
from files import *
from toks import *
from parse import parse_text, RES
from catalog import CATALOG

VARIANTS = ['plain']
RULE = ('a case is non-trivial when the independent recogniser decided that the source is faulty and the run was judged (syntax streams), or when the '
        'injected fault was executed and its line chain compared (runtime streams); distinct by program text')
ASSUMPTIONS = ['whether a source is syntactically faulty is decided by an independent recogniser of grammar.txt; where it is unsure nothing is judged',
               'a fault in the header of a multi-line statement may be reported in the line of the statement or of the faulty part',
               'the line break printed in front of a diagnostic and warnings about ignored comparisons are not output of the program']

BLOCKY = {'IF', 'ELSE', 'THEN', 'CASE', 'WHILE', 'REPEAT', 'UNTIL', 'FOR', 'NEXT', 'PROCEDURE', 'FUNCTION', 'TYPE', 'OTHERWISE', 'DO', 'ENDIF', 'ENDCASE',
          'ENDWHILE', 'ENDPROCEDURE', 'ENDFUNCTION', 'ENDTYPE', 'RETURNS', 'OF', 'STEP', 'TO'}
SENT = ('OUTPUT "S1"\nOPENFILE "sent.txt" FOR WRITE\nWRITEFILE "sent.txt", "S2"\nCLOSEFILE "sent.txt"\nINPUT sentinel\nOPENFILE "keep.txt" FOR APPEND\n'
        'WRITEFILE "keep.txt", "S3"\nCLOSEFILE "keep.txt"\nOPENFILE "zap.txt" FOR WRITE\nOPENFILE "sent.dat" FOR RANDOM\nOUTPUT "S4"\n')
NSENT = SENT.count('\n')
FILES = {'keep.txt': b'kept', 'zap.txt': b'old\ncontents\n'}
STDIN = b'first line\nsecond\n3\n'
PAIR = re.compile(r'line (-?\d+),? column (-?\d+)')


def quiet(out):
    """nothing but warnings and line breaks"""
    return WARN.sub('', out).strip('\n') == ''


def positions(text, err, what, key='', eof=2):
    """every position in a diagnostic is a line and column of the source"""
    lines = text.replace('\r', '').split('\n')
    if lines[-1] == '':
        lines.pop()
    n = len(lines)
    last = len(text.replace('\r', '').rstrip('\n').split('\n'))
    inner = True
    for m in PAIR.finditer(err):
        l, c = int(m.group(1)), int(m.group(2))
        ok = 1 <= l <= n and 1 <= c <= len(lines[l - 1]) + 1 or last < l <= n + eof or l == 0 and what == 'runtime' and inner
        inner = False
        if not ok:
            raise Fail('a diagnostic names a position that is not in the source: line %d column %d' % (l, c), key or 'position', program=numbered(text), stderr=err)


def run(env, text, pre=True, pedantic=False):
    def go(s):
        s.fresh()
        for n, d in FILES.items():
            s.put(n, d)
        r = s.run_file(text, STDIN, pedantic)
        r.files = s.files()
        return r
    return env._go('plain', go)


def judge_syntax(env, text, must, line=None, what=''):
    """must: the source is known to be faulty.  line: the line the diagnostic has to name."""
    r = run(env, text)
    o = Obs(r)

    def bad(msg, key='', **kw):
        raise Fail(msg, key, program=numbered(text), fault=what, stdout=repr(o.out[-800:]), stderr=o.err[-800:], exit=str(r.code), **kw)
    if r.crashed:
        bad('the interpreter ended abnormally on a faulty source (signal %s)' % r.sig)
    if o.kind != 'syntax':
        if must:
            bad('a source with a syntax error was not rejected before it ran', verdict=must)
        return o
    if r.code != 1:
        bad('a syntax error with exit status %s' % r.code)
    if len(re.findall(r'(?m)^(?:Syntax Error on line|Runtime Error in file|Error\(pedantic\))', o.err)) != 1:
        bad('not exactly one diagnostic')
    if not quiet(o.out):
        bad('the program ran although it has a syntax error: it printed something')
    if r.consumed:
        bad('the program ran although it has a syntax error: input was consumed')
    if r.files != FILES:
        bad('the program ran although it has a syntax error: files changed', files=repr(r.files))
    positions(text, o.err, 'syntax')
    if line is not None and o.line != line:
        bad('the diagnostic names line %s instead of line %s' % (o.line, line), expected=str(line), observed=str(o.line))
    return o


def confined(toks, text, bad, changed_line):
    """The line a diagnostic must name: the fault is in a one-line statement that was one before the change too."""
    if bad is None or bad >= len(toks):
        return None
    if toks[bad].line != changed_line:
        return None
    first = next((t for t in toks if t.line == changed_line), None)
    if first is None or first.s in BLOCKY:
        return None
    on = [t for t in toks if t.line == changed_line]
    if any(t.s == ':' for t in on) and first.s != 'DECLARE':
        return None
    if any('\n' in t.s and t.k != 'nl' for t in on):
        return None
    i = toks.index(first)
    # a string that began on an earlier line
    if any(t.k != 'nl' and '\n' in t.s and t.line < changed_line <= t.line + t.s.count('\n') for t in toks[:i + 1]):
        return None
    # IF x <break> THEN and the like: the statement is the one of the line before
    if i >= 2 and toks[i - 2].s in ('TYPE', 'RETURNS'):
        return None
    j = i - 1
    while j >= 0 and toks[j].k == 'nl':
        j -= 1
    return changed_line


# ------------------------------------------------------------------ exhaustive single token faults
VALID = [n for n in sorted(CATALOG) if not n.startswith(('sy', 'rt'))]
REPL = ['5', '"s"', 'x', '(', ')', ',', '<-', 'IF', 'ENDIF', 'OUTPUT', 'DECLARE', ':', '.', '^', '[', ']', '\n', '-', 'THEN', '=', 'INTEGER', 'RETURN', 'TO', 'NOT', '&', 'ENDTYPE', 'NEXT', '1/2/3']
CHUNKS = []
for _n in VALID:
    _k = len(strs(CATALOG[_n][0]))
    for _a in range(0, _k, 12):
        CHUNKS.append((_n, _a, min(_k, _a + 12)))


def token_faults(toks, j):
    """all single faults at token j: (new tokens, description)"""
    out = [(toks[:j] + toks[j + 1:], 'token %r deleted' % toks[j]), (toks[:j + 1] + toks[j:], 'token %r duplicated' % toks[j])]
    if j + 1 < len(toks) and toks[j] != toks[j + 1]:
        out.append((toks[:j] + [toks[j + 1], toks[j]] + toks[j + 2:], 'tokens %r and %r transposed' % (toks[j], toks[j + 1])))
    for r in REPL:
        if r != toks[j]:
            out.append((toks[:j] + [r] + toks[j + 1:], 'token %r replaced by %r' % (toks[j], r)))
            out.append((toks[:j] + [r] + toks[j:], '%r inserted in front of %r' % (r, toks[j])))
    return out


def check_mutant(env, new, old_first, what, changed_line, prefix=SENT):
    text = prefix + write(new)
    if not text.endswith('\n'):
        text += '\n'
    v, bad, toks = parse_text(text)
    if v == 'lex' or toks is None:
        env.mark('lexical')
        judge_syntax(env, text, 'lexical', None, what)
        return True
    line = None
    if v == 'bad' and changed_line is not None and old_first not in BLOCKY:
        line = confined(toks, text, bad, changed_line)
    o = judge_syntax(env, text, 'the recogniser stops at token %d' % bad if v == 'bad' else None, line, what)
    env.mark('recogniser: ' + v, 'line judged' if line is not None else 'line open')
    if v == 'ok' and o.kind == 'syntax':
        env.mark('valid for the recogniser, rejected')
    return v == 'bad'


def single_case(src, env, i):
    name, a, b = CHUNKS[i]
    toks = strs(CATALOG[name][0])
    n = 0
    for j in range(a, b):
        line = 1 + NSENT + sum(1 for t in toks[:j] if t == '\n') + sum(t.count('\n') for t in toks[:j] if t != '\n')
        starts = [k for k in range(j + 1) if k == 0 or toks[k - 1] == '\n']
        first = toks[starts[-1]]
        inline = toks[j] != '\n'
        for new, what in token_faults(toks, j):
            cl = line if inline and not ("'\\n'" in what and 'transposed' not in what and ('replaced by' in what or 'inserted' in what or 'deleted' in what)) \
                and "'\\n' transposed" not in what and "and '\\n'" not in what else None
            n += check_mutant(env, new, first, what, cl)
    env.nontrivial = n > 0
    env.digest = '%s %d' % (name, a)
    env.mark(name)
    env.sample = dict(program=name, tokens=[a, b], faulty_sources=n)


# ------------------------------------------------------------------ random faults in random programs
def length(src):
    """1 to about 3000, most of them small, powers of two and their neighbours often"""
    if src.chance(30):
        return max(1, (1 << src.int(3, 11)) + src.int(-1, 1))
    return 1 + src.n(1 << src.int(1, 11))


def filler(src, blank=False):
    """lines that mean nothing: comments of every length, many empty lines, long statements"""
    k = src.n(5 if blank else 7)
    if k < 2:
        return '//' + ''.join(src.pick(['x', 'word ', '" ', "'", '// ', '\t', '1/2/2020 ', 'ENDIF ', '\\', '\xe9', '<- ']) for _ in range(length(src))) + '\n'
    if k == 2:
        return '//' + 'x' * length(src) + '\n'
    if k == 3:
        return '\n' * src.int(1, 300)
    if k == 4:
        return '// note\n' * src.int(1, 300)
    if k == 5:
        return 'zfill <- ' + ' + '.join(['1'] * min(300, length(src))) + src.pick(['', ' // note']) + '\n'
    return 'zwide <- "%s"\n' % ('a' * length(src)) + ' ' * length(src) + '\n'


def source(src):
    k = src.n(10)
    if k < 6:
        g = Gen(src, errors=src.pick([0, 3]), size=src.pick([6, 12]), localtypes=True)
        return render(unshare(g.program()))
    if k < 7:
        return CATALOG[src.pick(VALID)][0] + 'OUTPUT "two\nlines", 1, "more\n\nlines"\n' + CATALOG[src.pick(VALID)][0]
    if k < 8:
        return ''.join(CATALOG[src.pick(VALID)][0] for _ in range(3))
    return re.sub(r'\bRAND\(', 'SQRT(', src.pick(corpus())[1])


def random_case(src, env, i):
    text = source(src)
    base = strs(text)
    if base is None:
        raise Skip('not tokenizable')
    n = 0
    for _ in range(6):
        j = src.n(len(base))
        line = 1 + NSENT + sum(t.count('\n') for t in base[:j])
        starts = [k for k in range(j + 1) if k == 0 or base[k - 1] == '\n']
        first = base[starts[-1]]
        new, what = mutate_at(src, base, j)
        cl = line if '\n' not in what else None
        n += check_mutant(env, new, first, what, cl, SENT)
        env.digest = write(new)
    env.nontrivial = n > 0
    env.sample = dict(program=text[:600], last_fault=what)


def mutate_at(src, toks, j):
    k = src.n(6)
    if k == 0:
        return toks[:j] + toks[j + 1:], 'deleted ' + toks[j]
    if k == 1:
        return toks[:j + 1] + toks[j:], 'duplicated ' + toks[j]
    if k == 2:
        r = src.pick(VOCAB)
        return toks[:j] + [r] + toks[j + 1:], 'replaced %s by %s' % (toks[j], r)
    if k == 3:
        r = src.pick(VOCAB)
        return toks[:j] + [r] + toks[j:], 'inserted %s before %s' % (r, toks[j])
    if k == 4 and j + 1 < len(toks):
        return toks[:j] + [toks[j + 1], toks[j]] + toks[j + 2:], 'transposed %s %s' % (toks[j], toks[j + 1])
    e = min(len(toks), j + src.int(1, 4))
    return toks[:j] + toks[e:], 'deleted ' + ' '.join(toks[j:e])


# ------------------------------------------------------------------ whole lines in the wrong place
WHOLE = ['FUNCTION Qf() RETURNS INTEGER\n    RETURN 1\nENDFUNCTION', 'PROCEDURE Qp\n    OUTPUT 1\nENDPROCEDURE', 'FUNCTION Qg(q : INTEGER) RETURNS BOOLEAN\n    RETURN q > 1\nENDFUNCTION', 'PROCEDURE Qr(BYREF q : REAL)\n    q <- 1\nENDPROCEDURE',
         'FUNCTION Qh\n    RETURNS INTEGER\n    RETURN 1\nENDFUNCTION', 'TYPE Qt\n    DECLARE q : INTEGER\nENDTYPE', 'TYPE Qe = (qa, qb)', 'TYPE Qn = ^INTEGER', 'FOR q <- 1 TO 2\n    OUTPUT q\nNEXT q', 'FOR q <- 1 TO 2\n    OUTPUT q\nNEXT r',
         'FOR q <- 1 TO 2\n    FOR r <- 1 TO 2\n    NEXT q\nNEXT r', 'REPEAT\n    BREAK\nUNTIL TRUE', 'IF TRUE THEN\n    OUTPUT 1\nELSE\n    OUTPUT 2\nENDIF', 'CASE OF q\n    1 : OUTPUT 1\n    OTHERWISE : OUTPUT 2\nENDCASE',
         'IF TRUE THEN\n    OUTPUT 1\nELSE\n    OUTPUT 2\nELSE\n    OUTPUT 3\nENDIF', 'IF TRUE THEN\n    OUTPUT 1\nELSE\n    OUTPUT 2\nELSE IF FALSE THEN\n    OUTPUT 3\nENDIF', 'CASE OF q\n    OTHERWISE : OUTPUT 2\n    1 : OUTPUT 1\nENDCASE',
         'WHILE FALSE\n    OUTPUT 1\nENDWHILE', 'ELSE', 'ENDIF', 'ENDCASE', 'OTHERWISE : OUTPUT 1', 'ENDWHILE', 'UNTIL TRUE', 'NEXT', 'NEXT q', 'ENDPROCEDURE', 'ENDFUNCTION', 'ENDTYPE', 'THEN', 'DO', 'REPEAT', 'IF TRUE THEN', 'WHILE TRUE DO',
         'FOR q <- 1 TO 2', 'PROCEDURE Qs', 'FUNCTION Qi RETURNS INTEGER', 'TYPE Qu', 'CASE OF q', 'ELSE IF TRUE THEN', '1 : OUTPUT 1', 'RETURNS INTEGER', 'DECLARE', 'CONSTANT q']
WRAPS = [('IF TRUE THEN', 'ENDIF'), ('IF FALSE THEN\nELSE', 'ENDIF'), ('WHILE FALSE DO', 'ENDWHILE'), ('REPEAT', 'UNTIL TRUE'), ('FOR qw <- 1 TO 1', 'NEXT qw'), ('PROCEDURE Qw', 'ENDPROCEDURE'), ('FUNCTION Qv RETURNS INTEGER', 'ENDFUNCTION'),
         ('FOR qw <- 1 TO 1', 'NEXT qv'), ('CASE OF x\n1 :', 'ENDCASE'), ('TYPE Qz', 'ENDTYPE')]


def lines_case(src, env, i):
    """statements and parts of constructs moved, inserted, deleted and wrapped as whole lines"""
    text = (filler(src) if src.chance(10) else '') + source(src)
    if strs(text) is None:
        raise Skip('not tokenizable')
    base = text.rstrip('\n').split('\n')
    n = 0
    for _ in range(6):
        ls = list(base)
        what = []
        for _ in range(src.weighted([(4, 1), (1, 2)])):
            k = src.n(7)
            a = src.n(len(ls) + 1)
            b = min(len(ls), a + src.int(1, 4))
            if k < 2:
                w = src.pick(WHOLE)
                ls[a:a] = w.split('\n')
                what.append('%r inserted at line %d' % (w, a))
            elif k == 2:
                o, c = src.pick(WRAPS)
                ls[a:b] = o.split('\n') + ls[a:b] + [c]
                what.append('lines %d to %d put into %r' % (a, b, o))
            elif k == 3:
                del ls[a:b if src.chance(50) else a + 1]
                what.append('line %d and following deleted' % a)
            elif k == 4:
                part = ls[a:b]
                del ls[a:b]
                c = src.n(len(ls) + 1)
                ls[c:c] = part
                what.append('lines %d to %d moved to %d' % (a, b, c))
            elif k == 5:
                ls[a:a] = ls[src.n(len(ls) or 1):][:src.int(1, 3)]
                what.append('lines repeated at %d' % a)
            else:
                ls = ls[:a]
                what.append('ends after line %d' % a)
        t = SENT + '\n'.join(ls) + '\n'
        v, bad, toks = parse_text(t)
        if v == 'lex' or toks is None:
            env.mark('lexical')
            judge_syntax(env, t, 'lexical', None, '; '.join(what))
            n += 1
            continue
        judge_syntax(env, t, 'the recogniser stops at token %d' % bad if v == 'bad' else None, None, '; '.join(what))
        env.mark('recogniser: ' + v)
        n += v == 'bad'
        env.digest = t
    env.nontrivial = n > 0
    env.sample = dict(program=text[:600], last_fault=what)


# ------------------------------------------------------------------ lexical faults
LEX = ['x == 5', 'OUTPUT 5 @ 3', 'OUTPUT 1 ! 2', "OUTPUT ''", "OUTPUT 'ab'", 'OUTPUT "bad \\q"', "OUTPUT '\\z'", 'x <- {1}', 'OUTPUT 1;', 'OUTPUT 5 _ 3',
       'OUTPUT #', 'x <- 5 % 2', 'OUTPUT `a`', 'x ~ 1', '$x <- 1', 'x <- 1 | 2', '\\', '?', '@', 'CALL p;', "x <- 'abc'", 'x <- 3 \x01', 'OUTPUT \xe9', '\x00', 'x <- \x00', '   ! ']
OPENQ = ['OUTPUT "never closed', "OUTPUT 'x", "c <- '", 'x <- "']
HINT = ['OUTPUT("x")', 'INPUT(x)', 'OPENFILE("a") FOR READ', 'READFILE("a", x)', 'WRITEFILE("a", 1)', 'CLOSEFILE("a")', 'PRINT(1)']


def lex_case(src, env, i):
    text = SENT + (filler(src) if src.chance(25) else '') + source(src)
    lines = text.rstrip('\n').split('\n')
    if tokenize(text) is None or any(tokenize(l) is None for l in lines):
        raise Skip('not tokenizable line by line')
    kind = i % 3
    if kind == 0:
        fault = LEX[i // 3 % len(LEX)]
    elif kind == 1:
        fault = HINT[i // 3 % len(HINT)]
    else:
        fault = OPENQ[i // 3 % len(OPENQ)]
    at = src.int(NSENT, len(lines))
    if kind == 2:
        # no later quote may close it
        lines = lines[:at] + ['OUTPUT 1'] * src.n(4)
    lines.insert(at, src.pick(['', '  ', '\t']) + fault)
    t = '\n'.join(lines) + src.pick(['\n', '\n', ''])
    # a line of its own between statements, or in the middle of a statement: lexical errors always come first
    judge_syntax(env, t, 'lexical fault in line %d' % (at + 1), at + 1 if kind < 2 else None, fault)
    env.nontrivial = True
    env.digest = t
    env.mark(fault)
    env.sample = dict(fault=fault, line=at + 1, of=len(lines))


def bytes_case(src, env, i):
    """single bytes changed anywhere; the tokenizer and the recogniser decide"""
    text = (filler(src) if src.chance(10) else '') + source(src)
    n = 0
    for _ in range(6):
        j = src.n(len(text))
        c = src.pick('"\'\\/()[]<>=-.,:^&ex09 \n\t@_;') if src.chance(85) else chr(src.n(256))
        k = src.n(3)
        t = text[:j] + text[j + 1:] if k == 0 else text[:j] + c + text[j + 1:] if k == 1 else text[:j] + c + text[j:]
        t = SENT + t.replace('\r', '')
        if not t.endswith('\n'):
            t += '\n'
        v, bad, toks = parse_text(t)
        judge_syntax(env, t, v if v in ('lex', 'bad') else None, None, 'byte %r at %d' % (c, j))
        env.mark('recogniser: ' + v)
        n += v in ('lex', 'bad')
        env.digest = t
    env.nontrivial = n > 0
    env.sample = dict(program=text[:300], edits=6, faulty=n)


# ------------------------------------------------------------------ runtime faults
DEFS = [St('typeenum', name='ZCol', names=['ZRed', 'ZGreen']), St('typerec', name='ZRec', body=[decl('INTEGER', 'k'), decl('STRING', 't')]),
        St('typeptr', name='ZPtr', target='INTEGER'), decl('INTEGER', 'zi'), decl('STRING', 'zs'), decl('BOOLEAN', 'zb'), decl('ZRec', 'zr'), decl('ZPtr', 'zp'),
        decl('INTEGER', 'za', bounds=[(1, 3)]), decl('STRING', 'zm', bounds=[(0, 1), (1, 2)]), decl('ZCol', 'zc'),
        St('const', name='ZK', eq='=', e=L(7)),
        St('proc', name='ZProc', params=[('a', 'INTEGER', 'BYREF'), ('b', 'STRING', 'BYVAL')], rtype=None, body=[], parens=True),
        St('func', name='ZNoRet', params=[], rtype='INTEGER', body=[assign('zi', L(1))], parens=True),
        St('func', name='ZId', params=[('a', 'INTEGER', None)], rtype='INTEGER', body=[St('return', e=V('a'))], parens=True)]
I = lambda *ix: ('[', [L(x) if isinstance(x, int) else x for x in ix])
F = lambda f: ('.', f)


def call(name, *args):
    return St('call', name=name, args=list(args), parens=True)


def fn(name, *args):
    return ('call', name, list(args))


def ifst(c, body, els=None):
    return St('if', arms=[(c, body)], els=els)


FAULTS = {
    'undefined in OUTPUT': lambda: out(V('zundef')), 'undefined in assignment': lambda: assign('zi', B('+', V('zundef'), L(1))),
    'undefined second argument': lambda: out(S('a'), V('zundef')),
    'DIV 0': lambda: out(B('DIV', L(1), L(0))), 'MOD 0': lambda: assign('zi', B('MOD', V('zi'), L(0))), '/ 0': lambda: out(B('/', L(1), L(0))),
    'operand type': lambda: out(B('+', S('a'), L(1))), 'NOT of a number': lambda: assign('zb', ('not', L(5))), 'minus of a string': lambda: out(('neg', S('a'))),
    'AND of a string': lambda: out(B('AND', ('bool', True), S('x'))), 'comparison': lambda: out(B('<', ('bool', True), ('bool', False))),
    'index too big': lambda: out(V('za', I(4))), 'index too small': lambda: assign(LVAL('za', I(0)), L(1)), 'index type': lambda: out(V('za', ('[', [S('a')]))),
    'number of indices': lambda: out(V('zm', I(1))), 'array as value': lambda: out(V('za')), 'second index': lambda: assign(LVAL('zm', I(1, 3)), S('x')),
    'store string in integer': lambda: assign('zi', S('text')), 'store real in integer': lambda: assign('zi', ('real', '2.5')), 'store into field': lambda: assign(LVAL('zr', F('k')), S('x')),
    'no such field': lambda: out(V('zr', F('nope'))), 'field of a number': lambda: out(V('zi', F('k'))),
    'READFILE not open': lambda: fread(S('none.txt'), 'zs'), 'WRITEFILE not open': lambda: fwrite(S('none.txt'), L(1)), 'CLOSEFILE not open': lambda: fclose(S('none.txt')),
    'SEEK not open': lambda: fseek(S('none.txt'), 1), 'GETRECORD not open': lambda: fget(S('none.txt'), 'zi'), 'PUTRECORD not open': lambda: fput(S('none.txt'), 'zi'),
    'OPENFILE missing': lambda: fopen(S('none.txt'), 'READ'), 'EOF not open': lambda: out(fn('EOF', S('none.txt'))),
    'undefined procedure': lambda: call('ZNone'), 'undefined function': lambda: out(fn('ZNone', L(1))), 'too few arguments': lambda: call('ZProc', V('zi')),
    'argument type': lambda: call('ZProc', V('zi'), V('za')), 'BYREF type': lambda: call('ZProc', V('zs'), S('a')), 'BYREF value': lambda: call('ZProc', L(5), S('a')),
    'function argument type': lambda: out(fn('ZId', S('x'))), 'undefined in an argument': lambda: call('ZProc', V('zi'), V('zundef')), 'number of arguments': lambda: out(fn('ZId', L(1), L(2))),
    'constant': lambda: assign('ZK', L(1)), 'INPUT into constant': lambda: St('input', lv=('ZK', [])), 'constant redefined': lambda: St('const', name='ZK', eq='=', e=L(1)),
    'undefined type': lambda: decl('ZNoType', 'zq'), 'declared twice': lambda: St('seq', body=[decl('INTEGER', 'zdup'), decl('INTEGER', 'zdup')]),
    'array bounds': lambda: decl('INTEGER', 'zq', bounds=[(3, 1)]), 'IF condition': lambda: ifst(L(5), []), 'WHILE condition': lambda: St('while', c=S('x'), body=[out(S('w'))]),
    'UNTIL condition': lambda: St('repeat', body=[out(S('r'))], c=L(1)), 'FOR bound': lambda: St('for', name='zi', a=L(1), b=S('x'), step=None, body=[], nextname=False),
    'ELSE IF condition': lambda: St('if', arms=[(('bool', False), [out(S('n'))]), (L(1), [out(S('n'))])], els=None),
    'CASE clause': lambda: St('seq', body=[assign('zi', L(2)), St('case', name='zi', clauses=[(L(1), None, [out(S('one'))]), (V('zundef'), None, [])], els=[])]),
    'CASE body': lambda: St('seq', body=[assign('zi', L(2)), St('case', name='zi', clauses=[(L(1), L(3), [out(S('in')), out(V('zundef'))])], els=None)]),
    'OTHERWISE': lambda: St('seq', body=[assign('zi', L(2)), St('case', name='zi', clauses=[(L(1), None, [])], els=[out(V('zundef'))])]),
    'in a loop': lambda: St('for', name='zi', a=L(1), b=L(3), step=None, nextname=True, body=[out(V('zi')), ifst(B('=', V('zi'), L(2)), [out(V('zundef'))])]),
    'invalid date': lambda: out(('date', 31, 2, 2023)), 'unset pointer': lambda: out(V('zp', ('^',))), 'store through unset pointer': lambda: assign(LVAL('zp', ('^',)), L(1)),
    'dereferenced number': lambda: out(V('zi', ('^',))), 'pointer target': lambda: St('ptrassign', lv=('zp', []), to=('zs', [])),
    'LEFT': lambda: out(fn('LEFT', S('ab'), L(5))), 'MID': lambda: assign('zs', fn('MID', S('ab'), L(0), L(1))), 'SETDATE': lambda: out(fn('SETDATE', L(31), L(4), L(2020))),
    'LEFT in an argument': lambda: call('ZProc', V('zi'), fn('RIGHT', S('ab'), L(9))), 'built-in argument type': lambda: out(fn('LENGTH', L(5))),
    'missing RETURN': lambda: assign('zi', fn('ZNoRet')), 'enum store': lambda: assign('zc', L(1)), 'enum undefined': lambda: assign('zc', V('ZBlue')),
    'RETURN in main': lambda: St('return', e=L(1)), 'stray BREAK': lambda: St('break'), 'stray CONTINUE': lambda: St('continue'),
    'assignment to an element of a number': lambda: assign(LVAL('zi', I(1)), L(1)), 'assignment to a field of nothing': lambda: assign(LVAL('zundef', F('k')), L(1)),
    'concatenation of an array': lambda: out(B('&', S('a'), V('za'))), 'READFILE target': lambda: fread(S('none.txt'), 'zi'), 'second line of two': lambda: St('seq', body=[out(S('fine')), out(V('zundef'))]),
    'cast': lambda: out(('cast', 'DATE', L(5))), 'type defined twice': lambda: St('seq', body=[St('typeenum', name='ZTw', names=['ZA']), St('typeenum', name='ZTw', names=['ZB'])]),
}
FNAMES = list(FAULTS)
# faults of definitions, which stand in the main program only
DFAULTS = {
    'undefined return type': lambda: St('func', name='ZQf', params=[('n', 'INTEGER', None)], rtype='ZNoType', body=[St('return', e=V('n'))], parens=True),
    'undefined parameter type of a function': lambda: St('func', name='ZQf', params=[('n', 'INTEGER', None), ('m', 'ZNoType', 'BYVAL')], rtype='INTEGER', body=[St('return', e=V('n'))], parens=True),
    'undefined parameter type of a procedure': lambda: St('proc', name='ZQp', params=[('n', 'ZNoType', 'BYREF')], rtype=None, body=[out(S('no'))], parens=True),
    'procedure defined twice': lambda: St('proc', name='ZProc', params=[], rtype=None, body=[out(S('no'))], parens=True),
    'function defined twice': lambda: St('func', name='ZId', params=[], rtype='REAL', body=[St('return', e=L(1))], parens=True),
    'built-in redefined': lambda: St('func', name='LENGTH', params=[('n', 'STRING', None)], rtype='INTEGER', body=[St('return', e=L(1))], parens=True),
}


def noise(src):
    if src.chance(4):
        return [St('raw', text=filler(src, True).rstrip('\n'))]
    return [St('raw', text=src.pick(['', '// note', '', '\n', '// a\n\n// b', '   '])) for _ in range(src.n(2))]


class DeepF(FInterp):
    MAX_DEPTH = 200


def go(env, stmts, stdin=(), key='', deep=False):
    """diff with file statements, and positions"""
    fs = {}
    m, o = diff(env, stmts, stdin, key=key, interp=lambda i, p: (DeepF if deep else FInterp)(i, p, fs=fs))
    if o.kind == 'runtime':
        positions(render(unshare(stmts)), o.err, 'runtime')
        if o.r.code != 1:
            raise Fail('a runtime error with exit status %s' % o.r.code, '', program=numbered(render(stmts)))
        if o.reports != 1:
            raise Fail('not exactly one diagnostic', '', program=numbered(render(stmts)), stderr=o.err)
    return m, o


class Track(FInterp):
    """records which statements are executed"""
    def stmt(self, s):
        self.ran[id(s)] = s
        super().stmt(s)


def blocks(stmts, inproc=None):
    """every statement list of the program except record bodies"""
    yield stmts
    for s in stmts:
        k = s.k
        if k == 'if':
            for _, b in s.arms:
                yield from blocks(b)
            if s.els is not None:
                yield from blocks(s.els)
        elif k == 'case':
            for _, _, b in s.clauses:
                yield from blocks(b)
            if s.els is not None:
                yield from blocks(s.els)
        elif k in ('while', 'repeat', 'for', 'proc', 'func'):
            yield from blocks(s.body)


def inject_case(src, env, i):
    g = Gen(src, errors=0, size=src.pick([6, 10, 14]), minprocs=src.pick([0, 1, 2]), morecalls=1, localtypes=src.chance(30))
    prog = unshare([_cp.deepcopy(x) for x in DEFS] + g.program())
    m = Track(g.stdin, fs={})
    m.ran = {}
    render(prog)
    try:
        kind, exc = m.main(prog)
    except (Unspec, RecursionError):
        raise Skip('base program leaves the language')
    spots = []
    for b in blocks(prog):
        for k in range(len(b) + 1):
            if b is prog and k < len(DEFS):
                continue
            if k < len(b) and id(b[k]) in m.ran or k == len(b) and (k == 0 or id(b[-1]) in m.ran):
                spots.append((b, k))
    if not spots:
        raise Skip('nothing executed')
    n = 0
    for r in range(5):
        b, k = src.pick(spots)
        name = FNAMES[(i * 5 + r) % len(FNAMES)] if src.chance(70) else src.pick(FNAMES)
        f = FAULTS[name]()
        if b is prog and src.chance(12):
            name = src.pick(list(DFAULTS))
            f = DFAULTS[name]()
        extra = noise(src) + (f.body if f.k == 'seq' else [f])
        b[k:k] = extra
        try:
            m2, o = go(env, prog, g.stdin)
            if m2.kind == 'runtime':
                n += 1
                env.mark(name, 'chain length %d' % min(5, len(m2.exc.chain)))
            else:
                env.mark('fault not reached')
        except Skip as e:
            env.mark('open: ' + name)
        finally:
            del b[k:k + len(extra)]
        if n:
            env.sample = None
    env.nontrivial = n > 0


# ------------------------------------------------------------------ faults at call depth 0..4
def wrap(src, body, d=0):
    """puts statements into a random executed position"""
    k = src.n(9)
    pre = [out(S('p'))] if src.chance(50) else []
    post = [out(S('never'))] if src.chance(50) else []
    body = noise(src) + pre + body + post
    if d >= 3 or k < 3:
        return body
    body = wrap(src, body, d + 1)
    v = 'w%d' % d
    if k == 3:
        return [ifst(B('=', L(1), L(1)), body, [out(S('no'))])]
    if k == 4:
        return [St('if', arms=[(('bool', False), [out(S('no'))]), (('bool', True), body)], els=[out(S('no'))])]
    if k == 5:
        return [ifst(('bool', False), [out(S('no'))], body)]
    if k == 6:
        return [St('for', name=v, a=L(1), b=L(2), step=None, body=body, nextname=src.chance(50))]
    if k == 7:
        return [St('while', c=('bool', True), body=body)]
    return [assign(v, L(2)), St('case', name=v, clauses=[(L(1), None, [out(S('no'))]), (L(2), None, body)], els=None)]


def use(src, name, isfunc, args):
    """statements that call it"""
    if not isfunc:
        return [call(name, *args)]
    c = ('call', name, args)
    k = src.n(20)
    if k == 0:
        return [out(c)]
    if k == 1:
        return [assign('loc', B('+', L(1), c))]
    if k == 2:
        return [ifst(B('=', c, L(1)), [out(S('then'))])]
    if k == 3:
        return [St('while', c=B('<', L(1), c), body=[])]
    if k == 4:
        return [St('repeat', body=[out(S('rep'))], c=B('=', c, c))]
    if k == 5:
        return [St('for', name='itr', a=L(1), b=c, step=None, body=[out(V('itr'))], nextname=False)]
    if k == 6:
        return [assign('sel', L(3)), St('case', name='sel', clauses=[(L(1), None, []), (c, None, [out(S('hit'))])], els=[])]
    if k == 7:
        return [out(V('za', I(c)))]
    if k == 8:
        return [assign(LVAL('za', I(c)), L(1))]
    if k == 9:
        return [St('return', e=c)] if src.chance(50) else [out(c, S('x'))]
    if k == 10:
        return [out(fn('ZId', c))]
    if k == 11:
        return [call('ZProc', V('za', I(c)), S('a'))]
    if k == 12:
        return [out(fn('MID', S('abc'), c, L(1)))]
    if k == 13:
        return [decl('INTEGER', 'locarr', bounds=[(1, 2)])] if src.chance(10) else [St('declare', names=['locarr'], type='INTEGER', bounds=[(L(1), c)])]
    if k == 14:
        return [St('if', arms=[(('bool', False), []), (B('=', c, L(1)), [])], els=None)]
    if k == 15:
        return [fwrite(S('none.txt'), c)] if src.chance(30) else [out(B('&', S('s'), c))]
    if k == 16:
        return [St('expr', e=c)]
    if k == 17:
        return [fseek(S('q.dat'), c)]
    if k == 18:
        return [out(L(1), ('paren', ('neg', c)))]
    return [St('for', name='itr', a=c, b=L(2), step=L(1), body=[], nextname=True)]


def depth_case(src, env, i):
    depth = i % 5
    name = FNAMES[i // 5 % len(FNAMES)]
    prog = [_cp.deepcopy(x) for x in DEFS]
    f = FAULTS[name]()
    inner = f.body if f.k == 'seq' else [f]
    body = wrap(src, inner)
    for d in range(depth):
        isfunc = src.chance(50)
        n = 'Lv%d' % d
        rec = src.n(3) if src.chance(30) else src.pick([8, 20, 33, 70, 110]) if d == 0 and src.chance(15) else 0
        if rec:
            # the activation that fails is the innermost of rec + 1 recursive ones
            body = [ifst(B('>', V('n'), L(0)), wrap(src, use(src, n, isfunc, [B('-', V('n'), L(1))]), 2), body)]
        if isfunc:
            body = body + [St('return', e=L(1))]
        prog += noise(src)
        prog.append(St('func' if isfunc else 'proc', name=n, params=[('n', 'INTEGER', 'BYVAL')], rtype='INTEGER' if isfunc else None, body=body, parens=True))
        body = wrap(src, use(src, n, isfunc, [L(rec)]))
    prog += body
    m, o = go(env, prog, deep=True)
    if m.kind != 'runtime':
        raise Skip('no runtime error')
    env.nontrivial = True
    env.mark(name, 'depth %d' % depth, 'chain length %s' % (len(m.exc.chain) if len(m.exc.chain) < 8 else '8 to 20' if len(m.exc.chain) < 21 else 'over 20'))


# ------------------------------------------------------------------ REPL and RUNFILE
def repl_case(src, env, i):
    """a faulty multi-line entry or RUNFILE of a faulty file runs nothing and the session goes on"""
    name = VALID[i % len(VALID)]
    toks = strs(CATALOG[name][0])
    j = src.n(len(toks))
    new, what = mutate_at(src, toks, j)
    t = write(new)
    body = 'OUTPUT "S1"\nOPENFILE "sent.txt" FOR WRITE\nkeepme <- 2\n' + t
    if not body.endswith('\n'):
        body += '\n'
    runfile = src.chance(50)
    srcs = SENT + t if runfile else 'IF TRUE THEN\n' + body + 'ENDIF\n'
    if not srcs.endswith('\n'):
        srcs += '\n'
    v, bad, _ = parse_text(srcs)
    if v not in ('bad', 'lex'):
        raise Skip('not faulty')
    if not runfile and re.search(r'\n\n|\n[ \t]*(PROCEDURE|FUNCTION)\b', srcs):
        raise Skip('would close the entry early')

    def prep(s):
        s.fresh()
        for n, d in FILES.items():
            s.put(n, d)
        s.put('bad.psc', srcs.encode('latin-1'))
        return s.repl('')
    env._go('plain', prep)
    res, r = session(env, ['keepme <- 1', 'RUNFILE bad.psc' if runfile else srcs[:-1], 'OUTPUT keepme', '1 + 1'], fresh=False)
    files = {n: d for n, d in env.server('plain').files().items() if n != 'bad.psc'}
    e = res[1]

    def fail(msg):
        raise Fail(msg, '', entry=srcs, what=what, observed=repr(e), files=repr(files))
    if e.kind != 'syntax':
        fail('a faulty source was not rejected in a REPL session')
    o = re.sub(r"==> Running file '.*'\n|==> Program exited with an error\n", '', e.out)
    if o.strip('\n'):
        fail('a faulty source printed something in a REPL session')
    if files != FILES:
        fail('a faulty source changed files in a REPL session')
    if len(re.findall(r'Syntax Error on line', e.err)) != 1:
        fail('not exactly one diagnostic in a REPL session')
    positions(srcs, e.err, 'syntax')
    if res[2].out != '1\n' or res[3].out != '2\n':
        fail('the session was disturbed: %r %r' % (res[2].out, res[3].out))
    env.nontrivial = True
    env.digest = srcs
    env.mark('RUNFILE' if runfile else 'entry', name)
    env.sample = dict(source=srcs[:400], fault=what, runfile=runfile)


# ------------------------------------------------------------------ every byte at every kind of place; faults very far into a source
BPLACES = ['own line', 'line start', 'line end', 'middle', 'glued', 'last', 'last without newline', 'in a block', 'before a comment', 'doubled']


def control_case(src, env, i):
    c, place = chr(i // len(BPLACES)), BPLACES[i % len(BPLACES)]
    if c == '\r':
        raise Skip('line endings are judged by C10')
    tail = 'OUTPUT (\n' if i % 2 else 'OUTPUT "done"\n'
    x = {'own line': 'OUTPUT 1\n%s\n', 'line start': '%s OUTPUT 1\n', 'line end': 'OUTPUT 1 %s\n', 'middle': 'OUTPUT %s 1\n', 'glued': 'OUT%sPUT 1\n', 'last': 'OUTPUT 1\n', 'last without newline': 'OUTPUT 1\n',
         'in a block': 'IF TRUE THEN\n    %s\n    OUTPUT 2\nENDIF\n', 'before a comment': 'OUTPUT 1\n%s// note\n', 'doubled': 'OUTPUT 1\n%s%s\n'}[place].replace('%s', c)
    t = SENT + x + (tail if not place.startswith('last') else c + ('\n' if place == 'last' else ''))
    v, bad, toks = parse_text(t)
    judge_syntax(env, t, v if v in ('lex', 'bad') else None, None, 'byte %d %s' % (ord(c), place))
    env.mark('recogniser: ' + v, place)
    env.nontrivial, env.digest = v in ('lex', 'bad'), t


FARS = [255, 256, 257, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 66000, 70001, 131072, 131075]
FBAD = [('OUTPUT (', 'syntax', 0), ('x <- 1 1', 'syntax', 0), ('OUTPUT 1 $ 2', 'syntax', 0), ('OUTPUT 1 / 0', 'run', 0), ('OUTPUT zundef', 'run', 0), ('CALL Deep', 'run', 0), ('IF TRUE THEN\n    OUTPUT 1 DIV 0\nENDIF', 'run', 1), ("OUTPUT 'ab'", 'syntax', 0), ('OUTPUT "a\\q"', 'syntax', 0)]


def far_case(src, env, i):
    """the line of a fault behind any number of other lines, and the column behind any number of blanks"""
    n = FARS[i // len(FBAD) % len(FARS)]
    bad, kind, off = FBAD[i % len(FBAD)]
    how = i // len(FBAD) // len(FARS) % 3
    head = ['PROCEDURE Deep', '    OUTPUT LEFT("a", 2)', 'ENDPROCEDURE', 'DECLARE x : INTEGER']
    fill = n - 1 - len(head)
    if how == 2:
        # far to the right instead
        lines = head + [' ' * n + bad.replace('\n', '\n' + ' ' * n)]
        at = len(head) + 1 + off
    elif how == 1:
        k = src.n(fill)
        lines = head + [''] * k + ['// note'] * (fill - k) + [bad]
        at = n + off
    else:
        lines = head + [''] * fill + [bad]
        at = n + off
    t = '\n'.join(lines) + '\nOUTPUT "never"\n'
    o = judge_syntax(env, t, 'bad', at, 'far') if kind == 'syntax' else Obs(run(env, t))
    if kind == 'run':
        if o.kind != 'runtime' or 'never' in o.out:
            raise Fail('a fault far into a source was not reported', 'far', fault=bad, at=str(at), observed=o.kind, stderr=o.err[-500:])
        got = [int(x) for x in re.findall(r'line (\d+), column', o.err)]
        want = [2, at] if 'Deep' in bad else [at]
        if [g for g in got if g] != want:
            raise Fail('the trace of a fault far into a source names other lines', 'far', fault=bad, expected=str(want), observed=str(got), stderr=o.err[-500:])
    env.mark('far: ' + kind)
    env.nontrivial, env.digest = True, 'far %d %s %d' % (n, bad, how)
    env.sample = dict(line=at, fault=bad)


# ------------------------------------------------------------------ statements where none may stand
FOREIGN = ['CONSTANT K = 5', 'x <- 5', 'OUTPUT "ran"', 'INPUT y', 'PRINT 1', 'CALL P', 'IF TRUE THEN', 'ENDIF', 'ELSE', 'WHILE TRUE DO', 'REPEAT', 'UNTIL TRUE', 'FOR i <- 1 TO 2', 'NEXT i', 'PROCEDURE Q', 'ENDPROCEDURE',
           'RETURN 1', 'BREAK', 'CONTINUE', 'OPENFILE "sent.txt" FOR WRITE', 'CLOSEFILE "sent.txt"', 'TYPE U = (A1, B1)', 'TYPE U = ^INTEGER', 'TYPE U', 'CASE OF x', 'ENDCASE', 'OTHERWISE : x <- 1', '1 : x <- 1', '5', 'x', 'a : INTEGER',
           'DECLARE', 'DECLARE q', 'DECLARE q :', 'DECLARE q : ARRAY[1:2]', 'DECLARE q : ARRAY OF INTEGER', 'DECLARE q, : INTEGER', 'DECLARE q INTEGER', 'DECLARE q : INTEGER OUTPUT 1', 'SEEK "a", 1', 'ENDFUNCTION', 'RUNFILE "x"']


def foreign_case(src, env, i):
    bad = FOREIGN[i % len(FOREIGN)]
    form = i // len(FOREIGN) % 4
    n = src.int(0, 3)
    if form == 0:
        body = ['    DECLARE f%d : %s' % (k, src.pick(['INTEGER', 'STRING', 'ARRAY[1:2] OF REAL'])) for k in range(n)]
        at = src.n(n + 1)
        ls = ['TYPE T'] + body[:at] + ['    ' + bad] + body[at:] + ['ENDTYPE']
    elif form == 1:
        # in front of the first clause
        ls = ['x <- 1', 'CASE OF x', '    ' + bad, '    1 : OUTPUT "one"', '    2 : OUTPUT "two"', 'ENDCASE']
    elif form == 2:
        # behind the last one
        ls = ['x <- 1', 'CASE OF x', '    1 : OUTPUT "one"', '    OTHERWISE : OUTPUT "two"', '    ' + bad, 'ENDCASE']
    else:
        # the rest of a line that is complete
        ls = [src.pick(['DECLARE z : INTEGER', 'x <- 5', 'OUTPUT 1', 'ENDIF', 'TYPE E1 = (A, B)', 'CONSTANT C = 1', 'INPUT w', 'CALL P(1)']) + ' ' + bad]
        if ls[0].startswith('ENDIF'):
            ls = ['IF TRUE THEN', '    x <- 1'] + ls
    pre = ['OUTPUT "S%d"' % k for k in range(src.n(4))]
    post = ['OUTPUT "end"'] * src.n(3)
    text = SENT + '\n'.join(pre + ls + post) + '\n'
    v, b, toks = parse_text(text)
    line = None
    if v == 'bad' and form == 0:
        line = NSENT + len(pre) + 2 + at
    judge_syntax(env, text, v if v in ('lex', 'bad') else None, line, bad)
    env.mark('recogniser: ' + v)
    env.nontrivial, env.digest = v == 'bad', text
    env.sample = dict(foreign=bad, program='\n'.join(ls))


STREAMS = [
    Stream('foreign', foreign_case, len(FOREIGN) * 4 * 3, len(FOREIGN) * 4 * 60),
    Stream('single', single_case, len(CHUNKS), len(CHUNKS), exhaustive=True),
    Stream('random', random_case, 1200, 40000),
    Stream('lines', lines_case, 1000, 30000),
    Stream('lexical', lex_case, 900, 20000),
    Stream('bytes', bytes_case, 1200, 30000),
    Stream('inject', inject_case, 1000, 30000),
    Stream('every-byte', control_case, 256 * len(BPLACES), 256 * len(BPLACES), exhaustive=True),
    Stream('far', far_case, 3 * len(FBAD) * len(FARS), 3 * len(FBAD) * len(FARS), exhaustive=True),
    Stream('depth', depth_case, 2400, 60000),
    Stream('repl', repl_case, 600, 12000),
]
