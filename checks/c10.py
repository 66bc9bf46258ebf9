"""C10: layout, comments and line endings never change what a program does."""
import re
from common import *
from gen import Gen
from toks import *
from catalog import CATALOG

VARIANTS = ['plain']
RULE = ('a case is non-trivial when the transformed text differs from the original, has the same tokens by the independent tokenizer, and the '
        'program got past line 1 (some output, file or a diagnosed line); distinct by (program, transformed text)')
ASSUMPTIONS = ["'(' directly after OUTPUT, PRINT, INPUT, OPENFILE, READFILE, WRITEFILE or CLOSEFILE is never produced or removed",
               'for a diagnostic behind the last source line, up to two lines of difference are allowed']

# tokens a line between statements cannot begin with
INNER = {'TO', 'STEP', 'OF', 'AND', 'OR', 'DIV', 'MOD', 'BYREF', 'BYVAL', 'ARRAY', 'READ', 'WRITE', 'APPEND', 'RANDOM',
         '+', '-', '*', '/', ')', ']', '=', ':', ',', '&', '^', '.', '<', '>', '<-', '<=', '<>', '>=', '(', '['}
COMMENTS = ['//', '// plain', '//7', '//2/2024', '// ENDIF', '//ENDWHILE', '// "open', "// 'x", '// "closed"', '// x <- 5', '//// twice', '// a // b', '// 1 : OUTPUT 2',
            '// = ( [ :', '//\\', '// back\\n', '//\t', '// ELSE IF THEN', '// OUTPUT(1)', '//(', '// *', '/// ', '//=', '//<-', '//:', '// \xe9\xff', '// == @ ! ~ ` $ %', '//"', "//'",
            '//.5', '//1.5', '// NEXT', '//0', '// DO', '// REPEAT', '//_', '//\x01\x7f', '// CASE OF x', '//,', '//-1', '//\x00 nul']
COMMENT_CH = 'abIFxZ019 \t/\\"\'()[]:=<>-+*&^.,!@#%_~|{}\xe9;?$'
GAPS = ['', ' ', '\t', '   ', ' \t ', '\t\t']
WIDE = [' ' * 8, ' \t', '\t ', ' ' * 17, '\t' * 9, ' ' * 40, ' \t\t  \t', ' ' * 130, '\t' * 70, ' ' * 300]


def comment(src):
    if src.chance(60):
        return src.pick(COMMENTS)
    return '//' + ''.join(src.pick(COMMENT_CH) for _ in range(src.n(14)))


class Prog:
    def __init__(self, text, stdin=(), files=(), name=''):
        self.text, self.stdin, self.files, self.name = text, list(stdin), dict(files), name
        r = tokenize(text)
        if r is None:
            raise Skip('not tokenizable')
        self.toks, self.gaps = r
        self.spell = [t.s for t in self.toks]


class Layout:
    """How to write a program's tokens: gap[i] before token i (None: as it was), extra[i] lines in front of the line that starts with
    token i, tail comment in front of line break i."""
    def __init__(self):
        self.gap, self.extra, self.tail, self.crlf, self.final = {}, {}, {}, 0, True


def apply(p, lay, src=None):
    """-> new text, line map (original physical line -> new), or None when the result would have other tokens"""
    out = []
    line = new = 1
    first = True
    linemap = {0: 0, 1: 1}
    for i, t in enumerate(p.toks):
        gap = p.gaps[i]
        if first and i in lay.extra:
            for l in lay.extra[i]:
                out.append(l + '\n')
                new += 1
        if first:
            linemap[line] = new
        if i in lay.gap:
            com = gap[gap.index('//'):] if '//' in gap else ''
            gap = lay.gap[i] + com
        if t.k == 'nl' and i in lay.tail and '//' not in gap:
            gap += lay.tail[i]
        out.append(gap)
        out.append(t.s)
        n = t.s.count('\n')
        for _ in range(n):
            line += 1
            new += 1
            linemap[line] = new
        first = t.k == 'nl'
    end = len(p.toks)
    for l in lay.extra.get(end, []):
        out.append(l + '\n')
        new += 1
    out.append(p.gaps[end])
    text = ''.join(out)
    if strs(text) is None:
        return None
    drop = lambda ts: [a for k, a in enumerate(ts) if not (a == '\n' and (k == 0 or ts[k - 1] == '\n'))]
    if drop(strs(text)) != drop(p.spell):
        return None
    if re.search(r'\b(?:OUTPUT|PRINT|INPUT|OPENFILE|READFILE|WRITEFILE|CLOSEFILE)\(', text) and \
            [x for x in hinted(text)] != [x for x in hinted(p.text)]:
        return None
    if not lay.final:
        text = text.rstrip('\n')
    if lay.crlf == 1:
        text = text.replace('\n', '\r\n')
    elif lay.crlf == 2 and src is not None:
        text = ''.join(c if c != '\n' else src.pick(['\r\n', '\n']) for c in text)
    elif lay.crlf in (3, 4) and src is not None:
        # only the lines before or only those behind some place
        k = src.n(text.count('\n') + 1)
        ls = text.split('\n')
        text = '\r\n'.join(ls[:k + 1]) + ''.join('\n' + l for l in ls[k + 1:]) if lay.crlf == 3 else '\n'.join(ls[:k + 1]) + ''.join('\r\n' + l for l in ls[k + 1:])
    return text, linemap


def hinted(text):
    toks, gaps = tokenize(text)
    return [i for i in range(1, len(toks)) if toks[i].s == '(' and gaps[i] == '' and toks[i - 1].s in HINTED]


POS = re.compile(r'line (\d+),? column \d+')


def norm(text, linemap, last, newlast):
    """positions replaced by the line they have to be on; lines behind the source by END"""
    def f(m):
        l = int(m.group(1))
        if linemap is None:
            return 'line %s' % ('END' if l > newlast else l)
        return 'line %s' % ('END' if l > last else linemap.get(l, '?%d' % l))
    return POS.sub(f, text)


def observe(env, p, text, pedantic):
    def setup(s):
        s.fresh()
        for n, d in p.files.items():
            s.put(n, d)

    def go(s):
        setup(s)
        r = s.run_file(text, to_stdin(p.stdin), pedantic)
        r.files = s.files()
        return r
    return env._go('plain', go)


def physical(text):
    return len(text.rstrip('\n').split('\n'))


def judge(env, p, base, text, linemap, pedantic, what):
    r = observe(env, p, text, pedantic)
    if r.crashed or base.crashed:
        if r.crashed and base.crashed:
            raise Skip('crashes in every layout (C01)')
    last, newlast = physical(p.text), physical(text.replace('\r', ''))

    def view(x, lm):
        return dict(exit=x.code, signal=x.sig, stdout=norm(x.out.decode('latin-1'), lm, last, newlast),
                    stderr=norm(x.err.decode('latin-1'), lm, last, newlast), files={k: v.decode('latin-1') for k, v in x.files.items()})
    a, b = view(base, linemap), view(r, None)
    for k in a:
        if a[k] != b[k]:
            raise Fail('%s differs after a change of layout (%s)' % (k, what), '', original=numbered(p.text), transformed=numbered(text.replace('\r', '\\r')),
                       raw=text, stdin=to_stdin(p.stdin), pedantic=str(pedantic), expected=str(a[k]), observed=str(b[k]))


def nontrivial(base):
    return bool(base.out.strip() or base.files or base.code == 1)


# ------------------------------------------------------------------ exhaustive single changes of small programs
NAMES = sorted(CATALOG)


def prog_of(name):
    t, i = CATALOG[name]
    return Prog(t, i, name=name)


SINGLES = [(n, 'tail') for n in NAMES] + [(n, 'gap') for n in NAMES] + [(n, 'line') for n in NAMES] + [(n, 'whole') for n in NAMES]
EXTRA = [[''], ['', '', ''], ['   '], ['\t'], ['// note'], ['//'], ['', '// ENDIF', ''], ['    // "x'], ['//5', '// 1 : OUTPUT 2'], ['// x <- 5 \\']]


def line_starts(p, safe=True):
    out = []
    first = True
    for i, t in enumerate(p.toks):
        if first and t.s not in INNER:
            out.append(i)
        elif first and t.s == '-' and not safe:
            out.append(i)
        first = t.k == 'nl'
    return out + [len(p.toks)]


def single_case(src, env, i):
    name, kind = SINGLES[i]
    p = prog_of(name)
    ped = False
    base = observe(env, p, p.text, ped)
    n = 0

    def go(lay, what):
        nonlocal n
        x = apply(p, lay)
        if x is None or x[0] == p.text:
            return
        n += 1
        judge(env, p, base, x[0], x[1], ped, what)
    if kind == 'tail':
        for j, t in enumerate(p.toks):
            if t.k != 'nl':
                continue
            for c in COMMENTS:
                for g in ('', ' '):
                    lay = Layout()
                    lay.tail[j] = g + c
                    go(lay, 'comment %r at the end of line %d' % (g + c, t.line))
    elif kind == 'gap':
        for j, t in enumerate(p.toks):
            start = j == 0 or p.toks[j - 1].k == 'nl'
            for g in GAPS + [' \t', ' ' * 40]:
                if not start and t.k != 'nl' and g == '' and not glue_ok(p.toks[j - 1].s, t.s):
                    continue
                lay = Layout()
                lay.gap[j] = g
                go(lay, 'gap %r before %r in line %d' % (g, t.s, t.line))
    elif kind == 'line':
        for j in line_starts(p, False):
            for e in EXTRA:
                lay = Layout()
                lay.extra[j] = e
                go(lay, 'lines %r inserted' % (e,))
    else:
        for crlf in (0, 1):
            for final in (True, False):
                for g in (None, '', '  ', '\t', ' \t'):
                    for c in (None, ' // note', '//9', '//"'):
                        lay = Layout()
                        lay.crlf, lay.final = crlf, final
                        for j, t in enumerate(p.toks):
                            if g is not None and (j == 0 or p.toks[j - 1].k == 'nl'):
                                lay.gap[j] = g
                            if c is not None and t.k == 'nl':
                                lay.tail[j] = c
                        go(lay, 'crlf=%d final=%s indent=%r comment=%r' % (crlf, final, g, c))
        # everything as tight as possible, and everything as wide as possible
        for wide in ('', ' ', '\t', ' \t  '):
            lay = Layout()
            for j, t in enumerate(p.toks):
                if j and p.toks[j - 1].k != 'nl' and t.k != 'nl':
                    ok = glue_ok(p.toks[j - 1].s, t.s) and not ({p.toks[j - 1].k, t.k} & {'num', 'date'} and '/' in (t.s, p.toks[j - 1].s))
                    lay.gap[j] = wide if wide or ok else ' '
            go(lay, 'all gaps %r' % wide)
    env.nontrivial = nontrivial(base)
    env.digest = '%s/%s' % (name, kind)
    env.mark(kind, name)
    env.sample = dict(program=p.text[:600], kind=kind, transformations=n)


# ------------------------------------------------------------------ random layouts of random programs
def source(src):
    k = src.n(10)
    if k < 5:
        g = Gen(src, errors=src.pick([0, 0, 5, 15]), size=src.pick([6, 10, 16]), localtypes=True)
        st = unshare(g.program())
        text, stdin, name = render(st), list(g.stdin), 'generated'
    elif k < 7:
        name = src.pick(NAMES)
        text, stdin = CATALOG[name]
        name = 'catalog'
    elif k < 8:
        # several small ones in a row
        text, stdin, name = '', [], 'catalogs'
        for _ in range(3):
            t, i = CATALOG[src.pick([n for n in NAMES if not n.startswith('sy')])]
            text += t
            stdin = stdin + i
    else:
        name, text = src.pick(corpus())
        text = re.sub(r'\bRAND\(', 'SQRT(', text)
        stdin, name = ['3', '4', '2.5', 'TRUE', 'c', 'word', '9'], 'corpus'
    if not text.endswith('\n'):
        text += '\n'
    if src.chance(15):
        text = own_lines(src, text)
    return text, stdin, name


def own_lines(src, text):
    """THEN, DO and RETURNS on lines of their own"""
    r = tokenize(text)
    if r is None:
        return text
    out = ''
    for t, g in zip(*r):
        if t.k not in ('str', 'chr') and t.s in ('THEN', 'DO', 'RETURNS') and src.chance(50):
            g = src.pick(['\n', '\n    ', ' \n'])
        out += g + t.s
    return out if strs(out) is not None else text


def layout(src, p):
    lay = Layout()
    d = src.pick([15, 40, 90])
    starts = set(line_starts(p))
    for j, t in enumerate(p.toks):
        start = j == 0 or p.toks[j - 1].k == 'nl'
        if t.k == 'nl':
            if src.chance(d):
                lay.tail[j] = src.pick(['', ' ', '\t']) + comment(src)
            elif src.chance(20):
                lay.gap[j] = src.pick(GAPS + WIDE)
        elif start:
            if src.chance(d):
                lay.gap[j] = src.pick(GAPS + WIDE)
            if j in starts and src.chance(d // 2):
                lay.extra[j] = [src.pick(['', '', '  ', '\t', comment(src), '  ' + comment(src)]) for _ in range(src.int(1, 4))]
        elif src.chance(d):
            a = p.toks[j - 1]
            g = src.pick(GAPS) if src.n(6) else src.pick(WIDE)
            if g == '' and (not glue_ok(a.s, t.s) or '/' in (a.s, t.s)):
                g = ' '
            lay.gap[j] = g
    if src.chance(d // 2):
        lay.extra[len(p.toks)] = [src.pick(['', ' ', comment(src)]) for _ in range(src.int(1, 3))]
    lay.crlf = src.weighted([(4, 0), (3, 1), (1, 2), (1, 3), (1, 4)])
    if src.chance(12):
        # one change far larger than people write
        n, k = src.pick([60, 130, 257, 520, 1030, 4100, 9000, 70000]), src.n(7)
        j = src.pick(sorted(starts)) if starts else 0
        if k == 0:
            lay.extra[j] = [''] * n
        elif k == 1:
            lay.extra[j] = ['//' + 'x' * n]
        elif k == 2:
            lay.extra[j] = ['// %d' % q for q in range(n // 4)]
        elif k == 3:
            lay.extra[len(p.toks)] = ['//' + ' x' * n, '', ' ' * n]
        else:
            # within a line that has a statement, often the first one
            j = src.n(min(8, len(p.toks))) if src.chance(50) else src.n(len(p.toks))
            if '/' not in (p.toks[j].s, p.toks[j - 1].s if j else ''):
                lay.gap[j] = src.pick([' ' * n, '\t' * n, ' \t' * (n // 2)])
    lay.final = not src.chance(15)
    return lay


def random_case(src, env, i, mutated=False):
    text, stdin, name = source(src)
    what = []
    if mutated:
        r = strs(text)
        if r is None:
            raise Skip('not tokenizable')
        # mutate one line's neighbourhood, keeping the rest of the text
        toks, what = mutate(src, r, src.pick([1, 1, 2]))
        text = write(toks)
        if not text.endswith('\n'):
            text += '\n'
        if strs(text) != toks and strs(text) != toks + ['\n']:
            raise Skip('tokens run together')
    if src.chance(15):
        text = src.pick(['OUTPUT "a   b  c", "   "\n', 'OUTPUT "  \\t ", \' \', "x    "\n', 'OUTPUT "    // no comment", "a  &  b"\n']) + text
    p = Prog(text, stdin, {'in.txt': b'one\ntwo\n'}, name)
    ped = src.chance(12)
    base = observe(env, p, text, ped)
    for _ in range(3):
        lay = layout(src, p)
        x = apply(p, lay, src)
        if x is None:
            env.mark('tokens would change')
            continue
        judge(env, p, base, x[0], x[1], ped, 'random layout of a %s program' % name)
        env.nontrivial = nontrivial(base)
        env.digest = text + x[0]
        env.sample = dict(original=text[:500], transformed=x[0][:700], mutation=what, exit=base.code, stderr=base.err.decode('latin-1')[:160])
    env.mark(name, 'exit %s' % base.code)
    m = re.match(r'(Syntax Error|Runtime Error|Error\(pedantic\))', base.err.decode('latin-1'))
    env.mark(m.group(1) if m else 'no error')


def mutated_case(src, env, i):
    random_case(src, env, i, True)


# ------------------------------------------------------------------ lexical errors: everything in front of and behind the fault may move
LEXFAULTS = ['x == 5', 'OUTPUT 5 @ 3', 'OUTPUT 1 ! 2', "OUTPUT ''", "OUTPUT 'ab'", 'OUTPUT "bad \\q"', "OUTPUT '\\z'", 'OUTPUT("x")', 'x <- {1}', 'OUTPUT 1;', 'x <- 99999999999999999999', 'OUTPUT 5 _ 3',
             'OUTPUT #', 'OPENFILE("a") FOR READ', 'x <- 5 % 2', 'OUTPUT `a`', 'x ~ 1', '$x <- 1', 'x <- "é" ?']


def lex_case(src, env, i):
    text, stdin, name = source(src)
    lines = text[:-1].split('\n')
    if any(tokenize(l) is None for l in lines):
        raise Skip('not tokenizable line by line')
    at = src.n(len(lines) + 1)
    fault = LEXFAULTS[i % len(LEXFAULTS)]
    lines.insert(at, src.pick(['', '    ']) + fault)
    text = '\n'.join(lines) + '\n'
    base_p = Prog.__new__(Prog)
    base_p.text, base_p.stdin, base_p.files, base_p.name = text, stdin, {}, name
    base = observe(env, base_p, text, False)
    for _ in range(2):
        new, lm = [], {0: 0}
        for k, l in enumerate(lines):
            first = (strs(l) or ['x'])[0] if l.strip() else 'x'
            if first not in INNER and src.chance(25):
                new += [src.pick(['', ' ', comment(src)]) for _ in range(src.int(1, 3))]
            lm[k + 1] = len(new) + 1
            l = src.pick(['', ' ', '\t', '      ']) + l.lstrip(' \t') if src.chance(50) else l
            if src.chance(30) and '//' not in l and "'" not in fault and '"' not in fault:
                l += ' ' + comment(src)
            new.append(l)
        nt = '\n'.join(new) + '\n'
        if src.chance(40):
            nt = nt.replace('\n', '\r\n')
        judge(env, base_p, base, nt, lm, False, 'layout around a lexical fault')
    if base.code != 1:
        env.mark('fault accepted: %r' % fault)
    env.mark(fault)
    env.nontrivial = True
    env.digest = text + nt
    env.sample = dict(original=text[:400], fault=fault, line=at + 1, stderr=base.err.decode('latin-1')[:120])


# ------------------------------------------------------------------ the REPL
def repl_entries(src, stmts):
    return [lines_text([s]) for s in stmts]


def repl_case(src, env, i):
    if src.chance(60):
        g = Gen(src, errors=src.pick([0, 10]), size=8, depth=2, inputs=False, bareexpr=True)
        ents = repl_entries(src, unshare(g.program()))
    else:
        lines = CATALOG[src.pick([n for n in NAMES if n not in ('io', 'warn', 'rt_call') and not n.startswith('sy')])][0]
        ents, cur, depth = [], [], 0
        for l in lines[:-1].split('\n'):
            if not cur and not opens_block(l):
                ents.append(l)
                continue
            cur.append(l)
            w = l.split()[0] if l.split() else ''
            depth += (w in KEYWORDS and opens_block(l)) - (w.startswith('END') or w in ('NEXT', 'UNTIL'))
            if depth == 0:
                ents.append('\n'.join(cur))
                cur = []
    base, r0 = session(env, ents)
    new = []
    lms = []
    for e in ents:
        p = Prog(e + '\n')
        lay = layout(src, p)
        lay.crlf, lay.final = 0, True
        # a blank line would end a construct; inserted lines in front of an entry are entries of their own
        lay.extra = {j: [l if l else '//' for l in ls] for j, ls in lay.extra.items() if j not in (0, len(p.toks))}
        x = apply(p, lay, src)
        if x is None or '\n\n' in x[0] or x[0][:-1].strip(' \t') == '':
            x = (e + '\n', {k: k for k in range(1, 200)})
        new.append(x[0][:-1])
        lms.append(x[1])
    res, r1 = session(env, new)
    for k, (a, b) in enumerate(zip(base, res)):
        last = physical(ents[k])
        ea, eb = norm(a.err, lms[k], last, physical(new[k])), norm(b.err, None, 0, physical(new[k]))
        if a.kind != b.kind or a.out != b.out or kind_of(ea, b'') != kind_of(eb, b''):
            raise Fail('a REPL entry behaves differently in another layout', '', session='\n'.join(new[:k + 1]), original=ents[k], transformed=new[k],
                       expected='%r\n%s' % (a, ea), observed='%r\n%s' % (b, eb))
    env.nontrivial = any(e.out for e in base) and new != ents
    env.digest = '\n'.join(new)
    env.sample = dict(entries=ents[:8], transformed=new[:8])
    env.mark('entries %d' % min(9, len(ents) // 4 * 4))


def kind_of(err, _):
    # the frames below the failing entry refer to lines of other entries
    return err.split('\nTraceback:')[0]


STREAMS = [
    Stream('single', single_case, len(SINGLES), len(SINGLES), exhaustive=True),
    Stream('random', random_case, 2600, 60000),
    Stream('mutated', mutated_case, 1600, 50000),
    Stream('lexical', lex_case, 700, 15000),
    Stream('repl', repl_case, 500, 12000),
]
