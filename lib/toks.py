"""Independent tokenizer of program text, corpus, and token-level mutation."""
import glob, os, re
from engine import VERIF

TOK = re.compile(r'''
  (?P<com>//[^\n]*) | (?P<nl>\n) | (?P<ws>[ \t]+)
| (?P<str>"(?:\\[nt'"\\]|[^"\\])*") | (?P<chr>'(?:\\[nt'"\\]|[^'\\])')
| (?P<date>[0-9]+/[0-9]+/[0-9]+) | (?P<num>[0-9]+(?:\.[0-9]*)?) | (?P<word>[A-Za-z][A-Za-z0-9_]*)
| (?P<op><-|<=|<>|>=|(?:==)|[-+*/()\[\]=:,&^.<>])''', re.X)

KEYWORDS = '''DIV MOD AND OR NOT TRUE FALSE DECLARE CONSTANT INTEGER REAL BOOLEAN CHAR STRING DATE ARRAY TYPE ENDTYPE IF THEN ELSE ENDIF
CASE OF OTHERWISE ENDCASE WHILE DO ENDWHILE REPEAT UNTIL FOR TO STEP NEXT BREAK CONTINUE PROCEDURE BYREF BYVAL ENDPROCEDURE CALL FUNCTION
ENDFUNCTION RETURNS RETURN OUTPUT PRINT INPUT READ OPENFILE READFILE WRITEFILE CLOSEFILE WRITE APPEND RANDOM SEEK GETRECORD PUTRECORD'''.split()
OPS = ['+', '-', '*', '/', '(', ')', '[', ']', '=', ':', ',', '&', '^', '.', '<', '>', '<-', '<=', '<>', '>=']
LITS = ['0', '1', '7', '2.5', '3.', "'a'", '"s"', '""', '1/2/2020', 'x', 'y', 'f']
VOCAB = KEYWORDS + OPS + LITS + ['\n']
HINTED = {'OUTPUT', 'PRINT', 'INPUT', 'OPENFILE', 'READFILE', 'WRITEFILE', 'CLOSEFILE'}


class T:
    __slots__ = ('k', 's', 'line')

    def __init__(self, k, s, line):
        self.k, self.s, self.line = k, s, line

    def __repr__(self):
        return self.s


def tokenize(text):
    """-> list of T (kinds word num date str chr op nl), gaps (text before each token, one more at the end), or None when some
    text is no token.  A comment belongs to the gap of the line break that ends it."""
    toks, gaps, gap, pos, line = [], [], '', 0, 1
    while pos < len(text):
        m = TOK.match(text, pos)
        if m is None or m.group('op') == '==':
            return None
        k, s = m.lastgroup, m.group(0)
        if k in ('ws', 'com'):
            gap += s
        else:
            toks.append(T(k, s, line))
            gaps.append(gap)
            gap = ''
        line += s.count('\n')
        pos = m.end()
    gaps.append(gap)
    return toks, gaps


def strs(text):
    """Token spellings, None if not tokenizable."""
    r = tokenize(text)
    return None if r is None else [t.s for t in r[0]]


def glue_ok(a, b):
    """May a and b stand directly next to each other?"""
    if b in ('\n',) or a in ('\n',):
        return True
    if b == '(' and a in HINTED:
        return False
    return strs(a + b) == [a, b]


def write(toks):
    """Token spellings in a plain layout (single blanks)."""
    out, start = [], True
    for s in toks:
        if s == '\n':
            out.append('\n')
            start = True
        else:
            out.append(s if start else ' ' + s)
            start = False
    return ''.join(out)


def split_lines(toks):
    """List of lines, each a list of spellings."""
    lines = [[]]
    for s in toks:
        if s == '\n':
            lines.append([])
        else:
            lines[-1].append(s)
    return lines


_corpus = None


def corpus():
    """[(name, text)] of programs that ship with the project and its documentation (deterministic ones)."""
    global _corpus
    if _corpus is None:
        _corpus = []
        for p in sorted(glob.glob(os.path.join(VERIF, 'corpus', '*.pseudo'))):
            t = open(p, encoding='latin-1').read().replace('\r', '')
            _corpus.append((os.path.basename(p), t))
    return _corpus


def mutate(src, toks, n=1):
    """n token-level edits: delete, duplicate, replace, insert, transpose."""
    toks = list(toks)
    what = []
    for _ in range(n):
        if not toks:
            toks = [src.pick(VOCAB)]
        k = src.n(5)
        i = src.n(len(toks))
        if k == 0:
            what.append('delete %r' % toks[i])
            del toks[i]
        elif k == 1:
            toks.insert(i, toks[i])
            what.append('duplicate %r' % toks[i])
        elif k == 2:
            new = src.pick(VOCAB)
            what.append('replace %r by %r' % (toks[i], new))
            toks[i] = new
        elif k == 3:
            new = src.pick(VOCAB)
            what.append('insert %r' % new)
            toks.insert(i, new)
        elif i + 1 < len(toks):
            toks[i], toks[i + 1] = toks[i + 1], toks[i]
            what.append('transpose %r %r' % (toks[i], toks[i + 1]))
    return toks, what
