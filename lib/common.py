"""Shared pieces of the checks."""
import re
from engine import Fail, Skip, Stream
from lang import *

ERR = re.compile(r'(?m)^(Runtime Error in file |Syntax Error on line |Error\(pedantic\) on line |Error on line )')


def numbered(text):
    if isinstance(text, bytes):
        text = text.decode('latin-1')
    return '\n'.join('%3d  %s' % (i + 1, l) for i, l in enumerate(text.split('\n')))


def to_stdin(lines):
    return ''.join(l + '\n' for l in lines)


def crash_fail(r, text, key='crash', stdin=b'', **kw):
    raise Fail('the interpreter ended abnormally: exit %s signal %s' % (r.code, r.sig), key, program=numbered(text),
               stdin=stdin, stdout=r.out[-1500:], stderr=r.err[-2500:], **kw)


def model(stmts, stdin=(), pedantic=False, interp=Interp):
    """Runs the reference interpreter; Skip if the program leaves the specified language."""
    m = interp(stdin, pedantic)
    try:
        m.kind, m.exc = m.main(stmts)
    except Unspec as u:
        raise Skip('open: ' + str(u))
    except RecursionError:
        raise Skip('open: recursion of the model')
    return m


def compare(m, o, text, stdin=(), key='', chain=True):
    """Compares the model's outcome with what was observed."""
    def bad(what, expected, got):
        raise Fail(what, key, program=numbered(text), stdin=to_stdin(stdin), expected=expected, observed=got, stderr=o.err[-1200:])
    if o.kind == 'crash':
        bad('the interpreter ended abnormally', m.kind, o.brief())
    exp = m.text()
    got = o.out if m.kind == 'ok' else strip_err_nl(o.out)
    if o.kind != m.kind:
        bad('outcome differs from the reference', '%s%s at lines %s' % (m.kind, '' if m.exc is None else ' (%s)' % m.exc, getattr(m.exc, 'chain', None))
            + '\n' + exp, o.brief() + '\n' + o.out)
    if got != exp and not (m.kind != 'ok' and o.out == exp):
        bad('output differs from the reference', exp, o.out)
    if m.kind == 'runtime' and chain and not chain_ok(m.exc.chain, o.chain):
        bad('the traceback names other lines', [c and sorted(c) for c in m.exc.chain], o.chain)


def diff(env, stmts, stdin=(), pedantic=False, variant='plain', key='', chain=True, interp=Interp, limits=None, tail=None):
    """Differential run: reference interpreter against the real one. -> (model, Obs)"""
    stmts = unshare(stmts)
    text = render(stmts)
    m = model(stmts, stdin, pedantic, interp)
    r = env.file(text, to_stdin(stdin), pedantic, variant)
    o = Obs(r)
    compare(m, o, text, stdin, key, chain)
    env.digest = text
    if env.sample is None:
        env.sample = dict(program=text[:1500], stdin=list(stdin), outcome=m.kind if m.exc is None else '%s: %s' % (m.kind, m.exc), output=m.text()[:400])
    return m, o


WARN = re.compile(r'(?m)^Warning on line \d+ column \d+: .*\n')


class Entry:
    """Outcome of one REPL entry: kind ok|runtime|syntax|pedantic|error|dead, out (stdout text), err (report text)."""
    __slots__ = ('kind', 'out', 'err', 'line')

    def __init__(self, kind, out, err):
        self.kind, self.out, self.err = kind, out, err

    def __repr__(self):
        return '%s %r %s' % (self.kind, self.out, self.err.strip().replace('\n', ' | '))


MARK = '\x02~%d~\x02'


def session(env, entries, variant='plain', pedantic=False, fresh=True, check=True, end='', flags=0):
    """Feeds entries (text, or (text, stdin lines)) to one REPL session, each followed by a sentinel, and splits the output.
    A multi-line entry gets its closing blank line here.  -> list of Entry, Result"""
    parts = []
    conts = []
    for k, e in enumerate(entries):
        inp = ()
        if isinstance(e, tuple):
            e, inp = e
        parts.append(e + '\n')
        c = e.count('\n')
        if opens_block(e):
            parts.append('\n')
            c += 1
        conts.append(c)
        for l in inp:
            parts.append(l + '\n')
        parts.append('OUTPUT "' + MARK % k + '"\n')
    text = ''.join(parts) + end
    r = env.repl(text.encode('latin-1'), pedantic, variant, fresh, flags=2 | flags)
    out = r.out.decode('latin-1')
    res = []
    pos = out.find('> ')
    if pos < 0:
        pos = len(out)
    for k in range(len(entries)):
        m = (MARK % k) + '\n'
        i = out.find(m, pos)
        if i < 0:
            res.append(Entry('dead', out[pos:], ''))
            break
        seg = out[pos:i]
        pos = i + len(m)
        pre = '> ' + '. ' * conts[k]
        if seg.startswith(pre):
            seg = seg[len(pre):]
        if seg.endswith('> '):
            seg = seg[:-2]
        seg = WARN.sub('', seg)
        x = ERR.search(seg)
        if x is None:
            res.append(Entry('ok', seg, ''))
        else:
            kind = {'R': 'runtime', 'S': 'syntax', 'E': 'error'}[x.group(1)[0]]
            if 'pedantic' in x.group(1):
                kind = 'pedantic'
            res.append(Entry(kind, strip_err_nl(seg[:x.start()]), seg[x.start():]))
    if check and (r.crashed or r.code != 0 or any(e.kind == 'dead' for e in res)):
        k = len(res) - 1
        raise Fail('the REPL session ended at entry %d: exit %s signal %s' % (k, r.code, r.sig), 'repl-dead',
                   entry=entries[k], session=text[-3000:], tail=out[-1500:])
    return res, r


KEYWORDS = ('IF', 'CASE', 'WHILE', 'REPEAT', 'FOR', 'PROCEDURE', 'FUNCTION', 'TYPE')


def opens_block(text):
    w = re.match(r'[A-Za-z_0-9]*', text.lstrip(' \t')).group(0)
    if w not in KEYWORDS:
        return False
    return not (w == 'TYPE' and '=' in text.split('\n')[0].split('//')[0])


def lines_text(stmts):
    """Statements as text without the final line break."""
    return render(stmts)[:-1]


def V(name, *ops):
    """variable expression"""
    return ('var', (name, list(ops)))


def LVAL(name, *ops):
    return (name, list(ops))


def out(*es):
    return St('output', es=list(es))


def assign(lv, e):
    return St('assign', lv=lv if isinstance(lv, tuple) else (lv, []), e=e)


def decl(t, *names, bounds=None):
    return St('declare', names=list(names), type=t if isinstance(t, str) else t.name,
              bounds=None if bounds is None else [(L(a), L(b)) for a, b in bounds])


def L(v):
    """literal of a Python int/bool/float or tagged value"""
    if isinstance(v, bool):
        return ('bool', v)
    if isinstance(v, int):
        return ('int', v) if v >= 0 else ('neg', ('int', -v))
    raise ValueError(v)


def S(s):
    return ('str', s)


def B(op, a, b):
    return ('bin', op, a, b)


def msession(env, entries, variant='plain', interp=Interp, key='', pre=(), judge=None, end='', model_only=False, fresh=True, min_entries=1, pedantic=False):
    """A REPL session judged entry by entry against the reference interpreter.  entries: statements (St), or (St, stdin lines).
    Entries from the first open behaviour on are dropped.  -> (model, [(statement, expected kind, expected out, Entry)])"""
    m = interp(echo=True)
    both = unshare([e[0] if isinstance(e, tuple) else e for e in list(pre) + list(entries)])
    both = [(x, e[1]) if isinstance(e, tuple) else x for x, e in zip(both, list(pre) + list(entries))]
    exp, texts, sts = [], [], []
    cut = None
    for e in both:
        inp = ()
        if isinstance(e, tuple):
            e, inp = e
        text = lines_text([e])
        m.stdin, m.inpos = list(inp), 0
        n = len(m.out)
        m.steps = 0
        m.stack = [m.g]
        try:
            kind, exc = m.main([e])
        except Unspec as u:
            cut = str(u)
            break
        exp.append((kind, ''.join(m.out[n:]), exc))
        texts.append((text, inp) if inp else text)
        sts.append(e)
    m.cut = cut
    if len(exp) < len(pre) + min_entries:
        raise Skip('open: %s' % cut)
    res, r = session(env, texts, variant, pedantic, end=end, fresh=fresh)
    for k, ((kind, o, exc), en) in enumerate(zip(exp, res)):
        bad = None
        if en.kind != kind:
            bad = 'outcome of an entry differs from the reference'
        elif en.out != o and not (kind != 'ok' and en.out == strip_err_nl(o)):
            bad = 'output of an entry differs from the reference'
        elif kind == 'runtime' and not chain_ok(exc.chain, parse_chain(en.err)):
            bad = 'the traceback of an entry names other lines'
        if bad:
            raise Fail(bad, key, entry=texts[k], expected='%s%s %r' % (kind, '' if exc is None else ' (%s)' % exc, o), observed=repr(en),
                       session='\n'.join(t if isinstance(t, str) else t[0] + '\n  <<< ' + repr(t[1]) for t in texts[:k + 1]))
    env.digest = repr(texts)
    if env.sample is None:
        env.sample = dict(entries=[t if isinstance(t, str) else list(t) for t in texts[len(pre):len(pre) + 12]],
                          outcomes=[k for k, _, _ in exp[len(pre):len(pre) + 12]])
    return m, list(zip(sts, exp, res))
