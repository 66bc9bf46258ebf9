"""C12: the REPL runs programs like file mode and survives failing entries unharmed."""
import copy as _cp
import re
from common import *
from gen import Gen, lit
from files import *
from toks import *
from parse import parse_text
from catalog import CATALOG
from checks.c11 import DEFS, FAULTS, I, F, call, fn, ifst, mutate_at

VARIANTS = ['plain', 'noreadline']
RULE = ('a case is non-trivial when the session had at least two entries beyond the definitions whose outcomes were all judged and, in the streams about '
        'failing entries, at least one entry failed and at least one later entry was judged; distinct by the text of the session')
ASSUMPTIONS = ['a session is fed through standard input; every entry is followed by an OUTPUT of a marker, which separates the outputs of the entries',
               'prompts, the line break in front of a diagnostic and warnings about ignored comparisons are not OUTPUT text',
               'both ways of reading a line (readline, plain) are built and used']

HEAD = re.compile(r"(?m)^==> Running file '.*'\n")
TAIL = re.compile(r'\n?==> Program exited (successfully|with an error)\n')
BUDGET = 'budget exceeded'


class Run:
    """RUNFILE of a program"""
    k = 'run'

    def __init__(self, name, stmts, bad=None):
        self.name, self.stmts, self.bad = name, stmts, bad


class Bad:
    """an entry with a syntax error"""
    k = 'bad'

    def __init__(self, text):
        self.text = text


class Nop:
    """an entry that is no statement; out: what it may print, None for anything"""
    k = 'nop'

    def __init__(self, text, out=''):
        self.text, self.out = text, out


PAD = ['7', 'x', '-3', 'TRUE', '2.5'] * 20


class CF(FInterp):
    """An INPUT that fails may or may not have taken its line: it is given one that is a comment."""
    filler = False

    def do_input(self, s):
        p = self.inpos
        try:
            super().do_input(s)
        except RtErr:
            self.filler = self.inpos == p
            raise


def predict(entries, stdin=(), fs=None):
    """-> list of (entry, text, input lines, kind, output, exc), model.  Entries from the first open behaviour on are left out."""
    fs = {} if fs is None else fs
    m = CF(list(stdin) + PAD, echo=True, fs=fs)
    rows = []
    for e in entries:
        m.filler = False
        n, p = len(m.out), m.inpos
        if e.k == 'bad':
            rows.append((e, e.text, [], 'syntax', '', None))
            continue
        if e.k == 'nop':
            rows.append((e, e.text, [], 'nop', e.out, None))
            continue
        if e.k == 'run':
            text = e.bad if e.bad is not None else render(e.stmts)
            if e.bad is not None:
                rows.append((e, 'RUNFILE ' + e.name, [], 'syntax', '', None))
                continue
            r = CF(m.stdin, fs=fs)
            r.inpos = m.inpos
            snapshot = {k: (o.kind, o.data, list(o.recs)) for k, o in fs.items()}
            try:
                if set(m.handles) & {v for s in walk(e.stmts) for v in [getattr(s, 'f', None) and s.f[1]]}:
                    raise Unspec('a file open in two programs')
                kind, exc = r.main(e.stmts)
            except (Unspec, RecursionError) as u:
                fs.clear()
                m.cut = str(u)
                return rows, m
            m.inpos = r.inpos
            rows.append((e, 'RUNFILE ' + e.name, m.stdin[p:m.inpos] + (['// filler'] if r.filler else []), kind, r.text(), exc))
            continue
        text = lines_text([e])
        m.steps = 0
        m.stack = [m.g]
        try:
            kind, exc = m.main([e])
        except (Unspec, RecursionError) as u:
            m.cut = str(u)
            m.cut_at = len(rows)
            return rows, m
        rows.append((e, text, m.stdin[p:m.inpos] + (['// filler'] if m.filler else []), kind, ''.join(m.out[n:]), exc))
    m.cut = None
    if m.inpos >= len(m.stdin):
        raise Skip('too much input')
    return rows, m


def play(env, rows, initial=(), variant='plain', files=(), end=''):
    """runs the session -> list of Entry, Result (files: directory afterwards)"""
    def prep(s):
        s.fresh()
        for n, d in list(initial) + list(files):
            s.put(n, d)
        return s.repl('')
    env._go(variant, prep)
    res, r = session(env, [(t, inp) if inp else t for _, t, inp, _, _, _ in rows], variant, fresh=False, end=end)
    return res, r


def text_of(rows, k=None):
    return '\n'.join(r[1] + ''.join('\n  <<< ' + l for l in r[2]) for r in (rows if k is None else rows[:k + 1]))


def judge(env, rows, res, variant=''):
    for k, (row, en) in enumerate(zip(rows, res)):
        e, text, inp, kind, o, exc = row
        bad = None
        got, err = en.out, en.err
        if e.k == 'run':
            got = TAIL.sub('', HEAD.sub('', got))
            x = TAIL.search(en.out + err)
            err = TAIL.sub('', err)
            if got.endswith('\n') and not o.endswith('\n') or got == o + '\n':
                got = got[:-1] if got == o + '\n' else got
        if kind == 'nop':
            if o is not None and en.out + en.err != o:
                bad = 'an entry that is no statement printed something else'
        elif en.kind != kind:
            bad = 'outcome of an entry differs from the reference'
        elif got != o and not (kind != 'ok' and got == strip_err_nl(o)):
            bad = 'output of an entry differs from the reference'
        elif kind == 'runtime' and not chain_ok(exc.chain, parse_chain(err)):
            bad = 'the traceback of an entry names other lines'
        elif e.k == 'run' and x and (x.group(1) == 'successfully') != (kind == 'ok'):
            bad = 'RUNFILE reports another outcome'
        if bad:
            raise Fail(bad, '', entry=text if e.k != 'run' else text + '\n' + numbered(render(e.stmts) if e.bad is None else e.bad),
                       expected='%s%s %r' % (kind, '' if exc is None else ' (%s) %s' % (exc, exc.chain), o), observed=repr(en), session=text_of(rows, k), build=variant)


def finish(env, rows, tag=''):
    env.digest = tag + text_of(rows)
    if env.sample is None:
        env.sample = dict(entries=[r[1][:200] for r in rows][:16], outcomes=[r[3] for r in rows][:16], session_length=len(rows))


def variant_of(i):
    return 'noreadline' if i % 4 == 3 else 'plain'


# ------------------------------------------------------------------ building sessions
TEXTS = ['a.txt', 'b.txt']
RANDS = ['r.dat']


class Fops:
    """mostly legal file statements; the reference model decides what happens"""
    def __init__(self, src):
        self.s, self.open, self.n = src, {}, 0
        self.made = set()

    def stmts(self, g):
        s = self.s
        x = s.n(10)
        ints = [i for i in g.globals.values() if i.bounds is None and i.t is INTEGER and not i.const and not i.prot]
        if x < 3 or not self.open:
            n = s.pick(TEXTS + RANDS)
            if n in self.open:
                return [fclose(S(n))] if self.open.pop(n) else []
            m = 'RANDOM' if n in RANDS else s.pick(['WRITE', 'APPEND', 'READ'] if n in self.made else ['WRITE'])
            self.open[n] = m
            self.made.add(n)
            return [fopen(S(n), m)]
        n = s.pick(sorted(self.open))
        m = self.open[n]
        if s.chance(15):
            del self.open[n]
            return [fclose(S(n))]
        if m in ('WRITE', 'APPEND'):
            return [fwrite(S(n), s.pick([S('line %d' % s.n(100)), L(s.n(1000)), ('bool', s.chance(50)), S('')]))]
        if m == 'READ':
            v = 'rd%d' % s.n(3)
            return [ifst(('not', eof(S(n))), [fread(S(n), v), out(S('read '), V(v))], [out(S('at the end'))])]
        if not ints:
            return []
        v = s.pick(ints).name
        k = s.n(3)
        if k == 0:
            return [fput(S(n), v)]
        if k == 1:
            return [fseek(S(n), s.int(1, 3))]
        return [fget(S(n), v)]


def dump(m):
    """statements that show every global of the model's main program"""
    out_ = []

    def show(t, path, v, d=0):
        if isinstance(t, PtrT):
            if isinstance(v, Ptr) and v.cell is not None and v.cell.act.alive and isinstance(t.target, Prim) and t.target is not DATE:
                out_.append(out(S('%s^=' % path[0]), V(path[0], *(path[1] + [('^',)]))))
            return
        if isinstance(t, RecT):
            for n, ft, b in t.fields:
                x = v.f[n]
                if b is None:
                    show(ft, (path[0], path[1] + [('.', n)]), x.v, d + 1)
                else:
                    arr(x, (path[0], path[1] + [('.', n)]), d + 1)
            return
        if t is DATE and v is None:
            return
        out_.append(out(S(path[0] + '='), V(path[0], *path[1])))

    def arr(a, path, d=0):
        for idx in a.tuples()[:6]:
            show(a.t, (path[0], path[1] + [('[', [L(x) for x in idx])]), a.at(idx).v, d)
    names = set()
    for n, c in list(m.g.vars.items()):
        names.add(n)
        if n in m.g.arrs:
            continue
        show(c.t, (n, []), c.v)
    for n, a in list(m.g.arrs.items()):
        if n not in names:
            arr(a, (n, []))
    return out_


def base_program(src, errors, files=True, inputs=True, **kw):
    g = Gen(src, errors=errors, size=src.pick([6, 12, 18]), localtypes=src.chance(30), bareexpr=True, inputs=inputs, **kw)
    prog = g.program()
    if files:
        f = Fops(src)
        k = next((i for i, s in enumerate(prog) if s.k not in ('typeenum', 'typerec', 'typeptr', 'declare', 'proc', 'func')), len(prog))
        for _ in range(src.n(8)):
            at = src.int(k, len(prog))
            x = f.stmts(g)
            prog[at:at] = x
            k = at + len(x)
    return g, prog


# ------------------------------------------------------------------ parity
def parity_case(src, env, i):
    """the same statements as a file and as a session: same output, same final state, same files"""
    g, prog = base_program(src, src.pick([0, 0, 0, 3]))
    prog = unshare(prog)
    fs = {}
    rows, m = predict(prog, g.stdin, fs)
    if m.cut is not None:
        raise Skip('open: ' + m.cut)
    bad = next((k for k, r in enumerate(rows) if r[3] != 'ok'), None)
    d = unshare(dump(m))
    more, m2 = predict(prog + d, g.stdin, {})
    if m2.cut is not None:
        raise Skip('open: ' + m2.cut)
    v = variant_of(i)
    # session
    res, r = play(env, more, variant=v)
    judge(env, more, res, v)
    sfiles = s_files(env, v)
    same_files(fs, sfiles, text_of(more))
    # file: everything up to and including the first failure
    fp = prog + d if bad is None else prog[:bad + 1]
    fp = unshare(fp)
    text = render(fp)
    stdin = to_stdin(g.stdin + PAD)
    r = env.file(text, stdin, variant=v)
    o = Obs(r)
    echo = [q[0] for q in more[:len(fp)]]
    want = ''.join(e.out for e in res[:len(fp)])
    # bare expressions echo in the session only
    m3 = model(fp, g.stdin + PAD, interp=lambda x, p: FInterp(x, p, fs={}))
    if any(s.k == 'expr' for s in walk(fp)):
        want = m3.text()
    fout = WARN.sub('', o.out)
    got = fout if o.kind == 'ok' else strip_err_nl(fout)
    if (o.kind == 'ok') != (bad is None) or got != want and not (bad is not None and (got == strip_err_nl(want) or fout == want)):
        raise Fail('a program prints something else as a file than as a session', '', program=numbered(text), file=o.brief() + '\n' + o.out, session=want, stdin=stdin)
    if bad is not None and o.kind != res[bad].kind:
        raise Fail('a program fails differently as a file and as a session', '', program=numbered(text), file=o.brief(), session=repr(res[bad]))
    if bad is None and s_files(env, v) != sfiles:
        raise Fail('a program leaves other files as a file than as a session', '', program=numbered(text), file=repr(s_files(env, v)), session=repr(sfiles))
    env.nontrivial = len(rows) >= 4
    env.mark('fails at some entry' if bad is not None else 'no failure', v)
    finish(env, more)


# ------------------------------------------------------------------ failing entries
VALID = [n for n in sorted(CATALOG) if not n.startswith(('sy', 'rt'))]
SYN = ['x <- ', 'OUTPUT', 'DECLARE', 'DECLARE q :', 'x <- (1', 'x <- 1 +', 'OUTPUT 1 2', ')', 'ENDIF', 'NEXT', 'CONSTANT q = 1 + 1', 'OUTPUT "open', "c <- ''", '@', 'x == 1', 'CALL', 'OPENFILE "a.txt"',
       'OPENFILE "a.txt" FOR', 'READFILE "a.txt"', 'IF TRUE\nx <- 9', 'WHILE TRUE DO\nOUTPUT "never"', 'FOR i <- 1\nNEXT', 'PROCEDURE p(\nENDPROCEDURE', 'FUNCTION f() RETURNS\nENDFUNCTION',
       'TYPE T\nDECLARE q\nENDTYPE', 'TYPE T = (', 'CASE OF x\n1 OUTPUT 1\nENDCASE', 'REPEAT\nx <- 1', 'IF TRUE THEN\nx <- 5 +\nENDIF', 'x <- 1 @', 'TYPE T = (A, B', '1 +', 'ELSE', 'DECLARE x : ARRAY[1:2]']


def syntax_entry(src):
    if src.chance(50):
        return Bad(src.pick(SYN))
    for _ in range(6):
        toks = strs(CATALOG[src.pick(VALID)][0])
        new, what = mutate_at(src, toks, src.n(len(toks)))
        t = write(new).strip('\n')
        # one entry: some statement lines from it, without blank lines
        ls = [l for l in t.split('\n') if l.strip()]
        if not ls:
            continue
        if opens_block(ls[0]):
            e = '\n'.join(ls[:src.int(1, len(ls))])
        else:
            e = src.pick(ls)
            if opens_block(e):
                e = e + '\nOUTPUT "S"'
        if e.strip() in ('?', 'EXIT') or e.startswith('RUNFILE') or e == '':
            continue
        whole = e + '\n'
        v, bad, _ = parse_text(whole)
        if v in ('bad', 'lex'):
            return Bad(e)
    return Bad(src.pick(SYN))


LITS = [L(1), ('real', '2.5'), ('bool', True), S('text'), ('char', 'c'), ('date', 1, 2, 2020)]
ATOMIC_F = [n for n in FAULTS if FAULTS[n]().k in ('assign', 'const', 'ptrassign', 'readfile', 'writefile', 'closefile', 'seek', 'getrecord', 'putrecord', 'open') or
            FAULTS[n]().k == 'declare' and len(FAULTS[n]().names) == 1]


def atomic_entry(src, g):
    """a single call-free assignment, one-name declaration, constant definition or file statement that mostly fails"""
    infos = sorted(g.globals.values(), key=lambda x: x.name)
    k = src.n(12)
    if k < 3 and infos:
        n = src.pick(infos)
        if n.bounds is not None:
            return assign(LVAL(n.name, ('[', [L(src.int(-3, 9)) for _ in n.bounds])), src.pick(LITS)) if src.chance(70) else assign(n.name, src.pick(LITS))
        return assign(n.name, src.pick(LITS + [V('zundef'), B('DIV', L(1), L(0)), B('+', S('a'), L(1)), B('<', ('bool', True), L(1))]))
    if k == 3:
        return assign('fresh%d' % src.n(3), src.pick([V('zundef'), B('/', L(1), L(0)), B('MOD', L(5), L(0)), ('neg', S('x')), ('date', 31, 2, 2021), V('zi', F('k')), V('zp', ('^',)), ('not', L(1))]))
    if k == 4 and infos:
        n = src.pick(infos).name
        return decl(src.pick(['INTEGER', 'STRING', 'ZRec', 'ZNope']), n, bounds=None if src.chance(70) else [(1, 3)])
    if k == 5:
        n = 'fresh%d' % src.n(3)
        return src.pick([decl('ZNope', n), decl('INTEGER', n, bounds=[(5, 2)]), St('declare', names=[n], type='INTEGER', bounds=[(L(1), V('zundef'))]),
                         St('declare', names=[n], type='ZNope', bounds=[(L(1), L(3))]), St('declare', names=[n], type='ZRec', bounds=[(L(1), S('x'))]), decl('STRING', n)])
    if k == 6 and infos:
        return St('const', name=src.pick(infos).name, eq=src.pick(['=', '<-']), e=src.pick(LITS[:5]))
    if k == 7:
        f = S(src.pick(TEXTS + RANDS + ['none.txt', 'keep.txt']))
        return src.pick([fopen(f, src.pick(['READ', 'WRITE', 'APPEND', 'RANDOM'])) if f[1] in TEXTS and src.chance(20) else fopen(S('none.txt'), src.pick(['READ', 'APPEND'])), fclose(f), fwrite(f, L(5)), fread(f, 'zs'),
                         fread(f, 'zi'), fseek(f, src.int(0, 5)), fget(f, 'zr'), fput(f, 'zundef'), fwrite(f, V('zundef')), fread(f, 'fresh0'), fseek(f, S('x')), fopen(f, 'READ') if f[1] == 'keep.txt' else fclose(L(5)),
                         fopen(('int', 5), 'WRITE'), fget(f, 'za'), fput(f, 'zp')])
    return FAULTS[src.pick(ATOMIC_F)]()


def failing_entry(src, g):
    """any entry that mostly fails at run time"""
    k = src.n(6)
    if k < 2:
        f = FAULTS[src.pick(list(FAULTS))]()
        return f
    body = [out(S('begun')), FAULTS[src.pick(list(FAULTS))](), out(S('not reached'))]
    body = [x for b in body for x in (b.body if b.k == 'seq' else [b])]
    if any(x.k in ('break', 'continue') for x in body):
        return FAULTS['DIV 0']()
    body = [x for x in body if x.k not in ('declare', 'const')] if k != 5 else body
    if k == 2:
        return ifst(('bool', True), body)
    if k == 3:
        return St('for', name='zi', a=L(1), b=L(3), step=None, body=body, nextname=src.chance(50))
    if k == 4:
        return St('while', c=('bool', True), body=body)
    n = 'Zf%d' % src.n(10 ** 6)
    return [St('proc', name=n, params=[], rtype=None, body=body, parens=True), St('call', name=n, args=[], parens=True), St('call', name=n, args=[], parens=True)]


def runfile_entry(src, n):
    if src.chance(25):
        e = syntax_entry(src)
        body = 'OUTPUT "not run"\n' + e.text + '\n'
        v, bad, _ = parse_text(body)
        if v in ('bad', 'lex'):
            return Run('prog%d.psc' % n, None, body)
    g = Gen(src, errors=src.pick([0, 4]), size=src.pick([4, 8]), inputs=True)
    prog = g.program()
    if src.chance(50):
        f = 'run%d.txt' % src.n(2)
        prog += [fopen(S(f), src.pick(['WRITE', 'APPEND', 'WRITE'])), fwrite(S(f), S('from %d' % n))]
        if src.chance(30):
            prog.append(FAULTS['DIV 0']())
        if src.chance(50):
            prog.append(fclose(S(f)))
    if src.chance(40):
        # names of the session do not exist in the program and the other way round
        prog.append(out(V('zi')))
    return Run('prog%d.psc' % n, unshare(prog)), g.stdin


KEEP = [('keep.txt', b'one\ntwo\n')]


def mixed_case(src, env, i):
    """a base session with failing entries of every kind and RUNFILE in between, all judged by the reference model"""
    g, prog = base_program(src, src.pick([0, 3]), inputs=src.chance(50))
    entries = [_cp.deepcopy(x) for x in DEFS] + prog
    stdin = list(g.stdin)
    files = []
    lo = len(DEFS)
    nfail = 0
    for n in range(src.int(2, 10)):
        at = src.int(lo, len(entries))
        k = src.n(10)
        if k < 3:
            x = [atomic_entry(src, g)]
        elif k < 6:
            x = failing_entry(src, g)
            x = x if isinstance(x, list) else [x]
        elif k < 8:
            x = [syntax_entry(src)]
        else:
            x = runfile_entry(src, n)
            if isinstance(x, tuple):
                stdin += x[1]
                x = x[0]
            x = [x]
            files.append((x[0].name, (render(x[0].stmts) if x[0].bad is None else x[0].bad).encode('latin-1')))
        # constants, types and procedures are used by later entries
        y = []
        for q in x:
            y += q.body if q.k == 'seq' else [q]
        entries[at:at] = y
    entries = [e if isinstance(e, (Run, Bad, Nop)) else _cp.deepcopy(e) for e in entries]
    fs = {'keep.txt': FObj('text', 'one\ntwo\n')}
    rows, m = predict(entries, stdin, fs)
    if len(rows) < lo + 3:
        raise Skip('open: %s' % m.cut)
    if m.cut is None:
        more = unshare(dump(m))
        fs = {'keep.txt': FObj('text', 'one\ntwo\n')}
        rows, m = predict(entries + more, stdin, fs)
    v = variant_of(i)
    res, r = play(env, rows, KEEP, v, files)
    judge(env, rows, res, v)
    if m.cut is None:
        same_files(fs, s_files(env, v), text_of(rows), ignore=[n for n, _ in files])
    fails = [k for k, q in enumerate(rows) if q[3] != 'ok']
    env.nontrivial = bool(fails) and fails[0] < len(rows) - 1
    env.mark('failing entries %s' % min(8, len(fails)), v)
    for k in fails:
        e = rows[k][0]
        env.mark('failing ' + (e.k if e.k != 'run' else 'RUNFILE ' + rows[k][3]))
    env.mark(*['RUNFILE ok' for q in rows if q[0].k == 'run' and q[3] == 'ok'])
    finish(env, rows)


# ------------------------------------------------------------------ a failing atomic entry is as if it had never been made (no model)
def has_any_call(e):
    if isinstance(e, tuple):
        return bool(e) and e[0] in ('call', 'fn2') or any(has_any_call(x) for x in e)
    return isinstance(e, list) and any(has_any_call(x) for x in e)


def atomic(e):
    if isinstance(e, Bad):
        return True
    if not isinstance(e, St) or e.k not in ('assign', 'declare', 'const', 'open', 'closefile', 'readfile', 'writefile', 'seek', 'getrecord', 'putrecord'):
        return False
    if e.k == 'declare' and len(e.names) != 1:
        return False
    return not any(has_any_call(v) for k, v in e.__dict__.items() if k not in ('line', 'sub'))


def atomic_case(src, env, i):
    g, prog = base_program(src, src.pick([3, 6]), inputs=False)
    entries = [_cp.deepcopy(x) for x in DEFS] + prog
    lo = len(DEFS)
    # later entries that show whether a failing one left something behind
    for n in range(src.int(3, 14)):
        at = src.int(lo, len(entries))
        x = atomic_entry(src, g) if src.chance(75) else syntax_entry(src)
        y = x.body if x.k == 'seq' else [x]
        entries[at:at] = y
    for n in range(3):
        f = 'fresh%d' % n
        entries += src.pick([[out(V(f))], [decl('REAL', f), out(V(f))], [assign(f, S('now')), out(V(f))], [decl('INTEGER', f, bounds=[(1, 2)]), out(V(f, I(2)))], [St('const', name=f, eq='=', e=L(3)), out(V(f))]])
    for x in sorted(g.globals.values(), key=lambda x: x.name):
        if x.bounds is None and isinstance(x.t, (Prim, EnumT)) and x.t is not DATE:
            entries.append(out(S(x.name), V(x.name)))
        elif x.bounds is not None and isinstance(x.t, (Prim, EnumT)) and x.t is not DATE:
            entries.append(out(V(x.name, ('[', [lit(b[0]) for b in x.bounds]))))
    for n in TEXTS + RANDS + ['keep.txt']:
        entries += [fwrite(S(n), S('end')), fread(S(n), 'rdz'), out(V('rdz'))] if n not in RANDS else [fseek(S(n), 2), fget(S(n), 'zi'), out(V('zi'))]
    entries = [_cp.deepcopy(e) if isinstance(e, St) else e for e in entries]
    number = [(e, lines_text([e]) if isinstance(e, St) else e.text, [], '', '', None) for e in entries]
    v = variant_of(i)
    res, r = play(env, number, KEEP, v)
    if any(BUDGET in e.err for e in res):
        raise Skip('budget')
    fa = s_files(env, v)
    gone = {k for k, e in enumerate(res) if e.kind != 'ok' and atomic(entries[k])}
    for k in gone:
        if res[k].out.strip('\n'):
            raise Fail('a failing entry printed something', '', entry=number[k][1], observed=repr(res[k]))
    keep = [q for k, q in enumerate(number) if k not in gone]
    res2, r2 = play(env, keep, KEEP, v)
    if any(BUDGET in e.err for e in res2):
        raise Skip('budget')
    left = [k for k in range(len(number)) if k not in gone]
    for k, b in zip(left, res2):
        a = res[k]
        if a.kind != b.kind or a.out != b.out or a.err != b.err:
            raise Fail('the rest of the session does not behave as if the failing entries had never been made', '', entry=number[k][1], with_them=repr(a), without_them=repr(b),
                       session=text_of(number, k), failing='\n'.join(number[x][1] for x in sorted(gone) if x < k))
    fb = s_files(env, v)
    if fa != fb:
        raise Fail('files differ from those of the session without the failing entries', '', with_them=repr(fa), without_them=repr(fb), session=text_of(number), failing='\n'.join(number[x][1] for x in sorted(gone)))
    env.nontrivial = bool(gone) and min(gone) < max(left)
    for k in gone:
        env.mark('removed ' + entries[k].k)
    finish(env, number)


# ------------------------------------------------------------------ all short histories over a small alphabet
PRE = [decl('INTEGER', 'x'), decl('STRING', 's'), decl('INTEGER', 'a', bounds=[(1, 2)]), St('const', name='k', eq='=', e=L(3)), assign('x', L(1)), St('typerec', name='R', body=[decl('INTEGER', 'f')]), decl('R', 'r'),
       St('proc', name='p', params=[('n', 'INTEGER', 'BYREF')], rtype=None, body=[assign('n', B('+', V('n'), L(1))), ifst(B('>', V('n'), L(3)), [out(B('DIV', V('n'), L(0)))]), out(S('p '), V('n'))], parens=True),
       St('typeenum', name='E', names=['EA', 'EB'])]
ALPHA = {
    'set': lambda: assign('x', B('+', V('x'), L(1))), 'set s': lambda: assign('s', B('&', V('s'), S('z'))), 'el': lambda: assign(LVAL('a', I(2)), V('x')), 'new': lambda: assign('v', V('x')),
    'call': lambda: call('p', V('x')), 'call el': lambda: call('p', V('a', I(V('x')))), 'field': lambda: assign(LVAL('r', F('f')), V('x')), 'declare v': lambda: decl('STRING', 'v'),
    'bad set': lambda: assign('x', S('no')), 'bad new': lambda: assign('v', V('undef')), 'bad el': lambda: assign(LVAL('a', I(5)), L(7)), 'bad const': lambda: assign('k', L(4)), 'bad decl': lambda: decl('INTEGER', 'x'),
    'const x': lambda: St('const', name='x', eq='=', e=L(9)), 'const v': lambda: St('const', name='v', eq='=', e=L(9)), 'bad type': lambda: decl('NoType', 'v'), 'array v': lambda: decl('INTEGER', 'v', bounds=[(2, 1)]),
    'loop': lambda: St('for', name='x', a=L(1), b=L(5), step=None, nextname=True, body=[call('p', V('a', I(1)))]), 'stray': lambda: St('break'), 'syn': lambda: Bad('x <- 8 +'), 'syn block': lambda: Bad('IF TRUE THEN\nx <- 8\nv <- 8 +\nENDIF'),
    'fun': lambda: St('func', name='g', params=[('n', 'INTEGER', None)], rtype='INTEGER', body=[ifst(B('>', V('n'), L(2)), [St('return', e=S('bad'))]), St('return', e=B('*', V('n'), L(2)))], parens=True),
    'use fun': lambda: assign('x', fn('g', V('x'))), 'echo': lambda: St('expr', e=B('+', V('x'), L(1))), 'echo v': lambda: St('expr', e=V('v')), 'type': lambda: St('typeenum', name='E', names=['EC']),
    'open w': lambda: fopen(S('f.txt'), 'WRITE'), 'open r': lambda: fopen(S('f.txt'), 'READ'), 'write': lambda: fwrite(S('f.txt'), V('x')), 'close': lambda: fclose(S('f.txt')), 'read': lambda: fread(S('f.txt'), 's'),
    'run ok': lambda: Run('ok.psc', [assign('x', L(77)), out(S('run '), V('x'))]), 'run bad': lambda: Run('bad.psc', [assign('x', L(88)), out(V('a'))]), 'run syn': lambda: Run('syn.psc', None, 'OUTPUT 1\nx <- \n'),
    'two names': lambda: decl('INTEGER', 'v', 'x'), 'sub': lambda: ifst(B('=', V('x'), L(2)), [assign('v', L(5)), out(V('undef2'))], [out(S('else'))]),
}
AN = list(ALPHA)
SMALL = ['set', 'new', 'call', 'declare v', 'bad set', 'bad new', 'bad el', 'bad decl', 'const v', 'loop', 'stray', 'syn block', 'fun', 'use fun', 'open w', 'open r', 'write', 'read', 'run bad', 'two names', 'sub', 'echo v']
PACK = 24


def hist_files():
    r = []
    for k in ('run ok', 'run bad', 'run syn'):
        e = ALPHA[k]()
        r.append((e.name, (render(unshare(e.stmts)) if e.bad is None else e.bad).encode()))
    return r


HF = hist_files()


def one_history(env, names, v='plain'):
    entries = [_cp.deepcopy(x) for x in PRE] + [ALPHA[n]() for n in names]
    for e in entries:
        if isinstance(e, Run) and e.stmts:
            e.stmts = unshare(e.stmts)
    probes = [St('expr', e=V('x')), St('expr', e=V('s')), out(V('a', I(1)), S(' '), V('a', I(2)), S(' '), V('k')), St('expr', e=V('r', F('f'))), St('expr', e=V('v')), assign('v', S('probe')), St('expr', e=V('EB')),
              call('p', V('a', I(1))), fwrite(S('f.txt'), S('p')), St('expr', e=L(5))]
    fs = {}
    rows, m = predict(entries + unshare(probes), (), fs)
    if len(rows) <= len(PRE):
        raise Skip('open: ' + m.cut)
    res, r = play(env, rows, variant=v, files=HF)
    judge(env, rows, res, v)
    if m.cut is None:
        same_files(fs, s_files(env, v), text_of(rows), ignore=[n for n, _ in HF])
    return rows, m


def exhaustive(names, depth):
    def case(src, env, i):
        k = 0
        for j in range(PACK):
            n = i * PACK + j
            if n >= len(names) ** depth:
                break
            h = []
            for _ in range(depth):
                h.append(names[n % len(names)])
                n //= len(names)
            try:
                rows, m = one_history(env, h)
            except Skip:
                env.mark('history beyond the specified language')
                continue
            k += any(r[3] != 'ok' for r in rows[len(PRE):len(PRE) + depth])
            env.mark(*['outcome ' + r[3] for r in rows[len(PRE):len(PRE) + depth]])
            env.sample = dict(history=h, outcomes=[r[3] for r in rows[len(PRE):]])
        env.nontrivial = k > 0
        env.digest = '%d %d' % (depth, i)
    return case


def count(n, d):
    return -(-n ** d // PACK)


def histories_case(src, env, i):
    h = [src.pick(AN) for _ in range(src.int(4, 30) if i % 50 != 49 else src.pick([64, 100, 130, 260, 520]))]
    rows, m = one_history(env, h, variant_of(i))
    n = sum(r[3] != 'ok' for r in rows[len(PRE):])
    env.nontrivial = n > 0 and len(rows) > len(PRE) + 2
    env.mark('failing %d' % min(n, 12), *{'outcome ' + r[3] for r in rows[len(PRE):]})
    finish(env, rows)


# ------------------------------------------------------------------ what is an entry
WORDS = ['IFx', 'CASEs', 'WHILE1', 'FORx', 'FORmat', 'REPEATs', 'TYPEs', 'PROCEDUREs', 'FUNCTION_', 'EXITs', 'EXIT1', 'RUNFILEs', 'RUNFILE_x', 'iF', 'For', 'type', 'exit', 'runfile', 'Exit']


def words_case(src, env, i):
    """variables whose names begin like commands and constructs, help, blank and white space entries, layout of entries, EXIT"""
    entries, used = [], []
    for _ in range(src.int(3, 12)):
        k = src.n(12)
        if k < 4:
            w = src.pick(WORDS)
            used.append(w)
            entries.append(St('assign', lv=(w, []), e=L(src.n(50))))
        elif k == 4 and used:
            entries.append(St('expr', e=V(src.pick(used))))
        elif k == 5:
            entries.append(Nop(src.pick(['', ' ', '\t', '  // comment only', '// IF TRUE THEN', '//', '   \t '])))
        elif k == 6:
            entries.append(Nop('?', None))
        elif k == 7:
            w = 'En%d' % len(entries)
            entries.append(St('typeenum', name=w, names=[w + 'a', w + 'b']))
            entries.append(out(V(w + 'b')))
        elif k == 8:
            w = 'Re%d' % len(entries)
            entries.append(St('typerec', name=w, body=[decl('INTEGER', 'f'), decl('STRING', 'g')]))
            entries.append(decl(w, w + 'v'))
            entries.append(out(V(w + 'v', F('f')), V(w + 'v', F('g'))))
        elif k == 9:
            entries.append(St('for', name='q', a=L(1), b=L(2), step=None, body=[ifst(B('=', V('q'), L(1)), [out(S('one'))], [out(S('two'))])], nextname=False))
        elif k == 10:
            entries.append(Nop('RUNFILE missing.psc', None))
        else:
            entries.append(out(S('plain')))
    entries = [_cp.deepcopy(e) if isinstance(e, St) else e for e in entries]
    rows, m = predict(entries)
    rows = [list(r) for r in rows]
    for r in rows:
        if not isinstance(r[0], St):
            continue
        ls = r[1].split('\n')
        if src.chance(30):
            ls[0] = src.pick([' ', '\t', '   ']) + ls[0]
        if src.chance(30):
            ls[0] = ls[0] + src.pick([' ', ' // comment', '\t// a = b', ' // TYPE', '  //'])
        if src.chance(20) and len(ls) > 1:
            ls.insert(1, src.pick([' ', '\t', '    // comment', '//']))
        r[1] = '\n'.join(ls)
    ends = src.n(4)
    end = ['', 'EXIT\nOUTPUT "after EXIT"\n', 'IF TRUE THEN\nOUTPUT "never closed"\n', 'OUTPUT "last"'][ends]
    v = variant_of(i)
    res, r = play(env, rows, variant=v, end=end)
    judge(env, rows, res, v)
    text = r.out.decode('latin-1')
    rest = text[text.rfind('~%d~' % (len(rows) - 1)):]
    if ends == 1 and 'after EXIT' in rest:
        raise Fail('an entry after EXIT was run', '', session=text_of(rows), tail=rest)
    if ends == 2 and 'never closed' in rest:
        raise Fail('a construct that was not closed was run', '', session=text_of(rows), tail=rest)
    # whether a last line without line break is an entry is left open
    env.nontrivial = len(rows) >= 3
    env.mark(['end of input', 'EXIT', 'open construct at the end', 'last line without line break'][ends], v)
    finish(env, rows, str(ends))


# ------------------------------------------------------------------ echo
def echo_case(src, env, i):
    """bare expressions echo their value"""
    g = Gen(src, errors=0, size=4, minprocs=2, inputs=False)
    prog = g.program()
    entries = list(prog)
    n0 = len(entries)
    for _ in range(src.int(4, 14)):
        t = src.pick([INTEGER, REAL, BOOLEAN, CHAR, STRING, DATE] + g.enums + g.recs)
        if isinstance(t, RecT):
            p = g.place(t)
            if not p:
                continue
            e = ('var', p)
        elif t is DATE:
            e = g.datex(1)
        elif t is REAL and src.chance(50):
            # any magnitude, whole and not
            e = ('real', '%s%s.%s' % (src.pick('123456789'), ''.join(src.pick('0000123456789') for _ in range(src.n(14))), src.pick(['0', '5', '25', '000001'])))
            for _ in range(src.n(4)):
                e = B(src.pick(['*', '*', '/', '-']), e, ('real', src.pick(['10000000000.0', '4.0', '0.5', '1000000.0', '3.0', '1125899906842624.0'])))
        elif t is STRING and src.chance(30):
            # values longer than a line of the terminal
            n = src.pick([17, 40, 79, 80, 81, 127, 128, 129, 255, 256, 257, 1000, 1023, 1025, 4096, 5000])
            w = src.pick(['x', 'ab', 'two words ', 'it"s', '\\', '0123456789', '\n', '\t', "'"])
            e = S((w * n)[:n])
            if src.chance(30):
                e = B('&', e, S('end'))
        else:
            e = g.expr(t, src.pick([0, 1, 2, 3]))
        if e[0] == 'bin' and e[1] == '=' or e[0] == 'not' or e[0] == 'neg':
            e = ('paren', e)
        k = src.n(8)
        st = St('expr', e=e)
        if k == 0:
            st = ifst(('bool', True), [st])
        if k == 1:
            st = St('for', name='zz9', a=L(1), b=L(2), step=None, body=[st], nextname=False)
        entries.append(st)
    entries = unshare(entries)
    rows, m = predict(entries)
    if len(rows) < n0 + 2:
        raise Skip('open: %s' % m.cut)
    v = variant_of(i)
    res, r = play(env, rows, variant=v)
    judge(env, rows, res, v)
    env.nontrivial = True
    for q in rows[n0:]:
        env.mark(q[3])
    env.sample = dict(echoes=[[q[1][:120], q[4][:80]] for q in rows[n0:]])
    finish(env, rows)


STREAMS = [
    Stream('parity', parity_case, 2400, 30000),
    Stream('mixed', mixed_case, 2400, 40000),
    Stream('atomic', atomic_case, 2000, 30000),
    Stream('depth2', exhaustive(AN, 2), count(len(AN), 2), count(len(AN), 2), exhaustive=True),
    Stream('depth3', exhaustive(SMALL, 3), count(len(SMALL), 3), count(len(SMALL), 3), exhaustive=True),
    Stream('histories', histories_case, 1500, 30000),
    Stream('words', words_case, 800, 15000),
    Stream('echo', echo_case, 900, 15000),
]
