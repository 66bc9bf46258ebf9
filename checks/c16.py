"""C16: file statements obey the handle state machine and never lose data silently."""
import os
from vals import *

VARIANTS = ['plain']
RULE = ('a case is non-trivial when at least one file statement succeeded and at least one was refused (histories), or when an operation the system rejects was '
        'attempted and its report judged (faults, limits), or when data written to an open handle was found after the end of the run (exits); distinct by program text')
ASSUMPTIONS = ['READFILE past the end, text files opened FOR RANDOM, random files with records opened as text, and one file open under two names unless both are READ handles are left open',
               'what a failed CLOSEFILE leaves of the handle is left open',
               'the interpreter runs as an unprivileged user in a private directory; system limits are set with setrlimit (file size 4096 bytes, 24 descriptors)']
MODES = ['READ', 'WRITE', 'APPEND', 'RANDOM']
OPS = MODES + ['close', 'read', 'eof', 'write', 'seek', 'get', 'put']


def step(st, op):
    """small state machine used to enumerate histories.  state: (kind, count, mode, pos); -> state, 'bad' (illegal, no effect) or None (left open)"""
    kind, n, mode, pos = st
    if op in MODES:
        if mode is not None:
            return 'bad'
        if kind == 'none':
            if op in ('READ', 'APPEND'):
                return 'bad'
            kind, n = 'empty', 0
        if op == 'WRITE':
            return 'empty', 0, op, 0
        if kind == 'text' and op == 'RANDOM' or kind == 'rand' and op != 'RANDOM':
            return None
        return kind, n, op, 0
    if mode is None:
        return 'bad'
    if op == 'close':
        return kind, n, None, 0
    if op == 'read':
        if mode != 'READ':
            return 'bad'
        return None if pos >= n else (kind, n, mode, pos + 1)
    if op == 'eof':
        return st if mode == 'READ' else 'bad'
    if op == 'write':
        return ('text', n + 1, mode, 0) if mode in ('WRITE', 'APPEND') else 'bad'
    if mode != 'RANDOM':
        return 'bad'
    if op == 'seek':
        return kind, n, mode, min(1, n)        # SEEK f, min(2, n+1): the address is chosen by the state
    if op == 'get':
        return st if pos < n else 'bad'
    return 'rand', max(n, pos + 1), mode, pos


STARTS = [('none', 0), ('empty', 0), ('text', 2), ('rand', 1)]


def histories(depth):
    """every history of exactly that depth from every start, without those that reach behaviour left open"""
    res = []

    def go(start, st, h):
        if len(h) == depth:
            res.append((start, tuple(h)))
            return
        for op in OPS:
            x = step(st, op)
            if x is None:
                continue
            h.append(op)
            go(start, st if x == 'bad' else x, h)
            h.pop()
    for s in range(4):
        go(s, STARTS[s] + (None, 0), [])
    return res


PER = 60
_H = {}


def hs(tier):
    if tier not in _H:
        _H[tier] = histories(4 if tier == 'quick' else 5)
    return _H[tier]


def ops_of(f, h, st, c):
    r = []
    for op in h:
        x = step(st, op)
        if op in MODES:
            r.append(fopen(f, op))
        elif op == 'close':
            r.append(fclose(f))
        elif op == 'read':
            r += [fread(f, 's'), out(V('s'))]
        elif op == 'eof':
            r.append(out(eof(f)))
        elif op == 'write':
            c[0] += 1
            r.append(fwrite(f, B('&', S('w'), S(str(c[0])))))
        elif op == 'seek':
            r.append(fseek(f, min(2, st[1] + 1) if st[2] == 'RANDOM' else 1))
        elif op == 'get':
            r += [fget(f, 'y'), out(V('y'))]
        else:
            c[0] += 1
            r += [assign('x', L(c[0])), fput(f, 'x')]
        if x is not None and x != 'bad':
            st = x
    return r


PRE = [decl(INTEGER, 'x', 'y'), decl(STRING, 's')]


def begin(env, files, fs, rand=()):
    """initial files; random files are written by a first run"""
    s = env.server('plain')
    s.fresh()
    for n, d in files:
        s.put(n, d.encode('latin-1'))
        fs[n] = FObj('text', d)
    if rand:
        p = list(PRE)
        for n in rand:
            p += [fopen(S(n), 'RANDOM'), assign('x', L(7)), fput(S(n), 'x'), fclose(S(n))]
        m = model(p, (), interp=lambda i, ped: FInterp(i, ped, fs=fs))
        r = env.file(render(unshare(p)), fresh=False)
        if r.code != 0 or m.kind != 'ok':
            raise Fail('random files cannot be written', '', program=render(p), observed=repr(r))


def ended(env, fs, digest):
    same_files(fs, s_files(env, 'plain'), digest)
    rand = [(n, o) for n, o in sorted(fs.items()) if o.kind == 'rand' and o.recs]
    if rand:
        entries = []
        for n, o in rand:
            entries += [fopen(S(n), 'RANDOM')]
            for k in range(len(o.recs)):
                entries += [fseek(S(n), k + 1), fget(S(n), 'y'), out(V('y'))]
            entries += [fseek(S(n), len(o.recs) + 2), fclose(S(n))]
        msession(env, entries, pre=PRE, interp=lambda echo: FInterp(echo=echo, fs=fs), fresh=False)


def states_case(src, env, i):
    """REPL sessions: a refused statement leaves every handle and file as it was, whatever follows"""
    chunk = hs(env.tier)[i * PER:(i + 1) * PER]
    files, rand, entries = [], [], []
    c = [0]
    for j, (s, h) in enumerate(chunk):
        n = 'f%d' % j
        if s in (1, 2):
            files.append((n, '' if s == 1 else 'l1\nl2\n'))
        elif s == 3:
            rand.append(n)
        entries += ops_of(S(n), h, STARTS[s] + (None, 0), c)
    fs = {}
    begin(env, files, fs, rand)
    m, rows = msession(env, entries, pre=PRE, interp=lambda echo: FInterp(echo=echo, fs=fs), fresh=False)
    if m.cut:
        raise Skip('open: ' + m.cut)
    d = env.digest
    ended(env, fs, 'states %d: %s' % (i, [h for s, h in chunk]))
    env.digest = d
    bad = sum(r[1][0] != 'ok' for r in rows)
    env.nontrivial = 0 < bad < len(rows)
    env.sample = dict(histories=[[STARTS[s][0], ' '.join(h)] for s, h in chunk[:12]])
    env.mark('histories of depth %d' % len(chunk[0][1]))


def filemode_case(src, env, i):
    """the same in file mode, where the first refused statement ends the run: one history of depth 3 per program"""
    h3 = _H.setdefault('d3', histories(3))
    s, h = h3[i]
    fs = {}
    begin(env, [('f', '' if s == 1 else 'l1\nl2\n')] if s in (1, 2) else [], fs, ['f'] if s == 3 else [])
    p = unshare(PRE + ops_of(S('f'), h, STARTS[s] + (None, 0), [0]))
    text = render(p)
    m = model(p, (), interp=lambda i, ped: FInterp(i, ped, fs=fs))
    r = env.file(text, fresh=False)
    compare(m, Obs(r), text)
    ended(env, fs, text)
    env.digest = STARTS[s][0] + text
    env.sample = dict(start=STARTS[s][0], history=' '.join(h), outcome=m.kind)
    env.nontrivial = len(m.cov) > 0
    env.mark(m.kind)


# ------------------------------------------------------------------ long histories over several files
def long_case(src, env, i):
    names = ['a', 'b.txt', 'c d.dat', 'E'][:src.int(1, 4)]
    nops = 40
    if src.n(8) == 7:
        # many files open at once
        names = ['f%d' % k for k in range(src.pick([8, 9, 10, 16, 17, 20]))]
        nops = 130
    st = {}
    files, rand = [], []
    for n in names:
        k = src.pick([0, 1, 2, 3])
        st[n] = STARTS[k] + (None, 0)
        if k in (1, 2):
            files.append((n, '' if k == 1 else 'l1\nl2\n'))
        if k == 3:
            rand.append(n)
    fs = {}
    begin(env, files, fs, rand)
    legal = src.pick([30, 60, 85])
    digest = ''
    nbad = 0
    c = [0]
    nseg = src.weighted([(50, 1), (35, 2), (15, 3)])
    for seg in range(nseg):
        entries = []
        filemode = src.chance(30)
        for _ in range(nops // nseg):
            n = src.pick(names)
            op = src.pick(OPS)
            x = step(st[n], op)
            if x is None:
                continue
            if x == 'bad' and (src.chance(legal) or filemode and src.chance(80)):
                # some legal one instead
                good = [o for o in OPS if step(st[n], o) not in (None, 'bad')]
                op = src.pick(good)
                x = step(st[n], op)
            body = ops_of(S(n), [op], st[n], c)
            entries += body
            if x == 'bad':
                nbad += 1
                if filemode:
                    break
            else:
                st[n] = x
        if filemode:
            p = unshare(PRE + entries)
            text = render(p)
            m = model(p, (), interp=lambda i, ped: FInterp(i, ped, fs=fs))
            r = env.file(text, fresh=False)
            compare(m, Obs(r), digest[-3000:] + text)
            digest += text + '=== next run\n'
        elif entries:
            m, rows = msession(env, entries, pre=PRE, interp=lambda echo: FInterp(echo=echo, fs=fs), fresh=False)
            if m.cut:
                raise Skip('open: ' + m.cut)
            digest += env.digest + '=== next run\n'
        ended(env, fs, digest)
        for n in names:
            st[n] = st[n][:2] + (None, 0)
    env.digest = repr(files) + repr(rand) + digest
    env.nontrivial = nbad > 0
    env.mark('files %d' % len(names), 'runs %d' % nseg, 'refused %d' % min(20, nbad))


# ------------------------------------------------------------------ names that are nearly the same, and several names of one file
LONG_ = 'n' * 200
NAMES = ['a', 'A', 'aa', 'a ', ' a', 'a.', '.a', 'a.t', 'a.txt', 'A.txt', 'a.txt.bak', 'd/a', 'd/a.txt', 'd/A', LONG_, LONG_ + '1', LONG_ + '2', 'a;b', 'a b', 'a*', '%41', '-a', "a'b", 'file', 'File', '0', '00']
SPELLINGS = ['./%s', 'd/../%s', './/%s', 'd/.././%s']


def family(src):
    """names made from one: its beginnings, extensions, and neighbours that differ in one place"""
    n = src.int(1, 12) if src.chance(70) else src.pick([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 200])
    root = ''.join(src.pick('abcxyzAB019_-') for _ in range(n))
    out = {root}
    for _ in range(src.int(1, 4)):
        j, k = src.n(n), src.n(6)
        out.add(root[:src.pick([1, 2, 4, 8, 16, 32, 64, j + 1, j + 1])] if k == 0 else root + src.pick(['.txt', '0', 'a', ' ', '.', 'bak']) if k == 1 else root[:j] + src.pick('qw.7') + root[j + 1:] if k == 2 else root.swapcase() if k == 3
                else root[j:] if k == 4 else src.pick('pr') + root)
    return sorted(x for x in out if x.strip('.') and x.strip())


class Named(dict):
    """files by the path that a name denotes"""
    def __getitem__(self, n):
        return dict.__getitem__(self, os.path.normpath(n))

    def get(self, n, d=None):
        return dict.get(self, os.path.normpath(n), d)

    def __setitem__(self, n, v):
        dict.__setitem__(self, os.path.normpath(n), v)

    def __contains__(self, n):
        return dict.__contains__(self, os.path.normpath(n))


def names_case(src, env, i):
    """every distinct name has its own handle, whatever the name looks like"""
    k = NAMES.index(src.pick(NAMES))
    base = sorted({k, (k + 1) % len(NAMES)} | {src.n(len(NAMES)) for _ in range(src.n(4))})
    base = family(src) if src.chance(50) else [NAMES[j] for j in base]
    names = {n: n for n in base}                     # name -> the file
    for _ in range(src.weighted([(3, 0), (3, 1), (2, 2)])):
        n = src.pick(base)
        names[src.pick(SPELLINGS) % n] = n
    fs = Named()
    server = env.server('plain')
    server.fresh()
    os.makedirs(os.path.join(server.cwd, 'd'), exist_ok=True)
    os.chmod(os.path.join(server.cwd, 'd'), 0o777)
    kind = {}
    for n in base:
        j = src.weighted([(2, 0), (1, 1), (3, 2)])
        kind[n] = STARTS[j]
        if j:
            d = '' if j == 1 else 'l1 of %s\nl2\n' % n[-3:]
            server.put(n, d.encode())
            fs[n] = FObj('text', d)
    entries, h, c = [], {}, [0]
    nbad = both = 0
    filemode = src.chance(30)
    for _ in range(src.int(6, 30)):
        n = src.pick(sorted(names))
        f = names[n]
        st = kind[f] + h.get(n, (None, 0))
        op = src.pick(['READ'] * 4 + OPS)
        x = step(st, op)
        if x is None:
            continue
        others = [m for m in h if m != n and names[m] == f and h[m][0]]
        if others and x != 'bad':
            # several handles of one file: judged when all of them only read
            if op in MODES and (op != 'READ' or any(h[m][0] != 'READ' for m in others)):
                continue
            both += 1
        if x == 'bad' and src.chance(85 if filemode else 40):
            continue
        entries += ops_of(S(n), [op], st, c)
        if x == 'bad':
            nbad += 1
            if filemode:
                break
        else:
            kind[f] = x[:2]
            h[n] = x[2:]
    if not entries:
        raise Skip('nothing to do')
    if filemode:
        p = unshare(PRE + entries)
        text = render(p)
        m = model(p, (), interp=lambda i, ped: FInterp(i, ped, fs=fs))
        r = env.file(text, fresh=False)
        compare(m, Obs(r), text)
        digest = text
    else:
        m, rows = msession(env, entries, pre=PRE, interp=lambda echo: FInterp(echo=echo, fs=fs), fresh=False)
        if m.cut:
            raise Skip('open: ' + m.cut)
        digest = env.digest
    same_files(fs, s_files(env, 'plain'), digest)
    env.digest = digest
    env.nontrivial = nbad > 0 or both > 0
    env.mark('names %d' % len(names), 'refused %d' % min(10, nbad), *['two handles of one file'] * (both > 0))


# ------------------------------------------------------------------ file statements whose names, lines and positions are calls that use the files themselves
def nested_case(src, env, i):
    names = ['a', 'b.txt', 'c'][:src.int(1, 3)]
    files = [(n, 'l1\nl2\nl3\n') for n in names if src.chance(40)]
    fs = {}
    begin(env, files, fs, [n for n in names if n not in dict(files) and src.chance(40)])
    c, funs, procs = [0], [], []
    here = [None]

    def name(depth):
        f = [x for x in funs if x[1] == 'name']
        if depth and f and src.chance(25):
            return ('call', src.pick(f)[0], [])
        return S(here[0] if here[0] and src.chance(70) else src.pick(names))

    def num():
        c[0] += 1
        return L(c[0])

    def stmts(depth):
        x = src.n(100)
        f = name(depth)
        call = f[0] == 'call'
        if x < 28:
            c[0] += 1
            e = S('w%d' % c[0])
            fun = [y for y in funs if y[1] in ('line', 'int')]
            if depth and fun and not call and src.chance(65):
                e = ('call', src.pick(fun)[0], [])
                if src.chance(40):
                    e = B('&', e, S('.')) if src.chance(50) else B('&', S('.'), e)
            return [fwrite(f, e)]
        if x < 52:
            return [fopen(f, src.pick(['READ', 'WRITE', 'APPEND', 'RANDOM', 'WRITE', 'READ']))]
        if x < 66:
            return [fclose(f)]
        if x < 74:
            return [fread(f, 's'), out(V('s'))]
        if x < 80:
            fun = [y for y in funs if y[1] == 'int']
            return [fseek(f, ('call', src.pick(fun)[0], []) if depth and fun and not call and src.chance(60) else src.int(1, 3))]
        if x < 85:
            return [fget(f, 'y'), out(V('y'))]
        if x < 90:
            return [assign('x', num()), fput(f, 'x')]
        if x < 94:
            return [out(S('eof '), eof(f))]
        if x < 97 and depth and procs:
            return [St('call', name=src.pick(procs), args=[], parens=True)]
        return [out(S('-'), ('call', src.pick(funs)[0], []))] if depth and funs else [fclose(f), fopen(f, 'WRITE')]

    pre = list(PRE)
    for k in range(src.int(2, 5)):
        what = src.pick(['line', 'line', 'name', 'int', None])
        here[0] = src.pick(names) if src.chance(70) else None
        body = [out(S('in %d' % k))] if src.chance(60) else []
        for _ in range(src.int(1, 3)):
            y = src.n(10)
            if y < 3:
                body.append(fclose(name(0)))
            elif y < 5:
                f = name(0)
                body += [fclose(f), fopen(f, src.pick(MODES))]
            else:
                body += stmts(src.n(2))
        if what is None:
            procs.append('P%d' % k)
            pre.append(St('proc', name='P%d' % k, params=[], rtype=None, body=body))
        else:
            e = {'line': S('line%d' % k), 'name': S(src.pick(names)), 'int': L(src.int(1, 2))}[what]
            funs.append(('F%d' % k, what))
            pre.append(St('func', name='F%d' % k, params=[], rtype='INTEGER' if what == 'int' else 'STRING', body=body + [St('return', e=e)]))
    here[0] = None
    entries = []
    for _ in range(src.int(4, 25)):
        entries += stmts(1)
    if i % 5 == 4:
        text = render(unshare(pre + entries))
        m = model(unshare(pre + entries), (), interp=lambda i, ped: FInterp(i, ped, fs=fs))
        if m.kind == 'unspec':
            raise Skip('open')
        r = env.file(text, fresh=False)
        compare(m, Obs(r), text)
        env.digest = text
        env.nontrivial = len(m.out) > 0
        env.mark('file ' + m.kind)
        digest = text
    else:
        m, rows = msession(env, entries, pre=unshare(pre), interp=lambda echo: FInterp(echo=echo, fs=fs), fresh=False)
        digest = env.digest
        rej = sum(1 for r in rows if r[1][0] == 'runtime')
        env.nontrivial = rej > 0 and len(rows) > rej
        env.mark('refused %d' % min(20, rej))
        if m.cut:
            # judged up to there
            env.mark('cut: ' + m.cut)
            return
    ended(env, fs, digest)
    env.digest = repr(files) + digest


# ------------------------------------------------------------------ names that cannot be opened
BADN = [('no/such.txt', MODES), ('dir', MODES), ('', MODES), ('n' * 300, MODES), ('plain.txt/x', MODES), ('ro.txt', ['WRITE', 'APPEND']), ('wo.txt', ['READ', 'RANDOM']),
        ('none.txt', MODES), ('locked/new.txt', MODES), ('locked/old.txt', []), ('sub/old.txt', []), ('sub/new.txt', []), ('hidden/x.txt', MODES), ('.', MODES), ('a\x00b', MODES), ('loop', MODES), ('dangling', ['READ', 'APPEND', 'WRITE', 'RANDOM'])]


def fault_setup(s):
    w = s.cwd
    for d, mode in (('dir', 0o755), ('locked', 0o755), ('sub', 0o755), ('hidden', 0o755)):
        os.mkdir(os.path.join(w, d))
    for n, mode in (('plain.txt', 0o644), ('ro.txt', 0o444), ('wo.txt', 0o222), ('none.txt', 0), ('locked/old.txt', 0o644), ('sub/old.txt', 0o644), ('hidden/x.txt', 0o644)):
        s.put(n, b'one\ntwo\n', mode)
    os.symlink('loop', os.path.join(w, 'loop'))
    os.symlink('no/target', os.path.join(w, 'dangling'))
    for d, mode in (('locked', 0o555), ('sub', 0o755), ('hidden', 0), ('dir', 0o755)):
        p = os.path.join(w, d)
        if os.getuid() == 0:
            os.chown(p, 65534, 65534)
        os.chmod(p, mode)
    return {n: FObj('text', 'one\ntwo\n') for n in ('plain.txt', 'ro.txt', 'wo.txt', 'none.txt', 'locked/old.txt', 'sub/old.txt', 'hidden/x.txt')}


NOOPEN = {n: m for n, m in BADN}


def unlock(s):
    for d in ('hidden', 'locked'):
        os.chmod(os.path.join(s.cwd, d), 0o755)


def faults_case(src, env, i):
    name, modes = BADN[i % len(BADN)]
    mode = MODES[i // len(BADN) % 4]
    style = i // len(BADN) // 4 % 3
    if mode == 'RANDOM' and name in ('locked/old.txt', 'sub/old.txt', 'ro.txt') or name == 'locked/new.txt' and mode in ('READ', 'APPEND'):
        mode = 'READ'
    s = env.server('plain')
    s.fresh()
    fs = fault_setup(s)
    f, g = S(name) if '\x00' not in name else str_expr(name), S('good.txt')
    pre = list(PRE)
    body = [fopen(g, 'WRITE'), fwrite(g, S('before')), fopen(f, mode)]
    use = [out(S('opened'))]
    if mode not in modes:
        if mode == 'READ':
            use = [fread(f, 's'), out(V('s'), eof(f))]
        elif mode == 'RANDOM':
            use = [assign('x', L(3)), fput(f, 'x')]
        else:
            use = [fwrite(f, S('data'))]
        use.append(fclose(f))
    if style == 0:
        entries = body + use + [fclose(f), fwrite(f, S('lost')), fread(f, 's'), out(eof(f)), fseek(f, 1), fput(f, 'x'), fget(f, 'y')]
        for m2 in MODES:
            if m2 in modes and m2 != mode:
                entries.append(fopen(f, m2))
        entries += [fopen(f, mode)] + use[:-1] if mode not in modes and mode != 'RANDOM' else [fopen(f, mode)]
        entries += [fwrite(g, S('after')), fclose(g), fopen(g, 'READ'), fread(g, 's'), out(V('s'))]
        m, rows = msession(env, entries, pre=pre, interp=lambda echo: FInterp(echo=echo, fs=fs, noopen=NOOPEN), fresh=False)
        if m.cut:
            raise Skip('open: ' + m.cut)
        d = env.digest
        bad = sum(r[1][0] != 'ok' for r in rows)
    else:
        if style == 2:
            p = pre + [St('proc', name='P', params=[], rtype=None, parens=True, body=body + use), St('call', name='P', args=[], parens=True), fwrite(g, S('after'))]
        else:
            p = pre + body + use + [fwrite(g, S('after')), out(S('end'))]
        p = unshare(p)
        d = text = render(p)
        m = model(p, (), interp=lambda i, ped: FInterp(i, ped, fs=fs, noopen=NOOPEN))
        r = env.file(text, fresh=False)
        compare(m, Obs(r), text)
        bad = m.kind == 'runtime'
    unlock(s)
    same_files(fs, s_files(env, 'plain'), d)
    env.nontrivial = bool(bad)
    env.digest = d
    env.mark('%s %s' % (name[:20], mode), ['session', 'program', 'procedure'][style])


# ------------------------------------------------------------------ writes the system rejects
def limits_case(src, env, i):
    """file size limit of 4096 bytes (EFBIG), /dev/full (ENOSPC), no descriptors left (EMFILE)"""
    kind = ['WRITE', 'APPEND', 'RANDOM', 'full', 'fds'][i % 5]
    repl = src.chance(40)
    close = src.chance(60)
    other = src.chance(50)
    p = [decl(INTEGER, 'i'), decl(STRING, 's', 'x')]
    flags = 4
    init = ''
    name = '/dev/full' if kind == 'full' else 'big.txt'
    f, g = S(name), S('small.txt')
    if other:
        p += [fopen(g, 'WRITE'), fwrite(g, S('kept'))]
    expect = ''
    must = None
    if kind == 'fds':
        flags = 8
        n = src.pick([1, 2, 5, 10, 30, 60])
        for k in range(n):
            p += [fopen(S('o%d.txt' % k), 'WRITE'), fwrite(S('o%d.txt' % k), L(k))]
        must = True if n >= 30 else False if n <= 10 else None
    else:
        if kind == 'APPEND':
            init = 'x' * src.pick([0, 1, 4000, 4095, 4096]) + '\n' * src.n(2)
            if len(init) > 4096:
                init = init[:4096]
        w = src.pick([0, 1, 7, 63, 100, 511, 1000, 4000, 5000])
        n = src.pick([0, 1, 2, 3, 4, 5, 40, 64, 128]) if w < 1000 else src.n(5)
        if kind in ('WRITE', 'APPEND') and src.chance(40):
            # exactly to the limit, or one byte more
            w = src.pick([15, 31, 63, 127, 255, 511, 1023])
            n = (4096 - len(init)) // (w + 1)
        word = ''.join(src.pick('abc') for _ in range(1)) * w
        extra = src.pick([None, '', 'z']) if n else None
        p.append(fopen(f, kind if kind != 'full' else src.pick(['WRITE', 'APPEND'])))
        p.append(assign('s', S(word)))
        if kind == 'RANDOM':
            p += [St('for', name='i', a=L(1), b=L(n), step=None, nextname=True, body=[St('seek', f=f, e=V('i')), fput(f, 's')])]
            must = True if n * w > 4096 else False if n * (w + 40) < 4000 else None
        else:
            p += [St('for', name='i', a=L(1), b=L(n), step=None, nextname=True, body=[fwrite(f, V('s'))])]
            total = (word + '\n') * n
            if init and not init.endswith('\n') and (n or extra is not None):
                total = '\n' + total
            if extra is not None:
                p.append(fwrite(f, S(extra)))
                total += extra + '\n'
            expect = init + total
            must = len(expect) > 4096 if kind != 'full' else len(total) > 0
        if close:
            p.append(fclose(f))
    if other:
        p.append(out(S('done')))
    text = render(unshare(p))
    s = env.server('plain')
    s.fresh()
    if kind == 'APPEND':
        s.put('big.txt', init.encode())
    if repl:
        parts = []
        for st in unshare(p):
            t = lines_text([st])
            parts.append(t + '\n' + ('\n' if opens_block(t) else ''))
        text = ''.join(parts)
        r = env.repl(text, fresh=False, flags=flags)
    else:
        r = env.file(text, fresh=False, flags=flags)
    err = r.err.decode('latin-1')
    reported = 'Runtime Error' in err

    def bad(what, **kw):
        raise Fail(what, '', program=numbered(text), exit=r.code, stderr=err[-800:], stdout=r.out[-500:].decode('latin-1'), **kw)
    if r.crashed or r.sig:
        bad('the interpreter ended abnormally')
    if must and not reported:
        bad('a write or open that the system rejects is not reported')
    if must is False and reported:
        bad('an error is reported although nothing was rejected')
    if not repl and (r.code == 1) != reported:
        bad('exit status and report do not agree')
    files = s_files(env, 'plain')
    if kind in ('WRITE', 'APPEND'):
        got = files.get('big.txt')
        if got is None:
            bad('the file does not exist')
        got = got.decode('latin-1')
        if not reported and got != expect:
            bad('data are lost without a report', expected='%d bytes' % len(expect), observed='%d bytes' % len(got))
        if reported and not expect.startswith(got):
            bad('the file holds something that was never written', observed=repr(got[-300:]))
    if kind == 'fds':
        names = [k for k in range(n) if 'o%d.txt' % k in files]
        if not reported and len(names) != n:
            bad('a file was not created and nothing was reported')
        done = [k for k in names if files['o%d.txt' % k] == b'%d\n' % k]
        if len(names) - len(done) > (1 if reported else 0):
            bad('data written before the refused OPENFILE are lost', observed={k: files['o%d.txt' % k] for k in names})
        if done != list(range(len(done))) and not repl:
            bad('files are missing', observed=done)
    if other and files.get('small.txt') != b'kept\n':
        bad('the other open file lost its data')
    env.digest = text + init + str(repl)
    env.nontrivial = bool(must)
    env.sample = dict(program=text[:600], must_report=must, reported=reported, exit=r.code)
    env.mark(kind, 'reported' if reported else 'accepted', 'session' if repl else 'program')


# ------------------------------------------------------------------ however the run ends, what was written is there
ENDS = ['normal', 'top', 'proc', 'func', 'loop', 'fileerr', 'input', 'index', 'deep', 'case', 'pedantic', 'repl-eof', 'repl-exit', 'repl-open-block', 'repl-errors', 'runfile', 'runfile-error', 'noret']


def exits_case(src, env, i):
    end = ENDS[i % len(ENDS)]
    nf = src.pick([1, 1, 2, 3, 12])
    pre = list(PRE) + [decl(INTEGER, 'a', bounds=[(1, 3)])]
    p = []
    fs = {}
    kinds = []
    for k in range(nf):
        kind = src.pick(['WRITE', 'APPEND', 'RANDOM'])
        kinds.append(kind)
        f = S('f%d' % k)
        if kind == 'APPEND':
            fs['f%d' % k] = FObj('text', src.pick(['', 'old\n', 'old']))
        p.append(fopen(f, kind))
    init = [(n, o.data) for n, o in fs.items()]
    for _ in range(src.int(1, 12)):
        k = src.n(nf)
        f = S('f%d' % k)
        if kinds[k] == 'RANDOM':
            p += [assign('x', L(src.n(100))), fput(f, 'x')]
        else:
            p.append(fwrite(f, S(src.pick(['line', '', 'l' * 200, ' ']))))
        if src.chance(10):
            p += [fclose(f), fopen(f, 'APPEND' if kinds[k] != 'RANDOM' else 'RANDOM')]
    fail = out(('bin', 'DIV', L(1), L(0)))
    tail = []
    stdin = ()
    if end == 'top':
        tail = [fail]
    elif end == 'proc':
        tail = [St('call', name='P', args=[], parens=True)]
        pre = pre + [St('proc', name='P', params=[], rtype=None, parens=True, body=[fail])]
        if src.chance(50):
            pre[-1] = St('proc', name='P', params=[], rtype=None, parens=True, body=p + [fail])
            p = []
    elif end in ('func', 'noret'):
        pre = pre + [St('func', name='Fn', params=[], rtype='INTEGER', parens=True, body=[fail, St('return', e=L(1))] if end == 'func' else [out(S('x'))])]
        tail = [assign('x', ('call', 'Fn', []))]
    elif end == 'loop':
        p = [St('for', name='x', a=L(1), b=L(3), step=None, nextname=True, body=[assign(('a', [I(B('+', V('x'), L(1)))]), L(1))])]
        k0 = [q for q in p]
        p = [fopen(S('g'), 'WRITE'), fwrite(S('g'), S('in loop'))] + k0
        fs.clear()
        init = []
    elif end == 'fileerr':
        tail = [src.pick([fclose(S('nosuch')), fopen(S('nosuch'), 'READ'), fopen(S('f0'), 'READ'), fread(S('f0'), 's'), fput(S('nosuch'), 'x'), fseek(S('nosuch'), 1)])]
    elif end == 'input':
        tail = [decl(INTEGER, 'arr', bounds=[(1, 2)]), St('while', c=L(1), body=[])]
    elif end == 'index':
        tail = [assign(('a', [I(4)]), L(1))]
    elif end == 'deep':
        pre = pre + [St('proc', name='D', params=[('n', 'INTEGER', 'BYVAL')], rtype=None, parens=True,
                        body=[St('if', arms=[(B('=', V('n'), L(0)), [fail])], els=None), St('call', name='D', args=[B('-', V('n'), L(1))], parens=True)])]
        tail = [St('call', name='D', args=[L(src.int(1, 40))], parens=True)]
    elif end == 'case':
        tail = [assign('x', S('text'))]
    elif end == 'pedantic':
        tail = [assign('undeclared', L(1))]
    f2 = {n: FObj('text', o.data) for n, o in fs.items()}
    s = env.server('plain')
    s.fresh()
    for n, d in init:
        s.put(n, d.encode())
    prog = unshare(pre + p + tail)
    text = render(prog)
    if end.startswith('repl') or end.startswith('runfile'):
        m = model(prog, (), interp=lambda i, ped: FInterp(i, ped, fs=f2))
        parts = []
        if end.startswith('repl'):
            for st in prog:
                t = lines_text([st])
                parts.append(t + '\n' + ('\n' if opens_block(t) else ''))
                if end == 'repl-errors' and src.chance(40):
                    parts.append(src.pick(['OUTPUT 1 DIV 0', 'x <- "s"', 'OUTPUT )', 'CLOSEFILE "zz"', 'DECLARE x : INTEGER', 'CALL Nope()']) + '\n')
            if end == 'repl-exit':
                parts.append('EXIT\nOUTPUT "never"\n')
            elif end == 'repl-open-block':
                parts.append(src.pick(['IF TRUE THEN\n', 'WHILE TRUE\n  x <- 1\n', 'PROCEDURE Q()\n']))
        else:
            t = text + ('OUTPUT 1 DIV 0\n' if end == 'runfile-error' else '')
            s.put('prog.psc', t.encode('latin-1'))
            parts.append('RUNFILE prog.psc\n')
            f2['prog.psc'] = FObj('text', t)
            if src.chance(50):
                parts.append('OUTPUT "later"\n')
        text = ''.join(parts)
        r = env.repl(text, fresh=False)
        if r.code != 0 or r.crashed:
            raise Fail('the session ended with exit %s signal %s' % (r.code, r.sig), '', program=text, stderr=r.err[-800:])
    else:
        ped = end == 'pedantic'
        m = model(prog, stdin, ped, interp=lambda i, ped: FInterp(i, ped, fs=f2))
        r = env.file(text, to_stdin(stdin), ped, fresh=False)
        compare(m, Obs(r), text)
    same_files(f2, s_files(env, 'plain'), numbered(text))
    rand = [(n, o) for n, o in sorted(f2.items()) if o.kind == 'rand' and o.recs]
    if rand:
        ended(env, f2, text)
    env.digest = text
    env.nontrivial = any(o.data if o.kind == 'text' else o.recs for n, o in f2.items())
    env.sample = dict(end=end, program=text[:700], outcome=m.kind)
    env.mark('end ' + end, 'outcome ' + m.kind)


def count(depth):
    def c(st, d):
        if d == 0:
            return 1
        if (st, d) not in memo:
            memo[st, d] = sum(c(st if x == 'bad' else x, d - 1) for x in (step(st, op) for op in OPS) if x is not None)
        return memo[st, d]
    memo = {}
    return sum(c(s + (None, 0), depth) for s in STARTS)


NQ, NT, N3 = count(4), count(5), count(3)
STREAMS = [
    Stream('states', states_case, (NQ + PER - 1) // PER, (NT + PER - 1) // PER, exhaustive=True),
    Stream('filemode', filemode_case, N3, N3, exhaustive=True),
    Stream('long', long_case, 1500, 40000),
    Stream('names', names_case, 12000, 250000),
    Stream('nested', nested_case, 700, 20000),
    Stream('faults', faults_case, len(BADN) * 12, len(BADN) * 12, exhaustive=True),
    Stream('limits', limits_case, 1000, 20000),
    Stream('exits', exits_case, 900, 20000),
]
