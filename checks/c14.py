"""C14: a random file is a stable, 1-based sequence of independent records."""
import itertools
from vals import *

VARIANTS = ['plain']
RULE = ('a case is non-trivial when at least one record was written and read back through the reference sequence; distinct by program / session text')
ASSUMPTIONS = ['the position of a random file is set by OPENFILE (1) and SEEK only; GETRECORD and PUTRECORD leave it (as the existing programs of the repository rely on)',
               'the model keeps a list of values per file; the byte layout of the file is not examined']

R = RecT('R', [('n', INTEGER, None), ('s', STRING, None), ('v', CHAR, [(0, 2)])])
Q = RecT('Q', [('r', R, None), ('z', REAL, None)])
KINDS = [(INTEGER, None), (STRING, None), (R, None), (INTEGER, [(1, 3)]), (STRING, [(0, 1)]), (Q, None), (REAL, None), (CHAR, None), (R, [(1, 2)]), (BOOLEAN, None), (DATE, None)]
TYPES = [R, Q]
TAILS = ['', '\n', '#', '\n#', ' ', '\n\n#\n', 'xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx', '"', '0', '\n#1']


def val(t, c):
    """the c-th value of scalar type t; different numbers give different texts of different lengths (as far as the type has them)"""
    if t is INTEGER:
        return L(c * [1, 1000003, -1, 7, 10 ** 12][c % 5])
    if t is REAL:
        return ('neg', ('real', '%d.5' % c)) if c % 3 == 0 else ('real', '%d.25' % (c * 10 ** (c % 5)))
    if t is STRING:
        return str_expr(['', '#', '\n', ''][c % 4] + str(c) + TAILS[c % len(TAILS)])
    if t is CHAR:
        return chr_expr((c * 37 + 10) % 256)
    if t is BOOLEAN:
        return ('bool', c % 2 == 0)
    return ('date', 1 + c % 28, 1 + c % 12, 1 + c * 37 % 3000)


def setv(T, name, c):
    return [St('assign', lv=p, e=val(lt, c + 11 * k)) for k, (lt, p) in enumerate(leaves(T[0], T[1], (name, [])))]


def sessions(env, segs, pre, fs, modes=None):
    """segments of entries, each one process; mode 'repl' judges entry by entry, 'file' runs them as a program (ending at the first error)"""
    rows = []
    digest = ''
    s = env.server('plain')
    s.fresh()
    for n, seg in enumerate(segs):
        if modes and modes[n] == 'file':
            prog = unshare(pre + seg)
            text = render(prog)
            m = model(prog, (), interp=lambda i, ped: FInterp(i, ped, fs=fs))
            r = env.file(text, b'', fresh=False)
            compare(m, Obs(r), digest[-6000:] + text, (), '')
            digest += text + '=== next run\n'
            env.mark('run ended by ' + m.kind)
        else:
            m, rw = msession(env, seg, pre=pre, interp=lambda echo: FInterp(echo=echo, fs=fs), fresh=False)
            if m.cut:
                raise Skip('open: ' + m.cut)
            digest += env.digest + '=== next run\n'
            rows += rw
    env.digest = digest
    return rows


def dump(T, f, n, past=True):
    r = []
    for k in range(1, n + 1):
        r += [fseek(f, k), fget(f, 'y'), show(T[0], T[1], 'y')]
    if past:
        r += [fseek(f, n + 2), fget(f, 'y') if n else out(L(0)), fseek(f, n + 1), fget(f, 'y'), show(T[0], T[1], 'y')]
    return r


# ------------------------------------------------------------------ all short histories
# quick: 7 operations, depth <= 5 and 6 operations of depth 6; each history has a file of its own, a session runs many of them
OPS = ['P', 'G', 1, 2, 3, 'C']
PER = 90


def histories(depth):
    r = []
    for d in range(1, depth + 1):
        r += itertools.product(OPS, repeat=d)
    return r


HQ = histories(6)
NHQ = (len(HQ) + PER - 1) // PER
HT = []


def hist_case(src, env, i):
    global HT
    if env.tier != 'quick' and not HT:
        HT = histories(7)
    hs = (HQ if env.tier == 'quick' else HT)[i * PER:(i + 1) * PER]
    T = KINDS[i % 6]
    pre = [typedef(x) for x in TYPES] + [vdecl(T[0], T[1], 'x', 'y')]
    entries, second = [], []
    c = i
    npos = 0
    for j, h in enumerate(hs):
        f = S('f%d' % j)
        entries.append(fopen(f, 'RANDOM'))
        n, pos = 0, 1
        for op in h:
            if op == 'P':
                c += 1
                entries += setv(T, 'x', c) + [fput(f, 'x')]
                n = max(n, pos)
            elif op == 'G':
                entries += [fget(f, 'y'), show(T[0], T[1], 'y')]
            elif op == 'C':
                entries += [fclose(f), fopen(f, 'RANDOM')]
                pos = 1
            else:
                entries.append(fseek(f, op))
                if op <= n + 1:
                    pos = op
        entries += dump(T, f, n)
        if j % 3 == 1:
            entries.append(fclose(f))
        second += [fopen(f, 'RANDOM')] + dump(T, f, n, False) + [fclose(f)]
        npos += n
    fs = {}
    sessions(env, [entries, second], pre, fs)
    env.nontrivial = npos > 0
    env.sample = dict(histories=[' '.join(map(str, h)) for h in hs[:20]], record=str(T[0]) if T[1] is None else 'array of %s' % T[0])
    env.mark('record %s%s' % (T[0], '' if T[1] is None else ' array'), 'histories of depth %d' % len(hs[-1]))


# ------------------------------------------------------------------ SEEK accepts exactly 1..n+1
BIGN = [(1 << 63) - 1, 1 << 62, 1 << 32, (1 << 32) + 1, (1 << 31), -1, -(1 << 32) + 1, -(1 << 63) + 1, 1 << 16, 256, 257, 1000000]


def seek_case(src, env, i):
    n, mode, k = i % 16, i // 16 % 3, i // 48
    T = KINDS[(n + mode + 5 * k) % len(KINDS)]
    f = S('d.dat')
    pre = [typedef(x) for x in TYPES] + [vdecl(T[0], T[1], 'x', 'y')]
    entries = [fopen(f, 'RANDOM')]
    for j in range(n):
        entries += [fseek(f, j + 1)] + setv(T, 'x', j + k) + [fput(f, 'x')]
    segs = []
    if mode == 1:
        entries += [fclose(f), fopen(f, 'RANDOM')]
    elif mode == 2:
        segs, entries = [entries], [fopen(f, 'RANDOM')]
    addr = list(range(-2, n + 5)) + BIGN
    if n == 0:
        entries.append(fget(f, 'y'))
    for a in (addr if k % 2 == 0 else reversed(addr)):
        entries += [fseek(f, a), fget(f, 'y'), show(T[0], T[1], 'y')]
    # a refused address leaves the position; so does an address that is not an INTEGER
    p = n // 2 + 1
    entries.append(fseek(f, p))
    for e in [L(n + 2), L(0), ('real', '1.0'), S('1'), ('bool', True), ('neg', ('int', 1)), ('bin', '/', L(2), L(2)), ('char', '1')]:
        entries += [St('seek', f=f, e=e), fget(f, 'y'), show(T[0], T[1], 'y')]
    # appending at n+1
    entries += [St('seek', f=f, e=B('+', L(n), L(1)))] + setv(T, 'x', 77) + [fput(f, 'x')] + dump(T, f, n + 1)
    sessions(env, segs + [entries], pre, {})
    env.nontrivial = True
    env.mark('records %d' % n, ['fresh', 'reopened', 'restarted'][mode])


# ------------------------------------------------------------------ long histories: several files, several record types, restarts
def long_case(src, env, i):
    nk = src.int(1, 3)
    ks = [src.pick(KINDS) for _ in range(nk)]
    pre = [typedef(x) for x in TYPES]
    for j, T in enumerate(ks):
        pre.append(vdecl(T[0], T[1], 'x%d' % j, 'y%d' % j))
        if T[0] is DATE:
            for nm in 'xy':
                pre += setv(T, '%s%d' % (nm, j), 1)
    nf = src.weighted([(60, 1), (25, 2), (15, 3)])
    names = ['d%d.dat' % j for j in range(nf)]
    recs = {f: [] for f in names}
    pos = {}
    segs, modes = [], []
    c = i
    total = src.int(6, 60)
    nseg = src.weighted([(40, 1), (40, 2), (20, 3)])
    err = 0
    for sg in range(nseg):
        seg = []
        mode = src.pick(['repl', 'file'])
        bad = 12 if mode == 'repl' else 2
        for f in names:
            seg.append(fopen(S(f), 'RANDOM'))
            pos[f] = 1
        open_ = set(names)
        ended = False
        for _ in range(total // nseg):
            f = src.pick(names)
            F_ = S(f)
            wild = src.chance(bad)
            if wild:
                x = src.n(5)
                if x == 0:
                    seg.append(fseek(F_, src.pick([0, -1, len(recs[f]) + 2, len(recs[f]) + src.int(2, 9), 1 << 40])))
                elif x == 1:
                    j = src.n(nk)
                    seg += [fget(F_, 'y%d' % j), show(ks[j][0], ks[j][1], 'y%d' % j) if ks[j][0] is not DATE else out(L(1))]
                elif x == 2:
                    seg.append(fopen(F_, src.pick(['RANDOM', 'READ', 'WRITE'])))
                    if f not in open_:
                        raise Skip('file reopened')
                elif x == 3:
                    seg.append(fput(F_, 'nosuch'))
                else:
                    seg.append(St(src.pick(['readfile', 'writefile']), f=F_, name='q', e=S('w')))
                err += 1
                # (whether it fails is for the model to say)
                continue
            if f not in open_:
                seg.append(fopen(F_, 'RANDOM'))
                open_.add(f)
                pos[f] = 1
            r = recs[f]
            x = src.weighted([(30, 'put'), (25, 'get'), (25, 'seek'), (10, 'reopen'), (4, 'close'), (6, 'rewrite')])
            if x == 'put':
                j = src.n(nk)
                c += 1
                if src.chance(60) and len(r) < 12:
                    pos[f] = len(r) + 1
                    seg.append(fseek(F_, pos[f]))
                seg += setv(ks[j], 'x%d' % j, c) + [fput(F_, 'x%d' % j)]
                if pos[f] > len(r):
                    r.append(j)
                else:
                    r[pos[f] - 1] = j
            elif x == 'get':
                if not r:
                    continue
                if pos[f] > len(r) or src.chance(50):
                    pos[f] = src.int(1, len(r))
                    seg.append(fseek(F_, pos[f]))
                j = r[pos[f] - 1]
                seg += [fget(F_, 'y%d' % j), show(ks[j][0], ks[j][1], 'y%d' % j)]
            elif x == 'seek':
                pos[f] = src.int(1, len(r) + 1)
                seg.append(fseek(F_, pos[f]))
            elif x == 'reopen':
                seg += [fclose(F_), fopen(F_, 'RANDOM')]
                pos[f] = 1
            elif x == 'close':
                seg.append(fclose(F_))
                open_.discard(f)
            elif r:
                # a record is read and written back
                j = r[pos[f] - 1] if pos[f] <= len(r) else None
                if j is not None:
                    seg += [fget(F_, 'y%d' % j), fput(F_, 'y%d' % j)]
        for f in names:
            if f in open_ and src.chance(30):
                seg.append(fclose(S(f)))
        segs.append(seg)
        modes.append(mode)
    fs = {}
    # what a run that ended early has written is known to the model only: dump by it
    sessions_with_dump(env, segs, modes, pre, fs, ks)
    env.nontrivial = any(o.recs for o in fs.values())
    env.mark('files %d' % nf, 'runs %d' % nseg, 'operations %d' % (total // 10 * 10), 'records %d' % max(len(o.recs) for o in fs.values()))
    if err:
        env.mark('with illegal operations')


def sessions_with_dump(env, segs, modes, pre, fs, ks):
    sessions(env, segs, pre, fs, modes)
    final = []
    d0 = env.digest
    for f, o in sorted(fs.items()):
        F_ = S(f)
        final.append(fopen(F_, 'RANDOM'))
        for k, (kind, t, b, v) in enumerate(o.recs):
            j = next(j for j, T in enumerate(ks) if T[0].name == t.name and T[1] == b)
            final += [fseek(F_, k + 1), fget(F_, 'y%d' % j), show(t, b, 'y%d' % j)]
        final += [fseek(F_, len(o.recs) + 2), fseek(F_, len(o.recs) + 1), fget(F_, 'y0')]
    m, rows = msession(env, final, pre=pre, interp=lambda echo: FInterp(echo=echo, fs=fs), fresh=False)
    if m.cut:
        raise Skip('open: ' + m.cut)
    env.digest = d0 + env.digest


# ------------------------------------------------------------------ programs: loops and procedures over records
def forloop(v, a, b, body, step=None):
    return St('for', name=v, a=a, b=b, step=step, body=body, nextname=True)


def loops_case(src, env, i):
    T = src.pick([KINDS[0], KINDS[1], KINDS[2], KINDS[3], KINDS[5], KINDS[6]])
    n = src.pick([1, 2, 3, 5, 8, 20, 60]) if src.chance(90) else 200
    key = [p for lt, p in leaves(T[0], T[1], ('x', [])) if lt in (INTEGER, STRING, REAL)][0]
    kt = [lt for lt, p in leaves(T[0], T[1], ('x', [])) if lt in (INTEGER, STRING, REAL)][0]
    ky = ('y', key[1])
    F_ = S('d.dat')

    def mk(e):
        if kt is STRING:
            pat = src.pick(['', '#', '\n', ' '])
            return B('&', S(pat + 'v'), ('call', 'NUM_TO_STR', [e]))
        if kt is REAL:
            return B('/', e, L(4))
        return B('*', e, e)
    iv = V('i')
    setup = [typedef(x) for x in TYPES] + [vdecl(T[0], T[1], 'x', 'y'), decl(INTEGER, 'i', 'j', 'k')]
    setx = setv(T, 'x', 3)
    w = list(setup) + [fopen(F_, 'RANDOM')] + setx + [forloop('i', L(1), L(n), [assign(key, mk(iv)), St('seek', f=F_, e=iv), fput(F_, 'x')])]
    a, s = src.int(1, n), src.int(1, 4)
    # every s-th record from a on is rewritten
    w.append(forloop('i', L(a), L(n), [assign(key, mk(B('+', iv, L(1000)))), St('seek', f=F_, e=iv), fput(F_, 'x')], L(s)))
    if src.chance(50):
        # swap two records
        p, q = src.int(1, n), src.int(1, n)
        w += [fseek(F_, p), fget(F_, 'x'), fseek(F_, q), fget(F_, 'y'), fseek(F_, p), fput(F_, 'y'), fseek(F_, q), fput(F_, 'x')]
    back = [forloop('i', L(n), L(1), [St('seek', f=F_, e=iv), fget(F_, 'y'), out(('var', ky))], L(-1)), fseek(F_, src.int(1, n)), fget(F_, 'y'), show(T[0], T[1], 'y')]
    if src.chance(40):
        w += back
    if src.chance(40):
        # a copy through a second file, in reverse order
        G = S('e.dat')
        w += [fopen(G, 'RANDOM'), forloop('i', L(1), L(n), [St('seek', f=F_, e=B('-', L(n + 1), iv)), fget(F_, 'y'), St('seek', f=G, e=iv), fput(G, 'y')]), fseek(G, 1), fget(G, 'y'), show(T[0], T[1], 'y')]
    if src.chance(50):
        w += [fclose(F_)]
    if src.chance(20):
        w.append(out(('bin', 'DIV', L(1), L(0))))
    r2 = setup + [fopen(F_, 'RANDOM')] + back + [fseek(F_, n + 2)]
    fs = {}
    fruns(env, [w, r2], fs)
    env.nontrivial = True
    env.mark('records %d' % n, str(T[0]))


# ------------------------------------------------------------------ many records: addresses around the powers of two
SIZES = [126, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600, 999, 1000, 1023, 1024, 1025, 1030, 2049, 4095, 4096, 4097, 5000]
HUGE = [32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65540]


def large_case(src, env, i):
    """all records of a long file are compared inside the interpreter; only differences from the first contents are printed"""
    n = SIZES[i % len(SIZES)] if i % 30 else HUGE[i // 30 % len(HUGE)]
    a, b = src.pick([1, 3, 7, -1]), src.int(-50, 50)
    spots = sorted({q for e in range(6, 18) for q in ((1 << e) - 1, 1 << e, (1 << e) + 1, (1 << e) + 2)} | {1, 2, 10, 99, 100, 101, 1000, n - 1, n})
    spots = [q for q in spots if 1 <= q <= n]
    text = src.chance(30)
    mk = (lambda e: '"r" & NUM_TO_STR(%s)' % e) if text else (lambda e: e)
    show = (lambda v: 'r%d' % v) if text else str
    new = {}
    pad = 'x' * src.pick([0, 0, 5, 20, 100, 1000]) if text else ''
    head = ['DECLARE d, e : ' + ('STRING' if text else 'INTEGER'), 'DECLARE i : INTEGER']
    check = lambda lo, hi, st='': ['FOR i <- %d TO %d%s' % (lo, hi, st), 'SEEK "d.dat", i', 'GETRECORD "d.dat", d', 'e <- ' + mk('i * %d + %d' % (a, b)), 'IF d <> e THEN', 'OUTPUT i, " ", d', 'ENDIF', 'NEXT i']
    opened = ['OPENFILE "d.dat" FOR RANDOM']
    write = lambda lo, hi: ['FOR i <- %d TO %d' % (lo, hi), 'e <- ' + mk('i * %d + %d' % (a, b)), 'SEEK "d.dat", i', 'PUTRECORD "d.dat", e', 'NEXT i']
    # the execution budget allows one loop over 25000 records per run: longer files are written and read by several runs
    part = 20000
    parts = [(lo, min(n, lo + part - 1)) for lo in range(1, n + 1, part)]
    runs_ = [(head + opened + write(lo, hi) + ['CLOSEFILE "d.dat"'] * src.int(0, 1), [], None) for lo, hi in parts[:-1]]
    one, want = head + opened + write(*parts[-1]), []
    if src.chance(40):
        one += ['CLOSEFILE "d.dat"'] + opened
    for _ in range(src.int(1, 10)):
        q = src.pick([n, 1]) if src.chance(20) else src.pick(spots) if src.chance(80) else src.int(1, n)
        if src.chance(40):
            one += ['SEEK "d.dat", %d' % q, 'GETRECORD "d.dat", d', 'OUTPUT d']
            want.append(show(new.get(q, q * a + b)) + (pad if q in new else ''))
        v = 1000000 + len(want) * 1000 + len(new)
        new[q] = v
        one += ['e <- ' + mk(str(v)) + (' & "%s"' % pad if pad else ''), 'SEEK "d.dat", %d' % q, 'PUTRECORD "d.dat", e']
    diffs = lambda lo, hi: ['%d %s%s' % (q, show(new[q]), pad) for q in sorted(new) if lo <= q <= hi]
    if src.chance(40):
        one += ['CLOSEFILE "d.dat"'] + opened
    if n <= 8000:
        # also read back by the run that wrote them
        down = src.chance(50)
        one += check(n, 1, ' STEP -1') if down else check(1, n)
        want += diffs(1, n)[::-1] if down else diffs(1, n)
    one += ['SEEK "d.dat", %d' % (n + 1), 'OUTPUT "at the end"', src.pick(['GETRECORD "d.dat", d', 'SEEK "d.dat", %d' % (n + 2), 'SEEK "d.dat", %d' % (n + 256), 'SEEK "d.dat", %d' % (n + 65536), 'SEEK "d.dat", %d' % (n + (1 << 32))])]
    want.append('at the end')
    runs_.append((one + ['OUTPUT "accepted"'], want, len(one)))
    runs_ += [(head + opened + check(lo, hi), diffs(lo, hi), None) for lo, hi in parts[:-1]]
    two = head + opened + check(*parts[-1]) + ['SEEK "d.dat", %d' % (n + 1), 'e <- ' + mk('5'), 'PUTRECORD "d.dat", e', 'SEEK "d.dat", %d' % (n + 1), 'GETRECORD "d.dat", d', 'OUTPUT d', 'SEEK "d.dat", %d' % (n + 2), 'OUTPUT "end"', 'SEEK "d.dat", %d' % (n + 3)]
    runs_.append((two, diffs(*parts[-1]) + [show(5), 'end'], len(two)))
    for k, (prog, exp, line) in enumerate(runs_):
        o = Obs(env.file('\n'.join(prog) + '\n', fresh=k == 0, cpu_ms=20000))
        got = o.out.rstrip('\n').split('\n') if o.out.strip() else []
        if o.kind != ('runtime' if line else 'ok') or got != exp:
            j = next((j for j in range(len(exp)) if j >= len(got) or got[j] != exp[j]), len(exp))
            raise Fail('a file of %d records does not hold what was written (run %d)' % (n, k + 1), program=numbered('\n'.join(prog)), expected=exp[max(0, j - 2):j + 2], observed=got[max(0, j - 2):j + 2], ended=o.kind, stderr=o.err[-300:])
        if line and o.line != line:
            raise Fail('the refused statement is not the one on line %d (run %d)' % (line, k + 1), program=numbered('\n'.join(prog)), observed=o.brief())
    env.nontrivial, env.digest = True, '\n'.join(one)
    env.mark('records %d' % n)
    env.sample = dict(records=n, rewritten=sorted(new))


STREAMS = [
    Stream('histories', hist_case, NHQ, (sum(len(OPS) ** d for d in range(1, 8)) + PER - 1) // PER, exhaustive=True),
    Stream('seek', seek_case, 48 * 4, 48 * 22, exhaustive=True),
    Stream('long', long_case, 1500, 50000),
    Stream('loops', loops_case, 800, 20000),
    Stream('large', large_case, 300, 6000),
]
