"""Records that hold pointers (several of one type next to each other, arrays of them, nested), copied through every channel: each pointer of the copy
denotes what the original's denoted, and moving one afterwards does not move the other."""
from common import *

CH = ['assign', 'byval', 'result', 'element', 'array', 'field', 'outer']


def case(src, env, i):
    T = ['INTEGER', 'STRING', 'REAL']
    lit = {'INTEGER': str, 'STRING': lambda k: '"s%d"' % k, 'REAL': lambda k: '%d.5' % k}
    shown = dict(lit, STRING=lambda k: 's%d' % k)
    ls = ['TYPE P%s = ^%s' % (t[0], t) for t in T]
    # pool of targets
    val, tg, ctr = {}, {t: [] for t in T}, [0]
    for t in T:
        ls += ['DECLARE v%s1, v%s2, v%s3 : %s' % (t[0], t[0], t[0], t), 'DECLARE a%s : ARRAY[1:3] OF %s' % (t[0], t)]
        tg[t] = ['v%s%d' % (t[0], k) for k in (1, 2, 3)] + ['a%s[%d]' % (t[0], k) for k in (1, 2, 3)]
        for x in tg[t]:
            ctr[0] += 1
            val[x] = ctr[0]
            ls.append('%s <- %s' % (x, lit[t](ctr[0])))
    # fields: (path, kind, type) kind p pointer, d data
    n = src.int(2, 7)
    runs = src.pick(T)
    leaves, defs = [], []
    for k in range(n):
        t = runs if src.chance(70) else src.pick(T)
        x = src.n(10)
        if x < 6:
            defs.append('    DECLARE f%d : P%s' % (k, t[0]))
            leaves.append(('.f%d' % k, 'p', t))
        elif x < 8:
            defs.append('    DECLARE f%d : ARRAY[0:1] OF P%s' % (k, t[0]))
            leaves += [('.f%d[%d]' % (k, j), 'p', t) for j in (0, 1)]
        else:
            defs.append('    DECLARE f%d : %s' % (k, t))
            leaves.append(('.f%d' % k, 'd', t))
    inner = list(leaves)
    ls += ['TYPE In'] + defs + ['ENDTYPE']
    top = 'In'
    if src.chance(40):
        ls += ['TYPE Out', '    DECLARE g0 : PI', '    DECLARE g1, g2 : In', '    DECLARE g3 : PI', 'ENDTYPE']
        leaves = [('.g0', 'p', 'INTEGER')] + [('.g%d' % j + p, k, t) for j in (1, 2) for p, k, t in inner] + [('.g3', 'p', 'INTEGER')]
        top = 'Out'
    ls += ['TYPE Box', '    DECLARE k : INTEGER', '    DECLARE q : ' + top, 'ENDTYPE', 'DECLARE r, s : ' + top, 'DECLARE u, w : ARRAY[1:2] OF ' + top, 'DECLARE x, y : Box', 'DECLARE qI : PI', 'DECLARE qS : PS', 'DECLARE qR : PR']
    ls += ['FUNCTION Same(z : %s) RETURNS %s' % (top, top), '    RETURN z', 'ENDFUNCTION']
    want = []
    places = ['r', 's', 'u[1]', 'u[2]', 'w[1]', 'w[2]', 'x.q', 'y.q']
    st = {p: {} for p in places}

    def put(p, lf):
        q, k, t = lf
        if k == 'p':
            tgt = src.pick(tg[t])
            st[p][q] = tgt
            ls.append('%s%s <- ^%s' % (p, q, tgt))
        else:
            ctr[0] += 1
            st[p][q] = ctr[0]
            ls.append('%s%s <- %s' % (p, q, lit[t](ctr[0])))

    def show(p, q, k, t, name=None):
        name = name or p
        if q not in st[p]:
            return
        if k == 'd':
            ls.append('OUTPUT %s%s' % (name, q))
            want.append(shown[t](st[p][q]))
        elif src.chance(50):
            ls.append('OUTPUT %s%s^' % (name, q))
            want.append(shown[t](val[st[p][q]]))
        else:
            ls.extend(['q%s <- %s%s' % (t[0], name, q), 'OUTPUT q%s^' % t[0]])
            want.append(shown[t](val[st[p][q]]))

    def dump(p, name=None):
        for lf in leaves if len(leaves) < 16 else src.sample(leaves, 12):
            show(p, *lf, name=name)
    for p in places:
        if src.chance(60) or p == 'r':
            for lf in leaves:
                if src.chance(90):
                    put(p, lf)
    m = 0
    for _ in range(src.int(3, 8)):
        a, b = src.sample(places, 2)
        ch = src.pick(CH)
        pairs = [(a, b)]
        if ch == 'byval':
            m += 1
            ls.append('PROCEDURE Take%d(BYVAL z : %s)' % (m, top))
            st['z'] = dict(st[b])
            dump('z')
            for _ in range(2):
                put('z', src.pick(leaves))
            dump('z')
            ls.extend(['ENDPROCEDURE', 'CALL Take%d(%s)' % (m, b)])
            del st['z']
            dump(b)
            continue
        if ch == 'result':
            ls.append('%s <- Same(%s)' % (a, b))
        elif ch == 'array':
            ls.append('u <- w')
            pairs = [('u[1]', 'w[1]'), ('u[2]', 'w[2]')]
        elif ch in ('field', 'outer'):
            ls.append('x <- y')
            pairs = [('x.q', 'y.q')]
        else:
            ls.append('%s <- %s' % (a, b))
        for d, s_ in pairs:
            # a pointer that is not set on the right is open on the left
            st[d] = dict(st[s_])
            dump(d)
        d, s_ = src.pick(pairs)
        for _ in range(2):
            p, lf = src.pick([d, s_]), src.pick(leaves)
            put(p, lf)
            show(d, *lf)
            show(s_, *lf)
        # a write through one is seen through all that denote the same
        p, lf = d, src.pick(leaves)
        if lf[1] == 'p' and lf[0] in st[p]:
            ctr[0] += 1
            val[st[p][lf[0]]] = ctr[0]
            ls.append('%s%s^ <- %s' % (p, lf[0], lit[lf[2]](ctr[0])))
            dump(s_)
    text = '\n'.join(ls) + '\n'
    o = Obs(env.file(text, flags=32, variant='san' if i % 20 == 19 else 'plain'))
    got = o.out.split('\n')[:-1]
    if o.kind != 'ok' or got != want:
        j = next((j for j in range(len(want)) if j >= len(got) or got[j] != want[j]), len(want))
        raise Fail('a pointer in a copied record', program=numbered(text), at='line %d of the output' % (j + 1), expected=want[j:j + 2], observed=got[j:j + 2], ended=o.kind, stderr=o.err[-400:])
    env.mark('%d leaves' % min(len(leaves), 12), top)
    env.nontrivial, env.digest = True, text
    env.sample = dict(program=text[-600:], output=want[-5:])
