"""C05: variables keep their declared type; bad stores are rejected without effect."""
from common import *
from gen import Gen

VARIANTS = ['plain']
RULE = ('a case is non-trivial when at least one rejected and one accepted store (or INPUT conversion) through the channel was decided and '
        'the target was read back after each; distinct by session or program text')
ASSUMPTIONS = ['INPUT of text that is neither a plain numeral nor clearly no numeral, has to be refused without effect or stored as 0 / FALSE (BOOLEAN: case variants of TRUE are not judged)',
               'REAL to INTEGER is never implicit, so its rounding is judged only by rejection']

PRIMS_ = ['INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE']
TYPES = PRIMS_ + ['Col', 'Dir', 'PI', 'PJ', 'RA', 'RB']
T0 = [St('typeenum', name='Col', names=['Red', 'Green', 'Blue']), St('typeenum', name='Dir', names=['Up', 'Down', 'Left_']),
      St('typeptr', name='PI', target='INTEGER'), St('typeptr', name='PJ', target='INTEGER'),
      St('typerec', name='RA', body=[decl('INTEGER', 'k')]), St('typerec', name='RB', body=[decl('INTEGER', 'k')])]
VAL = {'INTEGER': [L(5), L(-8), L(0), L(1 << 40)], 'REAL': [('real', '1.5'), ('real', '2.0'), ('neg', ('real', '0.25')), ('real', '0.0')],
       'BOOLEAN': [('bool', True), ('bool', False)], 'CHAR': [('char', 'p'), ('char', '7'), ('char', ' ')],
       'STRING': [S('x'), S(''), S('xy'), S('12'), S('TRUE'), S('7'), S('long string'), ('call', 'CHR', [L(0)]), B('&', S('A'), ('call', 'CHR', [L(0)])), B('&', B('&', S('5'), ('call', 'CHR', [L(0)])), S('6')), B('&', ('call', 'CHR', [L(0)]), S('TRUE')), ('call', 'CHR', [L(200)]), B('&', ('call', 'CHR', [L(195)]), ('call', 'CHR', [L(169)]))], 'DATE': [('date', 1, 2, 2003), ('date', 29, 2, 2024)],
       'Col': [V('Green'), V('Blue'), B('+', V('Red'), L(1))], 'Dir': [V('Up'), V('Down'), B('-', V('Up'), L(1))]}


def setp(t, lv, k):
    n, ops = lv
    if t in ('PI', 'PJ'):
        return [St('ptrassign', lv=lv, to=('t%d' % (k % 2 + 1), []))]
    if t in ('RA', 'RB'):
        return [assign((n, ops + [('.', 'k')]), L(k + 10))]
    return [assign(lv, VAL[t][k % len(VAL[t])])]


def show(t, lv):
    n, ops = lv
    if t in ('PI', 'PJ'):
        return out(S('^'), V(n, *ops, ('^',)))
    if t in ('RA', 'RB'):
        return out(S('k='), V(n, *ops, ('.', 'k')))
    return out(S('='), ('var', lv))


CHANNELS = ['var', 'element', 'field', 'nested', 'element of field', 'deref', 'byval', 'byref', 'return', 'whole array', 'for', 'byval in expr',
            'implicit', 'param write', 'local']


def channel_case(src, env, i):
    t, ch = TYPES[i // len(CHANNELS) % len(TYPES)], CHANNELS[i % len(CHANNELS)]
    pre = list(T0) + [decl('INTEGER', 't1', 't2'), assign('t1', L(101)), assign('t2', L(202)),
                      St('typeptr', name='PT', target=t),
                      St('typerec', name='H', body=[decl(t, 'f'), decl(t, 'g', bounds=[(1, 2)])]), St('typerec', name='HH', body=[decl('H', 'h')]),
                      decl(t, 'x'), decl(t, 'a', bounds=[(0, 2)]), decl('H', 'r'), decl('HH', 'rr'), decl('PT', 'p')]
    pre.append(St('ptrassign', lv=('p', []), to=('x', [])))
    # a variable of every type as source
    for k, y in enumerate(TYPES):
        pre += [decl(y, 'v' + y)] + setp(y, ('v' + y, []), k)
        pre.append(decl(y, 'w' + y, bounds=[(0, 2)]))
    lv = {'var': ('x', []), 'element': ('a', [('[', [L(1)])]), 'field': ('r', [('.', 'f')]), 'nested': ('rr', [('.', 'h'), ('.', 'f')]),
          'element of field': ('r', [('.', 'g'), ('[', [L(2)])]), 'deref': ('p', [('^',)])}.get(ch, ('x', []))
    pre += setp(t, lv, 1)
    sources = []
    for y in TYPES:
        sources += [(y, e) for e in VAL.get(y, [])] + [(y, V('v' + y))]
    sources = src.shuffle(sources)
    entries = []
    n = 0
    for y, e in sources:
        n += 1
        if ch == 'byval':
            entries += [St('proc', name='P%d' % n, params=[('q', t, 'BYVAL', False)], rtype=None, body=[show(t, ('q', []))]),
                        St('call', name='P%d' % n, args=[e], parens=True), show(t, lv)]
        elif ch == 'byref':
            if e[0] != 'var' or e[1][0][0] != 'v':
                continue
            entries += [St('proc', name='P%d' % n, params=[('q', t, 'BYREF', False)], rtype=None, body=[show(t, ('q', []))] + setp(t, ('q', []), 2)),
                        St('call', name='P%d' % n, args=[e], parens=True), show(y, e[1])]
        elif ch == 'return':
            entries += [St('func', name='F%d' % n, params=[], rtype=t, body=[St('return', e=e)]), assign(lv, ('call', 'F%d' % n, [])), show(t, lv)]
        elif ch == 'byval in expr':
            entries += [St('func', name='F%d' % n, params=[('q', t, None, False)], rtype='INTEGER', body=[show(t, ('q', [])), St('return', e=L(1))]),
                        St('expr', e=('call', 'F%d' % n, [e])), show(t, lv)]
        elif ch == 'whole array':
            if e[0] == 'var' and e[1][0][0] == 'v':
                entries += setp(t, ('a', [('[', [L(1)])]), n) + [assign('a', V('w' + y)), show(t, ('a', [('[', [L(1)])])) if t not in ('PI', 'PJ') else out(S('-'))]
        elif ch == 'for':
            # only an INTEGER variable can be the iterator
            if n > 3:
                break
            entries += [St('for', name='x', a=L(1), b=L(2), step=None, body=[out(S('body'))], nextname=True), show(t, ('x', []))]
        elif ch == 'implicit':
            if t in ('PI', 'PJ', 'RA', 'RB') or e[0] == 'var' and y in ('PI', 'PJ', 'RA', 'RB'):
                continue
            # a variable has the type of its first value
            entries += [assign('im%d' % n, src.pick(VAL[t])), show(t, ('im%d' % n, [])), assign('im%d' % n, e), show(t, ('im%d' % n, []))]
        elif ch == 'param write':
            entries += [St('proc', name='P%d' % n, params=[('q', t, src.pick(['BYREF', 'BYVAL']), False)], rtype=None, body=[assign('q', e), show(t, ('q', []))]),
                        St('call', name='P%d' % n, args=[V('x')], parens=True), show(t, ('x', []))]
        elif ch == 'local':
            entries += [St('proc', name='P%d' % n, params=[], rtype=None, body=[decl(t, 'q')] + setp(t, ('q', []), n) + [show(t, ('q', [])), assign('q', e), show(t, ('q', []))]),
                        St('call', name='P%d' % n, args=[], parens=False), show(t, ('x', []))]
        else:
            entries += [assign(lv, e), show(t, lv)]
            if n % 5 == 0:
                entries += setp(t, lv, n)
    m, rows = msession(env, entries, pre=pre)
    rej = sum(r[1][0] == 'runtime' for r in rows)
    env.mark('%s %s' % (ch, 'cut: ' + m.cut if m.cut else 'complete'))
    env.nontrivial = rej > 0
    env.sample = dict(target=t, channel=ch, rejected=rej, accepted=len(rows) - rej - len(pre))


# ------------------------------------------------------------------ declarations keep the type
def redecl_case(src, env, i):
    """histories of good and bad stores over variables of every type, everything read back after every entry"""
    pre = list(T0) + [decl('INTEGER', 't1', 't2'), assign('t1', L(101)), assign('t2', L(202)), St('typerec', name='H', body=[
        decl(t, 'f' + t) for t in TYPES[:8]] + [decl('INTEGER', 'g', bounds=[(0, 1)]), decl('RA', 'n')]), decl('H', 'h1', 'h2')]
    places = {}
    for t in TYPES:
        pre += [decl(t, 'x' + t)] + setp(t, ('x' + t, []), 0)
        places[t] = [('x' + t, [])]
        if t in PRIMS_ + ['Col', 'Dir']:
            pre += [decl(t, 'a' + t, bounds=[(1, 2)])] + setp(t, ('a' + t, [('[', [L(1)])]), 1) + setp(t, ('h1', [('.', 'f' + t)]), 1)
            places[t] += [('a' + t, [('[', [L(1)])]), ('h1', [('.', 'f' + t)])]
    dump = [show(t, lv) for t in TYPES for lv in places[t]]

    def dumpst():
        # one statement: a record of everything
        es = []
        for t in TYPES:
            for n, ops in places[t]:
                x = ('^',) if t in ('PI', 'PJ') else ('.', 'k') if t in ('RA', 'RB') else None
                es += [V(n, *(ops + ([x] if x else []))), S('|')]
        return out(*es)
    entries = []
    for _ in range(src.int(6, 20)):
        t = src.pick(TYPES)
        lv = src.pick(places[t])
        y = t if src.chance(35) else src.pick(TYPES)
        x = src.n(12)
        e = src.pick(VAL[y]) if y in VAL and src.chance(60) else ('var', src.pick(places[y]))
        if x < 7:
            entries.append(assign(lv, e))
        elif x == 7:
            entries.append(decl(src.pick(TYPES), lv[0]))
        elif x == 8:
            # a constant is defined by a literal
            lits = [e for e in VAL[src.pick(PRIMS_[:5])] if e[0] not in ('call', 'bin')]
            entries.append(St('const', name=lv[0], e=src.pick(lits), eq='='))
        elif x == 9:
            entries.append(St('for', name='x' + t, a=L(1), b=L(1), step=None, body=[out(S('b'))], nextname=False))
        elif x == 10 and t in PRIMS_[:5]:
            entries.append((St('input', lv=lv, word='INPUT'), [src.pick(['5', 'a', '', 'TRUE', '2.5', 'xyz', '-3', ' '])]))
            if t == 'BOOLEAN':
                entries[-1] = (entries[-1][0], [src.pick(['TRUE', 'FALSE'])])
        else:
            n = len(entries)
            entries += [St('proc', name='P%d' % n, params=[('q', t, src.pick(['BYREF', 'BYVAL']), False)], rtype=None,
                           body=[assign('q', e)] + ([assign('q', src.pick(VAL[t]))] if t in VAL else [])),
                        St('call', name='P%d' % n, args=[('var', lv) if src.chance(60) else e], parens=True)]
        entries.append(dumpst())
    m, rows = msession(env, entries, pre=pre)
    rej = sum(r[1][0] == 'runtime' for r in rows)
    env.mark('%s' % ('cut: ' + m.cut if m.cut else 'complete'), 'rejected stores %s' % (rej if rej < 6 else '6+'))
    env.nontrivial = rej > 0


# ------------------------------------------------------------------ INPUT
NUMS = ['0', '7', '-3', '12', '007', '-0', '123456789012', '999999999999999999', '1', '-1000']
RNUMS = NUMS[:7] + ['1.5', '-2.25', '10.0', '0.125', '3.', '-0.5', '100.75']


def input_case(src, env, i):
    t = ['INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', None][i % 6]
    places = [('x', []), ('a', [('[', [L(1)])]), ('r', [('.', 'f')]), ('p', [('^',)]), ('r', [('.', 'g'), ('[', [L(0)])])]
    tt = t or 'STRING'
    pre = [St('typeptr', name='PT', target=tt), St('typerec', name='H', body=[decl(tt, 'f'), decl(tt, 'g', bounds=[(0, 1)])]),
           decl(tt, 'x'), decl(tt, 'a', bounds=[(1, 3)]), decl('H', 'r'), decl('PT', 'p'), St('ptrassign', lv=('p', []), to=('a', [('[', [L(3)])]))]
    pool = {'INTEGER': NUMS + ['abc', '', 'x', 'hello', 'TRUE'], 'REAL': RNUMS + ['bcd', '', 'x'], 'BOOLEAN': ['TRUE', 'FALSE'],
            'CHAR': ['a', ' ', '7', '"', "'", '\\', '', 'ab', 'TRUE', '  ', '\x7f'], 'STRING': ['', ' ', 'hello', ' x ', '12', '"q"', "it's", '// c', '\\n', 'TRUE', '\t'],
            None: ['', 'text', '12', 'TRUE']}[t]
    entries = []
    for k in range(src.int(4, 12)):
        lv = src.pick(places) if t else ('n%d' % k, [])
        line = src.pick(pool)
        if t == 'INTEGER' and src.chance(30):
            line = str(src.n(10 ** src.int(1, 18)))
        entries.append((St('input', lv=lv, word=src.pick(['INPUT', 'READ'])), [line]))
        if not t:
            entries.append(assign(lv, S('still a string')))
            entries.append(assign(lv, src.pick([L(1), ('bool', True), ('real', '1.0')])))
        entries.append(St('expr', e=('var', lv)))
        if t in ('INTEGER', 'REAL'):
            entries.append(out(B('+', ('var', lv), L(1))))
        entries.append(out(*sum([[('var', q), S('|')] for q in places], [])))
    if src.chance(50) and t:
        # a procedure reads into a parameter / local
        entries += [St('proc', name='P', params=[('q', t, 'BYREF', False)], rtype=None, body=[St('input', lv=('q', []), word='INPUT'), out(S('q='), V('q'))]),
                    (St('call', name='P', args=[V('x')], parens=True), [src.pick([l for l in pool if len(l) == 1 or t != 'CHAR'])]), out(V('x'))]
    m, rows = msession(env, entries, pre=pre)
    env.mark(str(t), 'complete' if not m.cut else 'cut: ' + m.cut)
    env.nontrivial = True


def input_bad(src, env, i):
    """INPUT into something that cannot take a line is an error and changes nothing"""
    t = ['DATE', 'Col', 'PI', 'RA', 'array', 'enum name', 'undefined element'][i % 7]
    pre = list(T0) + [decl('INTEGER', 't1', 't2'), decl('INTEGER', 'arr', bounds=[(1, 2)])]
    tgt = 'x'
    if t in TYPES:
        pre += [decl(t, 'x')] + setp(t, ('x', []), 1)
        sh = show(t, ('x', []))
    else:
        tgt = {'array': 'arr', 'enum name': 'Red', 'undefined element': 'arr[3]'}[t]
        sh = out(V('arr', ('[', [L(1)])), V('arr', ('[', [L(2)])), V('Red'))
    ents = [lines_text([s]) for s in pre] + [lines_text([sh]), ('INPUT ' + tgt, [src.pick(['// 5', '// Green', '//'])]), lines_text([sh])]
    res, r = session(env, ents)
    for e in res[:len(pre)]:
        if e.kind != 'ok':
            raise Fail('set-up rejected', observed=repr(e))
    a, x, b = res[-3:]
    if a.kind != 'ok' or x.kind != 'runtime' or b.kind != 'ok' or a.out != b.out:
        raise Fail('INPUT into %s: must be an error without effect' % t, before=repr(a), statement=repr(x), after=repr(b))
    text = '\n'.join(e if isinstance(e, str) else e[0] for e in ents) + '\n'
    o = Obs(env.file(text, b'5\nGreen\n'))
    if o.kind != 'runtime' or o.line is None:
        raise Fail('INPUT into %s is not a runtime error of the program' % t, program=numbered(text), observed=o.brief())
    env.mark(t)
    env.nontrivial, env.digest = True, text
    env.sample = dict(target=t)


# text that is no value of the type: an error without effect or the documented 0 / FALSE, never a part of it or another reading
ODD_INT = ['1.5', '12x', '7.0', '-2.9', '1e3', '0x10', '1 2', '5,', '--5', '5-', 'x5', '1.', '.5', '3/2', '12 x', '4.999999', '0.5', "'5'", '"5"', '$5', '5%', '1_000', '1,000', '2TRUE']
ODD_REAL = ['1.5x', '1.2.3', '1 2', '2.5,', '--1.5', '1.5-', 'x1.5', '3/2', '1,5', '"2.5"', '1.5e', '2.5 x', '$1.5', '-1.5-2']
ODD_BOOL = ['yes', 'no', '1', '0', 'T', 'F', 'FALSE ', 'FALSES', 'NOT FALSE', 'x', 'FALSETRUE', 'TRUEFALSE', 'UNTRUE', '-', '.', 'Y', 'ENDIF', '2', 'on']


def input_odd(src, env, i):
    t = ['INTEGER', 'REAL', 'BOOLEAN'][i % 3]
    places = ['x', 'a[2]', 'r.f', 'p^', 'r.g[1]']
    pre = ['TYPE PT = ^%s' % t, 'TYPE H\nDECLARE f : %s\nDECLARE g : ARRAY[1:2] OF %s\nENDTYPE' % (t, t), 'DECLARE x, y : ' + t, 'DECLARE a : ARRAY[1:3] OF ' + t, 'DECLARE r : H', 'DECLARE p : PT', 'p <- ^y',
           'PROCEDURE get(BYREF q : %s)\nINPUT q\nENDPROCEDURE' % t]
    ents, judge = list(pre), []
    known = {'INTEGER': ['41', '-7'], 'REAL': ['41.25', '-7.5'], 'BOOLEAN': ['TRUE', 'FALSE']}[t]
    for _ in range(src.int(2, 8)):
        pl = src.pick(places)
        old = src.pick(known)
        if t == 'INTEGER':
            line = src.pick(ODD_INT) if src.chance(60) else '%d%s' % (src.int(1, 999), src.pick(['.5', '.0', 'x', 'e', ' 1', '.', ':']))
            none = '0'
        elif t == 'REAL':
            line = src.pick(ODD_REAL) if src.chance(60) else '%d.%d%s' % (src.int(1, 999), src.int(1, 99), src.pick(['x', '.', ' 1', ':', 'ab']))
            none = '0.0'
        else:
            line = src.pick(ODD_BOOL)
            none = 'FALSE'
        ents.append('%s <- %s' % (pl, old))
        k = len(ents)
        ents += [(src.pick(['INPUT %s', 'READ %s', 'CALL get(%s)']) % pl, [line]), pl]
        judge.append((k, pl, old, line, none))
    res, r = session(env, ents)
    for k, pl, old, line, none in judge:
        st, val = res[k], res[k + 1]
        got = val.out.strip('\n')
        want = [none] if st.kind == 'ok' else [old]
        if st.kind not in ('ok', 'runtime') or val.kind != 'ok' or got not in want:
            raise Fail('INPUT of %r into %s %s' % (line, t, pl), statement=repr(st), expected='an error and %s, or %s' % (old, none), observed=repr(val))
    env.mark(t)
    env.nontrivial, env.digest = True, repr(ents)
    env.sample = dict(entries=repr(ents[len(pre):len(pre) + 6]))


def typed_case(src, env, i):
    g = Gen(src, errors=25, size=12, depth=2)
    prog = g.program()
    m, o = diff(env, prog, g.stdin)
    env.mark(m.kind if m.exc is None else 'runtime: %s' % m.exc)
    env.nontrivial = True


STREAMS = [
    Stream('channels', channel_case, len(TYPES) * len(CHANNELS) * 4, len(TYPES) * len(CHANNELS) * 60),
    Stream('histories', redecl_case, 6000, 150000),
    Stream('input', input_case, 3000, 30000),
    Stream('input-bad', input_bad, 70, 700),
    Stream('input-odd', input_odd, 600, 8000),
    Stream('typed', typed_case, 8000, 200000),
]
