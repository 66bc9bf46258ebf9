#!/usr/bin/env python3
"""Sensitivity sweep: small random edits of the sources, each run against the stable tests and the quick checks.
usage: mutants.py DIR NMUTANTS SEED NPAR   (results: DIR/results.jsonl; DIR holds the copies, outside /repo and /verif)
Edits that do not compile or that the project's own tests notice are dropped; an edit counts as seen as soon as one check reports it
(--all runs every check)."""
import glob, json, multiprocessing, os, random, re, shutil, subprocess, sys

OPS = [(r'==', '!='), (r'!=', '=='), (r'<=', '<'), (r'>=', '>'), (r' < ', ' <= '), (r' > ', ' >= '), (r'&&', '||'), (r'\|\|', '&&'),
       (r' \+ 1\b', ''), (r' - 1\b', ''), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r' \+ ', ' - '), (r' - ', ' + '),
       (r' \* ', ' / '), (r' / ', ' * '), (r'\+\+', '--'), (r'\+=', '-='), (r'!(?=[a-zA-Z(])', '')]


def sites(repo):
    out = []
    for f in sorted(glob.glob(repo + '/src/**/*.cpp', recursive=True) + glob.glob(repo + '/src/**/*.h', recursive=True)):
        rel = os.path.relpath(f, repo)
        if rel.endswith(('pch.h', 'budget.h', 'tokens.cpp')):
            continue
        for n, l in enumerate(open(f).read().split('\n')):
            s = l.strip()
            if not s or s.startswith(('//', '#', '*', 'namespace', 'using', 'extern', 'template', 'class', 'struct')):
                continue
            code = l.split('//')[0]
            for k, (a, b) in enumerate(OPS):
                for m in re.finditer(a, code):
                    if code[:m.start()].count('"') % 2 or 'include' in code:
                        continue
                    out.append((rel, n, l, l[:m.start()] + b + l[m.end():], 'op %s->%s' % (a, b)))
            m = re.match(r'(\s*)(?:\} )?(?:else )?if \((.*)\)( \{|$| \S.*;$)', code)
            if m:
                i = code.index('if (')
                out.append((rel, n, l, l.replace('if (', 'if (false && ', 1), 'if false'))
                out.append((rel, n, l, l.replace('if (', 'if (true || ', 1), 'if true'))
            if re.match(r'\s+(throw|break|continue|return;|[a-zA-Z_>.()\[\]-]+\(.*\);|[a-zA-Z_>.()\[\]-]+ [+-]?= .*;|delete |[a-z]+\+\+;)', code) and code.rstrip().endswith(';'):
                out.append((rel, n, l, re.match(r'\s*', l).group(0) + ';', 'delete statement'))
    return out


def worker(args):
    d, w, jobs, ckdir, checks, allchecks, scale, pw = args
    base = '%s/w%d' % (d, w)
    repo = base + '/repo'
    if not os.path.exists(repo):
        os.makedirs(base, exist_ok=True)
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        shutil.rmtree(repo + '/_build', ignore_errors=True)
    env = dict(os.environ, PSE_REPO=repo, PSE_BUILD=base + '/build', PSE_WORKERS=str(pw), PSE_SCALE=str(scale), PSE_FUZZ_S='3')
    stable = [x.split('::')[0] for x in json.load(open('/opt/vp/BASELINE.json'))['stable']]
    for job in jobs:
        rel, n, old, new, what = job
        f = repo + '/' + rel
        orig = open(f).read()
        ls = orig.split('\n')
        assert ls[n] == old
        ls[n] = new
        open(f, 'w').write('\n'.join(ls))
        rec = dict(file=rel, line=n + 1, old=old.strip(), new=new.strip(), what=what)
        try:
            p = subprocess.run([sys.executable, ckdir + '/lib/build.py', 'plain'], env=env, capture_output=True)
            if p.returncode:
                continue
            t = subprocess.run([sys.executable, '-c', TEST % dict(ck=ckdir, exe=base + '/build/plain/PseudoEngine2', repo=repo, tests=stable)], env=env, capture_output=True)
            if t.returncode:
                rec['result'] = 'tests'
                continue
            rec['caught'] = []
            rec['result'] = 'survived'
            for c in checks:
                try:
                    q = subprocess.run([sys.executable, 'check.py', c, '--quick'], cwd=ckdir, env=env, capture_output=True, timeout=400)
                except subprocess.TimeoutExpired:
                    rec.setdefault('noanswer', []).append(c)
                    continue
                if b'VIOLATION' in q.stdout:
                    rec['caught'].append(c)
                    rec['result'] = 'caught'
                    if not allchecks:
                        break
                elif q.returncode:
                    rec.setdefault('noanswer', []).append(c + ': ' + q.stderr.decode('latin-1')[-300:])
        finally:
            open(f, 'w').write(orig)
            if 'result' in rec:
                with open(d + '/results.jsonl', 'a') as g:
                    g.write(json.dumps(rec) + '\n')


TEST = '''
import sys, os, shutil
sys.path.insert(0, %(ck)r + '/lib')
from driver import Server
s = Server(%(exe)r)
for t in %(tests)r:
    s.fresh()
    for n in os.listdir(%(repo)r + '/tests'):
        s.put(n, open(%(repo)r + '/tests/' + n, 'rb').read())
    r = s.run([t], b'')
    if r.code != 0:
        s.close()
        sys.exit(1)
s.close()
'''

if __name__ == '__main__':
    d, n, seed, par = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    allchecks = '--all' in sys.argv
    ck = d + '/verif'
    if not os.path.exists(ck):
        subprocess.run(['cp', '-a', os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ck], check=True)
    order = 'C02 C05 C06 C07 C03 C04 C08 C09 C17 C18 C19 C13 C14 C15 C16 C11 C12 C10 C20 C01'.split()
    only = [a[len('--files='):] for a in sys.argv if a.startswith('--files=')]
    sel = [a[len('--checks='):].split(',') for a in sys.argv if a.startswith('--checks=')]
    if sel:
        order = sel[0]
    ss = sites('/repo')
    if only:
        ss = [s for s in ss if re.search(only[0], s[0])]
    random.Random(seed).shuffle(ss)
    print(len(ss), 'sites')
    ss = ss[:n]
    with multiprocessing.Pool(par) as pool:
        pool.map(worker, [(d, w, ss[w::par], ck, order, allchecks, float(os.environ.get('MUT_SCALE', '0.3')), max(1, 8 // par)) for w in range(par)], chunksize=1)
