#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from the specifications in tools/seeds/*.py and says which quick checks report each one.
usage: mkseed.py DIR NPAR [id-regex] [--all|--own|--none] [--force]
Each bug is applied to a copy of /repo under DIR, built with /opt/vp's flags, run against the 13 stable tests and its own demonstration
(both on the clean and the changed build).  Results: DIR/seeds.jsonl."""
import glob, json, multiprocessing, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPECS = {}

DEMO = '''#!/bin/bash
# Runs {what} in a scratch directory and compares what it prints with what the documentation prescribes (expected.txt).
here=$(cd "$(dirname "$0")" && pwd)
EXE=$PWD/_build/PseudoEngine2
d=$(mktemp -d)
trap 'rm -rf -- "$d"' EXIT
cp -- {files} "$d"/
cd "$d" || exit 2
{{
{script}
}} > "$d/.actual" 2> "$d/.err"
if ! cmp -s "$d/.actual" "$here/expected.txt"; then
    echo "differs from expected.txt:"
    diff -a "$here/expected.txt" "$d/.actual" | head -20
    exit 1
fi
'''


def S(id, prop, edits, needs, breaks, files=None, script=None, prog=None, inp=''):
    files = dict(files or {})
    if prog is not None:
        files['prog.pseudo'] = prog
        script = script or 'timeout 20 "$EXE" prog.pseudo < %s; echo "[exit $?]"' % ('input.txt' if inp else '/dev/null')
    if inp:
        files['input.txt'] = inp
    if id in SPECS:
        raise SystemExit('duplicate ' + id)
    SPECS[id] = dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, files=files, script=script)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, **kw)


def prep(base):
    repo = base + '/repo'
    if not os.path.exists(repo):
        os.makedirs(base, exist_ok=True)
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        shutil.rmtree(repo + '/_build', ignore_errors=True)
    return repo


def build(repo):
    p = sh('export HOME=/root CC=gcc CXX=g++; cd %s && cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-Wno-error && ninja -C _build -j4' % repo)
    return p.returncode == 0, p.stdout.decode('latin-1')[-1500:]


def demo(repo, folder):
    p = sh(['bash', folder + '/demo.sh'], cwd=repo)
    return p.returncode, p.stdout.decode('latin-1')[-1500:]


def one(a):
    d, w, ids, mode, pw = a
    base = '%s/s%d' % (d, w)
    repo = prep(base)
    clean = prep('%s/clean%d' % (d, w))
    for r in (repo, clean):
        sh('git checkout -q -- . && git clean -fdq -e _build && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=r)
    ok, _ = build(clean)
    assert ok
    order = 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20'.split()
    for i in ids:
        s = SPECS[i]
        rec = dict(id=i, prop=s['prop'])
        try:
            sh('git checkout -q -- .', cwd=repo)
            bad = None
            for f, old, new in s['edits']:
                t = open(repo + '/' + f).read()
                if t.count(old) != 1:
                    bad = 'edit of %s matches %d times: %r' % (f, t.count(old), old[:60])
                    break
                open(repo + '/' + f, 'w').write(t.replace(old, new))
            if bad:
                rec['error'] = bad
                continue
            diff = sh('git diff', cwd=repo).stdout
            removed = [l[1:] for l in diff.decode('latin-1').split('\n') if l.startswith('-') and not l.startswith('---')]
            orig = set()
            for f, _, _ in s['edits']:
                orig |= set(sh(['git', 'show', '9b7bedc:' + f], cwd='/repo').stdout.decode('latin-1').split('\n'))
            if not [l for l in removed if l in orig and l.strip() not in ('', '}', '{')]:
                rec['uncounted'] = True  # only lines of the fix commits: kept as a test of the checks, not under /verif/seeded
            rec['notoriginal'] = [l for l in removed if l not in orig]
            ok, log = build(repo)
            if not ok:
                rec['error'] = 'build: ' + log
                continue
            fo = '%s/out/%s' % (d, i)
            shutil.rmtree(fo, ignore_errors=True)
            os.makedirs(fo)
            open(fo + '/patch.diff', 'wb').write(diff)
            for n, c in s['files'].items():
                open(fo + '/' + n, 'wb').write(c if isinstance(c, bytes) else c.encode('latin-1'))
            open(fo + '/demo.sh', 'w').write(DEMO.format(what='the program(s) beside it', files=' '.join('"$here"/' + n for n in s['files']), script=s['script']))
            json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(fo + '/meta.json', 'w'), indent=1)
            # what the clean build prints is what the demonstration expects (read by the author before it is kept)
            tmp = '%s/tmp' % base
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            for n in s['files']:
                shutil.copy(fo + '/' + n, tmp)
            p = sh(['bash', '-c', s['script']], cwd=tmp, env=dict(os.environ, EXE=clean + '/_build/PseudoEngine2'))
            open(fo + '/expected.txt', 'wb').write(p.stdout)
            rec['expected'] = p.stdout.decode('latin-1')[-700:]
            shutil.rmtree(tmp, ignore_errors=True)
            # tests
            b = repo + '/_build'
            for n in ('new.txt', 'random.dat'):
                if os.path.exists(b + '/' + n):
                    os.unlink(b + '/' + n)
            t = sh('ctest --test-dir %s -j4 --timeout 60 --output-junit %s/j.xml < /dev/null' % (b, b))
            xml = open(b + '/j.xml').read()
            stable = [x.split('::')[0] for x in json.load(open('/opt/vp/BASELINE.json'))['stable']]
            failed = [n for n in stable if not re.search(r'<testcase name="%s"[^>]*status="run"' % re.escape(n), xml)]
            if failed:
                rec['error'] = 'tests: %s' % failed
                continue
            c0, o0 = demo(clean, fo)
            c1, o1 = demo(repo, fo)
            rec['demo'] = (c0, c1)
            rec['diff'] = o1
            if c0 != 0 or c1 == 0:
                rec['error'] = 'demo %d %d %s' % (c0, c1, o0)
                continue
            rec['ok'] = True
            rec['caught'] = []
            rec['noanswer'] = []
            cs = [] if mode == '--none' else order if mode == '--all' else [s['prop']]
            env = dict(os.environ, PSE_REPO=repo, PSE_BUILD=base + '/build', PSE_WORKERS=str(pw), VERIF_SEED='1', VERIF_TIER='quick')
            for c in cs:
                try:
                    q = sh([sys.executable, 'check.py', c, '--quick'], cwd=d + '/verif', env=env, timeout=900)
                except subprocess.TimeoutExpired:
                    rec['noanswer'].append(c + ' timeout')
                    continue
                if b'VIOLATION property=' + c.encode() in q.stdout and q.returncode == 1:
                    rec['caught'].append(c)
                elif q.returncode:
                    rec['noanswer'].append('%s %d %s' % (c, q.returncode, q.stderr.decode('latin-1')[-300:]))
        finally:
            sh('git checkout -q -- .', cwd=repo)
            with open(d + '/seeds.jsonl', 'a') as g:
                g.write(json.dumps(rec) + '\n')
            print(i, ('ok (uncounted)' if rec.get('uncounted') else 'ok') if rec.get('ok') else 'ERROR ' + rec.get('error', '?')[:600], 'caught=%s' % rec.get('caught'), rec.get('noanswer') or '', flush=True)


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    mode = ([a for a in sys.argv if a in ('--all', '--own', '--none')] + ['--own'])[0]
    d, par = args[0], int(args[1])
    pat = args[2] if len(args) > 2 else ''
    for f in sorted(glob.glob(HERE + '/seeds/*.py')):
        exec(compile(open(f).read(), f, 'exec'))
    os.makedirs(d, exist_ok=True)
    if mode != '--none':
        subprocess.run(['rsync', '-a', '--delete', '--exclude', 'build', '--exclude', '.git', '--exclude', 'seeded', VERIF + '/', d + '/verif'], check=False) if shutil.which('rsync') else \
            (shutil.rmtree(d + '/verif', ignore_errors=True), subprocess.run('mkdir -p %s/verif && cd %s && cp -a check.py checks lib corpus properties.jsonl MANIFEST.json known-findings.txt %s/verif/' % (d, VERIF, d), shell=True, check=True))
    ids = [i for i in SPECS if re.search(pat, i)]
    if '--force' not in sys.argv and os.path.exists(d + '/seeds.jsonl'):
        done = {json.loads(l)['id'] for l in open(d + '/seeds.jsonl') if json.loads(l).get('ok')}
        ids = [i for i in ids if i not in done]
    par = min(par, len(ids)) or 1
    with multiprocessing.Pool(par) as pool:
        pool.map(one, [(d, w, ids[w::par], mode, max(2, 8 // par)) for w in range(par)], chunksize=1)
