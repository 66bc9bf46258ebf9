"""Builds /repo's working tree into /verif/build/<variant> with the fork-server main."""
import fcntl, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PSE_REPO', '/repo')
HOOK = 'PSE_VERIF_BUDGET'
COMMON = '-w -g1 -Dmain=pse_main -D%s' % HOOK
VARIANTS = {
    'plain': dict(cc='gcc', cxx='g++', flags='-O1 ' + COMMON, ld='', opts=[]),
    'san': dict(cc='clang', cxx='clang++',
                flags='-O1 -fno-omit-frame-pointer -fsanitize=address,undefined '
                      '-fno-sanitize=signed-integer-overflow,float-cast-overflow,function '
                      '-fno-sanitize-recover=undefined -D_GLIBCXX_ASSERTIONS -DPSE_SAN ' + COMMON,
                ld='-fsanitize=address,undefined', opts=[]),
    # the branch of getLine used where readline is not installed
    'noreadline': dict(cc='gcc', cxx='g++', flags='-O1 ' + COMMON, ld='', opts=['-DHAS_READLINE=OFF']),
}
# run under valgrind's memcheck, which also sees the use of values that were never set
VARIANTS['mem'] = dict(cc='gcc', cxx='g++', flags='-O1 -DPSE_SAN ' + COMMON, ld='', opts=[])
# in-process coverage-guided fuzzing (lib/fuzz_target.cpp instead of the fork server)
VARIANTS['fuzz'] = dict(VARIANTS['san'], flags=VARIANTS['san']['flags'] + ' -fsanitize=fuzzer-no-link', ld='-fsanitize=fuzzer,address,undefined',
                        opts=['-DHAS_READLINE=OFF'], main='fuzz_target')
# the program as shipped, no hooks and no replacement main
SHIP = dict(cc='gcc', cxx='g++', flags='-O2 -w', ld='', opts=[])


class BuildError(Exception):
    pass


def _run(cmd, env, what):
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if p.returncode != 0:
        raise BuildError('%s failed:\n%s' % (what, p.stdout.decode('utf8', 'replace')[-6000:]))


def build(variant):
    v = SHIP if variant == 'ship' else VARIANTS[variant]
    root = os.environ.get('PSE_BUILD', os.path.join(VERIF, 'build'))
    d = os.path.join(root, variant)
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ, CC=v['cc'], CXX=v['cxx'], LC_ALL='C', HOME='/root')
    with open(os.path.join(root, variant + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ld = v['ld']
        if variant != 'ship':
            name = v.get('main', 'forkserver')
            fs = os.path.join(VERIF, 'lib', name + '.cpp')
            obj = os.path.join(d, name + '.o')
            if name != 'forkserver' or not os.path.exists(obj) or os.path.getmtime(obj) < os.path.getmtime(fs):
                _run([v['cxx'], '-std=c++20'] + v['flags'].split() + ['-I', REPO + '/src', '-c', fs, '-o', obj], env, 'fork server compile')
                exe = os.path.join(d, 'PseudoEngine2')
                if os.path.exists(exe):
                    os.unlink(exe)
            ld = obj + ' ' + ld
        _run(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=None', '-DCMAKE_CXX_COMPILER_FORCED=1', '-DCMAKE_C_COMPILER_FORCED=1',
              '-DCMAKE_CXX_FLAGS=' + v['flags'], '-DCMAKE_CXX_STANDARD_LIBRARIES=' + ld] + v['opts'], env, 'cmake')
        _run(['ninja', '-C', d, '-j8', 'PseudoEngine2'], env, 'ninja')
    return os.path.join(d, 'PseudoEngine2')


if __name__ == '__main__':
    for x in sys.argv[1:] or list(VARIANTS):
        t = time.time()
        print(build(x), '%.1fs' % (time.time() - t))
