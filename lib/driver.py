"""Runs the interpreter under test through the fork server."""
import os, shutil, signal, struct, subprocess, tempfile
import resource

PROG = 'p.psc'
SCRATCH_BASE = '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
NOBODY = 65534
SAN_OPTS = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:symbolize=0:handle_segv=1:handle_abort=1:'
                    'detect_stack_use_after_return=0:allocator_may_return_null=0:quarantine_size_mb=16:'
                    'malloc_context_size=8:max_allocation_size_mb=2048',
    'UBSAN_OPTIONS': 'print_stacktrace=0:halt_on_error=1:exitcode=99:symbolize=0',
}


class ServerDied(Exception):
    pass


class Result:
    """Outcome of one run.  code: exit status, or None when killed by signal `sig`."""
    __slots__ = ('code', 'sig', 'out', 'err', 'inconclusive', 'files', 'consumed')

    def __init__(self, status, out, err):
        if os.WIFSIGNALED(status):
            self.code, self.sig = None, os.WTERMSIG(status)
        else:
            self.code, self.sig = os.WEXITSTATUS(status), None
        self.out, self.err = out, err
        self.inconclusive = self.sig in (signal.SIGPROF, signal.SIGALRM, signal.SIGXCPU, signal.SIGKILL)

    @property
    def crashed(self):
        return not self.inconclusive and self.code not in (0, 1)

    def __repr__(self):
        return 'Result(code=%r sig=%r out=%r err=%r)' % (self.code, self.sig, self.out[-2000:], self.err[-2000:])


def _preexec():
    resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    resource.setrlimit(resource.RLIMIT_STACK, (1 << 29, 1 << 29))
    os.setsid()


class Server:
    def __init__(self, exe, scratch=None):
        self.exe = exe
        self.own = scratch is None
        self.root = scratch or tempfile.mkdtemp(prefix='pse_', dir=SCRATCH_BASE)
        os.chmod(self.root, 0o755)
        self.cwd = os.path.join(self.root, 'w')
        self.proc = None
        self.fresh()
        self.start()

    def start(self):
        env = {'LC_ALL': 'C', 'TZ': 'UTC', 'TERM': 'dumb', 'INPUTRC': '/dev/null', 'HOME': '/nonexistent',
               'PATH': '/usr/bin:/bin'}
        env.update(SAN_OPTS)
        self.proc = subprocess.Popen(self.command(), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.DEVNULL, env=env, cwd='/', preexec_fn=_preexec, bufsize=0)
        self.r = self.proc.stdout
        self.w = self.proc.stdin

    def command(self):
        return [self.exe]

    def fresh(self):
        """Empty private working directory, owned by the unprivileged user."""
        if os.path.isdir(self.cwd):
            names = os.listdir(self.cwd)
            if names:
                os.chmod(self.cwd, 0o755)
                for n in names:
                    p = os.path.join(self.cwd, n)
                    if os.path.isdir(p) and not os.path.islink(p):
                        os.chmod(p, 0o700)
                        shutil.rmtree(p)
                    else:
                        os.unlink(p)
        else:
            os.mkdir(self.cwd)
            if os.getuid() == 0:
                os.chown(self.cwd, NOBODY, NOBODY)
            os.chmod(self.cwd, 0o755)

    def put(self, name, data, mode=0o644):
        p = os.path.join(self.cwd, name)
        with open(p, 'wb') as f:
            f.write(data)
        os.chmod(p, mode)
        if os.getuid() == 0:
            os.chown(p, NOBODY, NOBODY)

    def files(self):
        """Regular files of the working directory except the program itself."""
        r = {}
        for base, dirs, names in os.walk(self.cwd):
            for n in names:
                p = os.path.join(base, n)
                k = os.path.relpath(p, self.cwd)
                if k != PROG and os.path.isfile(p) and not os.path.islink(p):
                    with open(p, 'rb') as f:
                        r[k] = f.read()
        return r

    def _read(self, n):
        b = b''
        while len(b) < n:
            c = self.r.read(n - len(b))
            if not c:
                raise ServerDied('fork server closed its pipe')
            b += c
        return b

    def _str(self):
        n, = struct.unpack('<I', self._read(4))
        return self._read(n) if n else b''

    def run(self, args, stdin=b'', cpu_ms=4000, flags=0):
        def s(x):
            if isinstance(x, str):
                x = x.encode('latin-1')
            return struct.pack('<I', len(x)) + x
        pay = struct.pack('<II', cpu_ms, flags) + s(self.cwd) + s(stdin) + struct.pack('<I', len(args) + 1) + \
            s('pse') + b''.join(s(a) for a in args)
        self.w.write(struct.pack('<I', len(pay)) + pay)
        status, consumed = struct.unpack('<iI', self._read(8))
        out = self._str()
        err = self._str()
        r = Result(status, out, err)
        r.consumed = consumed
        return r

    def run_file(self, text, stdin=b'', pedantic=False, **kw):
        if isinstance(text, str):
            text = text.encode('latin-1')
        self.put(PROG, text)
        return self.run((['-p'] if pedantic else []) + [PROG], stdin, **kw)

    def repl(self, lines, pedantic=False, **kw):
        if isinstance(lines, str):
            lines = lines.encode('latin-1')
        return self.run(['-p'] if pedantic else [], lines, **kw)

    def close(self):
        if self.proc:
            try:
                self.w.close()
                self.proc.wait(5)
            except Exception:
                self.proc.kill()
            self.r.close()
            self.proc = None
        if self.own:
            shutil.rmtree(self.root, ignore_errors=True)


class MemServer(Server):
    """The fork server under valgrind's memcheck; exit status 99 stands for an error it reports.  Anything else abnormal (memcheck runs
    out of memory where the program would throw, small stacks) counts as inconclusive."""
    def command(self):
        os.makedirs(self.root + '/log', mode=0o700, exist_ok=True)
        return ['/usr/bin/valgrind', '-q', '--error-exitcode=99', '--leak-check=no', '--main-stacksize=268435456', '--log-file=%s/log/%%p' % self.root, self.exe]

    def run(self, args, stdin=b'', cpu_ms=4000, flags=0):
        r = super().run(args, stdin, cpu_ms * 8, flags)
        d = self.root + '/log'
        for n in os.listdir(d):
            if n != str(self.proc.pid):
                if r.code == 99:
                    with open(d + '/' + n, 'rb') as f:
                        r.err += b'\n' + f.read(6000)
                os.unlink(d + '/' + n)
        if r.code not in (0, 1, 99):
            r.inconclusive = True
        return r
