// Fork server around the interpreter's own main() (compiled as pse_main).
// Reads requests on fd 0, answers on fd 1.  Each request runs pse_main once in a forked,
// unprivileged, resource-limited child.
//   request : u32 payload length, payload
//   flags 1: stay root; 2: stderr goes to stdout (program order is kept: cerr is tied to cout); 4: tiny file-size limit; 8: few file descriptors; 16: 8 MB of stack; 32: ten times as many array cells
//   payload : u32 cpu_ms, u32 flags, str cwd, str stdin, u32 argc, argc * str
//   answer  : i32 wait status, u32 bytes of stdin consumed, str stdout, str stderr
//   str     : u32 length + bytes
#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <grp.h>
#include <iostream>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#undef main
int pse_main(int argc, char **argv);

static bool readAll(int fd, void *p, size_t n) {
    char *c = static_cast<char*>(p);
    while (n) {
        ssize_t r = read(fd, c, n);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) return false;
        c += r; n -= r;
    }
    return true;
}

static bool writeAll(int fd, const void *p, size_t n) {
    const char *c = static_cast<const char*>(p);
    while (n) {
        ssize_t r = write(fd, c, n);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) return false;
        c += r; n -= r;
    }
    return true;
}

struct Rd {
    const std::string &s; size_t i = 0;
    uint32_t u32() { uint32_t v = 0; if (i + 4 <= s.size()) memcpy(&v, s.data() + i, 4); i += 4; return v; }
    std::string str() { uint32_t n = u32(); std::string r = s.substr(i, n); i += n; return r; }
};

static void lim(int what, rlim_t v) { struct rlimit r{v, v}; setrlimit(what, &r); }

static std::string slurp(int fd) {
    struct stat st; std::string r;
    if (fstat(fd, &st) != 0) return r;
    size_t n = st.st_size; const size_t cap = 16u << 20;
    if (n > cap) n = cap;
    r.resize(n);
    size_t off = 0;
    while (off < n) { ssize_t k = pread(fd, &r[off], n - off, off); if (k <= 0) break; off += k; }
    r.resize(off);
    return r;
}

int main() {
    signal(SIGPIPE, SIG_IGN);
    int in = fcntl(0, F_DUPFD_CLOEXEC, 100), out = fcntl(1, F_DUPFD_CLOEXEC, 101);
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 0); dup2(nul, 1);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    while (true) {
        uint32_t len;
        if (!readAll(in, &len, 4)) return 0;
        std::string pay(len, '\0');
        if (!readAll(in, &pay[0], len)) return 0;
        Rd rd{pay};
        uint32_t cpu = rd.u32(), flags = rd.u32();
        std::string cwd = rd.str(), input = rd.str();
        uint32_t argc = rd.u32();
        std::vector<std::string> args;
        for (uint32_t k = 0; k < argc; k++) args.push_back(rd.str());

        int fi = memfd_create("in", 0), fo = memfd_create("out", 0), fe = memfd_create("err", 0);
        writeAll(fi, input.data(), input.size());
        lseek(fi, 0, SEEK_SET);
        // appending output keeps the two streams' offsets honest even if reopened
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            dup2(fi, 0); dup2(fo, 1); dup2(flags & 2 ? fo : fe, 2);
            close(fi); close(fo); close(fe); close(in); close(out); close(nul);
            if (chdir(cwd.c_str()) != 0) _exit(120);
            umask(022);
            if (!(flags & 1)) {
                if (setgroups(0, nullptr) != 0 && getuid() == 0) _exit(121);
                if (setgid(65534) != 0 || setuid(65534) != 0) _exit(121);
            }
            lim(RLIMIT_CORE, 0);
            lim(RLIMIT_FSIZE, flags & 4 ? 4096u : 8u << 20);
            if (flags & 8) lim(RLIMIT_NOFILE, 24);
            if (flags & 32) { setenv("PSE_VERIF_CELLS", "1000000", 1); setenv("PSE_VERIF_STEPS", "4000000", 1); }
            if (flags & 16) lim(RLIMIT_STACK, 8u << 20);
            lim(RLIMIT_CPU, cpu / 1000 + 2);
#ifndef PSE_SAN
            lim(RLIMIT_AS, 2ull << 30);
#endif
            signal(SIGXFSZ, SIG_IGN);
            signal(SIGPIPE, SIG_DFL);
            struct itimerval tv{{0, 0}, {(time_t)(cpu / 1000), (suseconds_t)(cpu % 1000) * 1000}};
            setitimer(ITIMER_PROF, &tv, nullptr);
            alarm(cpu / 1000 * 10 + 20);
            std::vector<char*> av;
            for (auto &a : args) av.push_back(&a[0]);
            av.push_back(nullptr);
            exit(pse_main((int) args.size(), av.data()));
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        std::string o = slurp(fo), e = slurp(fe);
        // how far standard input was read (the child shares the offset)
        uint32_t z = (uint32_t) lseek(fi, 0, SEEK_CUR);
        close(fi); close(fo); close(fe);
        int32_t status = st; uint32_t ol = o.size(), el = e.size();
        std::string ans;
        ans.append((char*) &status, 4).append((char*) &z, 4).append((char*) &ol, 4).append(o).append((char*) &el, 4).append(e);
        if (!writeAll(out, ans.data(), ans.size())) return 0;
    }
}
