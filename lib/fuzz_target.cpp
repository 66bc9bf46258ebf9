// libFuzzer target: one input is <mode byte> program [0x1e standard input [0x1e contents of the data files]].
// mode bit 0: --pedantic; bit 1: the program is typed into the REPL.
// The custom mutator edits tokens and lines, and hands half of the work to libFuzzer's byte mutators.
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <iostream>
#include <random>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
#include <vector>
#include "pch.h"
#include "psc/budget.h"
#undef main

int pse_main(int argc, char **argv);

extern std::string psfilename;
extern bool REPLMode;
extern bool pedantic;
extern "C" size_t LLVMFuzzerMutate(uint8_t *Data, size_t Size, size_t MaxSize);

static int in_fd = -1;
static std::vector<std::string> vocab;

extern "C" int LLVMFuzzerInitialize(int *, char ***) {
    const char *dir = getenv("PSE_FUZZ_CWD");
    if (dir == nullptr || chdir(dir) != 0) { fprintf(stderr, "PSE_FUZZ_CWD\n"); _exit(3); }
    if (FILE *f = fopen(getenv("PSE_FUZZ_VOCAB"), "r")) {
        char buf[256];
        while (fgets(buf, sizeof buf, f)) {
            std::string s(buf);
            if (!s.empty() && s.back() == '\n') s.pop_back();
            if (!s.empty()) vocab.push_back(s);
        }
        fclose(f);
    }
    vocab.push_back("\n");
    in_fd = memfd_create("in", 0);
    dup2(in_fd, 0);
    struct rlimit r{8u << 20, 8u << 20};
    setrlimit(RLIMIT_FSIZE, &r);
    signal(SIGXFSZ, SIG_IGN);
    return 0;
}

static void put(const char *name, const std::string &s) {
    int fd = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return;
    if (write(fd, s.data(), s.size()) < 0) {}
    close(fd);
}

static void clean() {
    DIR *d = opendir(".");
    if (d == nullptr) return;
    while (dirent *e = readdir(d)) {
        if (strcmp(e->d_name, ".") == 0 || strcmp(e->d_name, "..") == 0) continue;
        unlink(e->d_name);
    }
    closedir(d);
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    if (size < 1) return 0;
    std::string all(reinterpret_cast<const char*>(data) + 1, size - 1), prog = all, input, file;
    size_t p = all.find('\x1e');
    if (p != std::string::npos) {
        prog = all.substr(0, p);
        input = all.substr(p + 1);
        size_t q = input.find('\x1e');
        if (q != std::string::npos) {
            file = input.substr(q + 1);
            input.resize(q);
        }
    }
    int mode = data[0];
    clean();
    put("f.txt", file);
    put("r.dat", file);
    if (mode & 2) input = prog + "\n" + input;
    if (ftruncate(in_fd, 0) != 0) return 0;
    if (pwrite(in_fd, input.data(), input.size(), 0) < 0) return 0;
    lseek(0, 0, SEEK_SET);
    rewind(stdin);
    clearerr(stdin);
    std::cin.clear();
    PSC::Budget::steps = PSC::Budget::maxSteps - 5000;       // short runs are enough here
    PSC::Budget::depth = PSC::Budget::cells = 0;
    psfilename = "<stdin>";
    REPLMode = true;
    pedantic = false;
    char name[] = "pse", opt[] = "-p", path[] = "p.psc";
    std::vector<char*> args{name};
    if (mode & 1) args.push_back(opt);
    if (!(mode & 2)) {
        put(path, prog);
        args.push_back(path);
    }
    int argc = (int) args.size();
    args.push_back(nullptr);
    int code = pse_main(argc, args.data());
    if (code != 0 && code != 1) abort();
    return 0;
}

// ---------------------------------------------------------------- mutation of tokens and lines
static bool word(char c) { return isalnum((unsigned char) c) || c == '_'; }

static std::vector<std::string> split(const std::string &s) {
    std::vector<std::string> r;
    size_t i = 0;
    while (i < s.size()) {
        size_t j = i + 1;
        if (word(s[i])) while (j < s.size() && word(s[j])) j++;
        else if (s[i] == ' ') while (j < s.size() && s[j] == ' ') j++;
        else if (s[i] == '"' || s[i] == '\'') {
            size_t k = j;
            while (k < s.size() && s[k] != s[i] && s[k] != '\n') k++;
            if (k < s.size() && s[k] == s[i]) j = k + 1;
        } else if (s[i] == '<' && j < s.size() && (s[j] == '-' || s[j] == '=' || s[j] == '>')) j++;
        r.push_back(s.substr(i, j - i));
        i = j;
    }
    return r;
}

static std::vector<std::string> lines(const std::string &s) {
    std::vector<std::string> r(1);
    for (char c : s) { r.back() += c; if (c == '\n') r.emplace_back(); }
    return r;
}

static std::string join(const std::vector<std::string> &v) {
    std::string r;
    for (auto &s : v) r += s;
    return r;
}

static void edit(std::vector<std::string> &v, std::mt19937 &g, bool tokens, const std::vector<std::string> &other) {
    auto n = [&](size_t k) { return k ? g() % k : 0; };
    switch (n(7)) {
        case 0: if (!v.empty()) v.erase(v.begin() + n(v.size())); break;
        case 1: if (!v.empty()) { auto x = v[n(v.size())]; v.insert(v.begin() + n(v.size() + 1), x); } break;
        case 2: if (v.size() > 1) std::swap(v[n(v.size())], v[n(v.size())]); break;
        case 3: if (!v.empty() && !other.empty()) v[n(v.size())] = other[n(other.size())]; break;
        case 4: if (!other.empty()) { size_t i = n(v.size() + 1); v.insert(v.begin() + i, other[n(other.size())]); if (tokens) v.insert(v.begin() + i, " "); } break;
        case 5: if (!v.empty()) {           // copy a range
            size_t i = n(v.size()), k = 1 + n(std::min<size_t>(6, v.size() - i)), j = n(v.size() + 1);
            std::vector<std::string> c(v.begin() + i, v.begin() + i + k);
            v.insert(v.begin() + j, c.begin(), c.end());
            break;
        } break;
        case 6: if (v.size() > 2) {         // move a range
            size_t i = n(v.size()), k = 1 + n(std::min<size_t>(4, v.size() - i));
            std::vector<std::string> c(v.begin() + i, v.begin() + i + k);
            v.erase(v.begin() + i, v.begin() + i + k);
            v.insert(v.begin() + n(v.size() + 1), c.begin(), c.end());
        } break;
    }
}

extern "C" size_t LLVMFuzzerCustomMutator(uint8_t *data, size_t size, size_t max, unsigned seed) {
    std::mt19937 g(seed);
    if (g() % 3 == 0 || size < 2) return LLVMFuzzerMutate(data, size, max);
    std::string s(reinterpret_cast<char*>(data) + 1, size - 1), tail;
    size_t p = s.find('\x1e');
    if (p != std::string::npos) { tail = s.substr(p); s.resize(p); }
    int k = 1 + g() % 4;
    if (g() % 3) {
        auto v = split(s);
        std::vector<std::string> own;
        for (auto &t : v) if (t != " " && t != "\n") own.push_back(t);
        while (k--) edit(v, g, true, g() % 2 ? own : vocab);
        s = join(v);
    } else {
        auto v = lines(s), o = v;
        while (k--) edit(v, g, false, o);
        s = join(v);
    }
    if (g() % 16 == 0) data[0] = g() % 4;
    s += tail;
    if (s.size() + 1 > max) s.resize(max - 1);
    memcpy(data + 1, s.data(), s.size());
    return s.size() + 1;
}

extern "C" size_t LLVMFuzzerCustomCrossOver(const uint8_t *a, size_t an, const uint8_t *b, size_t bn, uint8_t *out, size_t max, unsigned seed) {
    std::mt19937 g(seed);
    std::string x(reinterpret_cast<const char*>(a), an), y(reinterpret_cast<const char*>(b), bn), tail;
    size_t p = x.find('\x1e');
    if (p != std::string::npos) { tail = x.substr(p); x.resize(p); }
    p = y.find('\x1e');
    if (p != std::string::npos) { if (tail.empty() || g() % 2) tail = y.substr(p); y.resize(p); }
    auto v = lines(x), w = lines(y.empty() ? y : y.substr(1));
    size_t i = g() % w.size(), k = 1 + g() % (w.size() - i), j = g() % (v.size() + 1);
    if (j == 0 && !x.empty()) j = 1;
    v.insert(v.begin() + std::min(j, v.size()), w.begin() + i, w.begin() + i + k);
    std::string s = join(v) + tail;
    if (s.size() > max) s.resize(max);
    memcpy(out, s.data(), s.size());
    return s.size();
}
