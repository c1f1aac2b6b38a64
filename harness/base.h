// Concrete replay layer: runs the real code on generated inputs against independent oracles.
#pragma once
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
typedef std::vector<int> Seq;

namespace hb {
struct Shared { volatile long idx; volatile long evals, nontrivial, distinct; volatile int failed; volatile size_t dn; char msg[4096]; char desc[1 << 16]; char samples[4][512]; volatile int ns; };
static Shared* S;
static std::string scratch;  // a directory of this run, removed at its end
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed, uint64_t idx) : s(seed * 0x9e3779b97f4a7c15ull + idx * 0xd1342543de82ef95ull + 12345) { next(); next(); }
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
    int in(int a, int b) { return a + below(b - a + 1); }
    bool chance(int a, int b) { return below(b) < a; }
};
// numbers worth trying as sizes and values: those the checked sources mention and did not mention before (VX_LITS), and round ones
inline const std::vector<long>& fresh() { static std::vector<long> v = [] { std::vector<long> o; if (const char* e = getenv("VX_LITS")) { std::stringstream s(e); long x; while (s >> x) o.push_back(x); } return o; }(); return v; }
inline long number(Rng& r, long cap) {
    static const int round[] = {7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 25, 30, 31, 32, 33, 40, 48, 50, 60, 63, 64, 65, 80, 99, 100, 101, 120, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 9999, 10000, 32767, 32768, 65535, 65536, 65537, 99999, 100000, 1000000, 16777216};
    for (int k = 0; k < 12; k++) {
        long x = !fresh().empty() && r.chance(3, 5) ? fresh()[r.below(fresh().size())] : round[r.below(sizeof round / sizeof *round)];
        if (r.chance(1, 3)) x += r.in(-1, 2);
        if (x >= 0 && x <= cap) return x;
    }
    return r.below(std::min(cap, 10L) + 1);
}
// how often cases go beyond small shapes
inline bool odd(Rng& r, int n) { return r.chance(fresh().empty() ? 1 : 4, n); }
inline void say(const char* f, ...) {
    va_list ap; va_start(ap, f);
    size_t n = S->dn; if (n + 2 < sizeof S->desc) { int k = vsnprintf(S->desc + n, sizeof S->desc - n, f, ap); if (k > 0) S->dn = std::min(n + (size_t)k, sizeof S->desc - 1); }
    va_end(ap);
}
[[noreturn]] inline void fail(const char* f, ...) {
    va_list ap; va_start(ap, f); vsnprintf(S->msg, sizeof S->msg, f, ap); va_end(ap);
    S->failed = 1; _exit(1);
}
inline std::string str(const Seq& s) { std::string r = "["; for (size_t i = 0; i < s.size(); i++) r += (i ? "," : "") + std::to_string(s[i]); return r + "]"; }
inline std::string str(const std::vector<Seq>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? " " : "") + str(v[i]); return r + "]"; }
inline std::string str(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c < 32 || c > 126 || c == '"' || c == '\\') { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; } else r += (char)c; } return r + "\""; }
#define CHECK(c, ...) do { if (!(c)) hb::fail(__VA_ARGS__); } while (0)

typedef std::function<bool(Rng&, long)> Case;
extern std::map<std::string, Case> cases();

inline void jout(FILE* f, const char* s) { fputc('"', f); for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c == '\n') fputs("\\n", f); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// usage: bin PROPERTY SEED BUDGET_SECONDS REPLAY_FILE [CASE]
inline int run(int argc, char** argv) {
    std::string prop = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); double budget = atof(argv[3]); const char* replay = argv[4];
    long only = argc > 5 ? atol(argv[5]) : -1;
    auto cs = cases();
    if (!cs.count(prop)) { printf("{\"error\": \"no cases for %s\"}\n", prop.c_str()); return 2; }
    Case fn = cs[prop];
    S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fflush(stdout);
    char sdir[] = "/tmp/hbXXXXXX"; if (!mkdtemp(sdir)) { printf("{\"error\": \"no scratch\"}\n"); return 2; }
    scratch = sdir; std::string errs = scratch + "/stderr", models = scratch + "/model.json"; const char* errf = errs.c_str(); int efd = open(errf, O_RDWR | O_CREAT | O_TRUNC, 0600);
    pid_t pid = fork();
    if (pid == 0) {
        int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(efd, 2);
        std::unordered_set<uint64_t> seen;
        double t0 = now();
        for (long i = only >= 0 ? only : 0; only >= 0 ? i == only : (now() - t0 < budget); i++) {
            S->dn = 0; S->desc[0] = 0; S->idx = i;
            Rng r(seed, i);
            bool nt;
            try { nt = fn(r, i); }
            catch (std::exception& e) { fail("unexpected exception: %s", e.what()); }
            S->evals++;
            if (nt) {
                S->nontrivial++;
                uint64_t h = std::hash<std::string>()(std::string(S->desc, S->dn));
                if (seen.size() < 2000000 && seen.insert(h).second) { S->distinct++; if (S->ns < 4 && S->dn < 500) { strcpy(S->samples[S->ns], S->desc); S->ns++; } }
            }
        }
        _exit(0);
    }
    long last = -1; double tl = now(); int st = 0; bool hang = false;
    while (true) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (S->idx + S->evals != last) { last = S->idx + S->evals; tl = now(); }
        if (now() - tl > 45) { hang = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
        usleep(2000);
    }
    bool bad = hang || S->failed || !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    std::string err;
    { std::ifstream f(errf); std::stringstream b; b << f.rdbuf(); err = b.str().substr(0, 6000); }
    close(efd); unlink(errf); unlink(models.c_str()); rmdir(sdir);
    // killed from outside (memory pressure): no answer
    if (!hang && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { printf("{\"error\": \"killed\"}\n"); return 2; }
    if (bad) {
        std::string why = S->failed ? std::string(S->msg) : hang ? "the call does not return" : "the real code crashed: " + err.substr(0, 1500);
        FILE* f = fopen(replay, "w");
        if (f) {
            fprintf(f, "{\"property\": \"%s\", \"seed\": %llu, \"case\": %ld, \"why\": ", prop.c_str(), (unsigned long long)seed, (long)S->idx); jout(f, why.c_str());
            fprintf(f, ", \"input\": "); jout(f, S->desc); fprintf(f, ", \"stderr\": "); jout(f, err.c_str()); fprintf(f, "}\n"); fclose(f);
        }
        printf("{\"violation\": true, \"case\": %ld, \"why\": ", (long)S->idx); jout(stdout, why.c_str()); printf(", \"evaluations\": %ld, \"nontrivial\": %ld, \"distinct\": %ld}\n", S->evals + 1, S->nontrivial, S->distinct);
        return 1;
    }
    printf("{\"violation\": false, \"evaluations\": %ld, \"nontrivial\": %ld, \"distinct\": %ld, \"samples\": [", S->evals, S->nontrivial, S->distinct);
    for (int i = 0; i < S->ns; i++) { if (i) printf(", "); jout(stdout, S->samples[i]); }
    printf("]}\n");
    return 0;
}

// ---- generators
inline const std::vector<std::vector<int>>& pools() { static std::vector<std::vector<int>> p = {{0, 1}, {0, 1, 2}, {0, 1, 2, 3}, {-1, 0, 7}, {5, 3, 100000, -2147483647 - 1}, {2147483647, 0, -5, 12}, {4}}; return p; }
inline Seq gseq(Rng& r, const Seq& pool, int lo, int hi, int cap = 260) {
    Seq s(cap > hi && odd(r, 24) ? std::max<long>(lo, number(r, cap)) : r.in(lo, hi)); bool runs = s.size() > 12 && r.chance(1, 2);
    for (size_t i = 0; i < s.size(); i++) s[i] = runs && i && r.chance(9, 10) ? s[i - 1] : pool[r.below(pool.size())];
    return s;
}
// now and then symbols worth trying
inline Seq gsyms(Rng& r, Seq p) { if (odd(r, 16)) { int k = r.in(1, 3); for (int i = 0; i < k; i++) { int x = number(r, 2147483640); if (r.chance(1, 6)) x = -x; if (std::find(p.begin(), p.end(), x) == p.end()) p.push_back(x); } } return p; }
// distinct non-empty sequences, in random order
inline std::vector<Seq> gdict(Rng& r, const Seq& pool, int nmax, int lmax, bool closed) {
    std::set<Seq> d; bool many = odd(r, 40); int n = many ? number(r, 300) : r.in(0, nmax); if (many) lmax += 4;
    for (int i = 0; i < n; i++) {
        if (!d.empty() && r.chance(1, 2)) { auto it = d.begin(); std::advance(it, r.below(d.size())); Seq s = *it; int k = r.in(1, 2); for (int j = 0; j < k; j++) s.push_back(pool[r.below(pool.size())]); if ((int)s.size() <= lmax + 2) d.insert(s); }
        else if (!d.empty() && r.chance(1, 4)) { auto it = d.begin(); std::advance(it, r.below(d.size())); Seq s = *it; s.resize(r.in(1, s.size())); d.insert(s); }
        else d.insert(gseq(r, pool, 1, lmax, 130));
    }
    if (n && odd(r, 24)) { Seq s = gseq(r, pool, 2, 10, 130); int k = r.in(1, (int)std::min<size_t>(s.size(), 20)); d.insert(s); for (int i = 0; i < k; i++) { Seq t = s; t.resize(r.chance(1, 2) ? s.size() - std::min<size_t>(i + 1, s.size() - 1) : r.in(1, s.size())); d.insert(t); } }
    if (closed) { std::set<int> sy; for (auto& s : d) for (int x : s) sy.insert(x); for (int x : sy) d.insert(Seq(1, x)); }
    std::vector<Seq> v(d.begin(), d.end());
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
    return v;
}
inline bool starts(const Seq& s, size_t at, const Seq& p) { return s.size() - at >= p.size() && std::equal(p.begin(), p.end(), s.begin() + at); }
}  // namespace hb
using hb::Rng; using hb::str; using hb::say; using hb::fail;
int main(int argc, char** argv) { return hb::run(argc, argv); }
