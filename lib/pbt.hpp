// Choice-sequence property-based testing: a case is a function of the tape of choices it draws; failures are shrunk by
// deleting / lowering choices and re-running; the minimal tape is the replay file.
#pragma once
#include <stdint.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <dlfcn.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include "ref.hpp"

namespace pbt {

struct Fail { std::string msg; };
[[noreturn]] inline void fail(const char *fmt, ...) { char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); throw Fail{b}; }
#define CHECK(c, ...) do { if (!(c)) pbt::fail(__VA_ARGS__); } while (0)

struct Case {
    enum { CAP = 1 << 16 };
    std::vector<uint64_t> tape; size_t pos = 0; bool replay = false; ref::Rng rng; 
    std::map<std::string, int> labels; std::string desc; bool nontrivial = false; std::string distinct; uint64_t *shm = nullptr; int evals = 1;
    uint64_t raw(uint64_t bound) {        // 0 .. bound-1 (bound 0: full range); smaller is simpler
        uint64_t v;
        if (replay) v = pos < tape.size() ? tape[pos] : 0; else v = rng.next();
        if (bound) v %= bound;
        if (!replay || pos >= tape.size()) { if (pos < tape.size()) tape[pos] = v; else tape.push_back(v); }
        if (shm && pos < CAP - 2) { shm[1 + pos] = v; shm[0] = pos + 1; }
        pos++; return v;
    }
    long index = 0;
    uint64_t strat(uint64_t n, uint64_t div = 1, uint64_t off = 0) {   // stratified choice: runs through 0..n-1 with the case number
        uint64_t v; if (replay) return raw(n); v = ((uint64_t) index / div + off) % n; if (pos < tape.size()) tape[pos] = v; else tape.push_back(v); if (shm && pos < CAP - 2) { shm[1 + pos] = v; shm[0] = pos + 1; } pos++; return v; }
    uint64_t u64() { return raw(0); }
    uint64_t below(uint64_t n) { return raw(n ? n : 1); }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) raw((uint64_t) (hi - lo) + 1); }
    bool coin(unsigned num = 1, unsigned den = 2) { return raw(den) >= den - num; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    ref::Rng fork() { return ref::Rng(u64()); }   // long random material derived from one choice
    void label(const std::string &s) { labels[s]++; }
    void note(const char *fmt, ...) { char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (desc.size() < 600) { if (!desc.empty()) desc += "; "; desc += b; } }
};
void cpu_limit(unsigned seconds);
struct Group { std::string name; std::function<void(Case &)> fn; unsigned case_timeout; };
std::vector<Group> &groups();
struct Reg { Reg(const char *n, std::function<void(Case &)> f, unsigned t = 300) { groups().push_back({n, f, t}); } };
#define PROPERTY(name, timeout) static void name(pbt::Case &c); static pbt::Reg reg_##name(#name, name, timeout); static void name(pbt::Case &c)

extern int SIZE;                                 // parameter size of this run
extern std::map<std::string, std::string> OPT;   // key=value options (library paths ...)
const std::string &opt(const char *k);
void *load(const char *optname);                 // dlopen the library named by option (NULL if absent)
template <class F> F sym(void *h, const std::string &n) { return h ? (F) dlsym(h, n.c_str()) : (F) nullptr; }

// entropy given to the code under test
struct Entropy { ref::Rng rng; long calls = 0, bytes = 0, fail_at = -1; long switch_at = -1; uint64_t switch_seed = 0; int pattern = 0; std::vector<uint8_t> script; size_t script_pos = 0;
    bool record = false; std::vector<uint8_t> log; std::vector<long> lens; bool threaded = false; bool delays = false; bool fail_garbage = false; bool lockfree = false; bool fail_once = false; long failed = 0; uint64_t seed = 0; };
extern Entropy ENT;
extern thread_local ref::Rng *MINE;              // if set, the calling thread draws its entropy from here (deterministic per thread, no synchronisation)
void entropy(uint64_t seed);
}
