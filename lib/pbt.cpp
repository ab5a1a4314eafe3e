#include "pbt.hpp"
#include <stdarg.h>
#include <pthread.h>
#include <sched.h>
#include <sys/time.h>
#include <atomic>
namespace pbt {
std::vector<Group> &groups() { static std::vector<Group> g; return g; }
int SIZE; std::map<std::string, std::string> OPT; Entropy ENT; thread_local ref::Rng *MINE;
const std::string &opt(const char *k) { return OPT[k]; }
void *load(const char *n) { auto it = OPT.find(n); if (it == OPT.end() || it->second.empty()) return nullptr; void *h = dlopen(it->second.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "dlopen %s: %s\n", n, dlerror()); exit(3); } return h; }
void entropy(uint64_t seed) { ENT = Entropy(); ENT.rng.reseed(seed); ENT.seed = seed; }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string jstr(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static uint64_t mix(uint64_t a, uint64_t b) { ref::Rng r(a * 0x9e3779b97f4a7c15ull + b); r.next(); return r.next(); }
static uint64_t hstr(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

// processor time of all threads, so that a busy machine is not taken for an endless loop
void cpu_limit(unsigned s) { struct itimerval v = {{0, 0}, {(time_t) s, 0}}; setitimer(ITIMER_PROF, &v, nullptr); }
static double CPU_MAX; static double cpu() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static bool run_one(Group &g, Case &c, std::string &msg) {
    static unsigned limit = (unsigned) atoi(opt("limit").c_str()); unsigned n = std::max(g.case_timeout, 60u), m = limit * (n >= 600 ? 2 : 1); cpu_limit(m && m < n ? m : n); double t = cpu(); struct Max { double t; ~Max() { cpu_limit(0); CPU_MAX = std::max(CPU_MAX, cpu() - t); } } mx{t};
    try { g.fn(c); return true; } catch (Fail &f) { msg = f.msg; return false; }
}
static bool fails(Group &g, const std::vector<uint64_t> &t, std::string &msg, Case *out = nullptr) { Case c; c.tape = t; c.replay = true; bool ok = run_one(g, c, msg); if (out) *out = c; return !ok; }
}
using namespace pbt;

static pthread_mutex_t ent_mx = PTHREAD_MUTEX_INITIALIZER;
extern "C" int randombytes(unsigned char *b, unsigned long long n) {
    if (MINE) { MINE->fill(b, n); return 0; }
    if (ENT.lockfree) {          // no synchronisation that could hide a data race from ThreadSanitizer
        static std::atomic<uint64_t> ctr{0}; thread_local ref::Rng mine(0); thread_local uint64_t from = 0; if (from != ENT.seed + 1) { from = ENT.seed + 1; mine.reseed(ENT.seed * 31 + ctr.fetch_add(1, std::memory_order_relaxed)); }
        mine.fill(b, n); if (ENT.delays) { unsigned d = (unsigned) mine.below(64); if (d < 4) usleep(200 * d); else if (d < 16) sched_yield(); } return 0; }
    if (ENT.threaded) pthread_mutex_lock(&ent_mx);
    long k = ENT.calls++; ENT.bytes += n; int rc = 0; unsigned d = 0;
    if (ENT.switch_at >= 0 && k == ENT.switch_at) ENT.rng.reseed(ENT.switch_seed);
    if (ENT.fail_at >= 0 && (ENT.fail_once ? k == ENT.fail_at : k >= ENT.fail_at)) { rc = 1; ENT.failed++; if (ENT.fail_garbage) memset(b, 0x41, n / 2); }
    else if (ENT.script_pos < ENT.script.size()) { for (unsigned long long i = 0; i < n; i++) b[i] = ENT.script_pos < ENT.script.size() ? ENT.script[ENT.script_pos++] : (uint8_t) ENT.rng.next(); }
    else ENT.rng.fill(b, n);
    if (ENT.record) { ENT.log.insert(ENT.log.end(), b, b + n); ENT.lens.push_back((long) n); }
    if (ENT.delays) d = (unsigned) (ENT.rng.next() % 64);
    if (ENT.threaded) pthread_mutex_unlock(&ent_mx);
    if (ENT.delays) { if (d < 4) usleep(200 * d); else if (d < 16) sched_yield(); }
    return rc;
}

// usage: prog key=value ...   keys: group size seed cases cap out state replay + library paths
int main(int argc, char **argv) {
    signal(SIGALRM, SIG_DFL); signal(SIGPROF, SIG_DFL);
    for (int i = 1; i < argc; i++) { char *e = strchr(argv[i], '='); if (!e) { fprintf(stderr, "bad arg %s\n", argv[i]); return 3; } OPT[std::string(argv[i], e - argv[i])] = e + 1; }
    if (OPT.count("list")) { for (auto &g : groups()) puts(g.name.c_str()); return 0; }
    SIZE = atoi(OPT["size"].c_str()); if (SIZE) ref::set_params(SIZE);
    Group *g = nullptr; for (auto &x : groups()) if (x.name == OPT["group"]) g = &x; if (!g) { fprintf(stderr, "no group %s\n", OPT["group"].c_str()); return 3; }
    std::string out = OPT["out"]; double t0 = now();
    auto emit = [&](const std::string &s) { FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w"); if (!f) exit(3); fputs(s.c_str(), f); fputc('\n', f); if (f != stdout) fclose(f); };
    if (OPT.count("replay")) {      // replay=FILE with words, one per line
        std::vector<uint64_t> t; FILE *f = fopen(OPT["replay"].c_str(), "r"); if (!f) return 3; unsigned long long v; while (fscanf(f, "%llu", &v) == 1) t.push_back(v); fclose(f);
        std::string msg; Case c; bool bad = fails(*g, t, msg, &c); if (bad) { emit("{\"fail\": " + jstr(msg) + ", \"desc\": " + jstr(c.desc) + "}"); return 1; } emit("{\"ok\": true}"); return 0;
    }
    long cases = atol(OPT["cases"].c_str()); double cap = OPT.count("cap") ? atof(OPT["cap"].c_str()) : 1e9; long first = OPT.count("first") ? atol(OPT["first"].c_str()) : 0;
    uint64_t seed = mix(mix(strtoull(OPT["seed"].c_str(), 0, 10), hstr(g->name)), SIZE + hstr(OPT["variant"]));
    uint64_t *shm = nullptr;
    if (OPT.count("state")) { int fd = open(OPT["state"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); if (fd < 0 || ftruncate(fd, Case::CAP * 8)) return 3; shm = (uint64_t *) mmap(0, Case::CAP * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (shm == MAP_FAILED) return 3; }
    long done = 0, evals = 0, nontriv = 0; std::set<uint64_t> distinct; std::map<std::string, long> labels; std::vector<std::string> samples;
    for (long i = first; i < first + cases; i++) {
        if (now() - t0 > cap && done > 0) break;
        Case c; c.rng.reseed(mix(seed, i)); c.shm = shm; c.index = i; if (shm) shm[0] = 0;
        std::string msg; bool ok = run_one(*g, c, msg); done++; evals += c.evals;
        for (auto &l : c.labels) labels[l.first] += l.second;
        if (c.nontrivial) { uint64_t h = c.distinct.empty() ? 0 : hstr(c.distinct); if (c.distinct.empty()) for (auto w : c.tape) h = mix(h, w); if (distinct.insert(h).second) nontriv++; if (samples.size() < 3) samples.push_back(c.desc); }
        if (!ok) {                    // shrink
            c.tape.resize(c.pos < c.tape.size() ? c.pos : c.tape.size()); std::vector<uint64_t> best = c.tape; std::string bmsg = msg, m; double ts = now(), budget = OPT.count("shrink") ? atof(OPT["shrink"].c_str()) : 45; int reps = 0;
            for (int k = 0; k < 3; k++) if (fails(*g, best, m)) reps++;
            if (reps == 0) { emit("{\"flaky\": " + jstr(msg) + "}"); return 4; }
            bool prog = reps == 3; long tries = 0;
            while (prog && now() - ts < budget) { prog = false;
                for (size_t w = best.size(); w >= 1 && now() - ts < budget; w /= 2) for (size_t s = 0; s + w <= best.size() && now() - ts < budget; ) { auto t = best; t.erase(t.begin() + s, t.begin() + s + w); tries++; if (fails(*g, t, m)) { best = t; bmsg = m; prog = true; } else s += w; }
                for (size_t s = 0; s < best.size() && now() - ts < budget; s++) { if (!best[s]) continue; auto t = best; t[s] = 0; tries++; if (fails(*g, t, m)) { best = t; bmsg = m; prog = true; continue; }
                    for (uint64_t q : {best[s] >> 32, best[s] >> 16, best[s] / 2, best[s] - 1}) { if (q >= best[s] || now() - ts >= budget) continue; t = best; t[s] = q; tries++; if (fails(*g, t, m)) { best = t; bmsg = m; prog = true; break; } } } }
            Case fc; fails(*g, best, m, &fc);
            std::string tp; for (auto w : best) tp += std::to_string(w) + " ";
            emit("{\"fail\": " + jstr(bmsg) + ", \"desc\": " + jstr(fc.desc) + ", \"tape\": " + jstr(tp) + ", \"case\": " + std::to_string(i) + ", \"shrink_tries\": " + std::to_string(tries) + ", \"reproduced\": " + std::to_string(reps) + ", \"cases\": " + std::to_string(done) + ", \"evals\": " + std::to_string(evals) + ", \"nontrivial\": " + std::to_string(nontriv) + "}");
            return 1;
        }
    }
    std::string s = "{\"cases\": " + std::to_string(done) + ", \"evals\": " + std::to_string(evals) + ", \"nontrivial\": " + std::to_string(nontriv) + ", \"labels\": {"; bool f = true;
    for (auto &l : labels) { s += (f ? "" : ", ") + jstr(l.first) + ": " + std::to_string(l.second); f = false; } s += "}, \"samples\": ["; f = true; for (auto &x : samples) { s += (f ? "" : ", ") + jstr(x); f = false; }
    char w[80]; snprintf(w, 80, "%.1f, \"cpu_max\": %.2f", now() - t0, CPU_MAX); emit(s + "], \"wall\": " + w + "}"); return 0;
}
