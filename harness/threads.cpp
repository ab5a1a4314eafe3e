// C09: proving and verifying with controlled worker counts, injected delays and flawed repetitions at chosen positions.
#include "poikh.hpp"
#include <pthread.h>
#include <sched.h>
#include <atomic>
using namespace poikh; using pbt::Case;
static Lib &LIB() { static Lib l("lib"); return l; }
// number of processors as seen by the code under test
static int NPROC() { static int n = atoi(pbt::opt("threads").c_str()); return n ? n : 1; }
// (the library is compiled with sysconf and pthread_create renamed to these)
extern "C" long vg_sysconf(int name) { return name == _SC_NPROCESSORS_ONLN ? NPROC() : sysconf(name); }
// start-up of workers is delayed by amounts derived from the case (schedule perturbation)
static std::atomic<int> started{0}; static std::atomic<unsigned> jitter{0};
struct Start { void *(*f)(void *); void *a; unsigned us; };
static std::atomic<int> active{0};
static std::atomic<int> gate{0};      // workers wait until this many have started (relaxed: no ordering between them)
static void *tramp(void *p) { Start s = *(Start *) p; free(p); if (s.us) usleep(s.us); for (int k = 0; k < 2000 && started.load(std::memory_order_relaxed) < gate.load(std::memory_order_relaxed); k++) usleep(50); void *v = s.f(s.a); active.fetch_sub(1, std::memory_order_relaxed); return v; }
extern "C" int vg_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
    unsigned j = jitter.load(std::memory_order_relaxed); int k = started.fetch_add(1, std::memory_order_relaxed); Start *s = (Start *) malloc(sizeof *s); ref::Rng r(j * 1000003ull + k); unsigned d = (unsigned) r.below(8); *s = Start{f, arg, !j || d < 3 ? 0 : d < 6 ? (unsigned) r.below(3000) : (unsigned) r.below(40000)}; active.fetch_add(1, std::memory_order_relaxed); int rc = pthread_create(t, a, tramp, s); if (rc) active.fetch_sub(1, std::memory_order_relaxed); return rc; }
static void no_workers(const char *when) { int n = 0; for (int k = 0; k < 30; k++) { n = active.load(std::memory_order_relaxed); if (n <= 0) return; usleep(100); } for (int k = 0; k < 300 && active.load(std::memory_order_relaxed) > 0; k++) usleep(10000); pbt::fail("%d worker thread(s) still running after %s returned", n, when); }
static void setup(Case &c, Rng &r) { pbt::entropy(r.next()); pbt::ENT.threaded = true; pbt::ENT.lockfree = pbt::OPT.count("lockfree"); pbt::ENT.delays = c.coin(2, 3); jitter = c.coin(2, 3) ? (unsigned) r.next() | 1 : 0; }
static FILE *progress(Case &c, Lib &l) { FILE *f = nullptr; if (c.coin()) { f = fopen("/dev/null", "w"); } l.progress(f); return f; }
static void end(Lib &l, FILE *f) { l.progress(nullptr); if (f) fclose(f); jitter = 0; }
static int verify_now(Case &c, Lib &l, const Proof &p, Rng &r) { setup(c, r); FILE *f = progress(c, l); int v; try { v = l.verify(p); } catch (...) { end(l, f); throw; } end(l, f); no_workers("Verify"); c.evals++; return v; }
PROPERTY(thr_prove, 300) {
    Lib &l = LIB(); Rng r = c.fork(); F2 A = canonical(random_ss(r, 2), r).A; Bytes E = enc(A); Lib::Buf s(l.szs); pbt::entropy(r.next()); CHECK(l.generate(E, s), "valid curve refused");
    setup(c, r); FILE *f = progress(c, l); int st0 = started; std::string t = l.prove(s); end(l, f); no_workers("Prove"); Proof p; CHECK(parse_proof(t, l.reps, p), "unreadable proof with %d workers", NPROC());
    Verdict v = ref_verify(p, r); CHECK(v == OK, "proof made by %d workers is not valid: %s", NPROC(), vname(v)); int w = l.verify(p); CHECK(w == 1, "verifier result %d for its own proof with %d workers", w, NPROC()); no_workers("Verify");
    std::set<Bytes> seen; for (auto &q : p.resp) { CHECK(seen.insert(q.tag == 1 ? q.r3 : q.r2).second, "two repetitions share an instance"); CHECK(seen.insert(q.x[0]).second, "two repetitions share an instance"); }
    c.nontrivial = true; c.evals = 3; c.label(started > st0 ? "workers started" : "no workers"); c.note("%d workers, %zu repetitions, progress %s, delays %d, jitter %d", NPROC(), l.reps, f ? "on" : "off", pbt::ENT.delays, jitter.load(std::memory_order_relaxed) != 0);
}
PROPERTY(thr_verify, 300) {
    Lib &l = LIB(); Rng r = c.fork(); size_t n = l.reps; std::vector<Instance> vs = make_vs(c, base((int) c.below(3)), n, r); std::vector<int> tags; Proof p = assemble(vs, &tags); c.nontrivial = true; c.note("%d workers, %zu repetitions", NPROC(), n);
    int w = verify_now(c, l, p, r); CHECK(w == 1, "valid proof gets result %d with %d workers", w, NPROC());
    int m = (int) c.range(1, 3); for (int k = 0; k < m; k++) {
        Proof q = p; size_t i = k == 0 ? (size_t) c.strat(n) : (size_t) c.below(n); Resp &x = q.resp[i]; int kind = (int) c.below(6); std::string what;
        switch (kind) {
        case 0: what = "random kernel"; x.x[c.below(x.x.size())] = enc(frand2(r)); break;
        case 1: what = "last kernel is zero"; x.x.back() = enc(f0()); break;
        case 2: what = "hiding value"; (x.tag == 1 ? x.r3 : x.r2)[c.below(G()->hide_bytes)] ^= 1 << c.below(8); break;
        case 3: { what = "tag"; int t = tags[i] == 1 ? -1 : tags[i] + 1; x = respond(vs[i], t); break; }
        case 4: what = "several flawed"; for (int z = 0; z < 3; z++) { Resp &y = q.resp[c.below(n)]; y.x[0] = enc(frand2(r)); } break;
        default: { what = "swapped"; size_t j = (i + 1 + c.below(n > 1 ? n - 1 : 1)) % n; std::swap(q.resp[i], q.resp[j]); break; }
        }
        Verdict rv = ref_verify(q, r); if (rv == AMBIGUOUS) continue; for (int z = 0; z < 2; z++) { int v = verify_now(c, l, q, r); CHECK((v == 1) == (rv == OK), "with %d workers the verifier says %d, single-threaded protocol verdict is %s (flaw: %s at repetition %zu of %zu)", NPROC(), v, vname(rv), what.c_str(), i, n); }
        c.label(what); c.note("%s at %zu", what.c_str(), i); }
    w = verify_now(c, l, p, r); CHECK(w == 1, "valid proof gets result %d after flawed ones with %d workers", w, NPROC());
}

// The library with its own entropy source: the first request of the process comes from several workers at once. The secret is made by a second library.
PROPERTY(thr_first, 300) {
    Lib &l = LIB(); static Lib g("gen"); Rng r = c.fork(); F2 A = canonical(random_ss(r, 2), r).A; Bytes E = enc(A); Lib::Buf s(l.szs); pbt::entropy(r.next()); CHECK(g.generate(E, s), "valid curve refused"); jitter = 0; gate = started + NPROC();
    FILE *f = progress(c, l); std::string t = l.prove(s); end(l, f); gate = 0; no_workers("Prove"); Proof p; CHECK(parse_proof(t, l.reps, p), "unreadable proof with %d workers", NPROC());
    Verdict v = ref_verify(p, r); CHECK(v == OK, "proof made by %d workers is not valid: %s", NPROC(), vname(v)); c.nontrivial = true; c.note("%d workers, first use of the system entropy source", NPROC());
}
