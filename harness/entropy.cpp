// C10: entropy failures at every request; the system entropy source under short and interrupted reads.
#include "poikh.hpp"
#include "sikeh.hpp"
#include <sys/wait.h>
#include <errno.h>
#include <mutex>
#include <thread>
#include <condition_variable>
#include <chrono>
#include <functional>
#include <set>
using namespace ref; using pbt::Case; using pbt::ENT;
static const char *stname(int s) { return s == 0 ? "returned normally" : s == 10 ? "returned an error" : "stopped"; }
// run f in a child: 0 returned success, 10 returned failure, otherwise the process stopped
static int in_child(const std::function<bool()> &f, long *calls) {
    int pp[2]; if (pipe(pp)) exit(3); fflush(stdout); pid_t pid = fork(); if (pid < 0) exit(3);
    if (!pid) { int d = open("/dev/null", O_WRONLY); dup2(d, 1); dup2(d, 2); pbt::cpu_limit(120); bool ok = f(); long k = ENT.fail_at >= 0 ? ENT.failed : ENT.calls; if (write(pp[1], &k, sizeof k) != sizeof k) _exit(3); _exit(ok ? 0 : 10); }
    close(pp[1]); long k = -1; if (read(pp[0], &k, sizeof k) != sizeof k) k = -1; close(pp[0]); int st; while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) exit(3); if (calls) *calls = k;
    if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF) pbt::fail("hangs when the entropy source fails"); if (WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGBUS) pbt::fail("crashes with signal %d when the entropy source fails", WTERMSIG(st)); return 100 + WTERMSIG(st); } return WEXITSTATUS(st); }
static long pick_call(Case &c, long n) { switch (c.below(5)) { case 0: return 0; case 1: return n - 1; case 2: return n - 1 - (long) c.below(std::min(n, 8L)); default: return (long) c.below(n); } }
static poikh::Lib &POIK() { static poikh::Lib l("lib"); return l; }
PROPERTY(ent_poik, 200) {
    poikh::Lib &l = POIK(); Rng r = c.fork(); uint64_t es = r.next(); int op = (int) c.strat(3); static const char *on[] = {"Generate", "Prove", "Verify"}; bool threads = pbt::opt("threaded") == "1";
    Bytes E = enc(canonical(random_ss(r, 2), r).A); poikh::Lib::Buf s(l.szs), p(l.szp); pbt::entropy(es); CHECK(l.generate(E, s), "valid curve refused"); Proof pr;
    if (op == 2) { std::vector<Instance> vs = poikh::make_vs(c, poikh::base((int) c.below(3)), l.reps, r); pr = assemble(vs); CHECK(l.parse(proof_text(pr), p), "unreadable"); }
    auto once = [&]() -> bool { if (op == 0) return l.Generate(E.data(), s.p); if (op == 1) { l.Prove(s.p, p.p); return true; } return l.Verify(p.p); };
    long n = 0; int st = in_child([&] { pbt::entropy(es + 1); ENT.threaded = threads; return once(); }, &n); CHECK(st == 0, "%s fails although entropy is available (%s)", on[op], stname(st)); if (n <= 0) { c.label(std::string(on[op]) + ": no entropy used"); return; }
    int tries = 4; for (int t = 0; t < tries; t++) { long k = pick_call(c, n); bool one = c.coin(), junk = c.coin(); long m = 0; int v = in_child([&] { pbt::entropy(es + 1); ENT.threaded = threads; ENT.fail_at = k; ENT.fail_once = one; ENT.fail_garbage = junk; return once(); }, &m); c.evals++;
        c.label(std::string(on[op]) + (one ? ", one request fails" : ", source dead") + ": " + stname(v)); if (v == 0 && m == 0) { c.label("request not reached on this schedule"); continue; }
        CHECK(v != 0, "%s reports success although entropy request %ld of %ld failed (%s)", on[op], k + 1, n, one ? "this request only" : "and all later ones"); if (t == 0) c.note("%s: request %ld of %ld fails%s, process %s", on[op], k + 1, n, one ? " once" : "", stname(v)); }
    c.nontrivial = true;
}
static sikeh::Lib &SI() { static sikeh::Lib l("sidh", false); return l; } static sikeh::Lib &CO() { static sikeh::Lib l("comp", true); return l; }
PROPERTY(ent_kem, 200) {
    bool comp = c.strat(2) == 1; sikeh::Lib &l = comp ? CO() : SI(); Rng r = c.fork(); int op = (int) c.strat(4, 2); static const char *on[] = {"random_mod_order_A", "random_mod_order_B", "crypto_kem_keypair", "crypto_kem_enc"}; Bytes pk, sk; if (op == 3) { pbt::entropy(r.next()); l.keypair(pk, sk); }
    auto once = [&]() -> int { sikeh::Lib::Out a(4096), b(4096); switch (op) { case 0: return l.rA(a.p()); case 1: return l.rB(a.p()); case 2: return l.kp(a.p(), b.p()); default: return l.en(a.p(), b.p(), pk.data()); } };
    pbt::entropy(r.next()); CHECK(once() == 0, "%s fails although entropy is available", on[op]); long n = ENT.calls; CHECK(n >= 1, "%s uses no entropy", on[op]);
    for (long k = 0; k < n; k++) for (int one = 0; one < 2; one++) { pbt::entropy(r.next()); ENT.fail_at = k; ENT.fail_once = one; ENT.fail_garbage = c.coin(); int v = once(); c.evals++; if (v == 0 && !ENT.failed) continue; CHECK(v != 0, "%s (%s) returns 0 although entropy request %ld of %ld failed", on[op], comp ? "compressed" : "plain", k + 1, n); }
    c.label(std::string(on[op]) + (comp ? " compressed" : "")); c.nontrivial = true; c.note("%s %s, %ld request(s)", on[op], comp ? "compressed" : "plain", n);
}
// system source: open/read/sleep/close replaced. Each request has its own context, so that another thread can ask for entropy at the same time.
struct Req { unsigned char *lo, *hi; std::vector<uint8_t> stream; bool oob = false, badfd = false; long reads = 0, eintr = 0, shorts = 0, zeros = 0, fuse = 1000000; };
static thread_local Req *REQ;
static struct { std::mutex mx; Rng r; int open_fail = 0, opens = 0, mode = 0, next_fd = 1000; std::set<int> fds; std::function<void()> at_open; } SRC;
extern "C" int vg_open(const char *p, int, ...) {
    std::function<void()> other; { std::lock_guard<std::mutex> l(SRC.mx); if (strcmp(p, "/dev/urandom") && strcmp(p, "/dev/random")) REQ->badfd = true; if (SRC.open_fail > 0) { SRC.open_fail--; errno = EMFILE; return -1; } std::swap(other, SRC.at_open); }
    if (other) other(); std::lock_guard<std::mutex> l(SRC.mx); SRC.opens++; SRC.fds.insert(SRC.next_fd); return SRC.next_fd++; }
extern "C" long vg_read(int fd, void *b, unsigned long n) {
    std::lock_guard<std::mutex> l(SRC.mx); Req &q = *REQ; q.reads++; if (--q.fuse < 0) { q.badfd = true; memset(b, 0, n); return (long) n; } if (!SRC.fds.count(fd)) { q.badfd = true; if (q.fuse > 64) q.fuse = 64; errno = EBADF; return -1; }
    unsigned m = (unsigned) SRC.r.below(8); if ((unsigned char *) b < q.lo || (unsigned char *) b + n > q.hi) q.oob = true;
    if (SRC.mode & 1 && m < 2) { q.eintr++; errno = EINTR; return -1; } if (SRC.mode & 4 && m == 2) { q.zeros++; return 0; } unsigned long k = n; if (SRC.mode & 2 && m >= 4 && n > 1) { k = 1 + SRC.r.below(m == 7 ? 1 : n - 1); q.shorts++; }
    if ((unsigned char *) b >= q.lo && (unsigned char *) b + k <= q.hi) { for (unsigned long i = 0; i < k; i++) { uint8_t v = (uint8_t) SRC.r.next(); ((unsigned char *) b)[i] = v; q.stream.push_back(v); } } return (long) k; }
extern "C" unsigned vg_sleep(unsigned) { return 0; }
extern "C" int vg_usleep(unsigned) { return 0; }
extern "C" int vg_close(int fd) { std::lock_guard<std::mutex> l(SRC.mx); SRC.fds.erase(fd); return 0; }
typedef int (*Rand)(unsigned char *, unsigned long long);
// one request of n bytes; empty string if it returned exactly the fresh bytes
static std::string request(Rand f, size_t n, Req &q, bool &other_way) {
    std::vector<unsigned char> b(n + 128, 0xee); q.lo = b.data() + 64; q.hi = q.lo + n; REQ = &q; int rc = f(q.lo, n); REQ = nullptr; char m[300] = ""; auto say = [&](const char *t, size_t k) { if (!*m) snprintf(m, sizeof m, t, n, k, q.shorts, q.eintr); };
    if (rc) say("randombytes(%zu) reports failure after recoverable errors", 0); if (q.oob) say("randombytes(%zu) reads beyond the buffer", 0); if (q.badfd) say("randombytes(%zu) reads something other than the open system source", 0); for (int i = 0; i < 64; i++) if (b[i] != 0xee || b[64 + n + i] != 0xee) say("randombytes(%zu) writes outside its buffer", 0);
    other_way = !q.reads && std::count(b.begin() + 64, b.begin() + 64 + n, 0xee) < (long) n / 2;      // filled without open and read
    if (q.stream.size() != n || !std::equal(q.stream.begin(), q.stream.end(), b.begin() + 64)) say("randombytes(%zu) does not return the %zu fresh bytes the source delivered in order (short reads %ld, interrupted %ld)", q.stream.size()); return m; }
PROPERTY(ent_source, 60) {
    auto fetch = [] { void *h = pbt::load("rnd"); return h; }; static bool blind = [&] { void *h = fetch(); Rand f = (Rand) dlsym(h, "randombytes"); if (!f) exit(3); Req q; bool w = false; request(f, 64, q, w); dlclose(h); return w; }();
    if (blind) { c.label("source read in a way the stand-ins do not see (no statement)"); return; }
    static void *h = nullptr; static Rand f = nullptr; bool fresh = !h || c.coin(1, 4); if (fresh) { if (h) dlclose(h); SRC.fds.clear(); SRC.opens = 0; h = fetch(); f = (Rand) dlsym(h, "randombytes"); if (!f) exit(3); }
    SRC.r.reseed(c.u64()); SRC.mode = (int) c.below(8); SRC.open_fail = SRC.opens ? 0 : (int) c.below(3); bool race = !SRC.opens && c.coin(), other_way = false; std::thread th; std::string omsg; Req oq; std::mutex dm; std::condition_variable dc; bool done = false;
    if (race) { size_t on = (size_t) c.range(1, 64); SRC.at_open = [&, on] { th = std::thread([&, on] { bool w = false; std::string m = request(f, on, oq, w); std::lock_guard<std::mutex> l(dm); omsg = m; done = true; dc.notify_all(); }); std::unique_lock<std::mutex> l(dm); dc.wait_for(l, std::chrono::milliseconds(300), [&] { return done; }); }; c.label("another thread opens the source at the same time"); }
    int calls = (int) c.range(1, 5); size_t total = 0; long eintr = 0, shorts = 0, zeros = 0; std::string msg; for (int k = 0; k < calls && msg.empty(); k++) { size_t n = c.coin(1, 4) ? (size_t) c.below(5) : c.coin(1, 4) ? (size_t) c.range(4000, 70000) : (size_t) c.range(1, 300); Req q; msg = request(f, n, q, other_way); c.evals++; total += n; eintr += q.eintr; shorts += q.shorts; zeros += q.zeros; }
    if (th.joinable()) th.join(); SRC.at_open = nullptr; CHECK(msg.empty(), "%s", msg.c_str()); CHECK(omsg.empty(), "%s (called while another thread opens the source)", omsg.c_str());
    c.nontrivial = eintr + shorts + zeros > 0 || race; c.label(eintr ? "interrupted reads" : "no interruption"); c.label(shorts ? "short reads" : "no short reads"); c.note("%d requests, %zu bytes, %ld interrupted, %ld short, %ld empty reads%s", calls, total, eintr, shorts, zeros, race ? ", a second thread opens the source first" : "");
}
