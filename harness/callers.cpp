// C19: several threads of one process use the library at the same time. Each case makes a program of operations per thread; every operation is
// first run alone (its thread's entropy is deterministic), then all programs run at once, and every result must be the one it had alone.
#include "pbt.hpp"
#include "sikeh.hpp"
#include "poikh.hpp"
#include <thread>
#include <atomic>
#include <memory>
#include <sched.h>
#include <unistd.h>
using namespace ref; using pbt::Case;
// the library with workers is compiled with sysconf renamed to this
extern "C" long vg_sysconf(int name) { static const int n = atoi(pbt::opt("workers").c_str()); return name == _SC_NPROCESSORS_ONLN && n > 0 ? n : sysconf(name); }
struct Op { std::string name; std::function<Bytes()> run; };
typedef std::vector<std::vector<Op>> Programs;
static Bytes with(uint64_t seed, const std::function<Bytes()> &f) { Rng r(seed); pbt::MINE = &r; Bytes b; try { b = f(); } catch (...) { pbt::MINE = nullptr; throw; } pbt::MINE = nullptr; return b; }
static Bytes cat(Bytes a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static void together(Case &c, Programs &P) {
    size_t n = P.size(); std::vector<std::vector<Bytes>> alone(n), got(n); std::vector<std::string> err(n);
    std::vector<unsigned> lag(n); for (auto &l : lag) l = c.coin(2, 3) ? 0 : (unsigned) c.below(3000); int rounds = (int) c.range(1, 2); bool first = c.coin(2, 3);   // first: no call was made alone before (lazily initialised state)
    auto each = [&]() { for (size_t t = 0; t < n; t++) for (auto &o : P[t]) { alone[t].push_back(o.run()); c.label(o.name); c.distinct += hex(shake256(alone[t].back(), 4)); } };
    auto all = [&]() {
        std::atomic<size_t> ready{0}; std::vector<std::thread> th; for (auto &g : got) g.clear();
        for (size_t t = 0; t < n; t++) th.emplace_back([&, t]() { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) sched_yield(); if (lag[t]) usleep(lag[t]); try { for (auto &o : P[t]) got[t].push_back(o.run()); } catch (pbt::Fail &f) { err[t] = f.msg; } });
        for (auto &x : th) x.join();
        for (size_t t = 0; t < n; t++) CHECK(err[t].empty(), "thread %zu of %zu, %s: %s", t, n, P[t][std::min(got[t].size(), P[t].size() - 1)].name.c_str(), err[t].c_str()); };
    auto compare = [&]() { for (size_t t = 0; t < n; t++) for (size_t i = 0; i < P[t].size(); i++) { CHECK(got[t][i] == alone[t][i], "%s gives another result while %zu other threads use the library", P[t][i].name.c_str(), n - 1); c.evals++; } };
    if (first) { all(); each(); compare(); } else { each(); for (int z = 0; z < rounds; z++) { all(); compare(); } } c.label(first ? "together first" : "alone first");
    c.nontrivial = n >= 2; }
static void describe(Case &c, const Programs &P) { std::string d; for (auto &p : P) { d += "["; for (auto &o : p) d += o.name + " "; d += "] "; } c.note("%zu threads: %s", P.size(), d.c_str()); }

static void sike(Case &c, bool comp) {
    static sikeh::Lib *lib = new sikeh::Lib(comp ? "comp" : "sidh", comp); sikeh::Lib *L = lib; static sikeh::Lib *prep = new sikeh::Lib(comp ? "comp0" : "sidh0", comp); size_t n = (size_t) c.range(2, 4); Programs P(n); Rng r = c.fork(); pbt::entropy(r.next());
    Bytes pk, sk, ct, ss, a = prep->secretA(), b = prep->secretB(), pa = prep->pubA(a), pb = prep->pubB(b); prep->keypair(pk, sk); prep->enc(pk, ct, ss);   // arguments come from a second copy of the library
    Bytes bad = ct; bad[c.below(bad.size())] ^= (uint8_t) (1u << c.below(8));
    int mode = (int) c.below(3), one = (int) c.below(9);      // all threads in the same operation, or any mix
    for (auto &p : P) { int m = (int) c.range(1, 3); for (int i = 0; i < m; i++) { uint64_t es = r.next(); Bytes s = prep->secretA(), u = prep->secretB(); Op o;
        switch (mode ? (int) c.below(9) : one) {
        case 0: o = {"keygen A", [=]() { return L->pubA(s); }}; break;
        case 1: o = {"keygen B", [=]() { return L->pubB(u); }}; break;
        case 2: o = {"agreement A", [=]() { return L->agreeA(s, pb); }}; break;
        case 3: o = {"agreement B", [=]() { return L->agreeB(u, pa); }}; break;
        case 4: o = {"KEM keypair", [=]() { return with(es, [=]() { Bytes x, y; L->keypair(x, y); return cat(x, y); }); }}; break;
        case 5: o = {"KEM enc", [=]() { return with(es, [=]() { Bytes x, y; L->enc(pk, x, y); return cat(x, y); }); }}; break;
        case 6: o = {"KEM dec", [=]() { return L->dec(ct, sk); }}; break;
        case 7: o = {"KEM dec altered", [=]() { return L->dec(bad, sk); }}; break;
        default: o = {"private keys", [=]() { return with(es, [=]() { return cat(L->secretA(), L->secretB()); }); }}; break;
        }
        p.push_back(o); } }
    describe(c, P); together(c, P);
}
PROPERTY(call_plain, 300) { sike(c, false); }
PROPERTY(call_comp, 300) { sike(c, true); }
// the proof functions; with workers (build option) the proofs depend on scheduling and are judged by verification instead
PROPERTY(call_poik, 600) {
    static poikh::Lib *lib = new poikh::Lib("lib"); poikh::Lib *L = lib; bool workers = pbt::OPT.count("workers"); size_t n = (size_t) c.range(2, 3); Programs P(n); Rng r = c.fork(); L->progress(nullptr); pbt::entropy(r.next()); pbt::ENT.lockfree = true;
    std::vector<poikh::Instance> vs = poikh::make_vs(c, poikh::base((int) c.below(3)), L->reps, r); Proof good = poikh::assemble(vs, nullptr), bad = good; Resp &x = bad.resp[c.below(bad.resp.size())]; x.x[c.below(x.x.size())] = enc(frand2(r)); Verdict rv = poikh::ref_verify(bad, r); if (rv == AMBIGUOUS) { bad = good; rv = OK; } bool okbad = rv == OK;
    int mode = (int) c.below(3), one = (int) c.below(4);
    for (auto &p : P) { int m = (int) c.range(1, 2); for (int i = 0; i < m; i++) { uint64_t es = r.next(); std::string kind; F2 A = poikh::gen_valid_curve(c, kind); Bytes E = enc(A); std::string tg = proof_text(good), tb = proof_text(bad); Op o;
        switch (mode ? (int) c.below(4) : one) {
        case 0: o = {"Generate", [=]() { return with(es, [=]() { poikh::Lib::Buf s(L->szs); if (!L->generate(E, s)) pbt::fail("valid curve refused"); return Bytes((uint8_t *) s.p, (uint8_t *) s.p + L->szs); }); }}; break;
        case 1: o = {"Generate and Prove", [=]() { return with(es, [=]() { poikh::Lib::Buf s(L->szs), q(L->szp); if (!L->generate(E, s)) pbt::fail("valid curve refused"); L->Prove(s.p, q.p); std::string t = L->dump(q.p); int v = L->verify(t); if (v != 1) pbt::fail("a proof made while other threads use the library gets result %d", v); return workers ? Bytes{1} : Bytes(t.begin(), t.end()); }); }}; break;
        case 2: o = {"Verify valid", [=]() { return with(es, [=]() { int v = L->verify(tg); if (v != 1) pbt::fail("valid proof gets result %d", v); return Bytes{(uint8_t) v}; }); }}; break;
        default: o = {"Verify flawed", [=]() { return with(es, [=]() { int v = L->verify(tb); if ((v == 1) != okbad) pbt::fail("flawed proof gets result %d", v); return Bytes{(uint8_t) v}; }); }}; break;
        }
        p.push_back(o); } }
    describe(c, P); together(c, P);
}
