// C17: the sequence of executed branches and touched addresses must not depend on secrets. The library is compiled with a call at
// every basic block, load and store; a run is the sequence of those events, two runs with different secrets must give the same one.
#include "pbt.hpp"
#include "sikeh.hpp"
using namespace ref;
namespace tr {
static bool on = false; static uint64_t h = 0, n = 0; static std::vector<uint64_t> blocks; enum { B = 1 << 14 };
static uint64_t want = ~0ull; static std::vector<uintptr_t> ev, pc;    // events of one block, recorded on demand
static inline void event(uintptr_t v, void *ra) { if (!on) return; h = (h ^ v) * 0x9e3779b97f4a7c15ull; h ^= h >> 29; if (n / B == want) { ev.push_back(v); pc.push_back((uintptr_t) ra); } if (++n % B == 0) blocks.push_back(h); }
}
#define EV(v) tr::event((uintptr_t) (v), __builtin_return_address(0))
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { static uint32_t k = 0; for (; a < b; a++) *a = ++k; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { EV(0x1000000000000000ull + *g); }
#define LS(n) void __sanitizer_cov_load##n(void *p) { EV(p); } void __sanitizer_cov_store##n(void *p) { EV((uintptr_t) p ^ 0x2000000000000000ull); }
LS(1) LS(2) LS(4) LS(8) LS(16)
}
static sikeh::Lib &SI() { static sikeh::Lib l("sidh", false); return l; }
static sikeh::Lib &CO() { static sikeh::Lib l("comp", true); return l; }
// all runs use these buffers, so that equal code touches equal addresses
static uint8_t *IN1, *IN2, *OUT1, *OUT2;
enum Opn { KGA, KGB, AGA, AGB, KEYPAIR, ENC, DEC };
struct Call { Opn op; Bytes in1, in2, script; };
static int __attribute__((noinline)) invoke(sikeh::Lib &l, Opn op) { switch (op) { case KGA: return l.kA(IN1, OUT1); case KGB: return l.kB(IN1, OUT1); case AGA: return l.sA(IN1, IN2, OUT1); case AGB: return l.sB(IN1, IN2, OUT1); case KEYPAIR: return l.kp(OUT1, OUT2); case ENC: return l.en(OUT1, OUT2, IN1); default: return l.de(OUT1, IN2, IN1); } }
static void traced(sikeh::Lib &l, const Call &x, uint64_t want) {
    if (!IN1) { for (uint8_t **p : {&IN1, &IN2, &OUT1, &OUT2}) *p = (uint8_t *) aligned_alloc(64, 4096); }
    memset(IN1, 0, 4096); memset(IN2, 0, 4096); memset(OUT1, 0, 4096); memset(OUT2, 0, 4096); std::copy(x.in1.begin(), x.in1.end(), IN1); std::copy(x.in2.begin(), x.in2.end(), IN2);
    pbt::entropy(1); pbt::ENT.script = x.script; tr::h = tr::n = 0; tr::blocks.clear(); tr::want = want; tr::ev.clear(); tr::pc.clear(); tr::on = true; int rc = invoke(l, x.op); tr::on = false; CHECK(rc == 0, "operation reports failure"); }
static std::string where(uintptr_t p) { Dl_info d; char b[200]; if (p && dladdr((void *) p, &d) && d.dli_sname) { snprintf(b, sizeof b, "%s+0x%lx", d.dli_sname, (long) (p - (uintptr_t) d.dli_saddr)); return b; } return "?"; }
static const char *nm[] = {"key generation A", "key generation B", "agreement A", "agreement B", "KEM key generation", "encapsulation", "decapsulation"};
static void compare(pbt::Case &c, sikeh::Lib &l, const Call &x, const Call &y, const char *what) {
    traced(l, x, ~0ull); auto b1 = tr::blocks; uint64_t n1 = tr::n, h1 = tr::h; CHECK(n1 > 1000, "no events recorded"); traced(l, y, ~0ull); c.evals++;
    if (tr::n == n1 && tr::h == h1) return;
    uint64_t k = 0; while (k < b1.size() && k < tr::blocks.size() && b1[k] == tr::blocks[k]) k++;
    traced(l, x, k); auto e1 = tr::ev, p1 = tr::pc; traced(l, y, k); size_t i = 0; while (i < e1.size() && i < tr::ev.size() && e1[i] == tr::ev[i]) i++;
    std::string at = where(i < p1.size() ? p1[i] : 0); bool br = i < e1.size() && (e1[i] >> 60) == 1; pbt::fail("%s: %s differ between two %s (event %llu, in %s)", nm[x.op], br ? "executed branches" : "accessed addresses", what, (unsigned long long) (k * tr::B + i), at.c_str());
}
static Bytes sbytes(pbt::Case &c, size_t n) { Bytes b(n); Rng r = c.fork(); r.fill(b.data(), n); switch (c.below(7)) { case 1: memset(b.data(), 0, n); break; case 2: memset(b.data(), 255, n); break; case 3: memset(b.data(), 0, n); b[c.below(n)] = (uint8_t) (1u << c.below(8)); break; case 4: memset(b.data(), (int) c.below(256), n); break; case 5: { size_t i = c.below(n); memset(b.data() + i, 0, n - i); break; } default:; } return b; }
static Bytes skey(pbt::Case &c, sikeh::Lib &l, int side) { pbt::entropy(c.u64()); pbt::ENT.script = sbytes(c, side ? l.skb : l.ska); return side ? l.secretB() : l.secretA(); }
PROPERTY(ct_plain, 300) {
    sikeh::Lib &l = SI(); Opn op = (Opn) c.strat(7); Call x{op}, y{op}; const char *what = "private keys";
    switch (op) {
    case KGA: case KGB: x.in1 = skey(c, l, op == KGB); y.in1 = skey(c, l, op == KGB); break;
    case AGA: case AGB: { bool B = op == AGB; x.in1 = skey(c, l, B); y.in1 = skey(c, l, B); x.in2 = y.in2 = B ? l.pubA(skey(c, l, 0)) : l.pubB(skey(c, l, 1)); break; }
    case KEYPAIR: x.script = sbytes(c, l.msg + l.skb); y.script = sbytes(c, l.msg + l.skb); what = "seeds and private keys"; break;
    case ENC: { Bytes pk, sk; pbt::entropy(c.u64()); l.keypair(pk, sk); x.in1 = y.in1 = pk; x.script = sbytes(c, l.msg); y.script = sbytes(c, l.msg); what = "messages"; break; }
    default: { Bytes pk, sk, ct, ss, pk2, sk2; pbt::entropy(c.u64()); l.keypair(pk, sk); pbt::entropy(c.u64()); l.enc(pk, ct, ss); x.in1 = sk; y.in1 = sk; x.in2 = y.in2 = ct; what = "private keys for the same ciphertext";
        switch (c.strat(4, 7)) {
        case 0: pbt::entropy(c.u64()); l.keypair(pk2, sk2); y.in1 = sk2; c.label("accepted against rejected"); break;                                  // same ciphertext, other key: re-encryption fails
        case 1: { Bytes s = sbytes(c, l.msg); std::copy(s.begin(), s.end(), y.in1.begin()); what = "private seeds"; c.label("other seed"); break; }
        case 2: { x.in2[x.in2.size() - 1 - c.below(l.msg)] ^= (uint8_t) (1u << c.below(8)); y.in2 = x.in2; pbt::entropy(c.u64()); l.keypair(pk2, sk2); y.in1 = sk2; c.label("rejected against rejected"); break; }
        default: { x.in2[x.in2.size() - 1 - c.below(l.msg)] ^= (uint8_t) (1u << c.below(8)); what = "masked messages (accepted, rejected)"; c.label("honest against altered mask"); } } } }
    if (x.in1 == y.in1 && x.in2 == y.in2 && x.script == y.script) { c.label("equal secrets"); return; }
    compare(c, l, x, y, what); c.label(nm[op]); c.nontrivial = true; c.distinct = nm[op] + hex(x.in1) + hex(y.in1) + hex(x.script) + hex(y.script); c.note("%s, %s / %s", nm[op], sikeh::hexs(x.in1.empty() ? x.script : x.in1).c_str(), sikeh::hexs(y.in1.empty() ? y.script : y.in1).c_str());
}
// The compressed variants. Each operation is its own group, because several are recorded as known findings.
static void comp(pbt::Case &c, Opn op) {
    sikeh::Lib &l = CO(); bool B = op == AGB || op == KGB; Call x{op}, y{op}; const char *what = "private keys of the compressed variant";
    if (op == DEC) { Bytes pk, sk, ct, ss; pbt::entropy(c.u64()); l.keypair(pk, sk); pbt::entropy(c.u64()); l.enc(pk, ct, ss); x.in1 = sk; x.in2 = y.in2 = ct; pbt::entropy(c.u64()); l.keypair(pk, y.in1); }
    else if (op == ENC) { Bytes sk; pbt::entropy(c.u64()); l.keypair(x.in1, sk); y.in1 = x.in1; x.script = sbytes(c, l.msg); y.script = sbytes(c, l.msg); what = "messages in the compressed variant"; }
    else { x.in1 = skey(c, l, B); y.in1 = skey(c, l, B); if (op == AGA || op == AGB) x.in2 = y.in2 = B ? l.pubA(skey(c, l, 0)) : l.pubB(skey(c, l, 1)); }
    if (x.in1 == y.in1 && x.script == y.script) { c.label("equal secrets"); return; }
    compare(c, l, x, y, what); c.nontrivial = true; c.label(nm[op]); c.distinct = nm[op] + hex(x.in1) + hex(y.in1) + hex(x.script) + hex(y.script); c.note("compressed %s", nm[op]);
}
PROPERTY(ct_comp_kga, 300) { comp(c, KGA); }
PROPERTY(ct_comp_kgb, 300) { comp(c, KGB); }
PROPERTY(ct_comp_aga, 300) { comp(c, AGA); }
PROPERTY(ct_comp_agb, 300) { comp(c, AGB); }
PROPERTY(ct_comp_enc, 300) { comp(c, ENC); }
PROPERTY(ct_comp_dec, 300) { comp(c, DEC); }
