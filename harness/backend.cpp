// C16: two builds of the same library (assembly / portable) give byte-identical results
#include "pbt.hpp"
#include "sikeh.hpp"
using namespace ref;
struct Pair { sikeh::Lib a, b; Pair(const char *x, const char *y, bool comp) : a(x, comp), b(y, comp) {} };
static Pair &PL() { static Pair p("sidh", "sidh2", false); return p; }
static Pair &CP() { static Pair p("comp", "comp2", true); return p; }
static Bytes gbytes(pbt::Case &c, size_t n) { Bytes b(n); Rng r = c.fork(); r.fill(b.data(), n); switch (c.below(8)) { case 1: memset(b.data(), 0, n); break; case 2: memset(b.data(), 255, n); break; case 3: memset(b.data(), 0, n); b[c.below(n)] = (uint8_t) (1u << c.below(8)); break; case 4: { uint8_t v = (uint8_t) c.below(256); memset(b.data(), v, n); break; } case 5: { size_t i = c.below(n); memset(b.data() + i, 0, n - i); break; } case 6: { size_t i = c.below(n); memset(b.data() + i, 255, n - i); break; } default:; } return b; }
// private key inside its range: generated entropy run through the library's own cut
static Bytes skey(pbt::Case &c, sikeh::Lib &l, int side) { pbt::entropy(c.u64()); pbt::ENT.script = gbytes(c, side ? l.skb : l.ska); return side ? l.secretB() : l.secretA(); }
static std::string at(const Bytes &x, const Bytes &y) { for (size_t i = 0; i < x.size(); i++) if (x[i] != y[i]) { char s[60]; snprintf(s, 60, "first difference at byte %zu", i); return s; } return "?"; }
static void same(pbt::Case &c, const char *what, const Bytes &x, const Bytes &y) { CHECK(x == y, "the two builds compute a different %s (%s)", what, at(x, y).c_str()); c.evals++; }
static Bytes mutate(pbt::Case &c, Bytes b) { int k = (int) c.below(5); Rng r = c.fork(); size_t n = b.size(); switch (k) { case 0: b[c.below(n)] ^= (uint8_t) (1u << c.below(8)); break; case 1: { size_t i = c.below(n), j = std::min(n, i + 1 + c.below(G()->nb)); r.fill(&b[i], j - i); break; } case 2: { size_t i = c.below(n), j = std::min(n, i + 1 + c.below(2 * G()->nb)); memset(&b[i], c.coin() ? 255 : 0, j - i); break; } case 3: return gbytes(c, n); default: { size_t m = 2 * G()->nb, i = c.below(n / m) * m; memset(&b[i], 0, std::min(m, n - i)); b[i] = (uint8_t) c.below(4); } } return b; }
static void kex(pbt::Case &c, Pair &p) {
    Bytes sa = skey(c, p.a, 0), sb = skey(c, p.a, 1); Bytes pa = p.a.pubA(sa), pb = p.a.pubB(sb); same(c, "public key A", pa, p.b.pubA(sa)); same(c, "public key B", pb, p.b.pubB(sb));
    same(c, "shared secret A", p.a.agreeA(sa, pb), p.b.agreeA(sa, pb)); same(c, "shared secret B", p.a.agreeB(sb, pa), p.b.agreeB(sb, pa));
    if (c.coin()) { Bytes q = mutate(c, pb); same(c, "shared secret A for an altered public key", p.a.agreeA(sa, q), p.b.agreeA(sa, q)); c.label("altered public key B"); } else { Bytes q = mutate(c, pa); same(c, "shared secret B for an altered public key", p.a.agreeB(sb, q), p.b.agreeB(sb, q)); c.label("altered public key A"); }
    c.nontrivial = true; c.distinct = hex(sa) + hex(sb); c.note("A %s, B %s", sikeh::hexs(sa).c_str(), sikeh::hexs(sb).c_str());
}
static void kem(pbt::Case &c, Pair &p) {
    uint64_t es = c.u64(); Bytes sc = gbytes(c, p.a.msg + std::max(p.a.ska, p.a.skb)); Bytes pk, sk, pk2, sk2; pbt::entropy(es); pbt::ENT.script = sc; p.a.keypair(pk, sk); pbt::entropy(es); pbt::ENT.script = sc; p.b.keypair(pk2, sk2); same(c, "KEM public key", pk, pk2); same(c, "KEM private key", sk, sk2);
    Bytes ct, ss, ct2, ss2; sc = gbytes(c, p.a.msg); pbt::entropy(es + 1); pbt::ENT.script = sc; p.a.enc(pk, ct, ss); pbt::entropy(es + 1); pbt::ENT.script = sc; p.b.enc(pk, ct2, ss2); same(c, "ciphertext", ct, ct2); same(c, "encapsulated secret", ss, ss2);
    same(c, "decapsulated secret", p.a.dec(ct, sk), p.b.dec(ct, sk)); Bytes x = mutate(c, ct); same(c, "decapsulation result for an altered ciphertext", p.a.dec(x, sk), p.b.dec(x, sk));
    if (c.coin(1, 3)) { Bytes q = mutate(c, pk); pbt::entropy(es + 2); p.a.enc(q, ct, ss); pbt::entropy(es + 2); p.b.enc(q, ct2, ss2); same(c, "ciphertext for an altered public key", ct, ct2); same(c, "secret for an altered public key", ss, ss2); c.label("altered public key"); }
    c.nontrivial = true; c.distinct = hex(sk) + hex(ct); c.note("pk %s, ct %s", sikeh::hexs(pk).c_str(), sikeh::hexs(ct).c_str());
}
PROPERTY(be_kex, 120) { kex(c, PL()); }
PROPERTY(be_kem, 120) { kem(c, PL()); }
PROPERTY(be_ckex, 120) { kex(c, CP()); }
PROPERTY(be_ckem, 120) { kem(c, CP()); }
