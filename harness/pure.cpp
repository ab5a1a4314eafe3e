// C18: arbitrary bytes in every argument, arbitrary sequences of calls: memory-safe (sanitizer builds), inputs unchanged, results depend on
// inputs and entropy only. Each case builds a program of operations, runs it, runs it again in another order, and compares results.
#include "pbt.hpp"
#include "sikeh.hpp"
#include "poikh.hpp"
#include <algorithm>
using namespace ref;
static sikeh::Lib &SI() { static sikeh::Lib l("sidh", false); return l; }
static sikeh::Lib &CO() { static sikeh::Lib l("comp", true); return l; }
static poikh::Lib &PO() { static poikh::Lib l("lib"); return l; }
static Bytes gbytes(pbt::Case &c, size_t n) { Bytes b(n); Rng r = c.fork(); r.fill(b.data(), n); if (!n) return b; switch (c.below(8)) { case 1: memset(b.data(), 0, n); break; case 2: memset(b.data(), 255, n); break; case 3: memset(b.data(), 0, n); b[c.below(n)] = (uint8_t) (1u << c.below(8)); break; case 4: memset(b.data(), (int) c.below(256), n); break; case 5: { size_t i = c.below(n); memset(b.data() + i, 0, n - i); break; } case 6: { size_t m = G()->nb; for (size_t i = 0; i < n; i += m) { int k = (int) c.below(4); size_t q = std::min(m, n - i); if (k < 2) memset(&b[i], k ? 255 : 0, q); else if (k == 2) { memset(&b[i], 0, q); b[i] = (uint8_t) c.below(8); } } break; } default:; } return b; }
static Bytes damage(pbt::Case &c, Bytes b) { Rng r = c.fork(); int k = (int) c.below(4); size_t n = b.size(); if (k == 0) return b; if (k == 1) { for (int i = 0; i < 3; i++) b[c.below(n)] ^= (uint8_t) (1u << c.below(8)); return b; } if (k == 2) { size_t i = c.below(n), j = std::min(n, i + 1 + c.below(3 * G()->nb)); r.fill(&b[i], j - i); return b; } return gbytes(c, n); }
struct Op { std::string name; std::function<Bytes()> run; };
static Bytes fail_or(int rc, const Bytes &b) { Bytes o = b; o.push_back((uint8_t) (rc != 0)); return o; }
// one operation with generated arguments; results of earlier operations may be used (damaged or not) as arguments
static Op sike_op(pbt::Case &c, sikeh::Lib &l, std::vector<Bytes> &pubs, std::vector<Bytes> &sks, std::vector<Bytes> &cts) {
    uint64_t es = c.u64(); int k = (int) c.below(9); bool comp = l.comp; std::string pre = comp ? "compressed " : ""; sikeh::Lib *L = &l;
    auto exact = [](const Bytes &b) { return std::shared_ptr<uint8_t>((uint8_t *) memcpy(malloc(b.size() ? b.size() : 1), b.data(), b.size()), free); };   // exact-size heap copies: reads beyond them are reported
    auto old = [&](std::vector<Bytes> &v, size_t n) { Bytes b = !v.empty() && c.coin(2, 3) ? damage(c, c.pick(v)) : gbytes(c, n); b.resize(n); return b; };
    switch (k) {
    case 0: return {pre + "random_mod_order_A", [=]() { pbt::entropy(es); return L->secretA(); }};
    case 1: return {pre + "random_mod_order_B", [=]() { pbt::entropy(es); return L->secretB(); }};
    case 2: case 3: { bool A = k == 2; Bytes s = gbytes(c, A ? l.ska : l.skb); auto run = [=]() { auto e = exact(s); sikeh::Lib::Out o(L->spk); std::shared_ptr<uint8_t> out((uint8_t *) calloc(1, L->spk), free); int rc = (A ? L->kA : L->kB)(e.get(), out.get()); CHECK(!memcmp(e.get(), s.data(), s.size()), "key generation modifies the private key"); return fail_or(rc, Bytes(out.get(), out.get() + L->spk)); }; return {pre + (A ? "keygen A" : "keygen B"), run}; }
    case 4: case 5: { bool A = k == 4; Bytes s = gbytes(c, A ? l.ska : l.skb), p = old(pubs, l.spk); auto run = [=]() { auto e = exact(s), q = exact(p); std::shared_ptr<uint8_t> out((uint8_t *) calloc(1, L->sss), free); int rc = (A ? L->sA : L->sB)(e.get(), q.get(), out.get()); CHECK(!memcmp(e.get(), s.data(), s.size()) && !memcmp(q.get(), p.data(), p.size()), "secret agreement modifies its inputs"); return fail_or(rc, Bytes(out.get(), out.get() + L->sss)); }; return {pre + (A ? "agreement A" : "agreement B"), run}; }
    case 6: return {pre + "KEM keypair", [=]() { pbt::entropy(es); std::shared_ptr<uint8_t> a((uint8_t *) calloc(1, L->pk), free), b((uint8_t *) calloc(1, L->sk), free); int rc = L->kp(a.get(), b.get()); Bytes r(a.get(), a.get() + L->pk); r.insert(r.end(), b.get(), b.get() + L->sk); return fail_or(rc, r); }};
    case 7: { Bytes p = old(pubs, l.pk); return {pre + "KEM enc", [=]() { pbt::entropy(es); auto q = exact(p); std::shared_ptr<uint8_t> a((uint8_t *) calloc(1, L->ct), free), b((uint8_t *) calloc(1, L->ss), free); int rc = L->en(a.get(), b.get(), q.get()); CHECK(!memcmp(q.get(), p.data(), p.size()), "encapsulation modifies the public key"); Bytes r(a.get(), a.get() + L->ct); r.insert(r.end(), b.get(), b.get() + L->ss); return fail_or(rc, r); }}; }
    default: { Bytes s = old(sks, l.sk), x = old(cts, l.ct); return {pre + "KEM dec", [=]() { auto q = exact(s), y = exact(x); std::shared_ptr<uint8_t> b((uint8_t *) calloc(1, L->ss), free); int rc = L->de(b.get(), y.get(), q.get()); CHECK(!memcmp(q.get(), s.data(), s.size()) && !memcmp(y.get(), x.data(), x.size()), "decapsulation modifies its inputs"); return fail_or(rc, Bytes(b.get(), b.get() + L->ss)); }}; }
    }
}
static void keep(const Op &o, const Bytes &r, sikeh::Lib &l, std::vector<Bytes> &pubs, std::vector<Bytes> &sks, std::vector<Bytes> &cts) {
    if (o.name.find("keygen") != std::string::npos) pubs.push_back(r); else if (o.name.find("KEM keypair") != std::string::npos) { pubs.push_back(Bytes(r.begin(), r.begin() + l.pk)); sks.push_back(Bytes(r.begin() + l.pk, r.begin() + l.pk + l.sk)); } else if (o.name.find("KEM enc") != std::string::npos) cts.push_back(Bytes(r.begin(), r.begin() + l.ct)); }
static void shuffled(pbt::Case &c, std::vector<Op> &ops, std::vector<Bytes> &res) {
    std::vector<size_t> o(ops.size()); for (size_t i = 0; i < o.size(); i++) o[i] = i; for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[c.below(i)]);
    for (size_t i : o) { Bytes r = ops[i].run(); CHECK(r == res[i], "%s: the same inputs and entropy give another result after a different history", ops[i].name.c_str()); c.evals++; } }
static void history(pbt::Case &c, bool comp) {
    sikeh::Lib &l = comp ? CO() : SI(); std::vector<Bytes> pubs, sks, cts, res; std::vector<Op> ops; int n = (int) c.range(2, 7); std::string d;
    for (int i = 0; i < n; i++) { ops.push_back(sike_op(c, l, pubs, sks, cts)); res.push_back(ops.back().run()); keep(ops.back(), res.back(), l, pubs, sks, cts); c.label(ops.back().name); d += ops.back().name + ", "; }
    shuffled(c, ops, res); c.nontrivial = true; for (auto &r : res) c.distinct += hex(shake256(r, 4)); c.note("%s", d.c_str());
}
PROPERTY(hist_plain, 300) { history(c, false); }
PROPERTY(hist_comp, 300) { history(c, true); }
// the proof functions with arbitrary curves, secrets and proofs
PROPERTY(hist_poik, 600) {
    poikh::Lib &l = PO(); poikh::Lib *L = &l; std::vector<Op> ops; std::vector<Bytes> res; int n = (int) c.range(1, 4); std::string d; std::vector<Bytes> proofs; size_t m = 2 * G()->nb; static size_t reps = l.reps;
    auto str = [](const std::string &s) { return Bytes(s.begin(), s.end()); };
    for (int i = 0; i < n; i++) { uint64_t es = c.u64(); Op o; int k = (int) c.below(5);
        if (k == 0) { std::string kind; Bytes E = c.coin() ? gbytes(c, m) : enc(poikh::gen_valid_curve(c, kind)); if (c.coin(1, 4)) E[m / 2 - 1] |= 0x80; o = {"Generate", [=]() { pbt::entropy(es); poikh::Lib::Buf s(L->szs); bool ok = L->generate(E, s); Bytes r{(uint8_t) ok}; if (ok) for (int i = 0; i <= WIDTH; i++) { Bytes x = L->E(s, i); r.insert(r.end(), x.begin(), x.end()); } return r; }}; }
        else if (k == 1) { std::string kind; F2 A = poikh::gen_valid_curve(c, kind); Bytes E = enc(A); o = {"Generate and Prove", [=]() { pbt::entropy(es); poikh::Lib::Buf s(L->szs); if (!L->generate(E, s)) return Bytes{0}; Bytes before((uint8_t *) s.p, (uint8_t *) s.p + L->szs); std::string p = L->prove(s); CHECK(!memcmp(before.data(), s.p, L->szs), "Prove modifies the secret"); return str(p); }}; }
        else if (k <= 3) { Proof p; if (!proofs.empty() && c.coin(2, 3)) { Bytes b = c.pick(proofs); parse_proof(std::string(b.begin(), b.end()), reps, p); }
            if (p.resp.empty()) { p.E0 = c.coin() ? enc(fui(6)) : gbytes(c, m); p.E1 = c.coin() ? enc(fui(6)) : gbytes(c, m); p.resp.resize(reps); for (auto &q : p.resp) { q.tag = (int) c.below(3) - 1; q.r2 = gbytes(c, l.hide_bytes); q.r3 = gbytes(c, l.hide_bytes); q.h2 = gbytes(c, l.hash_bytes); q.h3 = gbytes(c, l.hash_bytes); q.E2 = c.coin() ? enc(fui(6)) : gbytes(c, m); for (int t = 0; t < (q.tag ? HEIGHT : WIDTH); t++) q.x.push_back(gbytes(c, m)); } }
            else for (int t = 0; t < 2; t++) { Resp &q = p.resp[c.below(reps)]; switch (c.below(6)) { case 0: p.E0 = damage(c, p.E0); break; case 1: p.E1 = damage(c, p.E1); break; case 2: if (!q.E2.empty()) q.E2 = damage(c, q.E2); break; case 3: if (!q.r2.empty()) q.r2 = damage(c, q.r2); break; default: if (!q.x.empty()) { size_t i = c.below(q.x.size()); q.x[i] = damage(c, q.x[i]); } } }
            std::string t = proof_text(p); o = {"Verify", [=]() { pbt::entropy(es); poikh::Lib::Buf b(L->szp); if (!L->parse(t, b)) return Bytes{2}; std::string d0 = L->dump(b.p); bool ok = L->Verify(b.p); CHECK(L->dump(b.p) == d0, "Verify changes the proof"); return Bytes{(uint8_t) ok}; }}; }
        else { std::string t; if (!proofs.empty() && c.coin()) { Bytes b = damage(c, c.pick(proofs)); t.assign(b.begin(), b.end()); } else { Bytes b = gbytes(c, c.below(600)); t.assign(b.begin(), b.end()); } o = {"Parse and Dump", [=]() { poikh::Lib::Buf b(L->szp); if (!L->parse(t, b)) return Bytes{0}; return str(L->dump(b.p)); }}; }
        ops.push_back(o); res.push_back(o.run()); c.label(o.name); d += o.name + ", "; if (k == 1 && res.back().size() > 1) proofs.push_back(res.back()); }
    shuffled(c, ops, res); c.nontrivial = true; for (auto &r : res) c.distinct += hex(shake256(r, 4)); c.note("%s", d.c_str());
}
