#pragma once
#include "pbt.hpp"
#include <memory>
namespace poikh {
using namespace ref;
struct Lib {
    void *h; size_t reps, szp, szs;
    bool (*Generate)(const void *, void *); void (*Prove)(const void *, void *); bool (*Verify)(void *);
    bool (*Dump)(FILE *, const void *); bool (*Parse)(FILE *, void *); bool (*Dump_Fp2)(FILE *, const void *); bool (*Parse_Fp2)(FILE *, void *);
    void (*secE)(const void *, size_t, uint8_t *); void (*secP)(const void *, size_t, uint8_t *); void (*setE)(void *, size_t, const uint8_t *); void (*setP)(void *, size_t, const uint8_t *);
    void (*progress)(FILE *); int (*cmp)(const void *, const void *); void (*put)(void *, long, int, int, size_t, const uint8_t *);
    size_t hash_bytes, hide_bytes;
    explicit Lib(const char *opt) {
        h = pbt::load(opt); if (!h) { fprintf(stderr, "missing library option %s\n", opt); exit(3); }
        auto g = [&](const char *n) { void *p = dlsym(h, n); if (!p) { fprintf(stderr, "missing symbol %s\n", n); exit(3); } return p; };
        Generate = (decltype(Generate)) g("Generate"); Prove = (decltype(Prove)) g("Prove"); Verify = (decltype(Verify)) g("Verify"); Dump = (decltype(Dump)) g("Dump"); Parse = (decltype(Parse)) g("Parse");
        Dump_Fp2 = (decltype(Dump_Fp2)) g("Dump_Fp2"); Parse_Fp2 = (decltype(Parse_Fp2)) g("Parse_Fp2");
        secE = (decltype(secE)) g("vg_secret_E"); secP = (decltype(secP)) g("vg_secret_P"); setE = (decltype(setE)) g("vg_set_E"); setP = (decltype(setP)) g("vg_set_P"); progress = (decltype(progress)) g("vg_progress");
        cmp = (decltype(cmp)) g("vg_proof_cmp"); put = (decltype(put)) g("vg_put");
        reps = ((size_t(*)()) g("vg_reps"))(); szp = ((size_t(*)()) g("vg_sizeof_proof"))(); szs = ((size_t(*)()) g("vg_sizeof_secret"))();
        hash_bytes = ((size_t(*)()) g("vg_hash_bytes"))(); hide_bytes = ((size_t(*)()) g("vg_hide_bytes"))();
    }
    struct Buf { void *p; explicit Buf(size_t n) { p = calloc(1, n); if (!p) abort(); } ~Buf() { free(p); } Buf(const Buf &) = delete; };
    bool generate(const Bytes &E0, Buf &sec) { Bytes e = E0; bool r = Generate(e.data(), sec.p); if (e != E0) pbt::fail("Generate modified its input curve"); return r; }
    std::string dump(const void *prf) { char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n); bool ok = Dump(f, prf); fclose(f); std::string s(b, n); free(b); if (!ok) pbt::fail("writing a proof to memory failed"); return s; }
    bool parse(const std::string &t, Buf &p) { FILE *f = fmemopen((void *) t.data(), t.size() ? t.size() : 1, "r"); if (!t.size()) { fclose(f); f = fopen("/dev/null", "r"); } bool ok = Parse(f, p.p); fclose(f); return ok; }
    // -1 unreadable, 0 rejected, 1 accepted
    int verify(const std::string &t) { Buf p(szp); if (!parse(t, p)) return -1; return Verify(p.p); }
    int verify(const Proof &p) { return verify(proof_text(p)); }
    std::string prove(const Buf &sec) { Buf p(szp); Prove(sec.p, p.p); return dump(p.p); }
    Bytes E(const Buf &s, int i) { Bytes b(2 * G()->nb); secE(s.p, i, b.data()); return b; }
    Bytes P(const Buf &s, int i) { Bytes b(2 * G()->nb); secP(s.p, i, b.data()); return b; }
};

// memoised chain evaluation (the reference is slow and most responses of a mutated proof are unchanged)
struct Memo { std::map<Bytes, std::pair<Verdict, F2>> m;
    Verdict chain(const Bytes &A, const std::vector<Bytes> &xs, int l, F2 &j, Rng &r) {
        Bytes k = A; k.push_back(l); for (auto &x : xs) k.insert(k.end(), x.begin(), x.end());
        auto it = m.find(k); if (it != m.end()) { j = it->second.second; return it->second.first; }
        Rng own = rng_of(k); Verdict v = ref::chain(dec(A), xs, l, j, own); if (v != OK) j = f0(); if (m.size() > 4000) m.clear(); m[k] = {v, j}; return v; } };
inline Memo &memo() { static Memo m; return m; }
inline CurveCache &curves() { static CurveCache c; return c; }
inline Verdict ref_verify(const Proof &p, Rng &r, std::vector<int> *chall = nullptr) {
    if (!curves()(p.E0, r) || !curves()(p.E1, r)) return BAD_CURVE;
    std::vector<std::pair<Bytes, Bytes>> hs; std::vector<int> tags;
    for (auto &q : p.resp) { F2 j2, j3; Verdict v; tags.push_back(q.tag);
        if (q.tag == -1) { if ((v = memo().chain(p.E0, q.x, 3, j2, r))) return v; hs.push_back({commit(q.r2, j2), q.h3}); }
        else if (q.tag == 0) { if (!curves()(q.E2, r)) return BAD_CURVE; j2 = j_inv(from_mont(dec(q.E2))); if ((v = memo().chain(q.E2, q.x, 2, j3, r))) return v; hs.push_back({commit(q.r2, j2), commit(q.r3, j3)}); }
        else if (q.tag == 1) { if ((v = memo().chain(p.E1, q.x, 3, j3, r))) return v; hs.push_back({q.h2, commit(q.r3, j3)}); }
        else return BAD_TAG; }
    auto ch = challenge(j_inv(from_mont(dec(p.E0))), j_inv(from_mont(dec(p.E1))), hs); if (chall) *chall = ch;
    return ch == tags ? OK : BAD_CHALLENGE;
}

// ---- start curves
struct CM { int D; long long j; };
inline const std::vector<CM> &cms() { static std::vector<CM> v{{-3, 0}, {-4, 1728}, {-7, -3375}, {-8, 8000}, {-11, -32768}, {-12, 54000}, {-16, 287496}, {-19, -884736}, {-27, -12288000}, {-28, 16581375}, {-43, -884736000}, {-67, -147197952000}, {-163, -262537412640768000}}; return v; }
inline bool cm_supersingular(int D) { mpz_t d; mpz_init_set_si(d, D); int l = mpz_legendre(d, G()->p); mpz_clear(d); return l < 0; }
inline F2 fsi(long long v) { F2 x = fui(v < 0 ? -v : v); return v < 0 ? -x : x; }
// a Montgomery coefficient with the given j-invariant: 256 (B-3)^3 = j (B-4), B = A^2; needs a root in GF(p^2)
inline bool mont_from_j(const F2 &j, Rng &r, F2 &A) {
    // y = B - 3:  256 y^3 - j y + j = 0... (B-4 = y-1)  =>  y^3 - (j/256) y + j/256 = 0
    F2 c = div(j, fui(256)); W w; w.a = -c; w.b = c; if (isz(j)) { return fsqrt(fui(3), A); }
    if (singular(w)) { // double root (j = 1728: y = -3 or 3/2)
        F2 ys[2] = {-fui(3), div(fui(3), fui(2))}; for (auto &y : ys) if (isz(rhs(w, y)) && fsqrt(y + fui(3), A)) return true; return false; }
    // find a root by x^q - x gcd: reuse a simple search: Cantor-Zassenhaus on the part that splits
    mpz_t q; mpz_init(q); mpz_mul(q, G()->p, G()->p);
    auto mulmod = [&](const F2 f[3], const F2 g[3], F2 o[3]) { F2 t[5] = {f[0] * g[0], f[0] * g[1] + f[1] * g[0], f[0] * g[2] + f[1] * g[1] + f[2] * g[0], f[1] * g[2] + f[2] * g[1], f[2] * g[2]}; o[0] = t[0] - w.b * t[3]; o[1] = t[1] - w.a * t[3] - w.b * t[4]; o[2] = t[2] - w.a * t[4]; };
    auto powx = [&](const F2 base[3], const mpz_t e, F2 o[3]) { F2 R[3] = {f1(), f0(), f0()}; for (long i = (long) mpz_sizeinbase(e, 2) - 1; i >= 0; i--) { F2 t[3]; mulmod(R, R, t); if (mpz_tstbit(e, i)) mulmod(t, base, R); else { R[0] = t[0]; R[1] = t[1]; R[2] = t[2]; } } o[0] = R[0]; o[1] = R[1]; o[2] = R[2]; };
    typedef std::vector<F2> P; auto trim = [](P &p) { while (!p.empty() && isz(p.back())) p.pop_back(); };
    auto pmod = [&](P a, const P &b) { F2 iv = inv(b.back()); trim(a); while (a.size() >= b.size()) { F2 c = a.back() * iv; size_t s = a.size() - b.size(); for (size_t i = 0; i < b.size(); i++) a[i + s] = a[i + s] - c * b[i]; trim(a); } return a; };
    auto pgcd = [&](P a, P b) { trim(a); trim(b); while (!b.empty()) { P t = pmod(a, b); a = b; b = t; } return a; };
    P f{w.b, w.a, f0(), f1()}; F2 xb[3] = {f0(), f1(), f0()}, xq[3]; powx(xb, q, xq); P g = pgcd(f, P{xq[0], xq[1] - f1(), xq[2]});
    mpz_sub_ui(q, q, 1); mpz_fdiv_q_2exp(q, q, 1); bool ok = false;
    for (int t = 0; t < 60 && g.size() >= 2; t++) { if (g.size() == 2) { F2 y = -div(g[0], g[1]); ok = fsqrt(y + fui(3), A); break; }
        F2 b[3] = {frand2(r), f1(), f0()}, h[3]; powx(b, q, h); P d = pgcd(g, P{h[0] - f1(), h[1], h[2]}); if (d.size() >= 2 && d.size() < g.size()) g = d; }
    mpz_clear(q); return ok;
}
inline F2 random_model(const W &w, Rng &r) { Model m[6]; all_models(w, r, m); return m[r.below(6)].A; }
// valid (supersingular) Montgomery coefficient of a generated kind
inline F2 gen_valid_curve(pbt::Case &c, std::string &kind) {
    switch (c.below(7)) {
    case 0: kind = "A=0"; return f0();
    case 1: kind = "A=6"; return fui(6);
    case 2: { kind = "CM"; Rng r = c.fork(); std::vector<CM> v; for (auto &x : cms()) if (cm_supersingular(x.D)) v.push_back(x); const CM &m = v[c.below(v.size())]; F2 A; if (!mont_from_j(fsi(m.j), r, A)) pbt::fail("reference: no Montgomery model for supersingular CM curve D=%d", m.D); F2 B = random_model(from_mont(A), r); kind = "CM"; c.note("CM D=%d", m.D); return B; }
    case 3: { kind = "short-walk"; Rng r = c.fork(); W w = random_ss(r, (int) c.range(1, 6)); return random_model(w, r); }
    case 4: { kind = "canonical"; Rng r = c.fork(); return canonical(random_ss(r), r).A; }
    default: { kind = "random-model"; Rng r = c.fork(); return random_model(random_ss(r), r); }
    }
}
// pool of reference instances (expensive for the reference): made once by make_pool, committed under data/; cases derive fresh hiding values from them
struct Base { std::vector<Instance> inst; };
inline std::vector<Base> &bases() { static std::vector<Base> b; if (b.empty()) {
    FILE *f = fopen(pbt::opt("pool").c_str(), "r"); if (!f) { fprintf(stderr, "no pool\n"); exit(3); } int nb, ni; if (fscanf(f, "%d %d", &nb, &ni) != 2) exit(3);
    auto rd = [&](Bytes &o) { static char buf[4096]; if (fscanf(f, "%4095s", buf) != 1 || !parse_hex(buf, strlen(buf) / 2, o)) exit(3); };
    for (int i = 0; i < nb; i++) { Base x; for (int k = 0; k < ni; k++) { Instance v; Bytes t; rd(v.E0); rd(v.E1); rd(v.E2); rd(t); v.j2 = dec(t); rd(t); v.j3 = dec(t); v.left.resize(HEIGHT); v.right.resize(HEIGHT); v.bottom.resize(WIDTH); for (auto &y : v.left) rd(y); for (auto &y : v.bottom) rd(y); for (auto &y : v.right) rd(y); v.r2.resize(G()->hide_bytes); v.r3.resize(G()->hide_bytes); x.inst.push_back(v); } b.push_back(x); } fclose(f); } return b; }
inline Base &base(int i) { return bases()[i % bases().size()]; }
inline std::vector<Instance> make_vs(pbt::Case &c, Base &b, size_t n, Rng &r) { std::vector<Instance> vs; for (size_t i = 0; i < n; i++) { Instance v = b.inst[r.below(b.inst.size())]; rehide(v, r); vs.push_back(v); } return vs; }
}
