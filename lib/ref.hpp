// Independent reference model: GF(p), GF(p^2), short Weierstrass curves, Velu isogenies, canonical Montgomery
// models, Keccak, the PoIK relation (verifier and prover), SIDH and SIKE.
// Nothing here is derived from the code under test: curves are y^2 = x^3 + a x + b, isogenies are single 2-/3-steps
// by Velu's formulas, canonical models are found by factoring the 2-division polynomial.
#pragma once
#include <gmp.h>
#include <stdint.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <string>
#include <vector>
#include <array>
#include <algorithm>
#include <functional>

namespace ref {

typedef mp_limb_t L;
enum { MAXL = 12 };
typedef std::vector<uint8_t> Bytes;

struct Rng {                       // xoshiro256**
    uint64_t s[4];
    explicit Rng(uint64_t seed = 1) { reseed(seed); }
    void reseed(uint64_t x) { for (int i = 0; i < 4; i++) { x += 0x9e3779b97f4a7c15ull; uint64_t z = x;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; s[i] = z ^ (z >> 31); } }
    static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    uint64_t next() { uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
        s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    void fill(uint8_t *p, size_t n) { while (n) { uint64_t v = next(); size_t k = n < 8 ? n : 8; memcpy(p, &v, k); p += k; n -= k; } }
};

struct Params {
    int bits, a, b, nl, nb;        // p = 2^a 3^b - 1, limbs, bytes per field element
    int reps, hash_bytes, hide_bytes, msg_bytes;
    mpz_t p, oA, oB;
    L pl[MAXL], n0, R2[MAXL], one[MAXL];
    int obits_b;                   // floor(log2(3^b))
};
inline Params *&G() { static Params *g = nullptr; return g; }

// ---------------------------------------------------------------- GF(p)
struct Fp { L v[MAXL]; };

inline void fp_set0(Fp &r) { memset(r.v, 0, sizeof r.v); }
inline Fp fp0() { Fp r; fp_set0(r); return r; }
inline Fp fp1() { Fp r; fp_set0(r); memcpy(r.v, G()->one, G()->nl * 8); return r; }
inline bool eq(const Fp &a, const Fp &b) { return memcmp(a.v, b.v, G()->nl * 8) == 0; }
inline bool isz(const Fp &a) { for (int i = 0; i < G()->nl; i++) if (a.v[i]) return false; return true; }
inline Fp add(const Fp &a, const Fp &b) { Fp r; int n = G()->nl; L c = mpn_add_n(r.v, a.v, b.v, n); if (c || mpn_cmp(r.v, G()->pl, n) >= 0) mpn_sub_n(r.v, r.v, G()->pl, n); return r; }
inline Fp sub(const Fp &a, const Fp &b) { Fp r; int n = G()->nl; if (mpn_sub_n(r.v, a.v, b.v, n)) mpn_add_n(r.v, r.v, G()->pl, n); return r; }
inline Fp neg(const Fp &a) { return sub(fp0(), a); }
inline Fp mul(const Fp &a, const Fp &b) {
    int n = G()->nl; L t[2 * MAXL]; mpn_mul_n(t, a.v, b.v, n);
    for (int i = 0; i < n; i++) { L q = t[i] * G()->n0; t[i] = mpn_addmul_1(t + i, G()->pl, n, q); }
    Fp r; L c = mpn_add_n(r.v, t + n, t, n); if (c || mpn_cmp(r.v, G()->pl, n) >= 0) mpn_sub_n(r.v, r.v, G()->pl, n); return r;
}
inline Fp sqr(const Fp &a) { return mul(a, a); }
inline void to_mpz(mpz_t z, const Fp &a) { Fp o; fp_set0(o); o.v[0] = 1; Fp t = mul(a, o); mpz_import(z, G()->nl, -1, 8, 0, 0, t.v); }
inline Fp from_mpz(const mpz_t z0) {
    mpz_t z; mpz_init(z); mpz_mod(z, z0, G()->p); Fp t; fp_set0(t); size_t c; mpz_export(t.v, &c, -1, 8, 0, 0, z); mpz_clear(z);
    Fp r2; memcpy(r2.v, G()->R2, sizeof r2.v); return mul(t, r2);
}
inline Fp fp_ui(unsigned long u) { mpz_t z; mpz_init_set_ui(z, u); Fp r = from_mpz(z); mpz_clear(z); return r; }
inline Fp inv(const Fp &a) { mpz_t z; mpz_init(z); to_mpz(z, a); mpz_invert(z, z, G()->p); Fp r = from_mpz(z); mpz_clear(z); return r; }
inline Fp powz(const Fp &a, const mpz_t e) { Fp r = fp1(); for (long i = (long) mpz_sizeinbase(e, 2) - 1; i >= 0; i--) { r = sqr(r); if (mpz_tstbit(e, i)) r = mul(r, a); } return r; }
inline bool is_square(const Fp &a) { mpz_t z; mpz_init(z); to_mpz(z, a); int j = mpz_legendre(z, G()->p); mpz_clear(z); return j >= 0; }
inline Fp fsqrt(const Fp &a) { mpz_t e; mpz_init(e); mpz_add_ui(e, G()->p, 1); mpz_fdiv_q_2exp(e, e, 2); Fp r = powz(a, e); mpz_clear(e); return r; }
inline Fp half(const Fp &a) { static Params *g = nullptr; static Fp h; if (g != G()) { g = G(); h = inv(fp_ui(2)); } return mul(a, h); }
inline Fp fp_dec(const uint8_t *b) { mpz_t z; mpz_init(z); mpz_import(z, G()->nb, -1, 1, 0, 0, b); Fp r = from_mpz(z); mpz_clear(z); return r; }
inline void fp_enc(const Fp &a, uint8_t *b) { mpz_t z; mpz_init(z); to_mpz(z, a); memset(b, 0, G()->nb); size_t c; mpz_export(b, &c, -1, 1, 0, 0, z); mpz_clear(z); }
inline Fp fp_rand(Rng &r) { uint8_t b[128]; r.fill(b, sizeof b); mpz_t z; mpz_init(z); mpz_import(z, sizeof b, -1, 1, 0, 0, b); Fp x = from_mpz(z); mpz_clear(z); return x; }

// ---------------------------------------------------------------- GF(p^2) = GF(p)[i]
struct F2 { Fp c0, c1; };
inline F2 mk(const Fp &a, const Fp &b) { return F2{a, b}; }
inline F2 f0() { return mk(fp0(), fp0()); }
inline F2 f1() { return mk(fp1(), fp0()); }
inline F2 fui(unsigned long u) { return mk(fp_ui(u), fp0()); }
inline bool eq(const F2 &a, const F2 &b) { return eq(a.c0, b.c0) && eq(a.c1, b.c1); }
inline bool isz(const F2 &a) { return isz(a.c0) && isz(a.c1); }
inline F2 add(const F2 &a, const F2 &b) { return mk(add(a.c0, b.c0), add(a.c1, b.c1)); }
inline F2 sub(const F2 &a, const F2 &b) { return mk(sub(a.c0, b.c0), sub(a.c1, b.c1)); }
inline F2 neg(const F2 &a) { return mk(neg(a.c0), neg(a.c1)); }
inline F2 mul(const F2 &a, const F2 &b) {
    Fp x = mul(a.c0, b.c0), y = mul(a.c1, b.c1), z = mul(add(a.c0, a.c1), add(b.c0, b.c1)); return mk(sub(x, y), sub(sub(z, x), y)); }
inline F2 sqr(const F2 &a) { Fp s = add(a.c0, a.c1), d = sub(a.c0, a.c1), m = mul(a.c0, a.c1); return mk(mul(s, d), add(m, m)); }
inline Fp norm(const F2 &a) { return add(sqr(a.c0), sqr(a.c1)); }
inline F2 inv(const F2 &a) { Fp n = inv(norm(a)); return mk(mul(a.c0, n), neg(mul(a.c1, n))); }
inline F2 operator+(const F2 &a, const F2 &b) { return add(a, b); }
inline F2 operator-(const F2 &a, const F2 &b) { return sub(a, b); }
inline F2 operator*(const F2 &a, const F2 &b) { return mul(a, b); }
inline F2 operator-(const F2 &a) { return neg(a); }
inline F2 div(const F2 &a, const F2 &b) { return mul(a, inv(b)); }
inline bool is_square(const F2 &a) { return is_square(norm(a)); }
inline F2 frand2(Rng &r) { Fp x = fp_rand(r); return mk(x, fp_rand(r)); }
inline bool fsqrt(const F2 &a, F2 &y) {
    if (isz(a)) { y = f0(); return true; }
    if (!is_square(a)) return false;
    if (isz(a.c1)) { if (is_square(a.c0)) y = mk(fsqrt(a.c0), fp0()); else y = mk(fp0(), fsqrt(neg(a.c0))); }
    else { Fp n = fsqrt(norm(a)); Fp t = half(add(a.c0, n)); if (!is_square(t)) t = half(sub(a.c0, n));
        Fp u = fsqrt(t); y = mk(u, mul(a.c1, inv(add(u, u)))); }
    return eq(sqr(y), a);
}
inline F2 f2_dec(const uint8_t *b) { return mk(fp_dec(b), fp_dec(b + G()->nb)); }
inline void f2_enc(const F2 &a, uint8_t *b) { fp_enc(a.c0, b); fp_enc(a.c1, b + G()->nb); }
inline Bytes enc(const F2 &a) { Bytes b(2 * G()->nb); f2_enc(a, b.data()); return b; }
inline F2 dec(const Bytes &b) { return f2_dec(b.data()); }
inline int cmp(const Fp &a, const Fp &b) { mpz_t x, y; mpz_init(x); mpz_init(y); to_mpz(x, a); to_mpz(y, b); int c = mpz_cmp(x, y); mpz_clear(x); mpz_clear(y); return c; }
inline bool lex_lt(const F2 &a, const F2 &b) { int c = cmp(a.c0, b.c0); return c < 0 || (c == 0 && cmp(a.c1, b.c1) < 0); }

// ---------------------------------------------------------------- curves
struct W { F2 a, b; };                       // y^2 = x^3 + a x + b
struct XZ { F2 X, Z; };
struct Pt { F2 x, y; bool inf; };
struct Model { F2 A, alpha, s; };            // x_M = s (x_W - alpha)

inline W from_mont(const F2 &A, Model *m = nullptr) {
    F2 t = inv(fui(3)); F2 A3 = A * t; W w; w.a = f1() - A * A3; w.b = fui(2) * A3 * A3 * A3 - A3;
    if (m) { m->A = A; m->alpha = -A3; m->alpha = A3; m->s = f1(); }
    return w;
}
inline F2 to_W(const Model &m, const F2 &x) { return div(x, m.s) + m.alpha; }
inline F2 to_M(const Model &m, const F2 &x) { return m.s * (x - m.alpha); }
inline F2 rhs(const W &w, const F2 &x) { return (sqr(x) + w.a) * x + w.b; }
inline F2 disc4(const W &w) { F2 a3 = fui(4) * w.a * w.a * w.a; return a3 + fui(27) * w.b * w.b; }
inline bool singular(const W &w) { return isz(disc4(w)); }
inline F2 j_inv(const W &w) { F2 a3 = fui(4) * w.a * w.a * w.a; return div(fui(1728) * a3, a3 + fui(27) * w.b * w.b); }
inline XZ aff(const F2 &x) { return XZ{x, f1()}; }
inline bool isO(const XZ &P) { return isz(P.Z); }
inline F2 xof(const XZ &P) { return div(P.X, P.Z); }
inline bool eqx(const XZ &P, const XZ &Q) { if (isO(P) || isO(Q)) return isO(P) && isO(Q); return eq(P.X * Q.Z, Q.X * P.Z); }
inline XZ xdbl(const W &w, const XZ &P) {
    F2 X2 = sqr(P.X), Z2 = sqr(P.Z), XZ_ = P.X * P.Z, aZ2 = w.a * Z2, bZ3 = w.b * Z2 * P.Z;
    F2 t = sqr(X2 - aZ2), u = P.X * bZ3; u = u + u; u = u + u; u = u + u;
    F2 z = P.Z * (P.X * (X2 + aZ2) + bZ3); z = z + z; z = z + z; (void) XZ_;
    return XZ{t - u, z};
}
inline XZ xdadd(const W &w, const XZ &P, const XZ &Q, const XZ &D) {   // x(P+Q) given D = x(P-Q)
    if (isO(P)) return Q; if (isO(Q)) return P; if (isO(D)) return xdbl(w, P);
    F2 xz = P.X * Q.Z, zx = P.Z * Q.X, zz = P.Z * Q.Z;
    F2 N = (xz + zx) * (P.X * Q.X + w.a * zz); F2 bz = w.b * sqr(zz); N = N + bz + bz; N = N + N;
    F2 d = sqr(xz - zx);
    return XZ{N * D.Z - D.X * d, D.Z * d};
}
inline XZ xtpl(const W &w, const XZ &P) { if (isO(P)) return P; XZ D = xdbl(w, P); return xdadd(w, D, P, P); }
inline XZ xmule(const W &w, XZ P, int l, int e) { while (e-- > 0) P = l == 2 ? xdbl(w, P) : xtpl(w, P); return P; }
inline XZ xmul(const W &w, const XZ &P, const mpz_t k) {
    XZ R0{f1(), f0()}, R1 = P;
    for (long i = (long) mpz_sizeinbase(k, 2) - 1; i >= 0; i--) {
        XZ S = xdadd(w, R0, R1, P);
        if (mpz_tstbit(k, i)) { R1 = xdbl(w, R1); R0 = S; } else { R0 = xdbl(w, R0); R1 = S; }
    }
    return R0;
}
// full points
inline bool lift(const W &w, const F2 &x, Pt &P) { F2 y; if (!fsqrt(rhs(w, x), y)) return false; P = Pt{x, y, false}; return true; }
inline Pt ptO() { return Pt{f0(), f0(), true}; }
inline Pt ptneg(const Pt &P) { return Pt{P.x, -P.y, P.inf}; }
inline Pt ptadd(const W &w, const Pt &P, const Pt &Q) {
    if (P.inf) return Q; if (Q.inf) return P;
    F2 l;
    if (eq(P.x, Q.x)) { if (!eq(P.y, Q.y) || isz(P.y)) return ptO(); F2 xx = sqr(P.x); l = div(xx + xx + xx + w.a, P.y + P.y); }
    else l = div(Q.y - P.y, Q.x - P.x);
    F2 x = sqr(l) - P.x - Q.x; return Pt{x, l * (P.x - x) - P.y, false};
}
inline Pt ptmul(const W &w, const Pt &P, const mpz_t k) { Pt R = ptO(); for (long i = (long) mpz_sizeinbase(k, 2) - 1; i >= 0; i--) { R = ptadd(w, R, R); if (mpz_tstbit(k, i)) R = ptadd(w, R, P); } return R; }
inline Pt ptmule(const W &w, Pt P, int l, int e) { while (e-- > 0) { Pt D = ptadd(w, P, P); P = l == 2 ? D : ptadd(w, D, P); } return P; }

// one Velu step with kernel <x0> of prime order l in {2,3}
struct Step { int l; F2 x0, t, u; };
inline Step velu(W &w, int l, const F2 &x0) {
    Step s; s.l = l; s.x0 = x0; F2 xx = sqr(x0), t = xx + xx + xx + w.a, wv;
    if (l == 2) { s.t = t; s.u = f0(); wv = x0 * t; }
    else { s.t = t + t; F2 r = rhs(w, x0); s.u = r + r; s.u = s.u + s.u; wv = s.u + x0 * s.t; }
    F2 t5 = s.t + s.t; t5 = t5 + t5 + s.t; F2 w7 = wv + wv; w7 = w7 + wv; w7 = w7 + w7 + wv;
    w.a = w.a - t5; w.b = w.b - w7; return s;
}
inline XZ eval(const Step &s, const XZ &P) {
    if (isO(P)) return P;
    F2 d = P.X - s.x0 * P.Z; if (isz(d)) return XZ{f1(), f0()};
    if (s.l == 2) return XZ{P.X * d + s.t * sqr(P.Z), P.Z * d};
    F2 d2 = sqr(d), Z2 = sqr(P.Z); return XZ{P.X * d2 + s.t * Z2 * d + s.u * Z2 * P.Z, P.Z * d2};
}
// isogeny with kernel K of exact order l^e; pushes the points
inline void isog(W &w, const XZ &K, int l, int e, std::vector<XZ> &push) {
    if (e <= 0) return;
    struct Ent { XZ P; int h; }; std::vector<Ent> st; st.push_back({K, e});
    while (!st.empty()) {
        while (st.back().h > 1) { int h = st.back().h, m = h / 2; XZ R = xmule(w, st.back().P, l, m); st.push_back({R, h - m}); }
        F2 x0 = xof(st.back().P); st.pop_back();
        Step s = velu(w, l, x0);
        for (auto &q : st) { q.P = eval(s, q.P); q.h--; }
        for (auto &q : push) q = eval(s, q);
    }
}
inline int order_exp(const W &w, XZ P, int l, int max) { int e = 0; while (!isO(P)) { if (e >= max) return -1; P = l == 2 ? xdbl(w, P) : xtpl(w, P); e++; } return e; }
inline F2 rand_x(const W &w, Rng &r) { while (true) { F2 x = frand2(r); if (is_square(rhs(w, x))) return x; } }
inline XZ rand_order(const W &w, int l, Rng &r) {       // random point of exact order l^e
    int e = l == 2 ? G()->a : G()->b;
    while (true) { XZ P = xmule(w, aff(rand_x(w, r)), l == 2 ? 3 : 2, l == 2 ? G()->b : G()->a); if (!isO(xmule(w, P, l, e - 1))) return XZ{xof(P), f1()}; }
}
inline XZ rand_order_indep(const W &w, int l, const XZ &K, Rng &r) {   // independent of K
    int e = l == 2 ? G()->a : G()->b; XZ T = xmule(w, K, l, e - 1);
    while (true) { XZ P = rand_order(w, l, r); if (!eqx(T, xmule(w, P, l, e - 1))) return P; }
}
// deterministic yes/no: supersingular with order (p+1)^2 ?  (several random points killed by p+1; structure then forces it)
inline bool valid_curve(const F2 &A, Rng &r) {
    W w = from_mont(A); if (singular(w)) return false;
    for (int i = 0; i < 3; i++) { XZ P = xmule(w, aff(rand_x(w, r)), 3, G()->b); P = xmule(w, P, 2, G()->a); if (!isO(P)) return false; }
    return true;
}
// roots of x^3 + a x + b (assumed to split)
inline void cubic_roots(const W &w, Rng &r, F2 out[3]) {
    static Params *g = nullptr; static mpz_t ex; static bool init = false;
    if (!init) { mpz_init(ex); init = true; }
    if (g != G()) { g = G(); mpz_mul(ex, g->p, g->p); mpz_sub_ui(ex, ex, 1); mpz_fdiv_q_2exp(ex, ex, 1); }
    F2 alpha;
    while (true) {
        F2 d = frand2(r); F2 h[3] = {f1(), f0(), f0()};      // h0 + h1 x + h2 x^2
        for (long i = (long) mpz_sizeinbase(ex, 2) - 1; i >= 0; i--) {
            F2 s0 = sqr(h[0]), s1 = h[0] * h[1], s2 = h[0] * h[2], s3 = h[1] * h[2], s4 = sqr(h[2]), m = sqr(h[1]);
            s1 = s1 + s1; s2 = s2 + s2 + m; s3 = s3 + s3;
            // x^3 = -a x - b, x^4 = -a x^2 - b x
            h[0] = s0 - w.b * s3; h[1] = s1 - w.a * s3 - w.b * s4; h[2] = s2 - w.a * s4;
            if (mpz_tstbit(ex, i)) { F2 t0 = d * h[0], t1 = d * h[1] + h[0], t2 = d * h[2] + h[1], t3 = h[2]; h[0] = t0 - w.b * t3; h[1] = t1 - w.a * t3; h[2] = t2; }
        }
        h[0] = h[0] - f1();                                  // gcd(h-1, f)
        if (isz(h[2])) { if (isz(h[1])) continue; alpha = -div(h[0], h[1]); if (!isz(rhs(w, alpha))) continue; break; }
        F2 iv = inv(h[2]), g1 = h[1] * iv, g0 = h[0] * iv;   // monic quadratic g; f mod g
        // f = (x - g1) g + r1 x + r0
        F2 r1 = w.a - g0 + g1 * g1, r0 = w.b + g1 * g0;
        if (isz(r1) && isz(r0)) { alpha = g1; break; }       // third root = g1 (roots sum to zero)
        if (isz(r1)) continue;
        alpha = -div(r0, r1); if (isz(rhs(w, alpha))) break;
    }
    F2 D; F2 aa = sqr(alpha); bool ok = fsqrt(-(aa + aa + aa) - fui(4) * w.a, D);
    if (!ok) { fprintf(stderr, "ref: cubic does not split\n"); abort(); }
    F2 h2 = inv(fui(2)); out[0] = alpha; out[1] = (D - alpha) * h2; out[2] = (-D - alpha) * h2;
}
inline void all_models(const W &w, Rng &r, Model m[6]) {
    F2 rt[3]; cubic_roots(w, r, rt);
    for (int i = 0; i < 3; i++) { F2 aa = sqr(rt[i]), q; if (!fsqrt(aa + aa + aa + w.a, q)) { fprintf(stderr, "ref: no Montgomery model\n"); abort(); }
        F2 s = inv(q); m[2 * i].alpha = m[2 * i + 1].alpha = rt[i]; m[2 * i].s = s; m[2 * i + 1].s = -s; F2 A = fui(3) * rt[i] * s; m[2 * i].A = A; m[2 * i + 1].A = -A; }
}
inline Model canonical(const W &w, Rng &r) { Model m[6]; all_models(w, r, m); int b = 0; for (int i = 1; i < 6; i++) if (lex_lt(m[i].A, m[b].A)) b = i; return m[b]; }

// ---------------------------------------------------------------- Keccak
inline void keccakf(uint64_t s[25]) {
    static const int rho[24] = {1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44};
    static const int pi[24] = {10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1};
    uint8_t lfsr = 1;
    for (int round = 0; round < 24; round++) {
        uint64_t c[5]; for (int i = 0; i < 5; i++) c[i] = s[i] ^ s[i + 5] ^ s[i + 10] ^ s[i + 15] ^ s[i + 20];
        for (int i = 0; i < 5; i++) { uint64_t t = c[(i + 4) % 5] ^ Rng::rotl(c[(i + 1) % 5], 1); for (int j = 0; j < 25; j += 5) s[j + i] ^= t; }
        uint64_t t = s[1]; for (int i = 0; i < 24; i++) { uint64_t u = s[pi[i]]; s[pi[i]] = Rng::rotl(t, rho[i]); t = u; }
        for (int j = 0; j < 25; j += 5) { for (int i = 0; i < 5; i++) c[i] = s[j + i]; for (int i = 0; i < 5; i++) s[j + i] = c[i] ^ (~c[(i + 1) % 5] & c[(i + 2) % 5]); }
        for (int j = 0; j < 7; j++) { if (lfsr & 1) s[0] ^= 1ull << ((1 << j) - 1); bool o = lfsr & 0x80; lfsr <<= 1; if (o) lfsr ^= 0x71; }
    }
}
inline Bytes shake(int rate, const Bytes &in, size_t outlen) {
    uint64_t s[25] = {0}; uint8_t *b = (uint8_t *) s; size_t pos = 0;
    for (uint8_t c : in) { b[pos++] ^= c; if (pos == (size_t) rate) { keccakf(s); pos = 0; } }
    b[pos] ^= 0x1f; b[rate - 1] ^= 0x80; keccakf(s); pos = 0;
    Bytes out(outlen); for (size_t i = 0; i < outlen; i++) { if (pos == (size_t) rate) { keccakf(s); pos = 0; } out[i] = b[pos++]; }
    return out;
}
inline Bytes shake256(const Bytes &in, size_t n) { return shake(136, in, n); }
inline Bytes cat(std::initializer_list<Bytes> l) { Bytes r; for (auto &x : l) r.insert(r.end(), x.begin(), x.end()); return r; }

// ---------------------------------------------------------------- parameters
inline void set_params(int bits) {
    static Params *tab[1000];
    if (!tab[bits]) {
        Params *g = new Params; tab[bits] = g; G() = g; g->bits = bits;
        switch (bits) {
        case 434: g->a = 216; g->b = 137; g->reps = 219; g->hash_bytes = 32; g->hide_bytes = 64; g->msg_bytes = 16; break;
        case 503: g->a = 250; g->b = 159; g->reps = 219; g->hash_bytes = 32; g->hide_bytes = 64; g->msg_bytes = 24; break;
        case 610: g->a = 305; g->b = 192; g->reps = 329; g->hash_bytes = 48; g->hide_bytes = 96; g->msg_bytes = 24; break;
        case 751: g->a = 372; g->b = 239; g->reps = 438; g->hash_bytes = 64; g->hide_bytes = 128; g->msg_bytes = 32; break;
        default: abort();
        }
        g->nl = (bits + 63) / 64; g->nb = (bits + 7) / 8;
        mpz_init(g->p); mpz_init(g->oA); mpz_init(g->oB);
        mpz_ui_pow_ui(g->oA, 2, g->a); mpz_ui_pow_ui(g->oB, 3, g->b); mpz_mul(g->p, g->oA, g->oB); mpz_sub_ui(g->p, g->p, 1);
        g->obits_b = (int) mpz_sizeinbase(g->oB, 2) - 1;
        memset(g->pl, 0, sizeof g->pl); size_t c; mpz_export(g->pl, &c, -1, 8, 0, 0, g->p);
        L x = 1; for (int i = 0; i < 6; i++) x *= 2 - g->pl[0] * x; g->n0 = -x;
        mpz_t t; mpz_init(t); memset(g->R2, 0, sizeof g->R2); memset(g->one, 0, sizeof g->one);
        mpz_ui_pow_ui(t, 2, 128 * g->nl); mpz_mod(t, t, g->p); mpz_export(g->R2, &c, -1, 8, 0, 0, t);
        mpz_ui_pow_ui(t, 2, 64 * g->nl); mpz_mod(t, t, g->p); mpz_export(g->one, &c, -1, 8, 0, 0, t); mpz_clear(t);
    }
    G() = tab[bits];
}

// ---------------------------------------------------------------- PoIK
enum { WIDTH = 4, HEIGHT = 7 };
struct Resp { int tag = 0; Bytes r2, r3, h2, h3, E2; std::vector<Bytes> x; };
struct Proof { Bytes E0, E1; std::vector<Resp> resp; };

inline std::string hex(const Bytes &b) { static const char *d = "0123456789abcdef"; std::string s; for (uint8_t c : b) { s += d[c >> 4]; s += d[c & 15]; } return s; }
inline std::string el_text(const Bytes &b) {
    int n = G()->nb; std::string s; Bytes r(b.begin(), b.begin() + n), i(b.begin() + n, b.end()); std::reverse(r.begin(), r.end()); std::reverse(i.begin(), i.end());
    return "0x" + hex(r) + ",0x" + hex(i) + "\n"; }
inline std::string proof_text(const Proof &p) {
    std::string s = el_text(p.E0) + el_text(p.E1);
    for (auto &r : p.resp) {
        s += std::to_string(r.tag) + "\n";
        if (r.tag == -1) s += hex(r.r2) + "\n" + hex(r.h3) + "\n";
        else if (r.tag == 0) s += hex(r.r2) + "\n" + hex(r.r3) + "\n" + el_text(r.E2);
        else s += hex(r.h2) + "\n" + hex(r.r3) + "\n";
        for (auto &x : r.x) s += el_text(x);
    }
    return s;
}
// strict reader for the documented layout (one value per line)
inline bool parse_hex(const std::string &s, size_t n, Bytes &out) {
    if (s.size() != 2 * n) return false; out.assign(n, 0);
    for (size_t i = 0; i < 2 * n; i++) { char c = s[i]; int v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (v < 0) return false; out[i / 2] = out[i / 2] * 16 + v; }
    return true;
}
inline bool parse_el(const std::string &s, Bytes &out) {
    size_t n = G()->nb, h = 2 * n + 2; if (s.size() != 2 * h + 1 || s[h] != ',' || s.compare(0, 2, "0x") || s.compare(h + 1, 2, "0x")) return false;
    Bytes a, b; if (!parse_hex(s.substr(2, 2 * n), n, a) || !parse_hex(s.substr(h + 3), n, b)) return false;
    std::reverse(a.begin(), a.end()); std::reverse(b.begin(), b.end()); out = cat({a, b}); return true;
}
inline bool parse_proof(const std::string &t, size_t reps, Proof &p) {
    size_t pos = 0; auto line = [&](std::string &s) { if (pos >= t.size()) return false; size_t e = t.find('\n', pos); if (e == std::string::npos) return false; s = t.substr(pos, e - pos); pos = e + 1; return true; };
    std::string s; auto el = [&](Bytes &b) { return line(s) && parse_el(s, b); }; auto by = [&](Bytes &b, size_t n) { return line(s) && parse_hex(s, n, b); };
    size_t hi = G()->hide_bytes, ha = G()->hash_bytes;
    if (!el(p.E0) || !el(p.E1)) return false; p.resp.assign(reps, Resp());
    for (auto &r : p.resp) {
        if (!line(s)) return false; if (s == "-1") r.tag = -1; else if (s == "0") r.tag = 0; else if (s == "1") r.tag = 1; else return false;
        if (r.tag == -1) { if (!by(r.r2, hi) || !by(r.h3, ha)) return false; }
        else if (r.tag == 0) { if (!by(r.r2, hi) || !by(r.r3, hi) || !el(r.E2)) return false; }
        else if (!by(r.h2, ha) || !by(r.r3, hi)) return false;
        r.x.assign(r.tag ? HEIGHT : WIDTH, Bytes()); for (auto &x : r.x) if (!el(x)) return false;
    }
    return pos == t.size();
}

inline Bytes commit(const Bytes &r, const F2 &j) { return shake256(cat({Bytes{2}, r, enc(j)}), G()->hash_bytes); }
inline int first_byte(const F2 &j0, const F2 &j1, const std::vector<std::pair<Bytes, Bytes>> &hs) { Bytes in = cat({Bytes{1}, enc(j0), enc(j1)}); for (auto &h : hs) { in.insert(in.end(), h.first.begin(), h.first.end()); in.insert(in.end(), h.second.begin(), h.second.end()); } return shake256(in, 1)[0]; }
inline std::vector<int> challenge(const F2 &j0, const F2 &j1, const std::vector<std::pair<Bytes, Bytes>> &hs) {
    Bytes in = cat({Bytes{1}, enc(j0), enc(j1)}); for (auto &h : hs) { in.insert(in.end(), h.first.begin(), h.first.end()); in.insert(in.end(), h.second.begin(), h.second.end()); }
    size_t n = hs.size(); Bytes st = shake256(in, 64 + n); std::vector<int> out;
    for (size_t i = 0; out.size() < n; i++) { if (i >= st.size()) st = shake256(in, 2 * st.size()); int v = st[i]; if (v >= 243) continue; for (int k = 0; k < 5 && out.size() < n; k++) { int d = v % 3; out.push_back(d == 2 ? -1 : d); v /= 3; } }
    return out;
}
enum Verdict { OK = 0, BAD_CURVE, BAD_ORDER, BACKTRACK, BAD_TAG, BAD_CHALLENGE, AMBIGUOUS };
inline const char *vname(Verdict v) { static const char *n[] = {"ok", "bad-curve", "bad-order", "backtracking", "bad-tag", "bad-challenge", "ambiguous"}; return n[v]; }

// walk the chain of l-power steps given in canonical models from Montgomery coefficient A
inline Verdict chain(const F2 &A, const std::vector<Bytes> &xs, int l, F2 &jout, Rng &r) {
    int e = l == 2 ? G()->a : G()->b; Model m; W w = from_mont(A, &m);
    std::vector<XZ> T;
    if (l == 2) { F2 rt[3]; cubic_roots(w, r, rt); T = {aff(rt[0]), aff(rt[1])}; }
    else { XZ P = xmule(w, rand_order(w, 3, r), 3, e - 1); XZ Q; do Q = xmule(w, rand_order(w, 3, r), 3, e - 1); while (eqx(P, Q)); T = {P, Q}; }
    for (size_t i = 0; i < xs.size(); i++) {
        if (i) { F2 j = j_inv(w); if (isz(j) || eq(j, fui(1728))) return AMBIGUOUS; m = canonical(w, r); }
        F2 x = to_W(m, dec(xs[i])); XZ K = aff(x);
        if (!is_square(rhs(w, x))) return BAD_ORDER;
        XZ U = xmule(w, K, l, e - 1); if (isO(U)) return BAD_ORDER; if (!isO(xmule(w, U, l, 1))) return BAD_ORDER;
        isog(w, K, l, e, T);
    }
    if (isO(T[0]) && isO(T[1])) return BACKTRACK;
    jout = j_inv(w); return OK;
}
inline Rng rng_of(const Bytes &b) { uint64_t h = 1469598103934665603ull; for (uint8_t x : b) { h ^= x; h *= 1099511628211ull; } return Rng(h); }     // cached results do not disturb the caller's stream
struct CurveCache { std::vector<std::pair<Bytes, bool>> c; bool operator()(const Bytes &b, Rng &) { Rng r = rng_of(b); for (auto &x : c) if (x.first == b) return x.second; bool v = valid_curve(dec(b), r); c.push_back({b, v}); if (c.size() > 64) c.erase(c.begin()); return v; } };

inline Verdict verify(const Proof &p, Rng &r, std::vector<int> *chall = nullptr) {
    static CurveCache cc;
    if (!cc(p.E0, r) || !cc(p.E1, r)) return BAD_CURVE;
    std::vector<std::pair<Bytes, Bytes>> hs; std::vector<int> tags;
    for (auto &q : p.resp) {
        F2 j2, j3; Verdict v; tags.push_back(q.tag);
        if (q.tag == -1) { v = chain(dec(p.E0), q.x, 3, j2, r); if (v) return v; hs.push_back({commit(q.r2, j2), q.h3}); }
        else if (q.tag == 0) { if (!cc(q.E2, r)) return BAD_CURVE; j2 = j_inv(from_mont(dec(q.E2))); v = chain(dec(q.E2), q.x, 2, j3, r); if (v) return v; hs.push_back({commit(q.r2, j2), commit(q.r3, j3)}); }
        else if (q.tag == 1) { v = chain(dec(p.E1), q.x, 3, j3, r); if (v) return v; hs.push_back({q.h2, commit(q.r3, j3)}); }
        else return BAD_TAG;
    }
    auto ch = challenge(j_inv(from_mont(dec(p.E0))), j_inv(from_mont(dec(p.E1))), hs); if (chall) *chall = ch;
    return ch == tags ? OK : BAD_CHALLENGE;
}

// ---- prover side
struct Walk { std::vector<W> E; std::vector<XZ> K; };      // E[i+1] = E[i]/<K[i]>
inline Walk random_walk(const W &w0, int l, int n, Rng &r) {
    Walk c; c.E.push_back(w0); int e = l == 2 ? G()->a : G()->b; XZ D{f1(), f0()};
    for (int i = 0; i < n; i++) {
        W w = c.E[i]; XZ K = i ? rand_order_indep(w, l, D, r) : rand_order(w, l, r); XZ Q = rand_order_indep(w, l, K, r);
        std::vector<XZ> push{Q}; isog(w, K, l, e, push); c.K.push_back(K); c.E.push_back(w); D = push[0];
    }
    return c;
}
struct Instance { Bytes r2, r3, h2, h3; F2 j2, j3; std::vector<Bytes> left, bottom, right; Bytes E2; Bytes E0, E1; };
inline std::vector<Bytes> pack_walk(const Walk &c, Rng &r, std::vector<Model> *models = nullptr) {
    std::vector<Bytes> out; for (size_t i = 0; i < c.K.size(); i++) { Model m = canonical(c.E[i], r); if (models) models->push_back(m); out.push_back(enc(to_M(m, xof(c.K[i])))); } return out; }
inline XZ rerandomise(const W &w, const XZ &K, int l, Rng &r) { mpz_t k; mpz_init(k); uint8_t b[64]; r.fill(b, sizeof b); mpz_import(k, sizeof b, -1, 1, 0, 0, b); mpz_mod(k, k, l == 2 ? G()->oA : G()->oB);
    if (l == 2) mpz_setbit(k, 0); else while (mpz_divisible_ui_p(k, 3) || !mpz_sgn(k)) mpz_add_ui(k, k, 1); XZ R = xmul(w, K, k); mpz_clear(k); return R; }
inline Instance make_instance(const Walk &sec, Rng &r, const Walk *given_left = nullptr) {
    Instance v; Walk L_ = given_left ? *given_left : random_walk(sec.E[0], 3, HEIGHT, r); Walk bot = sec, right;
    for (int row = 0; row < HEIGHT; row++) {
        XZ Kl = L_.K[row]; W El = L_.E[row];
        for (int col = 0; col < WIDTH; col++) {
            std::vector<XZ> pb{bot.K[col]}, pr{Kl}; W Eb = El, Er = bot.E[col];
            isog(Er, bot.K[col], 2, G()->a, pr); isog(Eb, Kl, 3, G()->b, pb);
            bot.E[col] = Eb; bot.K[col] = XZ{xof(pb[0]), f1()}; El = Er; Kl = XZ{xof(pr[0]), f1()};
        }
        right.E.push_back(El); right.K.push_back(Kl);
    }
    std::vector<XZ> none; W e3 = bot.E[WIDTH - 1]; isog(e3, bot.K[WIDTH - 1], 2, G()->a, none); bot.E[WIDTH] = e3;
    for (int c = 0; c < WIDTH; c++) { XZ q = rerandomise(bot.E[c], bot.K[c], 2, r); bot.K[c] = XZ{xof(q), f1()}; }
    v.j2 = j_inv(bot.E[0]); v.j3 = j_inv(e3);
    v.left = pack_walk(L_, r); v.right = pack_walk(right, r); v.bottom = pack_walk(bot, r); v.E2 = enc(canonical(bot.E[0], r).A);
    v.E0 = enc(canonical(sec.E[0], r).A); v.E1 = enc(canonical(sec.E[WIDTH], r).A);
    v.r2.resize(G()->hide_bytes); v.r3.resize(G()->hide_bytes); r.fill(v.r2.data(), v.r2.size()); r.fill(v.r3.data(), v.r3.size());
    v.h2 = commit(v.r2, v.j2); v.h3 = commit(v.r3, v.j3); return v;
}
inline void rehide(Instance &v, Rng &r) { r.fill(v.r2.data(), v.r2.size()); r.fill(v.r3.data(), v.r3.size()); v.h2 = commit(v.r2, v.j2); v.h3 = commit(v.r3, v.j3); }
inline Resp respond(const Instance &v, int tag) { Resp q; q.tag = tag;
    if (tag == -1) { q.r2 = v.r2; q.h3 = v.h3; q.x = v.left; } else if (tag == 0) { q.r2 = v.r2; q.r3 = v.r3; q.E2 = v.E2; q.x = v.bottom; } else { q.h2 = v.h2; q.r3 = v.r3; q.x = v.right; } return q; }
inline Proof assemble(const std::vector<Instance> &vs, std::vector<int> *tags = nullptr) {
    Proof p; p.E0 = vs[0].E0; p.E1 = vs[0].E1; std::vector<std::pair<Bytes, Bytes>> hs; for (auto &v : vs) hs.push_back({v.h2, v.h3});
    auto ch = challenge(j_inv(from_mont(dec(p.E0))), j_inv(from_mont(dec(p.E1))), hs); if (tags) *tags = ch;
    for (size_t i = 0; i < vs.size(); i++) p.resp.push_back(respond(vs[i], ch[i])); return p; }

// random supersingular curve: short random 2-/3-walks from A=0 or A=6; any of the six models
inline W small_step(const W &w0, int l, Rng &r) { W w = w0; int e = l == 2 ? G()->a : G()->b; XZ K = xmule(w, rand_order(w, l, r), l, e - 1); velu(w, l, xof(K)); return w; }
inline W random_ss(Rng &r, int steps = -1) { W w = from_mont(r.below(2) ? fui(6) : f0()); if (steps < 0) { XZ K = rand_order(w, 2, r); std::vector<XZ> n; isog(w, K, 2, G()->a, n); K = rand_order(w, 3, r); isog(w, K, 3, G()->b, n); }
    else for (int i = 0; i < steps; i++) w = small_step(w, r.below(2) ? 2 : 3, r); return w; }

} // namespace ref
