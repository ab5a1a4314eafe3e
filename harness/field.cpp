// C11: field arithmetic of both backends against GMP, on structured and carry-critical operands.
#include "pbt.hpp"
using namespace ref; using pbt::Case;
typedef uint64_t D;
struct Z { mpz_t z; Z() { mpz_init(z); } Z(unsigned long u) { mpz_init_set_ui(z, u); } Z(const mpz_t o) { mpz_init_set(z, o); } Z(const Z &o) { mpz_init_set(z, o.z); } Z &operator=(const Z &o) { mpz_set(z, o.z); return *this; } ~Z() { mpz_clear(z); } };
static Z operator+(const Z &a, const Z &b) { Z r; mpz_add(r.z, a.z, b.z); return r; }
static Z operator-(const Z &a, const Z &b) { Z r; mpz_sub(r.z, a.z, b.z); return r; }
static Z operator*(const Z &a, const Z &b) { Z r; mpz_mul(r.z, a.z, b.z); return r; }
static bool operator<(const Z &a, const Z &b) { return mpz_cmp(a.z, b.z) < 0; }
static bool operator==(const Z &a, const Z &b) { return mpz_cmp(a.z, b.z) == 0; }
static Z pw2(unsigned long k) { Z r; mpz_setbit(r.z, k); return r; }
static Z md(const Z &a, const Z &m) { Z r; mpz_mod(r.z, a.z, m.z); return r; }
static Z sh(const Z &a, unsigned long k) { Z r; mpz_mul_2exp(r.z, a.z, k); return r; }
static std::string hx(const Z &a) { char *s = mpz_get_str(0, 16, a.z); std::string r = std::string("0x") + s; free(s); return r; }
static int NL() { return G()->nl; } static Z P() { return Z(G()->p); } static Z P2() { return P() + P(); } static Z P4() { return P2() + P2(); }
static Z R() { return pw2(64 * NL()); } static Z Rinv() { static Z v; static int s = 0; if (s != pbt::SIZE) { s = pbt::SIZE; Z r = R(), p = P(); mpz_invert(v.z, r.z, p.z); } return v; }
static void put(D *d, const Z &a, int n) { memset(d, 0, 8 * n); size_t c; mpz_export(d, &c, -1, 8, 0, 0, a.z); if ((int) c > n) { fprintf(stderr, "operand too big\n"); exit(3); } }
static Z get(const D *d, int n) { Z r; mpz_import(r.z, n, -1, 8, 0, 0, d); return r; }
static void *LIB() { static void *h = pbt::load("lib"); return h; }
static std::string N() { return std::to_string(pbt::SIZE); }
static Z words(Case &c, int n);
// Montgomery reduction by columns: operand words ma (2n) whose quotient makes the middle accumulator word of one column all ones
// while the lowest one carries into it; z: lowest non-zero word of p+1. Random search with one solved unknown; may give up.
static bool column(Case &c, std::vector<D> &ma) {
    typedef unsigned __int128 U; int n = NL(); Z p1 = P() + Z(1); std::vector<D> q(n), m(n); put(q.data(), p1, n); int z = 0; while (!q[z]) z++; Rng g = c.fork(); const D M = ~0ull;
    Z T = pw2(128) - pw2(64);
    for (int attempt = 0; attempt < 40; attempt++) {
        for (auto &x : m) x = g.below(4) ? g.next() : M; ma.assign(2 * n, 0); for (int k = n; k < 2 * n; k++) ma[k] = g.below(3) ? g.next() : 0; ma[2 * n - 1] = g.next() >> 24;
        int i = z + 1 + (int) g.below(2 * n - 2 - z), j = std::min(i - z, n - 1), lo = std::max(0, i - n + 1); if (lo > j) continue; if (i - j >= n || !q[i - j]) continue;
        for (int it = 0; it < 4; it++) {
            Z carry(0ul), X; for (int k = 0; k <= i; k++) { X = carry; for (int a = std::max(0, k - n + 1); a <= k - z && a < n; a++) { Z u, v; mpz_import(u.z, 1, -1, 8, 0, 0, &m[a]); mpz_import(v.z, 1, -1, 8, 0, 0, &q[k - a]); X = X + u * v; }
                if (k == i) break; D low = mpz_getlimbn(X.z, 0); if (!mpz_sgn(X.z)) low = 0; if (k < n) ma[k] = m[k] - low; Z w; mpz_import(w.z, 1, -1, 8, 0, 0, &ma[k]); X = X + w; mpz_fdiv_q_2exp(carry.z, X.z, 64); }
            D lowX = mpz_size(X.z) > 0 ? mpz_getlimbn(X.z, 0) : 0, mid = mpz_size(X.z) > 1 ? mpz_getlimbn(X.z, 1) : 0;
            if (mid == M && lowX) {      // finish: make the low word carry, then the remaining words
                if (i < n) m[i] = g.next() % lowX; else ma[i] = M - g.below(3); if (i >= n && lowX + ma[i] >= lowX) ma[i] = M;
                Z mm; mpz_import(mm.z, n, -1, 8, 0, 0, m.data()); Z l = md(Z(0ul) - mm * P(), R()); std::vector<D> lw(n); put(lw.data(), l, n); for (int k = 0; k < n; k++) ma[k] = lw[k]; return true; }
            Z mj, qj; mpz_import(mj.z, 1, -1, 8, 0, 0, &m[j]); mpz_import(qj.z, 1, -1, 8, 0, 0, &q[i - j]); Z X0 = X - mj * qj, t = T; while (t < X0) t = t + pw2(128); Z v; mpz_cdiv_q(v.z, (t - X0).z, qj.z); if (mpz_sizeinbase(v.z, 2) > 64) break; m[j] = mpz_sgn(v.z) ? mpz_getlimbn(v.z, 0) : 0;
        }
    }
    return false;
}
static bool sameres(const Z &a, const Z &b) { return mpz_congruent_p(a.z, b.z, G()->p); }
// operands in [0, bound)
static Z gen(Case &c, const Z &bound) {
    Z r; int nl = NL();
    switch (c.below(10)) {
    case 0: r = Z(c.below(6)); break;
    case 1: r = bound - Z(1 + c.below(6)); break;
    case 2: r = P() + Z(c.below(5)) - Z(2); break;
    case 3: { static const D e[] = {0, 1, 2, ~0ull, ~0ull - 1, 1ull << 63, (1ull << 63) - 1, 0xffffffffull, 0x100000000ull, 0xffffffff00000000ull}; for (int i = nl - 1; i >= 0; i--) { unsigned k = (unsigned) c.below(14); Z pz = P(), p2 = P2(); D w = k < 10 ? e[k] : k == 10 ? mpz_getlimbn(pz.z, i) : k == 11 ? mpz_getlimbn(p2.z, i) : c.u64(); r = sh(r, 64); Z t; mpz_import(t.z, 1, -1, 8, 0, 0, &w); r = r + t; } break; }
    case 4: if (c.coin()) { std::vector<D> ma; if (c.coin() && column(c, ma)) { r = get(ma.data(), nl - 1); Z t; mpz_fdiv_q_2exp(t.z, bound.z, 64 * (nl - 1)); if (mpz_sgn(t.z)) r = r + sh(md(Z(ma[nl]), t), 64 * (nl - 1)); break; } r = md(Z(0ul) - words(c, nl - 1) * P(), pw2(64 * (nl - 1))); break; } r = pw2(c.below(64 * nl)) + Z(c.below(3)) - Z(1); break;
    case 5: { int lo = (int) c.below(64 * nl), hi = (int) c.below(64 * nl); if (lo > hi) std::swap(lo, hi); r = pw2(hi) - pw2(lo); break; }
    case 6: { Z b = bound; mpz_fdiv_q_2exp(b.z, b.z, 1 + c.below(3)); r = b + Z(c.below(5)) - Z(2); break; }
    case 7: { Rng g = c.fork(); int pos = 0; bool on = g.below(2); while (pos < 64 * nl) { int n = 1 + (int) g.below(100); if (on) for (int i = pos; i < std::min(pos + n, 64 * nl); i++) mpz_setbit(r.z, i); on = !on; pos += n; } break; }
    default: { Rng g = c.fork(); D d[MAXL]; for (int i = 0; i < nl; i++) d[i] = g.next(); r = get(d, nl); } }
    return md(r, bound);
}
// second operand, often related to the first; 10, 11: the product's Montgomery quotient has the chosen words (all but the highest)
static Z gen2(Case &c, const Z &a, const Z &bound) {
    Z r; switch (c.below(12)) { case 10: case 11: { Z one(1), q = pw2(64 * (NL() - 1)), x = a, i; if (!mpz_tstbit(x.z, 0)) return gen(c, bound); mpz_invert(i.z, x.z, q.z); std::vector<D> ma; if (c.coin() && column(c, ma)) r = md(get(ma.data(), NL() - 1) * i, q); else r = md(Z(0ul) - words(c, NL() - 1) * P() * i, q); Z t; mpz_fdiv_q_2exp(t.z, bound.z, 64 * (NL() - 1)); Z h = gen(c, bound); r = r + sh(md(h, t), 64 * (NL() - 1)); break; } case 0: r = a; break; case 1: r = P() - md(a, P()); break; case 2: r = P2() - a; break; case 3: r = P() - a + Z(c.below(3)) - Z(1); break; case 4: r = P2() - a + Z(c.below(3)) - Z(1); break; case 5: r = a + Z(c.below(3)) - Z(1); break;
    case 6: { int k = 64 * (1 + (int) c.below(NL())); r = pw2(k) - a + Z(c.below(3)) - Z(1); break; } case 7: { Z t = md(a, P()); if (mpz_sgn(t.z)) { Z i; mpz_invert(i.z, t.z, G()->p); Z tgt = c.coin() ? Z(c.below(3)) : P() - Z(1 + c.below(3)); r = md(tgt * R() * i, P()); if (c.coin()) r = r + P(); } break; } default: return gen(c, bound); }
    return md(r, bound);
}
struct Buf { D w[3 * MAXL + 6]; int n; explicit Buf(int n_) : n(n_) { for (auto &x : w) x = 0xd5d5d5d5d5d5d5d5ull; } D *p() { return w + 3; } void ok(const char *f) { for (int i = 0; i < 3; i++) if (w[i] != 0xd5d5d5d5d5d5d5d5ull || w[3 + n + i] != 0xd5d5d5d5d5d5d5d5ull) pbt::fail("%s writes outside its operand", f); } };
typedef void (*f_3)(const D *, const D *, D *); typedef void (*f_2)(const D *, D *); typedef void (*f_1)(D *);
template <class F> static F S(const std::string &n) { return pbt::sym<F>(LIB(), n); }
static void range_check(const char *f, const Z &r, const Z &top, const char *how, const Z &a, const Z &b) { if (!(r < top)) pbt::fail("%s(%s, %s)%s = %s is outside the documented range", f, hx(a).c_str(), hx(b).c_str(), how, hx(r).c_str()); }

// two operands -> one element
struct Bin { const char *name; int kind; };   // 0 add 1 sub 2 mul 3 a-b+2p exact 4 a-b+4p exact
static void run_bin(Case &c, const std::string &fn, int kind) {
    auto f = S<f_3>(fn); if (!f) { c.label("not exported: " + fn); return; } int n = NL(); Z bound = kind == 3 || kind == 4 ? P2() : P2(); bool wide = kind == 2 && c.coin(1, 8);
    Z a = gen(c, bound), b = gen2(c, a, bound), want; if (c.coin()) std::swap(a, b); int al = (int) c.below(4); if (al == 3) b = a; Buf A(n), B(n), C(n); put(A.p(), a, n); put(B.p(), b, n);
    D *pa = A.p(), *pb = al == 3 ? A.p() : B.p(), *pc = al == 0 ? C.p() : al == 1 ? A.p() : al == 2 ? B.p() : (c.coin() ? A.p() : C.p()); f(pa, pb, pc); Z r = get(pc, n); A.ok(fn.c_str()); B.ok(fn.c_str()); C.ok(fn.c_str());
    static const char *how[] = {"", " (output over the first operand)", " (output over the second operand)", " (equal operands)"}; if (pa != pc && !(get(pa, n) == a)) pbt::fail("%s modifies its first operand", fn.c_str()); if (pb != pc && !(get(pb, n) == b)) pbt::fail("%s modifies its second operand", fn.c_str());
    if (kind == 0) want = a + b; else if (kind == 1) want = a - b; else if (kind == 2) want = a * b * Rinv(); else if (kind == 3) want = a - b + P2(); else want = a - b + P4();
    if (kind >= 3) { CHECK(r == want, "%s(%s, %s)%s = %s, expected %s", fn.c_str(), hx(a).c_str(), hx(b).c_str(), how[al], hx(r).c_str(), hx(want).c_str()); }
    else { CHECK(sameres(r, want), "%s(%s, %s)%s = %s is not the right element", fn.c_str(), hx(a).c_str(), hx(b).c_str(), how[al], hx(r).c_str()); range_check(fn.c_str(), r, P2(), how[al], a, b); }
    (void) wide; c.label(fn); c.nontrivial = true; c.note("%s(%.20s.., %.20s..)%s", fn.c_str(), hx(a).c_str(), hx(b).c_str(), how[al]); c.distinct = fn + hx(a) + hx(b) + how[al];
}
PROPERTY(fp_bin, 20) { static const Bin t[] = {{"fpadd", 0}, {"fpsub", 1}, {"fpmul_mont", 2}, {"mp_sub_p2", 3}}; const Bin &b = t[c.strat(4)]; std::string n = b.name; n = n == "fpmul_mont" ? "fpmul" + N() + "_mont" : n == "mp_sub_p2" ? "mp_sub" + N() + "_p2" : n + N(); run_bin(c, n, b.kind); }
PROPERTY(fp_sub_p4, 20) { run_bin(c, "mp_sub" + N() + "_p4", 4); }
PROPERTY(fp_un, 20) {
    static const char *t[] = {"fpneg", "fpdiv2_", "fpcorrection", "fpsqr", "to_mont", "from_mont", "fpinv", "fpinv_bingcd"}; int k = (int) c.strat(8); std::string fn = k < 3 ? t[k] + N() : k == 3 ? "fpsqr" + N() + "_mont" : k == 6 ? "fpinv" + N() + "_mont" : k == 7 ? "fpinv" + N() + "_mont_bingcd" : t[k]; void *p = dlsym(LIB(), fn.c_str()); if (!p) { c.label("not exported: " + fn); return; }
    int n = NL(); Z a = gen(c, k == 4 ? P() : P2()); if (k >= 6 && mpz_divisible_p(a.z, G()->p)) a = Z(1); Buf A(n), C(n); put(A.p(), a, n); Z r; bool inplace = k == 0 || k == 2 || k >= 6; bool al = false;
    if (inplace) { ((f_1) p)(A.p()); r = get(A.p(), n); } else { al = c.coin(); D *o = al ? A.p() : C.p(); ((f_2) p)(A.p(), o); r = get(o, n); if (!al) CHECK(get(A.p(), n) == a, "%s modifies its operand", fn.c_str()); } A.ok(fn.c_str()); C.ok(fn.c_str());
    Z want; switch (k) { case 0: want = Z(0ul) - a; break; case 1: CHECK(sameres(r + r, a), "%s(%s)%s = %s is not half of it", fn.c_str(), hx(a).c_str(), al ? " in place" : "", hx(r).c_str()); want = r; break; case 2: want = a; break; case 3: want = a * a * Rinv(); break; case 4: want = a * R(); break; case 5: want = a * Rinv(); break; default: { Z v = md(a * Rinv(), P()), i; mpz_invert(i.z, v.z, G()->p); want = i * R(); } }
    CHECK(sameres(r, want), "%s(%s)%s = %s is not the right element", fn.c_str(), hx(a).c_str(), al ? " in place" : "", hx(r).c_str()); range_check(fn.c_str(), r, k == 0 ? P2() + Z(1) : k == 2 || k == 5 ? P() : P2(), al ? " in place" : "", a, Z(0ul)); c.label(fn); c.nontrivial = true; c.note("%s(%.24s..)", fn.c_str(), hx(a).c_str()); c.distinct = fn + hx(a) + (al ? "i" : "");
}
// GF(p^2)
struct E2 { Z x, y; }; static E2 gen_e(Case &c, const Z &b) { Z x = gen(c, b); return E2{x, gen2(c, x, b)}; } static void put2(D *d, const E2 &e) { put(d, e.x, NL()); put(d + NL(), e.y, NL()); } static E2 get2(const D *d) { return E2{get(d, NL()), get(d + NL(), NL())}; } static std::string hx2(const E2 &e) { return hx(e.x) + "+" + hx(e.y) + "i"; } static bool same2(const E2 &a, const E2 &b) { return sameres(a.x, b.x) && sameres(a.y, b.y); }
static E2 mul2(const E2 &a, const E2 &b) { return E2{md((a.x * b.x - a.y * b.y) * Rinv(), P()), md((a.x * b.y + a.y * b.x) * Rinv(), P())}; }
static bool zero2(const E2 &a) { Z x = md(a.x, P()), y = md(a.y, P()); return !mpz_sgn(x.z) && !mpz_sgn(y.z); } static E2 one2() { return E2{md(R(), P()), Z(0ul)}; }
PROPERTY(fp2_bin, 20) {
    int k = (int) c.strat(3); static const char *t[] = {"fp2add", "fp2sub", "fp2mul"}; std::string fn = t[k] + N() + (k == 2 ? "_mont" : ""); auto f = S<f_3>(fn); if (!f) { c.label("not exported: " + fn); return; } int n = 2 * NL(); bool lazy = k == 2 && c.coin(1, 4); Z bd = lazy ? P4() : P2();
    E2 a = gen_e(c, bd), b = c.coin(1, 3) ? E2{gen2(c, a.x, bd), gen2(c, a.y, bd)} : gen_e(c, bd); if (c.coin(1, 12)) b = E2{a.y, a.x}; int al = (int) c.below(4); if (al == 3) b = a; Buf A(n), B(n), C(n); put2(A.p(), a); put2(B.p(), b); D *pa = A.p(), *pb = al == 3 ? A.p() : B.p(), *pc = al == 0 ? C.p() : al == 1 ? A.p() : al == 2 ? B.p() : (c.coin() ? A.p() : C.p());
    f(pa, pb, pc); E2 r = get2(pc); A.ok(fn.c_str()); B.ok(fn.c_str()); C.ok(fn.c_str()); static const char *how[] = {"", " (output over the first operand)", " (output over the second operand)", " (equal operands)"}; if (pa != pc) { E2 q = get2(pa); CHECK(q.x == a.x && q.y == a.y, "%s modifies its first operand", fn.c_str()); } if (pb != pc) { E2 q = get2(pb); CHECK(q.x == b.x && q.y == b.y, "%s modifies its second operand", fn.c_str()); }
    E2 want = k == 0 ? E2{a.x + b.x, a.y + b.y} : k == 1 ? E2{a.x - b.x, a.y - b.y} : mul2(a, b); CHECK(same2(r, want), "%s(%s, %s)%s = %s is not the right element", fn.c_str(), hx2(a).c_str(), hx2(b).c_str(), how[al], hx2(r).c_str()); range_check(fn.c_str(), r.x, P2(), how[al], a.x, b.x); range_check(fn.c_str(), r.y, P2(), how[al], a.y, b.y); c.label(fn + (lazy ? " (unreduced operands)" : "")); c.nontrivial = true; c.note("%s(%.20s.., %.20s..)%s", fn.c_str(), hx2(a).c_str(), hx2(b).c_str(), how[al]); c.distinct = fn + hx2(a) + hx2(b) + how[al];
}
PROPERTY(fp2_un, 20) {
    static const char *t[] = {"fp2neg", "fp2div2_", "fp2correction", "fp2sqr", "to_fp2mont", "from_fp2mont", "fp2inv", "fp2inv_bingcd", "fp2_conj"}; int k = (int) c.strat(9); std::string fn = k < 3 ? t[k] + N() : k == 3 ? "fp2sqr" + N() + "_mont" : k == 6 ? "fp2inv" + N() + "_mont" : k == 7 ? "fp2inv" + N() + "_mont_bingcd" : t[k]; void *p = dlsym(LIB(), fn.c_str()); if (!p) { c.label("not exported: " + fn); return; }
    int n = 2 * NL(); bool lazy = k == 3 && c.coin(1, 4); E2 a = gen_e(c, k == 4 ? P() : lazy ? P4() : P2()); if (c.coin(1, 6)) (c.coin() ? a.x : a.y) = Z(0ul); if (k >= 6 && k < 8 && zero2(a)) a = E2{Z(1), Z(0ul)}; Buf A(n), C(n); put2(A.p(), a); bool inplace = k == 0 || k == 2 || k == 6 || k == 7, al = false; E2 r;
    if (inplace) { ((f_1) p)(A.p()); r = get2(A.p()); } else { al = c.coin(); D *o = al ? A.p() : C.p(); ((f_2) p)(A.p(), o); r = get2(o); if (!al) { E2 q = get2(A.p()); CHECK(q.x == a.x && q.y == a.y, "%s modifies its operand", fn.c_str()); } } A.ok(fn.c_str()); C.ok(fn.c_str());
    E2 want; switch (k) { case 0: want = E2{Z(0ul) - a.x, Z(0ul) - a.y}; break; case 1: CHECK(same2(E2{r.x + r.x, r.y + r.y}, a), "%s(%s) = %s is not half of it", fn.c_str(), hx2(a).c_str(), hx2(r).c_str()); want = r; break; case 2: want = a; break; case 3: want = mul2(a, a); break; case 4: want = E2{a.x * R(), a.y * R()}; break; case 5: want = E2{a.x * Rinv(), a.y * Rinv()}; break; case 8: want = E2{a.x, Z(0ul) - a.y}; break; default: CHECK(same2(mul2(a, r), one2()), "%s(%s) = %s is not the inverse", fn.c_str(), hx2(a).c_str(), hx2(r).c_str()); want = r; }
    Z top = k == 0 || k == 8 ? P2() + Z(1) : k == 2 || k == 5 ? P() : P2(); CHECK(same2(r, want), "%s(%s)%s = %s is not the right element", fn.c_str(), hx2(a).c_str(), al ? " in place" : "", hx2(r).c_str()); range_check(fn.c_str(), r.x, top, "", a.x, a.y); range_check(fn.c_str(), r.y, top, "", a.x, a.y); c.label(fn); c.nontrivial = true; c.note("%s(%.30s..)", fn.c_str(), hx2(a).c_str()); c.distinct = fn + hx2(a) + (al ? "i" : "");
}
PROPERTY(fp2_more, 30) {
    int k = (int) c.strat(6), n = 2 * NL();
    if (k == 0) { auto f = S<unsigned char (*)(const D *, D *)>("is_sqr_fp2"); if (!f) { c.label("not exported: is_sqr_fp2"); return; } E2 a = gen_e(c, P2()); int h = (int) c.below(4); if (h == 1) { E2 b = gen_e(c, P2()); a = mul2(b, b); } else if (h == 2) a.y = c.coin() ? Z(0ul) : P(); else if (h == 3) a.x = c.coin() ? Z(0ul) : P(); Buf A(n), s(NL()); put2(A.p(), a); int got = f(A.p(), s.p()); s.ok("is_sqr_fp2"); A.ok("is_sqr_fp2"); Z nn = md((a.x * a.x + a.y * a.y), P()); int j = mpz_legendre(nn.z, G()->p); CHECK(got == (j >= 0 ? 1 : 0), "is_sqr_fp2(%s) = %d, the element is %sa square", hx2(a).c_str(), got, j >= 0 ? "" : "not "); E2 q = get2(A.p()); CHECK(q.x == a.x && q.y == a.y, "is_sqr_fp2 modifies its operand"); c.label(j >= 0 ? "is_sqr_fp2: square" : "is_sqr_fp2: non-square"); c.note("is_sqr_fp2(%.30s..)", hx2(a).c_str()); c.distinct = "sq" + hx2(a); }
    else if (k == 1) { auto f = S<f_2>("sqrt_Fp2"); if (!f) { c.label("not exported: sqrt_Fp2"); return; } E2 b = gen_e(c, P2()); E2 a = mul2(b, b); /* documented domain: squares outside the prime field (poik.c has its own root for those) */ if (zero2(E2{a.y, Z(0ul)})) { c.label("sqrt_Fp2: subfield skipped"); return; } if (c.coin()) a.x = a.x + P(); Buf A(n), C(n); put2(A.p(), a); f(A.p(), C.p()); C.ok("sqrt_Fp2"); E2 r = get2(C.p()); CHECK(same2(mul2(r, r), a), "sqrt_Fp2(%s) = %s is not a square root", hx2(a).c_str(), hx2(r).c_str()); c.label("sqrt_Fp2"); c.note("sqrt_Fp2(%.30s..)", hx2(a).c_str()); c.distinct = "rt" + hx2(a); }
    else if (k == 2) { auto f = S<void (*)(D *, D *, D *)>("inv_3_way"); if (!f) { c.label("not exported: inv_3_way"); return; } E2 a[3]; Buf A[3] = {Buf(n), Buf(n), Buf(n)}; for (int i = 0; i < 3; i++) { a[i] = gen_e(c, P2()); if (zero2(a[i])) a[i] = E2{Z(3), Z(1)}; put2(A[i].p(), a[i]); } f(A[0].p(), A[1].p(), A[2].p()); for (int i = 0; i < 3; i++) { A[i].ok("inv_3_way"); E2 r = get2(A[i].p()); CHECK(same2(mul2(r, a[i]), one2()), "inv_3_way: result %d is not the inverse of %s", i + 1, hx2(a[i]).c_str()); range_check("inv_3_way", r.x, P2(), "", a[i].x, a[i].y); range_check("inv_3_way", r.y, P2(), "", a[i].x, a[i].y); } c.label("inv_3_way"); c.note("inv_3_way(%.30s..)", hx2(a[0]).c_str()); c.distinct = "i3" + hx2(a[0]) + hx2(a[1]) + hx2(a[2]); }
    else if (k == 3) { auto f = S<void (*)(const D *, int, D *)>("mont_n_way_inv"); if (!f) { c.label("not exported: mont_n_way_inv"); return; } int m = (int) c.range(1, 8); std::vector<E2> a(m); std::vector<D> v(m * n), o(m * n + 1, 77); for (int i = 0; i < m; i++) { a[i] = gen_e(c, P2()); if (zero2(a[i])) a[i] = E2{Z(3), Z(1)}; put2(&v[i * n], a[i]); } f(v.data(), m, o.data()); CHECK(o[m * n] == 77, "mont_n_way_inv writes outside its output"); for (int i = 0; i < m; i++) { E2 r = get2(&o[i * n]); CHECK(same2(mul2(r, a[i]), one2()), "mont_n_way_inv: result %d of %d is not the inverse", i + 1, m); } c.label("mont_n_way_inv"); c.note("mont_n_way_inv of %d", m); c.distinct = "nw" + hx2(a[0]) + std::to_string(m); }
    else if (k == 4) { bool cube = c.coin(); auto f = S<void (*)(D *, const D *)>(cube ? "cube_Fp2_cycl" : "sqr_Fp2_cycl"); if (!f) { c.label("not exported: cyclotomic"); return; } E2 b = gen_e(c, P2()); if (zero2(b)) b = E2{Z(2), Z(1)}; Z nn = md((b.x * b.x + b.y * b.y) * Rinv(), P()), i; Z nv = md(nn * Rinv(), P()); mpz_invert(i.z, nv.z, G()->p); i = md(i * R(), P()); E2 cj = E2{b.x, P2() + P2() - b.y}; E2 u = mul2(mul2(b, b), E2{i, Z(0ul)}); (void) cj; Buf A(n); Buf O(NL()); put2(A.p(), u); put(O.p(), md(R(), P()), NL()); f(A.p(), O.p()); A.ok("cyclotomic"); E2 r = get2(A.p()), w = mul2(u, u); if (cube) w = mul2(w, u); CHECK(same2(r, w), "%s(%s) wrong", cube ? "cube_Fp2_cycl" : "sqr_Fp2_cycl", hx2(u).c_str()); c.label(cube ? "cube_Fp2_cycl" : "sqr_Fp2_cycl"); c.note("cyclotomic %.30s..", hx2(u).c_str()); c.distinct = (cube ? "cc" : "cs") + hx2(u); }
    else { auto f = S<int8_t (*)(const D *, const D *)>("cmp_f2elm"); if (!f) { c.label("not exported: cmp_f2elm"); return; } E2 a = gen_e(c, P2()), b = a; int h = (int) c.below(4); if (h == 0) b = gen_e(c, P2()); else if (h == 1) { b.x = md(b.x + P(), P2()); } else if (h == 2) { Z &q = c.coin() ? b.x : b.y; q = md(q + pw2(c.below(mpz_sizeinbase(G()->p, 2))), P2()); } Buf A(n), B(n); put2(A.p(), a); put2(B.p(), b); int8_t r = f(A.p(), B.p()); bool s = same2(a, b); CHECK(r == (s ? 0 : -1), "cmp_f2elm(%s, %s) = %d, elements are %s", hx2(a).c_str(), hx2(b).c_str(), r, s ? "equal" : "different"); c.label(s ? "cmp_f2elm: equal" : "cmp_f2elm: different"); c.note("cmp_f2elm(%.30s..)", hx2(a).c_str()); c.distinct = "cm" + hx2(a) + hx2(b); }
    c.nontrivial = true;
}
static Z words(Case &c, int n) { D d[64]; static const D e[] = {0, 1, ~0ull, ~0ull - 1, 1ull << 63, (1ull << 63) - 1, 0xffffffffull, 0xffffffff00000000ull}; unsigned mode = (unsigned) c.below(4); Rng g = c.fork(); for (int i = 0; i < n; i++) d[i] = mode == 0 ? e[g.below(8)] : mode == 1 ? (g.below(2) ? ~0ull : 0) : mode == 2 ? (g.below(2) ? g.next() : e[g.below(8)]) : g.next(); return get(d, n); }
PROPERTY(mp_words, 20) {
    int k = (int) c.strat(9);
    if (k <= 1) { auto f = S<unsigned (*)(const D *, const D *, D *, unsigned)>(k ? "mp_sub" : "mp_add"); if (!f) return; int n = (int) c.range(1, 24); Z a = words(c, n), b = c.coin(1, 4) ? md(pw2(64 * n) - a - Z(c.below(2)), pw2(64 * n)) : c.coin(1, 4) ? a : words(c, n); Buf A(n), B(n), C(n); put(A.p(), a, n); put(B.p(), b, n); D *o = c.coin() ? C.p() : c.coin() ? A.p() : B.p(); unsigned cy = f(A.p(), B.p(), o, n); Z w = k ? a - b : a + b; Z r = get(o, n); A.ok("mp_add/sub"); B.ok("mp_add/sub"); C.ok("mp_add/sub"); unsigned want = k ? (a < b) : !(w < pw2(64 * n)); CHECK(r == md(w, pw2(64 * n)) && cy == want, "%s(%s, %s, %d words) = %s carry %u", k ? "mp_sub" : "mp_add", hx(a).c_str(), hx(b).c_str(), n, hx(r).c_str(), cy); c.label(k ? "mp_sub" : "mp_add"); c.distinct = "as" + std::to_string(k) + hx(a) + hx(b); }
    else if (k == 2) { auto f = S<void (*)(const D *, const D *, D *, unsigned)>("mp_mul"); if (!f) { c.label("not exported: mp_mul"); return; } int n = NL(); Z top = P4() + P4(), a = md(words(c, n), top), b = md(words(c, n), top); if (c.coin(1, 4)) a = gen(c, top); if (c.coin(1, 4)) b = gen(c, top); Buf A(n), B(n), C(2 * n); put(A.p(), a, n); put(B.p(), b, n); f(A.p(), B.p(), C.p(), n); C.ok("mp_mul"); Z r = get(C.p(), 2 * n); CHECK(r == a * b, "mp_mul(%s, %s) = %s", hx(a).c_str(), hx(b).c_str(), hx(r).c_str()); c.label("mp_mul"); c.distinct = "mm" + hx(a) + hx(b); }
    else if (k == 3) { auto f = S<void (*)(D *, D *)>("rdc_mont"); if (!f) { c.label("not exported: rdc_mont"); return; } int n = NL(); Z bound = P() * R(); Z a; switch (c.below(8)) { case 7: { std::vector<D> ma; if (column(c, ma)) { a = get(ma.data(), 2 * n); c.label("rdc_mont: column of ones"); } break; } case 5: case 6: { Z m = words(c, n), t = words(c, n); if (c.coin()) t = gen(c, P2()); a = t * R() - m * P(); break; } case 0: a = bound - Z(1 + c.below(4)); break; case 1: a = gen(c, P2()) * gen(c, P2()); break; case 2: a = gen(c, P()) * R() + words(c, n); break; case 3: a = gen(c, P()) * P() ; break; default: a = words(c, 2 * n); } a = md(a, bound); Buf A(2 * n), C(n); put(A.p(), a, 2 * n); f(A.p(), C.p()); C.ok("rdc_mont"); Z r = get(C.p(), n); CHECK(sameres(r, a * Rinv()), "rdc_mont(%s) = %s is not the right element", hx(a).c_str(), hx(r).c_str()); CHECK(r < P2(), "rdc_mont(%s) = %s is outside the range", hx(a).c_str(), hx(r).c_str()); c.label("rdc_mont"); c.distinct = "rd" + hx(a); }
    else if (k == 4) { auto f = S<int8_t (*)(const uint8_t *, const uint8_t *, unsigned)>("ct_compare"); if (!f) return; Rng g = c.fork(); unsigned n = (unsigned) c.range(0, 700); Bytes a(n + 1), b; g.fill(a.data(), n + 1); b = a; b[n] ^= 0x55; bool diff = n && c.coin(2, 3); unsigned pos = 0; if (diff) { pos = c.coin(1, 4) ? n - 1 : c.coin(1, 4) ? 0 : (unsigned) g.below(n); uint8_t x = c.coin() ? (uint8_t) (1u << g.below(8)) : (uint8_t) (1 + g.below(255)); b[pos] ^= x; if (c.coin() && n > 1) { unsigned q = (unsigned) g.below(n); if (q != pos) b[q] ^= x; } } int8_t r = f(a.data(), b.data(), n); CHECK(r == (diff ? -1 : 0), "ct_compare of %u bytes %s gives %d", n, diff ? "that differ" : "that are equal", r); c.label(diff ? "ct_compare: different" : "ct_compare: equal"); c.note("ct_compare %u bytes, difference at %u", n, pos); }
    else if (k == 5) { auto f = S<void (*)(uint8_t *, const uint8_t *, unsigned, int8_t)>("ct_cmov"); if (!f) return; Rng g = c.fork(); unsigned n = (unsigned) c.range(0, 300); Bytes a(n + 8), r(n + 8), r0; g.fill(a.data(), n + 8); g.fill(r.data(), n + 8); r0 = r; Bytes a0 = a; bool sel = c.coin(); f(r.data(), a.data(), n, sel ? -1 : 0); CHECK(a == a0, "ct_cmov modifies its source"); for (unsigned i = 0; i < n + 8; i++) CHECK(r[i] == (sel && i < n ? a[i] : r0[i]), "ct_cmov of %u bytes with selector %d is wrong at byte %u", n, sel ? -1 : 0, i); c.label("ct_cmov"); c.note("ct_cmov %u bytes", n); }
    else if (k == 6) { bool l = c.coin(); auto f = S<void (*)(D *, unsigned)>(l ? "mp_shiftl1" : "mp_shiftr1"); if (!f) return; int n = (int) c.range(1, 12); Z a = words(c, n); Buf A(n); put(A.p(), a, n); f(A.p(), n); A.ok("shift"); Z w; if (l) w = md(a + a, pw2(64 * n)); else mpz_fdiv_q_2exp(w.z, a.z, 1); CHECK(get(A.p(), n) == w, "%s(%s, %d words) wrong", l ? "mp_shiftl1" : "mp_shiftr1", hx(a).c_str(), n); c.label(l ? "mp_shiftl1" : "mp_shiftr1"); c.distinct = "sh" + hx(a) + (l ? "l" : "r"); }
    else if (k == 7) { int h = (int) c.below(3); static const char *nm[] = {"fpcopy", "fpzero", "fp2copy"}; std::string fn = nm[h] + N(); void *p = dlsym(LIB(), fn.c_str()); if (!p) return; int n = h == 2 ? 2 * NL() : NL(); Z a = words(c, n); Buf A(n), C(n); put(A.p(), a, n); if (h == 1) { ((f_1) p)(A.p()); Z z; CHECK(get(A.p(), n) == z, "fpzero leaves a non-zero value"); A.ok("fpzero"); } else { ((f_2) p)(A.p(), C.p()); CHECK(get(C.p(), n) == a && get(A.p(), n) == a, "%s does not copy", fn.c_str()); C.ok(fn.c_str()); } c.label(fn); c.distinct = fn + hx(a); }
    else { auto f = S<void (*)(const D *, const D *, D *, unsigned)>("multiply"); if (!f) { c.label("not exported: multiply"); return; } int n = (int) c.range(1, 8); Z a = words(c, n), b = words(c, n); Buf A(n), B(n), C(2 * n); put(A.p(), a, n); put(B.p(), b, n); f(A.p(), B.p(), C.p(), n); C.ok("multiply"); CHECK(get(C.p(), 2 * n) == a * b, "multiply(%s, %s) wrong", hx(a).c_str(), hx(b).c_str()); c.label("multiply"); c.distinct = "mu" + hx(a) + hx(b); }
    c.nontrivial = true;
}
// arithmetic modulo the group orders (compressed library)
static int NO() { return pbt::SIZE == 434 || pbt::SIZE == 503 ? 4 : pbt::SIZE == 610 ? 5 : 6; }
static Z gen_o(Case &c, const Z &o) { Z r; switch (c.below(5)) { case 0: r = Z(c.below(9)); break; case 1: r = o - Z(1 + c.below(9)); break; case 2: r = pw2(c.below(64 * NO())) + Z(c.below(3)) - Z(1); break; default: r = words(c, NO()); } return md(r, o); }
PROPERTY(order_arith, 20) {
    int k = (int) c.strat(5), n = NO(); Z oA(G()->oA), oB(G()->oB), Ro = pw2(64 * n); Buf A(n), B(n), C(n);
    if (k == 0) { auto f = S<f_2>("inv_mod_orderA"); if (!f) { c.label("not exported: inv_mod_orderA"); return; } Z a = gen_o(c, oA); if (!mpz_tstbit(a.z, 0)) a = md(a + Z(1), oA); if (c.coin(1, 3)) { int e = (int) c.range(1, G()->a - 1); a = md(Z(1) + sh(gen_o(c, oA), e), oA); } put(A.p(), a, n); f(A.p(), C.p()); C.ok("inv_mod_orderA"); Z r = get(C.p(), n); CHECK(md(r * a, oA) == Z(1), "inv_mod_orderA(%s) = %s is not the inverse modulo 2^%d", hx(a).c_str(), hx(r).c_str(), G()->a); CHECK(r < oA, "inv_mod_orderA(%s) is not reduced", hx(a).c_str()); c.label("inv_mod_orderA"); c.note("inv_mod_orderA(%s)", hx(a).c_str()); c.distinct = "ia" + hx(a); }
    else if (k == 1 || k == 2) { auto f = k == 1 ? S<void (*)(const D *, const D *, D *, const D *, const D *)>("Montgomery_multiply_mod_order") : S<void (*)(const D *, const D *, D *, const D *, const D *)>("Montgomery_inversion_mod_order_bingcd"); if (!f) { c.label("not exported: mod order"); return; } Buf O(n), rp(n), RR(n); put(O.p(), oB, n); Z inv; mpz_invert(inv.z, oB.z, Ro.z); put(rp.p(), md(Ro - inv, Ro), n); put(RR.p(), md(Ro * Ro, oB), n); Z a = gen_o(c, oB); put(A.p(), a, n); Z ri; mpz_invert(ri.z, Ro.z, oB.z);
        if (k == 1) { Z b = gen_o(c, oB); put(B.p(), b, n); f(A.p(), B.p(), C.p(), O.p(), rp.p()); C.ok("mod order"); Z r = get(C.p(), n); CHECK(r == md(a * b * ri, oB), "Montgomery_multiply_mod_order(%s, %s) = %s wrong", hx(a).c_str(), hx(b).c_str(), hx(r).c_str()); c.label("Montgomery_multiply_mod_order"); c.distinct = "mo" + hx(a) + hx(b); }
        else { if (mpz_divisible_ui_p(a.z, 3)) a = a + Z(1); if (!(a < oB)) a = Z(1); put(A.p(), a, n); ((void (*)(const D *, D *, const D *, const D *, const D *)) (void *) f)(A.p(), C.p(), O.p(), rp.p(), RR.p()); C.ok("mod order"); Z r = get(C.p(), n); Z v = md(a * ri, oB), i; mpz_invert(i.z, v.z, oB.z); CHECK(md(r, oB) == md(i * Ro, oB), "Montgomery_inversion_mod_order_bingcd(%s) = %s wrong", hx(a).c_str(), hx(r).c_str()); c.label("Montgomery_inversion_mod_order_bingcd"); c.distinct = "mi" + hx(a); } c.note("mod 3^%d: %s", G()->b, hx(a).c_str()); }
    else if (k == 3) { auto f = S<unsigned (*)(D *)>("mod3"); if (!f) { c.label("not exported: mod3"); return; } Z a = words(c, n); put(A.p(), a, n); unsigned r = f(A.p()); CHECK(r == mpz_fdiv_ui(a.z, 3), "mod3(%s) = %u", hx(a).c_str(), r); c.label("mod3"); c.distinct = "m3" + hx(a); c.note("mod3(%s)", hx(a).c_str()); }
    else { auto f = S<f_1>("Montgomery_neg"); auto g = (void (*)(D *, D *)) (void *) f; if (!f) { c.label("not exported: Montgomery_neg"); return; } bool tw = c.coin(); Z o = tw ? oA : oB, a = gen_o(c, o); Buf O(n); put(O.p(), o, n); put(A.p(), a, n); g(A.p(), O.p()); A.ok("Montgomery_neg"); Z r = get(A.p(), n); CHECK(md(r, o) == md(Z(0ul) - a, o), "Montgomery_neg(%s) = %s wrong", hx(a).c_str(), hx(r).c_str()); c.label("Montgomery_neg"); c.distinct = "mn" + hx(a); }
    c.nontrivial = true;
}
