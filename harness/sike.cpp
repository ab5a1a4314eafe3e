// C12 key exchange, C13 KEM, C14 compressed variants: the library against an independent computation
#include "pbt.hpp"
#include "sikeh.hpp"
#include <fstream>
#include <sstream>
using namespace ref;
static bool COMP = false;                            // the compressed variants have a basis of their own
static sikeh::Lib &SI() { COMP = false; static sikeh::Lib l("sidh", false); return l; }
static sikeh::Lib &CO() { COMP = true; static sikeh::Lib l("comp", true); return l; }

// ---------------------------------------------------------------- reference key exchange
struct Z { mpz_t z; Z() { mpz_init(z); } Z(const Z &o) { mpz_init_set(z, o.z); } Z &operator=(const Z &o) { mpz_set(z, o.z); return *this; } ~Z() { mpz_clear(z); } };
static Z num(const Bytes &b) { Z r; mpz_import(r.z, b.size(), -1, 1, 0, 0, b.data()); return r; }
static Bytes bytes(const Z &v, size_t n) { Bytes b(n, 0); size_t c; if (mpz_sizeinbase(v.z, 2) > 8 * n) abort(); mpz_export(b.data(), &c, -1, 1, 0, 0, v.z); return b; }
struct Basis { Pt P, Q; F2 x[3]; };                  // Weierstrass points, x on the starting curve A = 6
static W start(Model *m = nullptr) { return from_mont(fui(6), m); }
static Bytes unhex(const std::string &s) { Bytes b; for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((uint8_t) strtoul(s.substr(i, 2).c_str(), 0, 16)); return b; }
static bool lift3(const W &w, const F2 &xp, const F2 &xq, const F2 &xr, Pt &P, Pt &Q) { if (!lift(w, xp, P) || !lift(w, xq, Q)) return false; for (int i = 0; i < 2; i++) { Pt d = ptadd(w, P, ptneg(Q)); if (!d.inf && eq(d.x, xr)) return true; Q = ptneg(Q); } return false; }
static Basis &basis(int side) {
    static Basis bb[2][2]; static bool dn[2]; Basis *b = bb[COMP]; bool &done = dn[COMP];
    if (!done) { done = true; std::ifstream f(pbt::opt("basis")); std::string l; F2 x[2][3]; int got = 0;
        while (std::getline(f, l)) { std::istringstream s(l); int n; std::string v, t, h; s >> v >> n >> t >> h; if (n != pbt::SIZE || v != (COMP ? "comp" : "plain")) continue; x[t[0] - 'A'][t[1] - 'P'] = dec(unhex(h)); got++; }
        if (got != 6) { fprintf(stderr, "no basis\n"); exit(3); }
        Model m; W w = start(&m); for (int i = 0; i < 2; i++) { for (int k = 0; k < 3; k++) b[i].x[k] = x[i][k]; if (!lift3(w, to_W(m, x[i][0]), to_W(m, x[i][1]), to_W(m, x[i][2]), b[i].P, b[i].Q)) { fprintf(stderr, "bad basis\n"); exit(3); } } }
    return b[side];
}
static XZ kernel(int side, const Z &k) { W w = start(); Basis &b = basis(side); Pt K = ptadd(w, b.P, ptmul(w, b.Q, k.z)); return aff(K.x); }
struct RefPub { W w; XZ img[3]; };
static RefPub ref_pub(int side, const Z &k, const XZ *extra = nullptr, XZ *image = nullptr) { Model m; RefPub r; r.w = start(&m); std::vector<XZ> p; for (int i = 0; i < 3; i++) p.push_back(aff(to_W(m, basis(1 - side).x[i]))); if (extra) p.push_back(*extra);
    isog(r.w, kernel(side, k), side ? 3 : 2, side ? G()->b : G()->a, p); for (int i = 0; i < 3; i++) r.img[i] = p[i]; if (extra) *image = p[3]; return r; }
// public keys of both sides and the common secret
struct RefKex { RefPub A, B; Bytes j; };
static RefKex ref_kex(const Z &a, const Z &b, bool both = true) { RefKex r; XZ kb = kernel(1, b), im; r.A = ref_pub(0, a, &kb, &im); if (both) r.B = ref_pub(1, b); W w = r.A.w; std::vector<XZ> no; isog(w, im, 3, G()->b, no); r.j = enc(j_inv(w)); return r; }
static F2 get_A(const F2 &p, const F2 &q, const F2 &r) { F2 t = f1() - p * q - p * r - q * r; return div(sqr(t), fui(4) * p * q * r) - p - q - r; }
static bool canonical_el(const uint8_t *b) { return enc(f2_dec(b)) == Bytes(b, b + 2 * G()->nb); }
static F2 el(const Bytes &b, size_t off) { return f2_dec(&b[off]); }
// is the encoded triple the image triple, up to an isomorphism of the codomain?
static void check_pub(const char *who, const Bytes &pk, const RefPub &r) {
    int n = 2 * G()->nb; for (int i = 0; i < 3; i++) CHECK(canonical_el(&pk[i * n]), "%s: element %d of the public key is not reduced", who, i);
    F2 x[3] = {el(pk, 0), el(pk, n), el(pk, 2 * n)}; for (int i = 0; i < 3; i++) CHECK(!isz(x[i]), "%s: zero coordinate in the public key", who);
    F2 A = get_A(x[0], x[1], x[2]); Model m; W w = from_mont(A, &m); CHECK(!singular(w), "%s: public key on a singular curve", who);
    CHECK(eq(j_inv(w), j_inv(r.w)), "%s: the public key's curve is not the codomain of the isogeny given by the private key", who);
    if (isz(w.a) || isz(w.b)) return;
    F2 u2 = div(w.b * r.w.a, w.a * r.w.b); CHECK(eq(r.w.a * sqr(u2), w.a) && eq(r.w.b * sqr(u2) * u2, w.b), "%s: public key on a twist", who);
    static const char *nm[] = {"P", "Q", "P-Q"}; for (int i = 0; i < 3; i++) CHECK(eqx(aff(to_W(m, x[i])), XZ{r.img[i].X * u2, r.img[i].Z}), "%s: coordinate %s of the public key is not the image of the basis point", who, nm[i]);
}
// ---------------------------------------------------------------- structured private keys
static Z key_below(pbt::Case &c, int bits, const char *&kind, int div = 1) {     // 0 .. 2^bits - 1
    Z r; int k = (int) c.strat(12, div); Rng g = c.fork(); Z lim; mpz_set_ui(lim.z, 1); mpz_mul_2exp(lim.z, lim.z, bits);
    auto rnd = [&]() { Bytes b((bits + 7) / 8); g.fill(b.data(), b.size()); Z v = num(b); mpz_fdiv_r_2exp(v.z, v.z, bits); return v; };
    switch (k) {
    case 1: kind = "tiny"; mpz_set_ui(r.z, c.below(17)); break;
    case 2: kind = "near max"; mpz_sub_ui(r.z, lim.z, 1 + c.below(17)); break;
    case 3: kind = "one bit"; mpz_setbit(r.z, c.below(bits)); break;
    case 4: kind = "one run"; { int i = (int) c.below(bits), j = (int) c.below(bits); if (i > j) std::swap(i, j); for (; i <= j; i++) mpz_setbit(r.z, i); } break;
    case 5: kind = "word pattern"; for (int i = 0; i < bits; i += 64) { uint64_t v; switch (c.below(4)) { case 0: v = 0; break; case 1: v = ~0ull; break; case 2: v = 1ull << 63; break; default: v = g.next(); } for (int j = 0; j < 64 && i + j < bits; j++) if (v >> j & 1) mpz_setbit(r.z, i + j); } break;
    case 6: kind = "byte pattern"; { uint8_t v = (uint8_t) c.below(256); for (int i = 0; i < bits; i++) if (v >> (i & 7) & 1) mpz_setbit(r.z, i); } break;
    case 7: kind = "multiple of 2^k"; r = rnd(); { int t = (int) c.below(bits); mpz_fdiv_q_2exp(r.z, r.z, t); mpz_mul_2exp(r.z, r.z, t); } break;
    case 8: kind = "multiple of 3^k"; r = rnd(); { Z q; mpz_ui_pow_ui(q.z, 3, c.below(bits * 63 / 100)); mpz_fdiv_q(r.z, r.z, q.z); mpz_mul(r.z, r.z, q.z); } break;
    case 9: kind = "small low part"; r = rnd(); mpz_fdiv_r_2exp(r.z, r.z, c.below(bits)); break;
    default: kind = "random"; r = rnd(); }
    return r;
}
static int ebits(int side) { return side ? G()->obits_b : G()->a; }
static Z key(pbt::Case &c, sikeh::Lib &l, int side, const char *&kind, int div = 1) {
    if (!l.comp) return key_below(c, ebits(side), kind, div);
    if (side == 0) { Z r = key_below(c, ebits(0), kind, div); mpz_clrbit(r.z, 0); return r; }
    Z r = key_below(c, ebits(1) - 1, kind, div), b; mpz_setbit(b.z, ebits(1)); mpz_fdiv_q_ui(b.z, b.z, 3); mpz_mod(r.z, r.z, b.z);   /* documented range: below 2^floor(log2 oB) */ mpz_mul_ui(r.z, r.z, 3); return r;
}
static std::vector<Bytes> &corner() { static std::vector<Bytes> v; static bool d = false; if (!d) { d = true; std::ifstream f(pbt::opt("corner")); std::string l; while (std::getline(f, l)) { std::istringstream s(l); std::string n, h; s >> n >> h; if (n == std::to_string(pbt::SIZE)) v.push_back(unhex(h)); } } return v; }

PROPERTY(kex, 300) {
    sikeh::Lib &l = SI(); const char *ka, *kb; Z a = key(c, l, 0, ka), b = key(c, l, 1, kb, 12); Bytes sa = bytes(a, l.ska), sb = bytes(b, l.skb);
    RefKex r = ref_kex(a, b); Bytes pa = l.pubA(sa), pb = l.pubB(sb); check_pub("A", pa, r.A); check_pub("B", pb, r.B);
    Bytes ja = l.agreeA(sa, pb), jb = l.agreeB(sb, pa); CHECK(canonical_el(ja.data()) && canonical_el(jb.data()), "shared secret is not reduced"); CHECK(ja == jb, "the two sides compute different secrets");
    CHECK(ja == r.j, "the shared secret is not the j-invariant of the common curve"); c.label(std::string("A ") + ka); c.label(std::string("B ") + kb); c.nontrivial = true; c.distinct = hex(sa) + hex(sb); c.note("A %s %s, B %s %s", ka, sikeh::hexs(sa).c_str(), kb, sikeh::hexs(sb).c_str());
}
static Bytes some_bytes(pbt::Case &c, size_t n) { Bytes b(n); Rng r = c.fork(); switch (c.below(6)) { case 0: memset(b.data(), 0, n); break; case 1: memset(b.data(), 255, n); break; case 2: memset(b.data(), 0, n); b[c.below(n)] = (uint8_t) (1u << c.below(8)); break; case 3: memset(b.data(), 255, n); b[c.below(n)] ^= (uint8_t) (1u << c.below(8)); break; default: r.fill(b.data(), n); } return b; }
static uint8_t top_mask(int bits) { return (uint8_t) ((bits % 8) ? (1u << bits % 8) - 1 : 255); }
static Bytes mask_eph(sikeh::Lib &l, Bytes e);
PROPERTY(key_range, 60) {                            // generated private keys: the entropy cut to the range (times 3 / even in the compressed variant)
    bool comp = c.strat(2); int side = (int) c.strat(2, 2); sikeh::Lib &l = comp ? CO() : SI(); int n = side ? l.skb : l.ska; Bytes e = some_bytes(c, n); pbt::entropy(c.u64()); pbt::ENT.script = e; Bytes k = side ? l.secretB() : l.secretA(); Z v = num(k);
    if (!comp || side == 0) { Z lim; mpz_setbit(lim.z, ebits(side)); CHECK(mpz_cmp(v.z, lim.z) < 0, "private key out of range"); Bytes w = e; w[n - 1] &= top_mask(ebits(side)); if (comp) w[0] &= 0xfe; CHECK(k == w, "private key does not cover its range: entropy %s gives %s", hex(e).c_str(), hex(k).c_str()); }
    else { CHECK(mpz_cmp(v.z, G()->oB) < 0, "private key B not below the group order"); CHECK(mpz_divisible_ui_p(v.z, 3), "private key B of the compressed variant is not a multiple of 3"); 
        CHECK(k == mask_eph(l, e), "private key B does not cover its range: entropy %s gives %s", hex(e).c_str(), hex(k).c_str()); }
    c.label(std::string(comp ? "compressed " : "plain ") + (side ? "B" : "A")); c.nontrivial = true; c.distinct = (comp ? "c" : "p") + std::to_string(side) + hex(e); c.note("entropy %s", sikeh::hexs(e).c_str());
}
// ---------------------------------------------------------------- KEM
struct Kem { Bytes pk, sk, ct, ss, m, s, eph; Z key; };
static Bytes mask_eph(sikeh::Lib &l, Bytes e) {
    if (!l.comp) { e[l.ska - 1] &= top_mask(ebits(0)); return e; }
    static const uint8_t m2[] = {0, 3, 7, 0}, m3[] = {0x7f, 0xff, 0xff, 0xff}; int i = pbt::SIZE == 434 ? 0 : pbt::SIZE == 503 ? 1 : pbt::SIZE == 610 ? 2 : 3; int n = l.skb; e[n - 2] &= m3[i]; e[n - 1] &= m2[i]; Z v = num(e); mpz_mul_ui(v.z, v.z, 3); return bytes(v, n);
}
static Bytes first(const Bytes &b, size_t n) { return Bytes(b.begin(), b.begin() + n); }
// key pair with chosen entropy, encapsulation with chosen message; everything checked against the specification
static Kem make_kem(pbt::Case &c, sikeh::Lib &l, bool full, bool special = true, int mult3 = 0) {
    Kem k; int side = l.comp ? 0 : 1; int nk = side ? l.skb : l.ska; const char *kind = "random"; Z v = special ? key(c, l, side, kind) : Z(); Rng r = c.fork(); if (!special) { Bytes b(nk); r.fill(b.data(), nk); v = num(b); mpz_fdiv_r_2exp(v.z, v.z, ebits(side)); if (l.comp) mpz_clrbit(v.z, 0); }
    if (mult3) { mpz_fdiv_q_ui(v.z, v.z, 3); mpz_mul_ui(v.z, v.z, 3); }
    Bytes s = special && c.coin(1, 3) ? some_bytes(c, l.msg) : Bytes(l.msg); if (!special || c.coin(1, 2)) r.fill(s.data(), s.size());
    Bytes kb = bytes(v, nk); pbt::entropy(c.u64()); pbt::ENT.script = cat({s, kb}); l.keypair(k.pk, k.sk); k.s = s; k.key = v;
    CHECK(first(k.sk, l.msg) == s && Bytes(k.sk.begin() + l.msg, k.sk.begin() + l.msg + nk) == kb, "the KEM private key does not start with the drawn seed and secret"); CHECK(Bytes(k.sk.begin() + l.msg + nk, k.sk.begin() + l.msg + nk + l.pk) == k.pk, "the KEM private key does not contain the public key");
    if (!l.comp) CHECK(k.pk == l.pubB(kb), "the KEM public key is not the key-exchange public key of its secret");
    k.m = special && c.coin(1, 3) ? some_bytes(c, l.msg) : Bytes(l.msg); if (!special || c.coin(1, 2)) r.fill(k.m.data(), k.m.size());
    pbt::entropy(c.u64()); pbt::ENT.script = k.m; l.enc(k.pk, k.ct, k.ss); k.eph = mask_eph(l, shake256(cat({k.m, k.pk}), l.comp ? l.skb : l.ska));
    CHECK(k.ss == shake256(cat({k.m, k.ct}), l.ss), "the encapsulated secret is not the hash of message and ciphertext");
    Bytes j; Z e = num(k.eph); RefKex rk; if (full) { rk = l.comp ? ref_kex(v, e, false) : ref_kex(e, v); j = rk.j; } else j = l.comp ? l.agreeB(k.eph, k.pk) : l.agreeA(k.eph, k.pk);
    Bytes c1 = shake256(j, l.msg); for (int i = 0; i < l.msg; i++) c1[i] ^= k.m[i]; CHECK(Bytes(k.ct.end() - l.msg, k.ct.end()) == c1, "the ciphertext does not carry the message masked with the hash of the common curve's j-invariant");
    if (!l.comp) { Bytes c0 = first(k.ct, l.ct - l.msg); if (full) { check_pub("ciphertext", c0, rk.A); check_pub("public key", k.pk, rk.B); } CHECK(c0 == l.pubA(k.eph), "the ciphertext's point part is not the public key of H(message, public key)"); }
    c.label(std::string("secret ") + kind); return k;
}
static void kem_honest(pbt::Case &c, sikeh::Lib &l) { Kem k = make_kem(c, l, true); CHECK(l.dec(k.ct, k.sk) == k.ss, "decapsulation of an honest ciphertext gives a different secret"); c.nontrivial = true; c.distinct = hex(k.s) + hex(k.eph) + hex(k.m); c.note("m %s, pk %s", hex(k.m).c_str(), sikeh::hexs(k.pk).c_str()); }
PROPERTY(kem_plain, 300) { kem_honest(c, SI()); }
PROPERTY(kem_comp, 300) { kem_honest(c, CO()); }

static void add_kp(Bytes &b, size_t off, uint64_t k) { int n = G()->nb; Z v = num(Bytes(b.begin() + off, b.begin() + off + n)), t; mpz_mul_ui(t.z, G()->p, k); mpz_add(v.z, v.z, t.z); Bytes w = bytes(v, n); std::copy(w.begin(), w.end(), b.begin() + off); }
static uint64_t room(const Bytes &b, size_t off) { int n = G()->nb; Z v = num(Bytes(b.begin() + off, b.begin() + off + n)), t; mpz_setbit(t.z, 8 * n); mpz_sub_ui(t.z, t.z, 1); mpz_sub(t.z, t.z, v.z); mpz_fdiv_q(t.z, t.z, G()->p); return mpz_get_ui(t.z); }
static void put(Bytes &b, size_t off, const F2 &x) { Bytes e = enc(x); std::copy(e.begin(), e.end(), b.begin() + off); }
static void reject(pbt::Case &c, sikeh::Lib &l, const Kem &k, const Bytes &x, const char *what) {
    if (x == k.ct) { c.label("unchanged"); CHECK(l.dec(x, k.sk) == k.ss, "honest ciphertext rejected"); return; }
    Bytes got = l.dec(x, k.sk); CHECK(got != k.ss, "an altered ciphertext (%s) gives the honest secret", what); CHECK(got == shake256(cat({k.s, x}), l.ss), "an altered ciphertext (%s) does not give the hash of the private seed and the ciphertext%s", what, got == shake256(cat({k.m, x}), l.ss) ? ": it is accepted" : ""); c.label(what); c.nontrivial = true; c.evals++;
}
// a byte position of the ciphertext, one bit changed
static void flips(pbt::Case &c, sikeh::Lib &l) { Kem k = make_kem(c, l, false, false); size_t n = k.ct.size(); int w = 24; size_t at = (c.strat((n + w - 1) / w)) * w; int bit = (int) c.below(8); for (size_t i = at; i < at + w && i < n; i++) { Bytes x = k.ct; x[i] ^= (uint8_t) (1u << ((bit + i) & 7)); reject(c, l, k, x, "one bit flipped"); } Bytes x = k.ct; x[n - 1] ^= 0x80; reject(c, l, k, x, "last bit flipped"); c.distinct = hex(k.m) + std::to_string(at); c.note("bytes %zu.. one bit each, m %s", at, hex(k.m).c_str()); }
PROPERTY(flip_plain, 300) { flips(c, SI()); }
PROPERTY(flip_comp, 300) { flips(c, CO()); }
static Bytes junk_el(pbt::Case &c, const char *&what) { Bytes b(2 * G()->nb, 0); Rng r = c.fork(); switch (c.below(7)) { case 0: what = "zero"; break; case 1: what = "all ones"; memset(b.data(), 255, b.size()); break; case 2: what = "one"; b[0] = 1; break; case 3: what = "p"; add_kp(b, 0, 1); break; case 4: what = "minus one"; add_kp(b, 0, 1); b[0] -= 1; break; case 5: what = "i"; b[G()->nb] = 1; break; default: what = "random"; r.fill(b.data(), b.size()); } return b; }
// alterations of the plain ciphertext that still decode to points on the right curve, or look like it
PROPERTY(alter_plain, 300) {
    sikeh::Lib &l = SI(); int kind = (int) c.strat(14); Kem k = make_kem(c, l, false, true, kind >= 4 && kind <= 6); size_t n = 2 * G()->nb; Bytes x = k.ct; std::string what; Rng r = c.fork();
    auto pts = [&](W &w, Model &m, Pt &P, Pt &Q) { F2 A = get_A(el(x, 0), el(x, n), el(x, 2 * n)); w = from_mont(A, &m); CHECK(lift3(w, to_W(m, el(x, 0)), to_W(m, el(x, n)), to_W(m, el(x, 2 * n)), P, Q), "ciphertext triple is not P, Q, P-Q"); };
    auto set = [&](const W &w, const Model &m, const Pt &P, const Pt &Q) { Pt D = ptadd(w, P, ptneg(Q)); put(x, 0, P.inf ? f0() : to_M(m, P.x)); put(x, n, Q.inf ? f0() : to_M(m, Q.x)); put(x, 2 * n, D.inf ? f0() : to_M(m, D.x)); };
    W w; Model m; Pt P, Q; Z t; mpz_ui_pow_ui(t.z, 3, G()->b - 1);
    switch (kind) {
    case 0: { what = "coordinates not reduced"; bool any = false; for (int i = 0; i < 6; i++) if (c.coin(1, 3) || (!any && i == 5)) { uint64_t q = room(x, i * G()->nb); if (q) { add_kp(x, i * G()->nb, 1 + c.below(q)); any = true; } } break; }
    case 1: { int i = (int) c.below(6); what = "one coordinate not reduced"; uint64_t q = room(x, i * G()->nb); if (q) add_kp(x, i * G()->nb, 1 + c.below(q)); break; }
    case 2: { what = "other ephemeral key, same message"; Bytes e = k.eph; e[c.below(e.size() - 1)] ^= (uint8_t) (1 + c.below(255)); Bytes c0 = l.pubA(e), j = l.agreeA(e, k.pk), h = shake256(j, l.msg); for (int i = 0; i < l.msg; i++) h[i] ^= k.m[i]; x = cat({c0, h}); break; }
    case 3: { what = "other ephemeral key, unmasked message"; Bytes e(l.ska); r.fill(e.data(), e.size()); e[l.ska - 1] &= top_mask(ebits(0)); Bytes c0 = l.pubA(e), h(l.msg); if (c.coin()) r.fill(h.data(), h.size()); x = cat({c0, h}); break; }
    case 4: { what = "Q shifted by a point of order 3, same kernel"; pts(w, m, P, Q); Pt T = ptmul(w, P, t.z); set(w, m, P, ptadd(w, Q, c.coin() ? T : ptneg(T))); break; }
    case 5: { what = "P shifted by a point of order 3, same kernel"; pts(w, m, P, Q); Pt T = ptmul(w, P, t.z); set(w, m, ptadd(w, P, c.coin() ? T : ptneg(T)), Q); break; }
    case 6: { what = "P and Q multiplied by the same number"; pts(w, m, P, Q); Z u; mpz_set_ui(u.z, 2 + c.below(1000)); if (mpz_divisible_ui_p(u.z, 3)) mpz_add_ui(u.z, u.z, 1); set(w, m, ptmul(w, P, u.z), ptmul(w, Q, u.z)); break; }
    case 7: { what = "shifted by a point of order 3^k"; pts(w, m, P, Q); Z u; mpz_ui_pow_ui(u.z, 3, c.below(G()->b)); if (c.coin()) Q = ptadd(w, Q, ptmul(w, P, u.z)); else P = ptadd(w, P, ptmul(w, Q, u.z)); set(w, m, P, Q); break; }
    case 8: { what = "isomorphic curve"; pts(w, m, P, Q); Model mm[6]; all_models(w, r, mm); set(w, mm[c.below(6)], P, Q); break; }
    case 9: { what = "points exchanged"; static const int pm[5][3] = {{1, 0, 2}, {0, 2, 1}, {2, 1, 0}, {1, 2, 0}, {2, 0, 1}}; Bytes y = x; int p = (int) c.below(5); for (int i = 0; i < 3; i++) std::copy(y.begin() + pm[p][i] * n, y.begin() + (pm[p][i] + 1) * n, x.begin() + i * n); break; }
    case 10: { what = "points of too small or wrong order"; pts(w, m, P, Q); Z u; int q = (int) c.below(4); mpz_ui_pow_ui(u.z, 3, 1 + c.below(G()->b)); if (q == 0) P = ptmul(w, P, u.z); else if (q == 1) Q = ptmul(w, Q, u.z); else if (q == 2) { P = ptmul(w, P, u.z); Q = ptmul(w, Q, u.z); } else { XZ R = rand_order(w, 2, r); lift(w, xof(R), Q); } set(w, m, P, Q); break; }
    case 11: { const char *jw = ""; int i = (int) c.below(3); Bytes b = junk_el(c, jw); std::copy(b.begin(), b.end(), x.begin() + i * n); if (c.coin(1, 3)) for (int q = 0; q < 3; q++) std::copy(b.begin(), b.end(), x.begin() + q * n); what = std::string("coordinate replaced by ") + jw; break; }
    case 12: { what = "arbitrary bytes"; x = some_bytes(c, x.size()); break; }
    default: { what = "masked message changed"; Bytes b = some_bytes(c, l.msg); for (int i = 0; i < l.msg; i++) x[x.size() - l.msg + i] ^= b[i]; } }
    reject(c, l, k, x, what.c_str()); if (c.coin(1, 3)) { Bytes pk2, sk2; pbt::entropy(c.u64()); l.keypair(pk2, sk2); CHECK(l.dec(k.ct, sk2) == shake256(cat({first(sk2, l.msg), k.ct}), l.ss), "a ciphertext for another key does not give the hash of the private seed and the ciphertext"); c.label("ciphertext for another key"); }
    c.distinct = hex(x); c.note("%s, m %s", what.c_str(), hex(k.m).c_str());
}
// ---------------------------------------------------------------- compressed variants
PROPERTY(ckex, 300) {
    sikeh::Lib &l = CO(); const char *ka, *kb; Z a = key(c, l, 0, ka), b = key(c, l, 1, kb, 12); if (c.coin(1, 8) && !corner().empty()) { b = num(c.pick(corner())); kb = "rare basis index"; } Bytes sa = bytes(a, l.ska), sb = bytes(b, l.skb);
    RefKex r = ref_kex(a, b); Bytes pa = l.pubA(sa), pb = l.pubB(sb); int oa = (G()->a + 7) / 8, ob = (int) (mpz_sizeinbase(G()->oB, 2) + 7) / 8; (void) oa;
    auto curve = [&](const Bytes &p, size_t off, const W &w, const char *who) { CHECK(off + 2 * G()->nb <= p.size() && canonical_el(&p[off]), "%s: curve in the compressed public key is not reduced", who); CHECK(eq(j_inv(from_mont(el(p, off))), j_inv(w)), "%s: the compressed public key's curve is not the codomain of the isogeny given by the private key", who); };
    curve(pa, l.spk - 3 - 2 * G()->nb, r.A.w, "A"); size_t ofb = 3 * oa; curve(pb, ofb, r.B.w, "B"); (void) ob;
    Bytes ja = l.agreeA(sa, pb), jb = l.agreeB(sb, pa); CHECK(ja == jb, "the two sides compute different secrets"); CHECK(ja == r.j, "the shared secret is not the j-invariant of the common curve");
    c.label(std::string("A ") + ka); c.label(std::string("B ") + kb); c.nontrivial = true; c.distinct = hex(sa) + hex(sb); c.note("A %s %s, B %s %s", ka, sikeh::hexs(sa).c_str(), kb, sikeh::hexs(sb).c_str());
}
PROPERTY(alter_comp, 300) {
    sikeh::Lib &l = CO(); int kind = (int) c.strat(14); Kem k = make_kem(c, l, false, true); Bytes x = k.ct; std::string what; Rng r = c.fork(); int oa = (G()->a + 7) / 8; size_t ofA = 4 * oa, ofq = ofA + 2 * G()->nb; CHECK(ofq + 2 + l.msg == x.size(), "unexpected compressed ciphertext size");
    auto get = [&](int i) { return num(Bytes(x.begin() + i * oa, x.begin() + (i + 1) * oa)); }; auto setv = [&](int i, Z v) { mpz_fdiv_r_2exp(v.z, v.z, G()->a); Bytes b = bytes(v, oa); std::copy(b.begin(), b.end(), x.begin() + i * oa); };
    auto addbit = [&](int i, int bit) { Z v = get(i), t; mpz_setbit(t.z, bit); mpz_add(v.z, v.z, t.z); setv(i, v); };
    switch (kind) {
    case 0: { what = "top bit of a scalar changed"; addbit((int) c.below(4), G()->a - 1); break; }
    case 1: case 2: { what = "scalars changed without moving the kernel"; int q = c.coin() ? 0 : 1; Z d1, d0; mpz_setbit(d1.z, G()->a - 1 - c.below(G()->a)); if (c.coin()) mpz_mul_ui(d1.z, d1.z, 3); mpz_mul(d0.z, d1.z, k.key.z); mpz_neg(d0.z, d0.z); Z v = get(2 + q); mpz_add(v.z, v.z, d1.z); setv(2 + q, v); v = get(q); mpz_add(v.z, v.z, d0.z); setv(q, v); break; }
    case 3: { what = "all scalars negated"; for (int i = 0; i < 4; i++) { Z v = get(i); mpz_neg(v.z, v.z); setv(i, v); } break; }
    case 4: { what = "all scalars multiplied"; Z u; mpz_set_ui(u.z, 2 * c.below(500) + 3); for (int i = 0; i < 4; i++) { Z v = get(i); mpz_mul(v.z, v.z, u.z); setv(i, v); } break; }
    case 5: { what = "ignored bits changed"; if (G()->a % 8 && c.coin()) { int i = (int) c.below(4); x[(i + 1) * oa - 1] |= (uint8_t) (1u << (G()->a % 8 + c.below(8 - G()->a % 8))); } else x[ofq] ^= (uint8_t) (2u << c.below(7)); break; }
    case 6: { what = "curve not reduced"; int i = (int) c.below(2); uint64_t q = room(x, ofA + i * G()->nb); if (q) add_kp(x, ofA + i * G()->nb, 1 + c.below(q)); break; }
    case 7: { what = "basis index changed"; x[ofq + 1] = (uint8_t) c.below(256); if (c.coin(1, 3)) x[ofq] ^= 1; break; }
    case 8: { what = "scalars exchanged"; int p = (int) c.below(4), q = (p + 1 + (int) c.below(3)) % 4; Z u = get(p), v = get(q); setv(p, v); setv(q, u); break; }
    case 9: { what = "special scalars"; for (int i = 0; i < 4; i++) { Z v; switch (c.below(4)) { case 0: break; case 1: mpz_set_ui(v.z, c.below(5)); break; case 2: mpz_setbit(v.z, c.below(G()->a)); break; default: v = get(i); } setv(i, v); } break; }
    case 10: { const char *jw = ""; Bytes b = junk_el(c, jw); if (c.coin(1, 3)) { b = enc(c.coin() ? fui(2) : c.coin() ? -fui(2) : fui(6)); jw = "2, -2 or 6"; } std::copy(b.begin(), b.end(), x.begin() + ofA); if (c.coin(1, 3)) for (size_t i = 0; i < ofA; i++) x[i] = 0; what = std::string("curve replaced by ") + jw; break; }
    case 11: { what = "other ephemeral key, same message"; Kem o = k; pbt::entropy(c.u64()); Bytes ss; l.enc(k.pk, o.ct, ss); Bytes m2 = Bytes(); x = o.ct; pbt::ENT.script.clear(); std::copy(k.ct.end() - l.msg, k.ct.end(), x.end() - l.msg); break; }
    case 12: { what = "arbitrary bytes"; x = some_bytes(c, x.size()); break; }
    default: { what = "masked message changed"; Bytes b = some_bytes(c, l.msg); for (int i = 0; i < l.msg; i++) x[x.size() - l.msg + i] ^= b[i]; } }
    reject(c, l, k, x, what.c_str()); if (c.coin(1, 3)) { Bytes pk2, sk2; pbt::entropy(c.u64()); l.keypair(pk2, sk2); CHECK(l.dec(k.ct, sk2) == shake256(cat({first(sk2, l.msg), k.ct}), l.ss), "a ciphertext for another key does not give the hash of the private seed and the ciphertext"); c.label("ciphertext for another key"); }
    c.distinct = hex(x); c.note("%s, m %s", what.c_str(), hex(k.m).c_str());
}
