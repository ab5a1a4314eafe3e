// Walks (chains of kernel abscissae) with one chosen flaw.
#pragma once
#include "poikh.hpp"
namespace poikh {
using pbt::Case;
struct Chain { std::vector<Bytes> x; std::vector<W> E; W end; bool junk = false; };
static inline F2 xrand_scaled(const W &w, const XZ &P, int l, Rng &r) { XZ q = rerandomise(w, P, l, r); return xof(q); }
static inline XZ add_x(const W &w, const F2 &a, const F2 &b) { Pt P, Q; if (!lift(w, a, P) || !lift(w, b, Q)) return aff(a); Pt S = ptadd(w, P, Q); if (S.inf) return XZ{f1(), f0()}; return aff(S.x); }
enum Flaw { NONE, LOW, EXTRA, TWIST, DEGEN, BACK, MODEL, SKIP, FLIP, DUP, VIA, NFLAW };
static const char *fname[] = {"none", "low-order", "extra-torsion", "off-curve", "degenerate-x", "backtrack", "wrong-model", "skipped-step", "bit-flip", "repeated-x", "through a special curve"};
// chain of n l^e-steps from A with a flaw at step k
static inline Chain flawed_chain(Case &c, const F2 &A, int l, int n, int flaw, int k, Rng &r, bool follow = false) {
    int e = l == 2 ? G()->a : G()->b; Chain o; Model m; W w = from_mont(A, &m); XZ D{f1(), f0()}; bool haveD = false; int rest = 0; 
    int depth = 0; if (flaw == LOW || flaw == BACK || flaw == SKIP) { int q = (int) c.below(7); depth = q == 0 || q > 4 ? 1 : q == 1 ? 2 : q == 2 ? e - 1 : q == 3 ? e / 2 : (int) c.range(1, e - 1); if (flaw == BACK && c.coin(1, 4)) depth = e; c.note("depth %d", depth); }
    if (flaw && flaw != BACK && flaw != MODEL) rest = follow && c.coin(4, 5) ? 0 : (int) c.below(3);       // after the flaw: continue from where it leads, stay, or anything
    bool junk = false;
    for (int i = 0; i < n; i++) {
        o.E.push_back(w); if (i) m = canonical(w, r);
        if (junk) { o.x.push_back(enc(frand2(r))); continue; }
        XZ K = haveD ? rand_order_indep(w, l, D, r) : rand_order(w, l, r); F2 xm; bool advance = true; XZ KK = K; int ke = e; XZ also{f1(), f0()}; int alsol = 0, alsoe = 0;
        bool here = flaw && i == k;
        if (!here) { xm = to_M(m, xrand_scaled(w, K, l, r)); }
        else switch (flaw) {
            case LOW: { KK = xmule(w, K, l, depth); KK = aff(xof(KK)); ke = e - depth; xm = to_M(m, KK.X); break; }
            case EXTRA: { int ol = l == 2 ? 3 : 2, oe = l == 2 ? G()->b : G()->a; XZ S = rand_order(w, ol, r); int keep = c.coin() ? 1 : (int) c.range(1, oe); S = xmule(w, S, ol, oe - keep); also = aff(xof(S)); alsol = ol; alsoe = keep; XZ T = add_x(w, xof(K), xof(S)); xm = to_M(m, xof(T)); c.note("extra %d^%d", ol, keep); break; }
            case TWIST: { F2 x; do x = frand2(r); while (is_square(rhs(w, x)) != c.coin(1, 4) && r.below(4)); xm = to_M(m, x); break; }
            case DEGEN: { int q = (int) c.below(6); xm = q == 0 ? f0() : q == 1 ? f1() : q == 2 ? -f1() : q == 3 ? fui(2) : q == 4 ? mk(fp0(), fp1()) : -fui(3); break; }
            case BACK: { XZ R = haveD ? rand_order_indep(w, l, D, r) : K; if (depth >= e) KK = aff(xof(D)); else KK = add_x(w, xof(D), xof(xmule(w, R, l, depth))); KK = aff(xof(KK)); xm = to_M(m, xrand_scaled(w, KK, l, r)); break; }
            case MODEL: { Model all[6]; all_models(w, r, all); Model q; do q = all[c.below(6)]; while (eq(q.A, i ? m.A : A) && r.below(8)); xm = to_M(q, xrand_scaled(w, K, l, r)); break; }
            case SKIP: { KK = xmule(w, K, l, depth); xm = to_M(m, xof(KK)); advance = false; break; }
            case FLIP: { xm = to_M(m, xrand_scaled(w, K, l, r)); Bytes b = enc(xm); int bit = (int) c.below(b.size() * 8 - 8); b[bit / 8] ^= 1 << (bit % 8); xm = dec(b); break; }
            case DUP: { xm = i ? dec(o.x[c.below(i)]) : f0(); break; }
        }
        o.x.push_back(enc(xm));
        if (here && flaw != BACK && flaw != MODEL && flaw != SKIP) { if (rest == 1) advance = false; else if (rest == 2) { junk = true; continue; } else if (flaw != LOW) { KK = K; ke = e; } }
        if (advance) { if (ke > 0) { XZ Q = rand_order_indep(w, l, (here && flaw == LOW) ? K : KK, r); std::vector<XZ> push{Q, also}; if (!alsoe) push.pop_back(); W w2 = w; isog(w2, KK, l, ke, push); if (alsoe) { XZ A = push[1]; push.pop_back(); isog(w2, A, alsol, alsoe, push); } w = w2; if (ke == e && !isO(push[0])) { D = push[0]; haveD = true; } else haveD = false; } }
    }
    o.end = w; o.junk = junk; return o;
}
static inline F2 gen_model(Case &c, const W &w, Rng &r, bool &canon) { canon = c.coin(); return canon ? canonical(w, r).A : random_model(w, r); }
// correct steps (and possibly a backtracking one), arriving at a special curve (small coefficient or complex multiplication) after k steps; start is chosen accordingly
static inline Chain via_chain(Case &c, int l, int n, int k, F2 &start, Rng &r) {
    Chain o; int e = l == 2 ? G()->a : G()->b; W w; { std::vector<CM> v; for (auto &x : cms()) if (cm_supersingular(x.D)) v.push_back(x); size_t q = c.below(v.size() + 1); F2 A; if (q == v.size()) A = fui(6); else { if (!mont_from_j(fsi(v[q].j), r, A)) pbt::fail("reference: no Montgomery model for supersingular CM curve D=%d", v[q].D); c.note("D=%d", v[q].D); } w = from_mont(A); }
    W s = w; std::vector<std::pair<W, XZ>> rev; XZ D{f1(), f0()}; bool haveD = false;
    for (int i = 0; i < k; i++) { XZ K = haveD ? rand_order_indep(w, l, D, r) : rand_order(w, l, r), Q = rand_order_indep(w, l, K, r); std::vector<XZ> push{Q}; isog(w, K, l, e, push); D = push[0]; haveD = true; rev.push_back({w, D}); }
    bool canon = false; start = gen_model(c, w, r, canon);
    for (int i = 0; i < k; i++) { auto &g = rev[k - 1 - i]; Model m; if (i) m = canonical(g.first, r); else { Model all[6]; all_models(g.first, r, all); int q = 0; while (q < 5 && !eq(all[q].A, start)) q++; m = all[q]; } o.E.push_back(g.first); o.x.push_back(enc(to_M(m, xrand_scaled(g.first, g.second, l, r)))); }
    w = s; haveD = false;
    for (int i = k; i < n; i++) { o.E.push_back(w); Model m = canonical(w, r); XZ K = haveD ? rand_order_indep(w, l, D, r) : rand_order(w, l, r), Q = rand_order_indep(w, l, K, r); o.x.push_back(enc(to_M(m, xrand_scaled(w, K, l, r)))); std::vector<XZ> push{Q}; isog(w, K, l, e, push); D = push[0]; haveD = true; }
    o.end = w; return o;
}
static inline void free_values(Resp &q, Rng &r) { auto f = [&](Bytes &b, size_t n) { b.resize(n); r.fill(b.data(), n); }; if (q.tag == -1) { f(q.r2, G()->hide_bytes); f(q.h3, G()->hash_bytes); } else if (q.tag == 0) { f(q.r2, G()->hide_bytes); f(q.r3, G()->hide_bytes); } else { f(q.h2, G()->hash_bytes); f(q.r3, G()->hide_bytes); } }
}
