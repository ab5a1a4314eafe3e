// Proof-of-isogeny-knowledge properties: C01 C02 C03 C04 C05 C06 (and the PoIK part of C16)
#include "poikh.hpp"
#include "flaws.hpp"
using namespace poikh; using pbt::Case;
static Lib &LIB() { static Lib l("lib"); return l; }
static std::string elt(const Bytes &b) { std::string s = el_text(b); s.pop_back(); return s.substr(0, 24) + ".."; }
static bool is_reduced(const Bytes &b) { return enc(dec(b)) == b; }
static void proof_reduced(const Proof &p) { CHECK(is_reduced(p.E0) && is_reduced(p.E1), "proof names a curve by an unreduced field element"); for (auto &r : p.resp) { for (auto &x : r.x) CHECK(is_reduced(x), "proof contains an unreduced field element"); if (r.tag == 0) CHECK(is_reduced(r.E2), "proof contains an unreduced curve"); } }

// ------------------------------------------------------------------------------------------------ C01
static void honest(Case &c, bool full) {
    Lib &l = LIB(); std::string kind; F2 A = gen_valid_curve(c, kind); c.label(kind); uint64_t es = c.u64(); pbt::entropy(es); pbt::ENT.threaded = true; Rng r(es ^ 77);
    int links = full ? 1 : (int) c.range(1, 3); Bytes E = enc(A); F2 startj = j_inv(from_mont(A)); c.note("start %s %s, %d link(s)", kind.c_str(), elt(E).c_str(), links);
    for (int k = 0; k < links; k++) {
        Lib::Buf s(l.szs); CHECK(l.generate(E, s), "a valid starting curve (%s, link %d) was refused: %s", kind.c_str(), k, el_text(E).c_str());
        CHECK(l.E(s, 0) == E, "the secret does not start at the given curve");
        std::string txt = l.prove(s); Proof p; CHECK(parse_proof(txt, l.reps, p), "the proof text does not have the documented layout"); proof_reduced(p);
        CHECK(p.E0 == enc(canonical(from_mont(dec(E)), r).A), "first curve of the proof is not the canonical model of the starting curve (link %d)", k);
        W end = from_mont(dec(l.E(s, WIDTH))); CHECK(p.E1 == enc(canonical(end, r).A), "second curve of the proof is not the canonical model of the end of the secret walk (link %d)", k);
        int v = l.verify(txt); CHECK(v == 1, "verifier does not accept an honest proof (link %d, result %d)", k, v);
        if (!full || true) { Verdict rv = ref_verify(p, r); CHECK(rv == OK, "reference verifier says %s for an honest proof (link %d)", vname(rv), k); }
        for (auto &q : p.resp) c.label(q.tag == -1 ? "left" : q.tag == 0 ? "bottom" : "right");
        c.evals += 2; E = p.E1;
    }
    c.nontrivial = true;
}
PROPERTY(honest_small, 300) { honest(c, false); }
PROPERTY(honest_full, 600) { // published repetition count, proof checked by the code's verifier and sampled by the reference
    Lib &l = LIB(); CHECK((int) l.reps == G()->reps, "number of repetitions is %zu, published value is %d", l.reps, G()->reps);
    std::string kind; F2 A = gen_valid_curve(c, kind); uint64_t es = c.u64(); pbt::entropy(es); pbt::ENT.threaded = true; Rng r(es ^ 77); Bytes E = enc(A); c.note("start %s", elt(E).c_str());
    Lib::Buf s(l.szs); CHECK(l.generate(E, s), "valid starting curve refused"); std::string txt = l.prove(s); Proof p; CHECK(parse_proof(txt, l.reps, p), "proof text does not have the documented layout"); proof_reduced(p);
    CHECK(p.E0 == enc(canonical(from_mont(A), r).A), "first curve is not canonical start"); CHECK(p.E1 == enc(canonical(from_mont(dec(l.E(s, WIDTH))), r).A), "second curve is not canonical end");
    CHECK(l.verify(txt) == 1, "verifier does not accept an honest full-length proof"); c.nontrivial = true; c.evals = 2;
    int cnt[3] = {0, 0, 0}; for (auto &q : p.resp) cnt[q.tag + 1]++; double n = l.reps; for (int k = 0; k < 3; k++) CHECK(fabs(cnt[k] - n / 3) < 6 * sqrt(n * 2 / 9), "challenge digits are biased: %d/%d/%d", cnt[0], cnt[1], cnt[2]);
    std::set<Bytes> hid; for (auto &q : p.resp) { if (q.tag != 1) CHECK(hid.insert(q.r2).second, "hiding value repeated"); if (q.tag != -1) CHECK(hid.insert(q.r3).second, "hiding value repeated"); }
    Verdict v = ref_verify(p, r); CHECK(v == OK, "reference verifier says %s", vname(v));
}

// ------------------------------------------------------------------------------------------------ C02
static void soundness(Case &c, bool honest_only) {
    Lib &l = LIB(); CHECK(l.reps == 1, "harness needs one repetition"); Rng r = c.fork(); pbt::entropy(r.next()); pbt::ENT.threaded = true;
    int tag = (int) c.strat(3) - 1; int ll = tag ? 3 : 2, n = tag ? HEIGHT : WIDTH; static const int W8[] = {LOW, BACK, EXTRA, SKIP, BACK, LOW, TWIST, DEGEN, MODEL, FLIP, DUP};
    int flaw = honest_only ? NONE : W8[c.strat(sizeof W8 / sizeof *W8, 3)]; int lo = flaw == BACK || flaw == DUP ? 1 : 0; int kq = (int) c.strat(4, 5); int k = kq == 0 ? n - 1 : kq == 1 ? lo : (int) c.range(lo, n - 1);
    bool c0, c1; W w0 = random_ss(r, (int) c.range(0, 5)), w1 = random_ss(r, 3); Proof p; F2 A0 = gen_model(c, w0, r, c0), A1 = gen_model(c, w1, r, c1); p.E0 = enc(A0); p.E1 = enc(A1);
    Resp q; q.tag = tag; F2 start = tag == -1 ? A0 : tag == 1 ? A1 : f0(); if (tag == 0) { bool c2; W w2 = random_ss(r); start = gen_model(c, w2, r, c2); q.E2 = enc(start); }
    if (honest_only && c.coin(1, 3)) flaw = VIA;
    Chain ch; if (flaw == VIA) { ch = via_chain(c, ll, n, std::max(1, k), start, r); (tag == -1 ? p.E0 : tag == 1 ? p.E1 : q.E2) = enc(start); } else ch = flawed_chain(c, start, ll, n, flaw, k, r);
    q.x = ch.x; c.label(std::string(tag ? "3-chain " : "2-chain ") + fname[flaw]); c.note("%s chain, %s at step %d", tag == -1 ? "left" : tag ? "right" : "bottom", fname[flaw], k);
    int tries = flaw && flaw != VIA ? (int) (10 + c.below(6)) : 6, acc = 0;
    p.resp = {q}; F2 j; Verdict cv = memo().chain(enc(start), q.x, ll, j, r);
    if (cv == AMBIGUOUS) { c.label("ambiguous (skipped)"); return; }
    if (flaw == NONE) CHECK(cv == OK, "reference: own honest chain is %s", vname(cv));
    c.nontrivial = true; c.label(std::string("reference: ") + vname(cv));
    for (int t = 0; t < tries; t++) {
        free_values(p.resp[0], r); Verdict rv = ref_verify(p, r); int v = l.verify(p); c.evals++;
        CHECK(v >= 0, "well-formed proof text was not readable"); acc += v;
        if (rv == OK) CHECK(v == 1, "verifier rejects a %s response that is a correct cyclic chain with matching challenge (generator choice / model: E0 %s, E1 %s)", tag == -1 ? "left" : tag ? "right" : "bottom", c0 ? "canonical" : "other", c1 ? "canonical" : "other");
        else CHECK(v == 0, "verifier accepts a %s response whose chain is %s (flaw: %s at step %d of %d)", tag == -1 ? "left" : tag ? "right" : "bottom", vname(rv), fname[flaw], k, n);
        if ((flaw == NONE || flaw == VIA) && rv == OK && acc >= 1 && t >= 3) break;
    }
}
PROPERTY(chain_flaw, 300) { soundness(c, false); }
PROPERTY(chain_honest, 300) { soundness(c, true); }

// ------------------------------------------------------------------------------------------------ C03
// instances are expensive for the reference: a pool made once by make_pool (committed under data/), cases derive fresh hiding values from them
PROPERTY(make_pool, 3600) { FILE *f = fopen(pbt::opt("pool").c_str(), "w"); fprintf(f, "3 3\n"); for (int i = 0; i < 3; i++) { Rng r(0xb45e + i * 1000 + pbt::SIZE); Walk sec = random_walk(i ? random_ss(r, 3) : from_mont(f0()), 2, WIDTH, r); for (int k = 0; k < 3; k++) { Instance v = make_instance(sec, r); std::vector<Bytes> o{v.E0, v.E1, v.E2, enc(v.j2), enc(v.j3)}; for (auto &y : v.left) o.push_back(y); for (auto &y : v.bottom) o.push_back(y); for (auto &y : v.right) o.push_back(y); for (auto &y : o) fprintf(f, "%s\n", hex(y).c_str()); } } fclose(f); }
static void fill(Bytes &b, Rng &r) { r.fill(b.data(), b.size()); }
static size_t pick_index(Case &c, size_t n) { switch (c.below(8)) { case 0: return 0; case 1: return n - 1; case 2: return n - 1 - c.below(std::min<size_t>(n, 6)); case 3: return n / 2; case 4: return c.below(std::min<size_t>(n, 6)); default: return c.below(n); } }
static void splice(Case &c) {
    Lib &l = LIB(); size_t n = l.reps; Rng r = c.fork(); pbt::entropy(r.next()); pbt::ENT.threaded = true;
    Base &b = base((int) c.below(3)); std::vector<Instance> vs = make_vs(c, b, n, r);
    std::vector<int> tags; Proof p = assemble(vs, &tags);
    int v = l.verify(p); c.evals++; CHECK(v == 1, "verifier (result %d) does not accept a proof made by an independent conforming prover", v);
    int muts = n > 20 ? 1 : (int) c.range(1, 6);
    if (n > 20) for (int k = 0; k < (pbt::SIZE == 751 ? 1 : 2); k++) {   // a tag that is not the challenge digit, everything else consistent: last repetition, then anywhere
        size_t i = k ? pick_index(c, n) : n - 1 - (c.coin(1, 4) ? c.below(4) : 0); Proof q = p; int t = tags[i] == -1 ? (int) c.below(2) : tags[i] == 0 ? (c.coin() ? 1 : -1) : (int) c.below(2) - 1; q.resp[i] = respond(vs[i], t); int w = l.verify(q); c.evals++; c.note("tag of repetition %zu of %zu replaced", i, n); CHECK(w != 1, "verifier accepts although the tag of repetition %zu of %zu is %d and the challenge digit is %d", i, n, t, tags[i]); }
    for (int m = 0; m < muts; m++) {
        Proof q = p; size_t i = pick_index(c, n); Resp &x = q.resp[i]; int kind = m ? (int) c.below(14) : (int) c.strat(14, 1, atoi(pbt::opt("off").c_str())); std::string what; auto bit = [&](Bytes &f) { size_t k = c.below(f.size() * 8); f[k / 8] ^= 1 << (k % 8); };
        switch (kind) {
        case 0: { what = "hiding value bit"; bit(x.tag == 1 ? x.r3 : (x.tag == 0 && c.coin()) ? x.r3 : x.r2); break; }
        case 1: { what = "hash/hiding bit"; bit(x.tag == -1 ? x.h3 : x.tag == 1 ? x.h2 : x.r2); break; }
        case 2: { what = "tag replaced, matching response"; int t = tags[i] == -1 ? (int) c.below(2) : tags[i] == 0 ? (c.coin() ? 1 : -1) : (int) c.below(2) - 1; x = respond(vs[i], t); break; }
        case 3: { what = "repetition replaced by fresh one with same tag"; Instance w = vs[i]; rehide(w, r); x = respond(w, tags[i]); break; }
        case 4: { if (n < 2) { what = "fresh repetition"; Instance w = vs[i]; rehide(w, r); x = respond(w, tags[i]); break; } what = "two repetitions swapped"; size_t k = pick_index(c, n); std::swap(q.resp[i], q.resp[k]); break; }
        case 5: { if (n < 2) { what = "none"; break; } what = "repetition copied over another"; size_t k = pick_index(c, n); q.resp[i] = q.resp[k]; break; }
        case 6: { what = "E0 in another model"; q.E0 = enc(random_model(from_mont(dec(q.E0)), r)); break; }
        case 7: { what = "E1 in another model"; q.E1 = enc(random_model(from_mont(dec(q.E1)), r)); break; }
        case 8: { what = "E0 replaced by another valid curve"; q.E0 = enc(canonical(random_ss(r, 3), r).A); break; }
        case 9: { what = "E1 replaced by another valid curve"; q.E1 = enc(canonical(random_ss(r, 3), r).A); break; }
        case 10: { what = "E0 and E1 swapped"; std::swap(q.E0, q.E1); break; }
        case 11: { what = "hash truncated to its first bytes (rest zero)"; Bytes &f = x.tag == -1 ? x.h3 : x.tag == 1 ? x.h2 : x.r2; size_t keep = c.below(f.size()); for (size_t k = keep; k < f.size(); k++) f[k] = 0; break; }
        case 12: { what = "r2/r3 swapped or hash shifted"; if (x.tag == 0) std::swap(x.r2, x.r3); else bit(x.tag == -1 ? x.r2 : x.r3); break; }
        default: { what = "kernel or curve bit"; Bytes &f = (x.tag == 0 && c.coin(1, 4)) ? x.E2 : x.x[c.below(x.x.size())]; bit(f); break; }
        }
        Verdict rv = ref_verify(q, r); if (rv == AMBIGUOUS) continue; int w = l.verify(q); c.evals++; c.label(what); c.label(std::string("reference: ") + vname(rv)); c.note("rep %zu of %zu (tag %d): %s", i, n, tags[i], what.c_str());
        bool red = is_reduced(q.E0) && is_reduced(q.E1); for (auto &y : q.resp[i].x) red &= is_reduced(y); if (q.resp[i].tag == 0) red &= is_reduced(q.resp[i].E2);
        if (!red && rv == OK) continue;
        CHECK((w == 1) == (rv == OK), "verifier result %d differs from the protocol's verdict %s after: %s (repetition %zu of %zu, tag %d)", w, vname(rv), what.c_str(), i, n, tags[i]);
        c.nontrivial = true;
    }
}
PROPERTY(splice_small, 300) { splice(c); }
PROPERTY(splice_full, 600) { CHECK((int) LIB().reps == G()->reps, "number of repetitions is %zu, published value is %d", LIB().reps, G()->reps); CHECK(LIB().hash_bytes == (size_t) G()->hash_bytes && LIB().hide_bytes == (size_t) G()->hide_bytes, "commitment sizes differ from the published ones"); splice(c); }
// free values varied: every decision must be the reference's (digit sampling)
PROPERTY(challenge_digit, 300) {
    Lib &l = LIB(); Rng r = c.fork(); pbt::entropy(r.next()); pbt::ENT.threaded = true; Base &b = base((int) c.below(3)); size_t n = l.reps;
    std::vector<Instance> vs = make_vs(c, b, n, r); Proof p = assemble(vs); std::vector<int> ch;
    for (int t = 0; t < 12; t++) { size_t i = c.below(n); rehide(vs[i], r); Proof q = assemble(vs, &ch); int how = (int) c.below(3); if (how) { int tg = (int) c.below(3) - 1; q.resp[i] = respond(vs[i], tg); }
        Verdict rv = ref_verify(q, r); int v = l.verify(q); c.evals++; CHECK(v == (rv == OK), "verifier result %d, protocol says %s (repetition %zu of %zu, tag %d, digit %d)", v, vname(rv), i, n, q.resp[i].tag, ch[i]); c.label(rv == OK ? "accepted" : "rejected"); }
    c.nontrivial = true; c.note("%zu repetitions, 12 re-hidings", n);
}

// the tag field itself, as an arbitrary integer in memory
PROPERTY(tag_memory, 300) {
    Lib &l = LIB(); Rng r = c.fork(); pbt::entropy(r.next()); pbt::ENT.threaded = true; Base &b = base((int) c.below(3)); size_t n = l.reps;
    std::vector<Instance> vs = make_vs(c, b, n, r); Proof p = assemble(vs); Lib::Buf buf(l.szp); CHECK(l.parse(proof_text(p), buf), "well-formed proof refused"); CHECK(l.Verify(buf.p), "valid proof rejected");
    static auto set = (void (*)(void *, size_t, int)) dlsym(l.h, "vg_set_tag"); size_t i = c.below(n); int d = p.resp[i].tag, t; 
    for (int k = 0; k < 8; k++) { switch (c.below(5)) { case 0: t = (int) (d + (c.range(-40, 40)) * 256); break; case 1: t = (int) (d + c.range(-40, 40) * 65536); break; case 2: t = (int) c.range(-6, 6); break; case 3: t = (int) (d + c.range(-40, 40) * 3); break; default: t = (int) c.u64(); }
        set(buf.p, i, t); int v = l.Verify(buf.p); c.evals++; CHECK(v == (t == d), "verifier result %d for tag %d where the challenge digit is %d (repetition %zu)", v, t, d, i); c.label(t == d ? "same tag" : (t & 255) == (d & 255) ? "differs above 8 bits" : "other tag"); }
    set(buf.p, i, d); CHECK(l.Verify(buf.p), "valid proof rejected after restoring the tag"); c.nontrivial = true; c.note("tag of repetition %zu/%zu replaced", i, n);
}

// ------------------------------------------------------------------------------------------------ C04
static F2 gen_curve_candidate(Case &c, Rng &r, std::string &kind, XZ *crafted2 = nullptr, XZ *crafted3 = nullptr) {
    switch (c.strat(9)) {
    case 0: { kind = "ordinary CM"; std::vector<CM> v; for (auto &x : cms()) if (!cm_supersingular(x.D)) v.push_back(x); for (int t = 0; t < 20; t++) { const CM &m = v[c.below(v.size())]; F2 A; if (mont_from_j(fsi(m.j), r, A)) { c.note("D=%d", m.D); return c.coin() ? A : -A; } } return frand2(r); }
    case 1: kind = "singular A=2"; return fui(2);
    case 2: kind = "singular A=-2"; return -fui(2);
    case 3: kind = "random"; return frand2(r);
    case 4: kind = "random in GF(p)"; return mk(fp_rand(r), fp0());
    case 5: { kind = "small"; int k = (int) c.range(1, 40); F2 A = fui(k); if (c.coin()) A = -A; if (c.coin()) A = mk(A.c1, A.c0); if (c.coin(1, 4)) A = A + mk(fp0(), fp_ui(k)); return A; }
    case 6: { kind = "near-valid"; F2 A = canonical(random_ss(r, 4), r).A; switch (c.below(5)) { case 0: return mk(A.c0, add(A.c1, fp1())); case 1: return mk(A.c1, A.c0); case 2: return mk(A.c0, fp0()); case 3: return A + A; default: return inv(A); } }
    case 7: { kind = "bit-flipped valid"; Bytes b = enc(canonical(random_ss(r, 3), r).A); size_t k = c.below(b.size() * 8 - 8); b[k / 8] ^= 1 << (k % 8); return dec(b); }
    default: { kind = "valid"; std::string k2; F2 A = gen_valid_curve(c, k2); kind = "valid " + k2; return A; }
    }
}
// point of exact order N = 2^a (l=2) or 3^b (l=3) in the smooth part of the nodal curve A = 2 sign
static F2 nodal_point(int sign, int l, Rng &r) {
    mpz_t e, q; mpz_init(e); mpz_init(q); mpz_mul(q, G()->p, G()->p); mpz_sub_ui(q, q, 1); mpz_fdiv_q(e, q, l == 2 ? G()->oA : G()->oB); if (l == 2) { mpz_set(e, q); mpz_fdiv_q(e, e, G()->oA); }
    auto fpow = [](F2 b, const mpz_t k) { F2 R = f1(); for (long i = (long) mpz_sizeinbase(k, 2) - 1; i >= 0; i--) { R = sqr(R); if (mpz_tstbit(k, i)) R = R * b; } return R; };
    F2 u; mpz_t t; mpz_init(t); mpz_fdiv_q_ui(t, l == 2 ? G()->oA : G()->oB, l); while (true) { u = fpow(frand2(r), e); if (!isz(fpow(u, t) - f1())) break; }
    mpz_clear(e); mpz_clear(q); mpz_clear(t); F2 s = div(f1() + u, f1() - u), x = sqr(s); return sign > 0 ? -x : x; }   // y^2 = x(x-1)^2: x = t^2;  A = +2 by x -> -x
PROPERTY(curve_check, 300) {
    Lib &l = LIB(); CHECK(l.reps == 1, "harness needs one repetition"); Rng r = c.fork(); std::string kind; F2 A = gen_curve_candidate(c, r, kind); bool valid = valid_curve(A, r); Bytes b = enc(A); c.label(kind + (valid ? " (valid)" : " (invalid)")); c.note("%s %s %s", kind.c_str(), valid ? "valid" : "invalid", elt(b).c_str());
    c.nontrivial = true; Lib::Buf s(l.szs); Bytes good = enc(canonical(random_ss(r, 2), r).A);
    for (int k = 0; k < 3; k++) { pbt::entropy(r.next()); pbt::ENT.threaded = true; bool ok = l.generate(b, s); c.evals++; CHECK(ok == valid, "Generate %s a curve that is %s (%s, attempt %d)", ok ? "accepts" : "refuses", valid ? "valid" : "invalid", kind.c_str(), k); if (k == 0 && c.coin(1, 3)) { CHECK(l.generate(good, s), "Generate refuses a valid curve"); } }
    bool sing = isz(A * A - fui(4)); int sign = eq(A, fui(2)) ? 1 : -1;
    int pos = (int) c.strat(5, 3); const char *pn[] = {"E0 (right response)", "E1 (left response)", "E2 (bottom response)", "E0 (left response)", "E1 (right response)"}; c.label(std::string("position ") + pn[pos]); c.note("as %s", pn[pos]);
    Proof p; W w0 = random_ss(r, 2), w1 = random_ss(r, 2); p.E0 = enc(canonical(w0, r).A); p.E1 = enc(canonical(w1, r).A); Resp q; q.tag = pos == 0 || pos == 4 ? 1 : pos == 2 ? 0 : -1; F2 start;
    if (pos == 0 || pos == 3) p.E0 = b; else if (pos == 2) q.E2 = b; else p.E1 = b;
    start = q.tag == -1 ? dec(p.E0) : q.tag == 1 ? dec(p.E1) : A; int ll = q.tag ? 3 : 2, n = q.tag ? HEIGHT : WIDTH;
    bool startbad = !valid && (pos >= 2);
    if (!startbad) { Chain ch = flawed_chain(c, start, ll, n, NONE, 0, r); q.x = ch.x; }
    else for (int i = 0; i < n; i++) { F2 x; if (sing) x = nodal_point(sign, ll, r); else { W w = from_mont(A); XZ R = xmule(w, aff(rand_x(w, r)), ll == 2 ? 3 : 2, ll == 2 ? G()->b : G()->a); Model m; from_mont(A, &m); x = isO(R) ? frand2(r) : to_M(m, xof(R)); } q.x.push_back(enc(x)); }
    p.resp = {q};
    for (int t = 0; t < (valid ? 6 : 14); t++) {
        free_values(p.resp[0], r); pbt::entropy(r.next()); pbt::ENT.threaded = true; int v = l.verify(p); c.evals++;
        if (!valid) CHECK(v != 1, "verifier accepts a proof with an invalid curve (%s) as %s", kind.c_str(), pn[pos]);
        else { Verdict rv = ref_verify(p, r); if (rv != AMBIGUOUS) CHECK(v == (rv == OK), "verifier result %d with a valid curve (%s) as %s, protocol says %s", v, kind.c_str(), pn[pos], vname(rv)); }
    }
}
PROPERTY(curve_check_many, 300) {     // decision alone, many curves and seeds
    Lib &l = LIB(); Rng r = c.fork(); Lib::Buf s(l.szs); c.nontrivial = true; std::string prev; std::vector<std::pair<Bytes, bool>> pool;
    int n = 10; for (int k = 0; k < n; k++) { std::string kind; Bytes b; bool valid; if (!pool.empty() && c.coin(1, 4)) { auto &q = pool[c.below(pool.size())]; b = q.first; valid = q.second; kind = "repeated"; } else { F2 A = gen_curve_candidate(c, r, kind); b = enc(A); valid = valid_curve(A, r); pool.push_back({b, valid}); }
        pbt::entropy(c.u64()); pbt::ENT.threaded = true; bool ok = l.generate(b, s); c.evals++; c.label(valid ? "valid" : "invalid"); CHECK(ok == valid, "Generate %s a curve that is %s (%s)", ok ? "accepts" : "refuses", valid ? "valid" : "invalid", kind.c_str()); if (k < 3) c.note("%s %s", kind.c_str(), valid ? "valid" : "invalid"); }
}

// ------------------------------------------------------------------------------------------------ C06
static void check_secret(Lib &l, const Lib::Buf &s, const Bytes &E0, Rng &r, int rank[WIDTH]) {
    CHECK(l.E(s, 0) == E0, "the secret does not start at exactly the given curve"); std::vector<XZ> T; 
    for (int i = 0; i < WIDTH; i++) {
        Bytes bE = l.E(s, i), bP = l.P(s, i); CHECK(is_reduced(bE) && is_reduced(bP), "secret contains unreduced field elements"); Model m; W w = from_mont(dec(bE), &m); F2 x = to_W(m, dec(bP)); XZ K = aff(x);
        CHECK(is_square(rhs(w, x)), "kernel generator %d is not on its curve", i); XZ U = xmule(w, K, 2, G()->a - 1); CHECK(!isO(U), "kernel generator %d has order less than 2^%d", i, G()->a); CHECK(isO(xdbl(w, U)), "kernel generator %d has order other than 2^%d", i, G()->a);
        F2 rt[3]; cubic_roots(w, r, rt); for (auto &t : rt) t = to_M(m, t); std::sort(rt, rt + 3, [](const F2 &a, const F2 &b) { return lex_lt(a, b); }); F2 ux = to_M(m, xof(U)); rank[i] = -1; for (int k = 0; k < 3; k++) if (eq(rt[k], ux)) rank[i] = k;
        if (i == 0) for (int k = 0; k < 2; k++) T.push_back(aff(to_W(m, rt[k])));
        isog(w, K, 2, G()->a, T); F2 j = j_inv(w); Model m2; W w2 = from_mont(dec(l.E(s, i + 1)), &m2); CHECK(!singular(w2) && eq(j, j_inv(w2)), "listed curve %d is not the codomain of listed kernel %d", i + 1, i);
        CHECK(!(isO(T[0]) && isO(T[1])), "the walk backtracks at step %d", i);
        // continue in the coordinates of the listed model: x -> u^2 x
        { F2 u2; if (isz(w.a)) { u2 = f0(); } else if (isz(w.b)) u2 = f0(); else u2 = div(w2.b * w.a, w.b * w2.a); if (isz(u2)) return; for (auto &t : T) if (!isO(t)) t = aff(xof(t) * u2); }
    }
}
PROPERTY(secret_walk, 300) {
    Lib &l = LIB(); Rng r = c.fork(); std::string kind; F2 A = gen_valid_curve(c, kind); Bytes E = enc(A); c.label(kind); c.note("%s %s", kind.c_str(), elt(E).c_str()); Lib::Buf s(l.szs), s2(l.szs); std::set<Bytes> ends, mids;
    int n = 4; for (int k = 0; k < n; k++) { uint64_t es = c.u64() * 8 + k; pbt::entropy(es); CHECK(l.generate(E, s), "valid curve refused"); long used = pbt::ENT.bytes; CHECK(used * 8 >= (long) WIDTH * G()->a, "only %ld bytes of entropy went into a secret", used); pbt::entropy(es); memset(s2.p, 0x5a, l.szs); l.generate(E, s2); for (int i = 0; i <= WIDTH; i++) CHECK(l.E(s, i) == l.E(s2, i), "equal entropy gives different secrets"); for (int i = 0; i < WIDTH; i++) CHECK(l.P(s, i) == l.P(s2, i), "equal entropy gives different secrets");
        int rank[WIDTH]; check_secret(l, s, E, r, rank); CHECK(ends.insert(l.E(s, WIDTH)).second, "two entropy streams gave the same end curve"); CHECK(mids.insert(l.P(s, 0)).second, "two entropy streams gave the same first kernel generator"); c.evals++; }
    c.nontrivial = true;
}
PROPERTY(secret_directions, 600) {
    Lib &l = LIB(); Rng r = c.fork(); std::string kind; F2 A = gen_valid_curve(c, kind); Bytes E = enc(A); c.note("%s %s", kind.c_str(), elt(E).c_str()); Lib::Buf s(l.szs); const int n = 72; std::map<Bytes, int> first; int above[2] = {0, 0}; std::map<Bytes, int> four; std::vector<std::map<int, int>> rk(WIDTH);
    for (int k = 0; k < n; k++) { pbt::entropy(r.next()); CHECK(l.generate(E, s), "valid curve refused"); c.evals++;
        for (int i = 0; i < WIDTH; i++) { Model m; W w = from_mont(dec(l.E(s, i)), &m); XZ K = aff(to_W(m, dec(l.P(s, i)))); XZ F = xmule(w, K, 2, G()->a - 2), U = xdbl(w, F); CHECK(!isO(U), "kernel of order less than 2^%d", G()->a); if (i == 0) { first[enc(to_M(m, xof(U)))]++; four[enc(to_M(m, xof(F)))]++; }
            if (!i) continue; Model ca = canonical(w, r); F2 rt[3]; cubic_roots(w, r, rt); for (auto &t : rt) t = to_M(ca, t); std::sort(rt, rt + 3, [](const F2 &a, const F2 &b) { return lex_lt(a, b); }); F2 ux = to_M(ca, xof(U)); for (int q = 0; q < 3; q++) if (eq(rt[q], ux)) rk[i][q]++; } }
    CHECK(first.size() == 3, "only %zu of the 3 possible first directions occurred in %d walks", first.size(), n); for (auto &f : first) CHECK(f.second >= 4, "a first direction occurs only %d times in %d walks", f.second, n);
    // 4-torsion: 6 cyclic subgroups of order 4 (x of both generators equal up to sign: each subgroup has one x)
    CHECK(four.size() >= 5, "only %zu of 6 subgroups of order 4 occurred in %d walks", four.size(), n);
    for (int i = 1; i < WIDTH; i++) CHECK(rk[i].size() == 3, "step %d never takes some direction in %d walks (rank of the kernel among the 2-torsion of the canonical model)", i, n);
    c.nontrivial = true;
}

// every walk can occur only if enough entropy decides it: requests whose replacement always changes the secret must carry that much
PROPERTY(secret_entropy, 300) {
    Lib &l = LIB(); Rng r = c.fork(); std::string kind; F2 A = gen_valid_curve(c, kind); Bytes E = enc(A); c.note("%s %s", kind.c_str(), elt(E).c_str()); Lib::Buf s(l.szs); uint64_t es = r.next();
    auto out = [&] { Bytes o; CHECK(l.generate(E, s), "valid curve refused"); for (int i = 0; i < WIDTH; i++) { Bytes x = l.P(s, i); o.insert(o.end(), x.begin(), x.end()); } return o; };
    pbt::entropy(es); pbt::ENT.record = true; Bytes want = out(); std::vector<uint8_t> log = pbt::ENT.log; std::vector<long> lens = pbt::ENT.lens; long need = (long) WIDTH * (G()->a - 8), have = 0, n = 0; size_t at = 0;
    for (size_t k = 0; k < lens.size() && have < need; at += lens[k++]) { bool always = lens[k] > 0; for (int t = 0; t < 5 && always; t++) { auto z = log; r.fill(z.data() + at, lens[k]); pbt::entropy(es); pbt::ENT.script = z; always = out() != want; c.evals++; } if (always) { have += 8 * lens[k]; n++; } }
    CHECK(have >= need, "%ld bits of entropy (%ld of %zu requests) decide the secret, which should have at least 2^%ld possible values", have, n, lens.size(), need); c.nontrivial = true;
}

// ------------------------------------------------------------------------------------------------ C05
static std::vector<Bytes> secret_values(Lib &l, const Lib::Buf &s, Rng &r) {    // everything of the secret walk that must stay hidden, in every model
    std::vector<Bytes> o; for (int i = 0; i < WIDTH; i++) { Model m0; W w = from_mont(dec(l.E(s, i)), &m0); Model m[6]; all_models(w, r, m); F2 x = to_W(m0, dec(l.P(s, i))); for (auto &q : m) { if (i) o.push_back(enc(q.A)); o.push_back(enc(to_M(q, x))); } }
    return o; }
static void hygiene(Lib &l, const Proof &p, std::set<uint64_t> &words, std::set<Bytes> &xs) {
    auto hid = [&](const Bytes &b, const char *n, size_t i) { CHECK(b.size() == (size_t) G()->hide_bytes, "hiding value of wrong size"); for (size_t k = 0; k + 8 <= b.size(); k += 8) { uint64_t w; memcpy(&w, &b[k], 8); CHECK(words.insert(w).second, "hiding value %s of repetition %zu is not fresh full-length randomness: bytes %zu..%zu (%016lx) repeat", n, i, k, k + 7, (unsigned long) w); } };
    for (size_t i = 0; i < p.resp.size(); i++) { auto &q = p.resp[i]; if (q.tag != 1) hid(q.r2, "r2", i); if (q.tag != -1) hid(q.r3, "r3", i); for (auto &x : q.x) CHECK(xs.insert(x).second, "a kernel generator is repeated (repetition %zu)", i); if (q.tag == 0) CHECK(xs.insert(q.E2).second, "an intermediate curve is repeated"); }
}
PROPERTY(leak_fresh, 600) {
    Lib &l = LIB(); Rng r = c.fork(); std::string kind; F2 A = gen_valid_curve(c, kind); c.note("%s", kind.c_str()); pbt::entropy(r.next()); pbt::ENT.threaded = true; Lib::Buf s(l.szs); CHECK(l.generate(enc(A), s), "valid curve refused"); auto sv = secret_values(l, s, r); std::set<Bytes> svs(sv.begin(), sv.end()); std::set<uint64_t> words; std::set<Bytes> xs; std::set<Bytes> firsts;
    for (int k = 0; k < 2; k++) { pbt::entropy(r.next()); pbt::ENT.threaded = true; pbt::ENT.record = true; std::string t = l.prove(s); auto log = pbt::ENT.log; CHECK(log.size() * 8 >= l.reps * (2 * 8 * G()->hide_bytes + (size_t) (HEIGHT * G()->b * 1.584)), "only %zu bytes of entropy went into a proof of %zu repetitions", log.size(), l.reps); Proof p; CHECK(parse_proof(t, l.reps, p), "unreadable proof"); hygiene(l, p, words, xs); c.evals++;
        CHECK(!svs.count(p.E0) || true, " "); for (auto &q : p.resp) { c.label(q.tag == -1 ? "left" : q.tag == 0 ? "bottom" : "right"); for (auto &x : q.x) CHECK(!svs.count(x), "a kernel generator or inner curve of the secret walk appears in the proof"); if (q.tag == 0) CHECK(!svs.count(q.E2), "an inner curve of the secret walk appears in the proof"); }
        for (size_t i = 0; i < p.resp.size(); i++) for (int w = 0; w < 2; w++) { const Bytes &h = w ? p.resp[i].r3 : p.resp[i].r2; if (h.empty()) continue; auto it = std::search(log.begin(), log.end(), h.begin(), h.end()); CHECK(it != log.end(), "hiding value %s of repetition %zu was not drawn from the entropy source", w ? "r3" : "r2", i); }
        std::string raw = t; }
    c.nontrivial = true;
}
// discrete log of X to base K (both of order dividing 2^a, K exact): bits of s with X = +-[s]K; false if not in the group
static bool dlog2(const W &w, const Pt &K, const Pt &X, mpz_t s) {
    int a = G()->a; std::vector<Pt> pw(a); pw[0] = K; for (int i = 1; i < a; i++) pw[i] = ptadd(w, pw[i - 1], pw[i - 1]);     // pw[i] = 2^i K
    mpz_set_ui(s, 0); Pt R = X;      // invariant: R = X - [s]K, 2^(a-i) R = O
    for (int i = 0; i < a; i++) { Pt T = R; for (int k = 0; k < a - 1 - i; k++) T = ptadd(w, T, T); if (!T.inf) { if (!eq(T.x, pw[a - 1].x)) return false; mpz_setbit(s, i); R = ptadd(w, R, ptneg(pw[i])); } }
    return R.inf; }
PROPERTY(leak_bottom, 900) {
    // the same repetition answered twice (left and bottom) by steering the entropy after it was made; the secret's own image is then computable
    Lib &l = LIB(); Rng r = c.fork(); pbt::entropy(r.next()); Lib::Buf s(l.szs); F2 A = canonical(random_ss(r, 3), r).A; CHECK(l.generate(enc(A), s), "valid curve refused");
    uint64_t es = r.next(); pbt::entropy(es); Proof p; auto go = [&](long at, uint64_t sd) { pbt::entropy(es); if (at >= 0) { pbt::ENT.switch_at = at; pbt::ENT.switch_seed = sd; } std::string t = l.prove(s); CHECK(parse_proof(t, l.reps, p), "unreadable proof"); };
    go(-1, 0); long N = pbt::ENT.calls, at = N * 7 / 10; Resp left; std::vector<Resp> bot; Bytes r2; bool hl = false;
    std::map<Bytes, Resp> lefts; std::map<Bytes, std::vector<Resp>> bots; 
    for (int t = 0; t < 48; t++) { go(at, r.next()); c.evals++; Resp &q = p.resp[0]; if (q.tag == -1) lefts[q.r2] = q; else if (q.tag == 0) bots[q.r2].push_back(q); for (auto &x : lefts) if (bots.count(x.first) && bots[x.first].size() >= (t < 24 ? 5 : 2)) { left = x.second; bot = bots[x.first]; hl = true; } if (hl) break; }
    if (!hl) { c.label("no matching pair (skipped)"); return; }
    // pushed secret: rebuild with the reference
    F2 A0 = dec(p.E0); Model m0; W w = from_mont(A0, &m0); Walk Lw; { W cur = w; Model m = m0; for (int i = 0; i < HEIGHT; i++) { if (i) m = canonical(cur, r); XZ K = aff(to_W(m, dec(left.x[i]))); Lw.E.push_back(cur); Lw.K.push_back(K); std::vector<XZ> no; isog(cur, K, 3, G()->b, no); } Lw.E.push_back(cur); }
    // secret kernels on curves isomorphic to the ones listed; move step by step into reference coordinates
    Walk sec; { W cur = w; for (int i = 0; i < WIDTH; i++) { Model ml; W wl = from_mont(dec(l.E(s, i)), &ml); F2 x = to_W(ml, dec(l.P(s, i))); Model ca = canonical(cur, r), cb = canonical(wl, r); F2 xm = to_M(cb, x); XZ K = aff(to_W(ca, xm)); sec.E.push_back(cur); sec.K.push_back(K); std::vector<XZ> no; isog(cur, K, 2, G()->a, no); } sec.E.push_back(cur); }
    Walk b = sec; for (int row = 0; row < HEIGHT; row++) { XZ Kl = Lw.K[row]; W El = Lw.E[row]; for (int col = 0; col < WIDTH; col++) { std::vector<XZ> pb{b.K[col]}, pr{Kl}; W Eb = El, Er = b.E[col]; isog(Er, b.K[col], 2, G()->a, pr); isog(Eb, Kl, 3, G()->b, pb); b.E[col] = Eb; b.K[col] = aff(xof(pb[0])); El = Er; Kl = aff(xof(pr[0])); } }
    std::set<std::string> seen; std::vector<mpz_t *> ss; 
    for (size_t t = 0; t < bot.size() && t < 6; t++) for (int col = 0; col < WIDTH; col++) {
        Model m = canonical(b.E[col], r); F2 x = to_W(m, dec(bot[t].x[col])); Pt K, X; if (!lift(b.E[col], xof(b.K[col]), K) || !lift(b.E[col], x, X)) pbt::fail("a revealed bottom generator is not on its curve (column %d)", col);
        mpz_t *sc = (mpz_t *) malloc(sizeof(mpz_t)); mpz_init(*sc); CHECK(dlog2(b.E[col], K, X, *sc), "revealed bottom generator of column %d does not generate the image of the secret's kernel", col); mpz_t t2; mpz_init(t2); mpz_sub(t2, G()->oA, *sc); if (mpz_cmp(t2, *sc) < 0) mpz_set(*sc, t2); mpz_clear(t2);
        CHECK(mpz_cmp_ui(*sc, 1) != 0, "revealed bottom generator of column %d is the image of the secret's own generator", col); CHECK(mpz_tstbit(*sc, 0), "re-randomising factor is even"); ss.push_back(sc); }
    // runs of bits that never change, in the smaller of k and -k in the one that is 1 modulo 4, and in the differences of neighbouring bits, which are the same for both (a run must be too long for chance)
    for (int norm = 0; norm < 3; norm++) { int n = (int) ss.size(), run = 0; std::vector<std::string> bits; for (auto sc : ss) { mpz_t k; mpz_init_set(k, *sc); if (norm == 1 && mpz_tstbit(k, 1)) mpz_sub(k, G()->oA, k); std::string z; for (int q = 0; q < G()->a; q++) z += (norm == 2 && q + 1 < G()->a ? mpz_tstbit(k, q) != mpz_tstbit(k, q + 1) : mpz_tstbit(k, q)) ? '1' : '0'; bits.push_back(z); mpz_clear(k); }
        for (int q = norm ? 2 : 1; q < G()->a - (norm == 1 ? 0 : norm == 0 ? 1 : 2); q++) { bool same = true; for (auto &z : bits) same = same && z[q] == bits[0][q]; run = same ? run + 1 : 0; CHECK(run * (n - 1) < 48, "bits %d..%d of the re-randomising factor are the same for all %d revealed bottom kernels: not fully re-randomised", q - run + 1, q, n); } }
    for (auto sc : ss) { char *z = mpz_get_str(nullptr, 16, *sc); CHECK(seen.insert(z).second, "the re-randomising factor is reused"); free(z); mpz_clear(*sc); free(sc); }
    c.note("same repetition answered left and %zu times bottom; %zu discrete logarithms", bot.size(), ss.size()); c.nontrivial = true; c.label("left/bottom pair");
}
PROPERTY(leak_directions, 900) {
    Lib &l = LIB(); Rng r = c.fork(); pbt::entropy(r.next()); pbt::ENT.threaded = true; Lib::Buf s(l.szs); F2 A = canonical(random_ss(r, 3), r).A; CHECK(l.generate(enc(A), s), "valid curve refused"); int want = 80, got = 0; std::map<Bytes, int> first; std::vector<std::map<int, int>> rk(HEIGHT); std::map<Bytes, int> nine; int lo = atoi(pbt::opt("steps").c_str()); if (!lo) lo = HEIGHT;
    while (got < want) { pbt::entropy(r.next()); pbt::ENT.threaded = true; std::string t = l.prove(s); Proof p; CHECK(parse_proof(t, l.reps, p), "unreadable proof"); c.evals++;
        for (auto &q : p.resp) if (q.tag == -1) { got++; Model m; W w = from_mont(dec(p.E0), &m); for (int i = 0; i < lo; i++) { if (i) m = canonical(w, r); XZ K = aff(to_W(m, dec(q.x[i]))); XZ N = xmule(w, K, 3, G()->b - 2), U = xtpl(w, N); CHECK(!isO(U) && isO(xtpl(w, U)), "left kernel of wrong order");
            if (i == 0) { first[enc(to_M(m, xof(U)))]++; }
            else { // rank of the kernel's 3-torsion among the four subgroups, by x in the canonical model
                XZ V; do V = xmule(w, rand_order(w, 3, r), 3, G()->b - 1); while (eqx(U, V)); Pt a, b2; lift(w, xof(U), a); lift(w, xof(V), b2); Pt s1 = ptadd(w, a, b2), s2 = ptadd(w, a, ptneg(b2)); std::vector<F2> xs{to_M(m, a.x), to_M(m, b2.x), to_M(m, s1.x), to_M(m, s2.x)}; F2 me = xs[0]; std::sort(xs.begin(), xs.end(), [](const F2 &p, const F2 &q) { return lex_lt(p, q); }); for (int k = 0; k < 4; k++) if (eq(xs[k], me)) rk[i][k]++; }
            if (i + 1 < lo) { std::vector<XZ> no; isog(w, K, 3, G()->b, no); } } } }
    CHECK(first.size() == 4, "only %zu of the 4 possible first directions occurred in %d revealed left chains", first.size(), got); for (auto &f : first) CHECK(f.second >= 2, "a first direction occurs only %d times in %d left chains", f.second, got);
    for (int i = 1; i < lo; i++) CHECK(rk[i].size() == 4, "step %d of the left chains never takes some direction (%d chains)", i, got);
    c.nontrivial = true; c.note("%d left chains, first directions %d/%d/%d/%d", got, first.begin()->second, (++first.begin())->second, (++++first.begin())->second, (++++++first.begin())->second);
}

// ------------------------------------------------------------------------------------------------ C16 (proofs)
static Lib &LIB2() { static Lib l("lib2"); return l; }
PROPERTY(backend_proofs, 600) {
    Lib &a = LIB(), &b = LIB2(); Rng r = c.fork(); std::string kind; F2 A = gen_valid_curve(c, kind); uint64_t es = r.next(); Lib::Buf s(a.szs), t(b.szs); c.note("%s", kind.c_str()); Bytes E = enc(A); if (c.coin(1, 4)) { E = enc(frand2(r)); kind = "invalid"; }
    pbt::entropy(es); bool ga = a.generate(E, s); long na = pbt::ENT.calls; pbt::entropy(es); bool gb = b.generate(E, t); CHECK(ga == gb, "builds disagree whether a curve is valid (%s)", kind.c_str()); CHECK(na == pbt::ENT.calls, "builds use entropy differently"); c.label(kind); c.evals++; if (!ga) return;
    for (int i = 0; i <= WIDTH; i++) CHECK(a.E(s, i) == b.E(t, i), "builds generate different secrets from equal entropy (curve %d)", i); for (int i = 0; i < WIDTH; i++) CHECK(a.P(s, i) == b.P(t, i), "builds generate different secrets from equal entropy (kernel %d)", i);
    pbt::entropy(es + 1); std::string x = a.prove(s); pbt::entropy(es + 1); std::string y = b.prove(t); CHECK(x == y, "builds produce different proofs from equal secret and entropy"); c.evals++;
    CHECK(a.verify(y) == 1 && b.verify(x) == 1, "a proof is not accepted by both builds"); Proof p; parse_proof(x, a.reps, p); c.nontrivial = true;
    for (int k = 0; k < 2; k++) { std::string z = x; for (int t = 0; t < 20; t++) { size_t q = c.below(z.size()); if (!isxdigit(z[q])) continue; z[q] = "0123456789abcdef"[c.below(16)]; break; } pbt::entropy(es + 2); int va = a.verify(z); pbt::entropy(es + 2); int vb = b.verify(z); CHECK(va == vb, "builds disagree on an altered proof: %d / %d", va, vb); c.evals++; }
}
