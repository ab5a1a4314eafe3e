// C20: the Sage verifier as a process (run by sage/run.py) on generated proofs; verdict and output against the reference and the C verifier.
#include "poikh.hpp"
#include "flaws.hpp"
#include <sys/wait.h>
#include <errno.h>
using namespace poikh; using pbt::Case;
static Lib &LIB() { static Lib l("lib"); return l; }
struct Run { int code = -1, sig = 0; std::string out, err; };
static std::string get_file(const std::string &p) { FILE *f = fopen(p.c_str(), "rb"); std::string s; if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
// reps 0: the script's own parameter table
static Run run(const std::string &in, size_t reps, unsigned long long seed) {
    std::string d = pbt::opt("scratch"), fi = d + "/sage.in", fo = d + "/sage.out", fe = d + "/sage.err"; FILE *f = fopen(fi.c_str(), "wb"); if (!f) exit(3); fwrite(in.data(), 1, in.size(), f); fclose(f);
    std::string rs = std::to_string(reps), ps = "--p" + std::to_string(pbt::SIZE), ss = std::to_string(seed); fflush(stdout); pid_t pid = fork(); if (pid < 0) exit(3);
    if (!pid) { signal(SIGALRM, SIG_DFL); pbt::cpu_limit(600); auto o = [](const std::string &n, int fl, int as) { int d = open(n.c_str(), fl, 0644); dup2(d, as); close(d); }; o(fi, O_RDONLY, 0); o(fo, O_WRONLY | O_CREAT | O_TRUNC, 1); o(fe, O_WRONLY | O_CREAT | O_TRUNC, 2); for (int d = 3; d < 64; d++) close(d);
        setenv("SHIM_SEED", ss.c_str(), 1); setenv("PYTHONDONTWRITEBYTECODE", "1", 1); execl(pbt::opt("python").c_str(), "python3", pbt::opt("runner").c_str(), pbt::opt("script").c_str(), rs.c_str(), ps.c_str(), (char *) nullptr); _exit(78); }
    int st; while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) exit(3);
    Run r; if (WIFEXITED(st)) r.code = WEXITSTATUS(st); else r.sig = WTERMSIG(st); CHECK(r.sig != SIGPROF, "the script does not end"); if (r.code == 78) { fprintf(stderr, "exec failed\n"); exit(3); } r.out = get_file(fo); r.err = get_file(fe); return r; }
// the two curves as numbers
static bool curves_of(const std::string &out, Bytes &a, Bytes &b) {
    std::vector<std::string> ln; size_t k = 0; while (k < out.size()) { size_t e = out.find('\n', k); if (e == std::string::npos) e = out.size(); ln.push_back(out.substr(k, e - k)); k = e + 1; } if (ln.size() != 2) return false;
    for (int i = 0; i < 2; i++) { size_t m = ln[i].find(','); if (m == std::string::npos) return false; Bytes o; for (std::string t : {ln[i].substr(0, m), ln[i].substr(m + 1)}) { if (t.size() < 3 || t[0] != '0' || (t[1] | 32) != 'x') return false; mpz_t z; mpz_init(z); bool okk = mpz_set_str(z, t.c_str() + 2, 16) == 0 && mpz_sgn(z) >= 0 && mpz_sizeinbase(z, 256) <= G()->nb; Bytes w(G()->nb, 0); if (okk) { size_t n; mpz_export(w.data(), &n, -1, 1, 0, 0, z); } mpz_clear(z); if (!okk) return false; o.insert(o.end(), w.begin(), w.end()); } (i ? b : a) = o; }
    return true; }
static bool no_statement(Case &c, const Run &u) { if (u.code != 77) return false; c.label("no statement (script needs more of Sage)"); c.nontrivial = false; return true; }
static std::string tail(const std::string &s) { std::string t = s.size() > 160 ? s.substr(s.size() - 160) : s; for (char &ch : t) if (ch < 32 || ch > 126) ch = ' '; return t; }
static void want(Case &c, const Run &u, bool good, const Proof &p, const std::string &what, const char *why) {
    bool ok = u.code == 0 && !u.sig; c.evals++;
    if (good) { CHECK(ok, "Sage verifier refuses a proof that satisfies the protocol (%s): exit %d, %s", what.c_str(), u.code, tail(u.err).c_str()); Bytes a, b; CHECK(curves_of(u.out, a, b) && a == p.E0 && b == p.E1, "Sage verifier accepts but does not print the two curves of the proof (%s)", what.c_str()); }
    else { CHECK(!ok, "Sage verifier accepts a proof that does not satisfy the protocol (%s: %s)", what.c_str(), why); CHECK(u.out.empty(), "Sage verifier refuses (%s) but writes %zu bytes on standard output", what.c_str(), u.out.size()); } }
static std::vector<std::string> lines(const std::string &t) { std::vector<std::string> v; size_t k = 0; while (k < t.size()) { size_t e = t.find('\n', k); v.push_back(t.substr(k, e - k)); k = e + 1; } return v; }
static std::string joined(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += x + "\n"; return s; }

// proofs of a few repetitions: valid ones and ones with an altered value
PROPERTY(sage_proof, 600) {
    Lib &l = LIB(); Rng r = c.fork(); size_t n = l.reps; std::vector<int> tags; std::vector<Instance> vs; Proof p; int kind = (int) c.strat(14); int wt = (int) c.below(3) - 1;
    Base &b = base((int) c.below(3)); size_t i = c.below(n); for (int z = 0; z < 60; z++) { vs = make_vs(c, b, n, r); p = assemble(vs, &tags); if (tags[i] == wt) break; }     // the altered repetition has a chosen challenge
    Proof q = p; Resp &x = q.resp[i]; std::string what, s; int expect = -1; auto bit = [&](Bytes &f) { size_t k = c.below(f.size() * 8); f[k / 8] ^= 1 << (k % 8); };
    switch (kind) {
    case 0: what = "valid"; break;
    case 1: {                  // the challenge hash begins with a byte that must be skipped
        bool edge = c.coin(); what = edge ? "valid, first hash byte 243" : "valid, first hash byte skipped"; F2 j0 = j_inv(from_mont(dec(p.E0))), j1 = j_inv(from_mont(dec(p.E1)));
        for (int z = 0; z < 4000; z++) { rehide(vs[n - 1], r); std::vector<std::pair<Bytes, Bytes>> hs; for (auto &v : vs) hs.push_back({v.h2, v.h3}); int b = first_byte(j0, j1, hs); if (edge ? b == 243 : b >= 243) break; }
        p = assemble(vs, &tags); q = p; break; }
    case 2: what = "valid, capital digits"; s = proof_text(q); for (char &ch : s) if (ch >= 'a' && ch <= 'f' && c.coin()) ch -= 32; break;
    case 3: what = "hiding value altered"; bit(x.tag == 1 || (x.tag == 0 && c.coin()) ? x.r3 : x.r2); break;
    case 4: what = "other commitment altered"; if (x.tag == 0) bit(c.coin() ? x.r2 : x.r3); else bit(x.tag == 1 ? x.h2 : x.h3); break;
    case 5: { what = "response to another challenge"; int t = tags[i] == 1 ? -1 : tags[i] + 1; if (c.coin()) t = t == 1 ? -1 : t + 1; x = respond(vs[i], t); break; }
    case 6: what = "curve in another model"; if (c.coin()) q.E0 = enc(random_model(from_mont(dec(q.E0)), r)); else q.E1 = enc(random_model(from_mont(dec(q.E1)), r)); break;
    case 7: { what = "other curve"; F2 A = c.coin() ? canonical(random_ss(r, 3), r).A : c.coin() ? frand2(r) : fui(2); int m = (int) c.below(3); (m == 0 ? q.E0 : m == 1 || x.tag ? q.E1 : x.E2) = enc(A); break; }
    case 8: { what = "two repetitions swapped"; size_t j = (i + 1 + c.below(n > 1 ? n - 1 : 1)) % n; std::swap(q.resp[i], q.resp[j]); break; }
    case 9: { what = "lines missing"; std::vector<std::string> v = lines(proof_text(p)); int m = (int) c.below(3); if (m == 0) v.resize(c.below(v.size())); else if (m == 1) v.pop_back(); else v.erase(v.begin() + c.below(v.size())); s = joined(v); expect = 0; break; }
    case 10: { what = "unreadable line"; std::vector<std::string> v = lines(proof_text(p)); std::string &y = v[c.below(v.size())]; int m = (int) c.below(4); if (m == 0) y = ""; else if (m == 1) y[c.below(y.size())] = 'g'; else if (m == 2) y += "zz"; else y = "2"; s = joined(v); expect = 0; break; }
    case 11: case 12: {        // a value of another length, with everything else (including the challenge) right
        Bytes &y = x.tag == -1 ? (c.coin() ? x.h3 : x.r2) : x.tag == 1 ? (c.coin() ? x.h2 : x.r3) : c.coin() ? x.r2 : x.r3; size_t len = y.size(); size_t want = c.coin() ? len + (c.coin() ? 1 : c.range(1, 64)) : len - (c.coin() ? 1 : c.range(1, (long) len - 1)); what = "value of another length"; c.note("%zu bytes instead of %zu", want, len);
        bool fits = false; for (int z = 0; z < 400 && !fits; z++) { y.resize(want); r.fill(y.data(), want); std::vector<std::pair<Bytes, Bytes>> hs; for (size_t k = 0; k < n; k++) { Resp &g = q.resp[k]; hs.push_back({g.tag == 1 ? g.h2 : commit(g.r2, vs[k].j2), g.tag == -1 ? g.h3 : commit(g.r3, vs[k].j3)}); } fits = challenge(j_inv(from_mont(dec(q.E0))), j_inv(from_mont(dec(q.E1))), hs) == tags; }
        c.label(fits ? "challenge fits" : "challenge does not fit"); s = proof_text(q); expect = 0; break; }
    default: what = "kernel altered"; bit(x.x[c.below(x.x.size())]); break;
    }
    if (s.empty() && expect < 0) s = proof_text(q);
    Verdict rv = expect == 0 ? BAD_TAG : ref_verify(q, r); if (rv == AMBIGUOUS) { c.label("ambiguous (skipped)"); return; }
    c.nontrivial = true; c.label(what); c.label(rv == OK ? "satisfies the protocol" : "does not satisfy the protocol"); c.note("%s, repetition %zu of %zu (challenge %d)", what.c_str(), i, n, tags[i]);
    Run u = run(s, n, r.next() >> 1); if (no_statement(c, u)) return; want(c, u, rv == OK, q, what, vname(rv));
    if (expect < 0 || kind == 11 || kind == 12) { pbt::entropy(r.next()); pbt::ENT.threaded = true; int v = l.verify(s); c.evals++; CHECK((v == 1) == (u.code == 0), "the two verifiers disagree (%s): C says %d, Sage exits with %d", what.c_str(), v, u.code); }
}

// one repetition with a chain of the documented form, or one flaw at a chosen step; the free values are chosen so that the challenge would fit if the flaw went unnoticed
PROPERTY(sage_chain, 600) {
    Rng r = c.fork(); Lib &l = LIB(); int tag = (int) c.strat(3) - 1; int ll = tag ? 3 : 2, n = tag ? HEIGHT : WIDTH; static const int W8[] = {LOW, BACK, NONE, VIA, EXTRA, BACK, MODEL, VIA, LOW, TWIST, DEGEN, BACK, FLIP, DUP, SKIP};
    int flaw = W8[c.strat(sizeof W8 / sizeof *W8, 3)]; int lo = flaw == BACK || flaw == DUP ? 1 : 0; int kq = (int) c.strat(4, 5); int k = kq == 0 ? n - 1 : kq == 1 ? lo : (int) c.range(lo, n - 1);
    bool c0, c1; W w0 = random_ss(r, (int) c.range(0, 5)), w1 = random_ss(r, 3); Proof p; F2 A0 = gen_model(c, w0, r, c0), A1 = gen_model(c, w1, r, c1); p.E0 = enc(A0); p.E1 = enc(A1);
    Resp q; q.tag = tag; F2 start = tag == -1 ? A0 : tag == 1 ? A1 : f0(); if (tag == 0) { bool c2; W w2 = random_ss(r); start = gen_model(c, w2, r, c2); q.E2 = enc(start); }
    Chain ch; if (flaw == VIA) { ch = via_chain(c, ll, n, std::max(1, k), start, r); (tag == -1 ? p.E0 : tag == 1 ? p.E1 : q.E2) = enc(start); if (tag == -1) A0 = start; else if (tag == 1) A1 = start; } else ch = flawed_chain(c, start, ll, n, flaw, k, r, true);
    q.x = ch.x; p.resp = {q}; F2 j; Verdict cv = memo().chain(enc(start), q.x, ll, j, r); if (cv == AMBIGUOUS) { c.label("ambiguous (skipped)"); return; } if (flaw == NONE) CHECK(cv == OK, "reference: own honest chain is %s", vname(cv));
    F2 end = j_inv(ch.end), j0 = j_inv(from_mont(A0)), j1 = j_inv(from_mont(A1)); Resp &x = p.resp[0]; bool fits = false; bool miss = cv == OK && c.coin(1, 8);
    for (int z = 0; z < 100 && !fits; z++) { free_values(x, r); Bytes h2, h3; if (tag == -1) { h2 = commit(x.r2, end); h3 = x.h3; } else if (tag == 0) { h2 = commit(x.r2, j_inv(from_mont(start))); h3 = commit(x.r3, end); } else { h2 = x.h2; h3 = commit(x.r3, end); } fits = (challenge(j0, j1, {{h2, h3}})[0] == tag) != miss; }
    Verdict rv = ref_verify(p, r); if (rv == AMBIGUOUS) { c.label("ambiguous (skipped)"); return; } c.nontrivial = true; c.label(std::string(tag ? "3-chain " : "2-chain ") + fname[flaw]); c.label(rv == OK ? "satisfies the protocol" : "does not satisfy the protocol"); c.note("%s chain, %s at step %d: %s", tag == -1 ? "left" : tag ? "right" : "bottom", fname[flaw], k, vname(rv));
    std::string s = proof_text(p); Run u = run(s, 1, r.next() >> 1); if (no_statement(c, u)) return; char what[128]; snprintf(what, sizeof what, "%s chain, flaw %s at step %d of %d", tag == -1 ? "left" : tag ? "right" : "bottom", fname[flaw], k, n); want(c, u, rv == OK, p, what, vname(rv));
    pbt::entropy(r.next()); pbt::ENT.threaded = true; int v = l.verify(s); c.evals++; CHECK((v == 1) == (u.code == 0), "the two verifiers disagree (%s): C says %d, Sage exits with %d", what, v, u.code);
}

// published number of repetitions, with the script's own parameters (the chains of one instance, fresh hiding values in every repetition)
PROPERTY(sage_full, 900) {
    Rng r = c.fork(); size_t n = (size_t) G()->reps; Base &b = base((int) c.below(3)); Instance v0 = b.inst[c.below(b.inst.size())]; std::vector<Instance> vs; for (size_t i = 0; i < n; i++) { Instance v = v0; rehide(v, r); vs.push_back(v); } std::vector<int> tags; Proof p = assemble(vs, &tags); int kind = (int) c.strat(3); std::string what = "valid";
    if (kind == 1) { size_t i = c.coin() ? n - 1 - c.below(3) : c.below(n); what = "one hiding value altered"; Resp &x = p.resp[i]; (x.tag == 1 ? x.r3 : x.r2)[c.below(G()->hide_bytes)] ^= 1 << c.below(8); }
    if (kind == 2) { what = "one repetition fewer"; vs.pop_back(); p = assemble(vs, &tags); }
    bool good = kind == 0; if (kind == 1) { Verdict rv = ref_verify(p, r); CHECK(rv == BAD_CHALLENGE, "reference: %s", vname(rv)); }
    c.nontrivial = true; c.label(what); c.note("%s, %zu repetitions", what.c_str(), p.resp.size()); Run u = run(proof_text(p), 0, r.next() >> 1); if (no_statement(c, u)) return; want(c, u, good, p, what, "full length");
}
