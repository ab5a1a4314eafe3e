// C08: the command-line tools as processes: exit status and standard output for generated inputs and output faults.
#include "poikh.hpp"
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <errno.h>
using namespace poikh; using pbt::Case;
struct Run { int code = -1; int sig = 0; std::string out; };
enum Sink { PIPE, LIMIT, FULL, CLOSED, EPIPE_, SIGPIPE_, FILEOUT, LATE_CLOSE, NONBLOCK, STREAM, NSINK };
static const char *sname[] = {"pipe", "file size limit", "full device", "closed descriptor", "closed pipe (signal ignored)", "closed pipe", "file", "reader leaves early", "non-blocking pipe", "one write of the stream fails"};
static std::string scratch(const char *n) { return pbt::opt("scratch") + "/" + n; }
static void put_file(const std::string &p, const std::string &s) { FILE *f = fopen(p.c_str(), "wb"); if (!f) exit(3); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static std::string get_file(const std::string &p) { FILE *f = fopen(p.c_str(), "rb"); std::string s; if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
// in_mode: 0 file, 1 pipe in small pieces, 2 closed, 3 directory;  err_mode: 0 null, 1 full device, 2 closed
static Run run(const std::string &exe, std::vector<std::string> args, const std::string &in, Sink sink = PIPE, long limit = 0, int in_mode = 0, int err_mode = 0, int mode = 0) {
    std::string fi = scratch("in"), fo = scratch("out"); put_file(fi, in); unlink(fo.c_str()); int po[2] = {-1, -1}, pi[2] = {-1, -1};
    if (sink == PIPE || sink == EPIPE_ || sink == SIGPIPE_ || sink == LATE_CLOSE || sink == NONBLOCK) if (pipe(po)) exit(3); if (in_mode == 1 && pipe(pi)) exit(3);
    if (sink == NONBLOCK) { fcntl(po[1], F_SETFL, fcntl(po[1], F_GETFL) | O_NONBLOCK); fcntl(po[1], F_SETPIPE_SZ, 4096); }
    fflush(stdout); pid_t pid = fork(); if (pid < 0) exit(3);
    if (!pid) {
        signal(SIGALRM, SIG_DFL); pbt::cpu_limit(200);
        if (in_mode == 1) { dup2(pi[0], 0); close(pi[0]); close(pi[1]); } else if (in_mode == 2) close(0); else { int d = open(in_mode == 3 ? pbt::opt("scratch").c_str() : fi.c_str(), O_RDONLY); dup2(d, 0); close(d); }
        signal(SIGPIPE, sink == SIGPIPE_ ? SIG_DFL : SIG_IGN);
        if (po[1] >= 0) { dup2(po[1], 1); close(po[0]); close(po[1]); } else if (sink == CLOSED) close(1); else if (sink == FULL) { int d = open("/dev/full", O_WRONLY); dup2(d, 1); close(d); } else { int d = open(fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(d, 1); close(d); if (sink == LIMIT) { signal(SIGXFSZ, SIG_IGN); struct rlimit rl = {(rlim_t) limit, (rlim_t) limit}; setrlimit(RLIMIT_FSIZE, &rl); } }
        if (err_mode == 2) close(2); else { int d = open(err_mode ? "/dev/full" : "/dev/null", O_WRONLY); dup2(d, 2); if (d != 2) close(d); }
        for (int d = 3; d < 64; d++) close(d);
        if (sink == STREAM) setenv("VG_OUT", (std::to_string(limit) + "," + std::to_string(mode / 2) + "," + std::to_string(mode & 1)).c_str(), 1);
        std::vector<char *> av; av.push_back((char *) exe.c_str()); for (auto &a : args) av.push_back((char *) a.c_str()); av.push_back(nullptr); execv(exe.c_str(), av.data()); _exit(125); }
    if (po[1] >= 0) close(po[1]); if (pi[0] >= 0) close(pi[0]); Run r;
    if (sink == EPIPE_ || sink == SIGPIPE_) { close(po[0]); po[0] = -1; }
    if (in_mode == 1) { signal(SIGPIPE, SIG_IGN); size_t k = 0; while (k < in.size()) { size_t n = std::min<size_t>(in.size() - k, 37 + (k * 7919) % 3001); ssize_t w = write(pi[1], in.data() + k, n); if (w <= 0) break; k += w; } close(pi[1]); }
    if (sink == NONBLOCK) { for (int k = 0; k < 20000; k++) { int n = 0; ioctl(po[0], FIONREAD, &n); struct pollfd pf = {po[0], 0, 0}; poll(&pf, 1, 0); if (n >= 4096 || (pf.revents & POLLHUP)) break; usleep(1000); } usleep((useconds_t) limit); }     // the pipe is full for a moment, then drained
    if (po[0] >= 0) { char b[4096]; ssize_t n; while ((n = read(po[0], b, sink == LATE_CLOSE ? (size_t) std::max(1L, std::min(4096L, limit - (long) r.out.size())) : sizeof b)) > 0) { r.out.append(b, n); if (sink == LATE_CLOSE && (long) r.out.size() >= limit) break; } close(po[0]); }
    int st; while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) exit(3);
    if (WIFEXITED(st)) r.code = WEXITSTATUS(st); else r.sig = WTERMSIG(st); CHECK(r.sig != SIGPROF, "tool does not end"); if (r.code == 125) { fprintf(stderr, "exec failed\n"); exit(3); }
    if (sink == LIMIT || sink == FILEOUT || sink == STREAM) r.out = get_file(fo); return r; }
static bool ok(const Run &r) { return r.code == 0 && !r.sig; }
static size_t REPS() { return (size_t) atoi(pbt::opt("reps").c_str()); }
static void want_fail(const Run &r, const char *what) { CHECK(!ok(r), "%s: tool reports success", what); CHECK(r.out.empty(), "%s: tool writes %zu bytes on standard output", what, r.out.size()); }
static std::string spaced(Case &c, const std::string &s) { std::string o; for (char ch : s) { if (ch == '\n') { int m = (int) c.range(1, 2); for (int q = 0; q < m; q++) o += " \n\t\r"[c.below(4)]; } else o += ch; } return o; }

PROPERTY(cli_verify, 120) {
    Rng r = c.fork(); size_t n = REPS(); std::vector<Instance> vs = make_vs(c, base((int) c.below(3)), n, r); std::vector<int> tags; Proof p = assemble(vs, &tags); std::string exe = pbt::opt("verify"), t = proof_text(p), good = el_text(p.E0) + el_text(p.E1);
    int kind = (int) c.strat(13); int im = (int) c.below(2); int em = (int) c.below(3); std::string what; c.nontrivial = true; auto bit = [&](Bytes &f) { size_t k = c.below(f.size() * 8); f[k / 8] ^= 1 << (k % 8); };
    Proof q = p; size_t i = c.below(n); Resp &x = q.resp[i]; std::string s; int expect = -1;      // -1: reference decides, 0: must be refused
    switch (kind) {
    case 0: case 1: what = "valid"; s = t; break;
    case 2: what = "valid, other whitespace and case"; s = spaced(c, t); for (char &ch : s) if (ch >= 'a' && ch <= 'f' && c.coin()) ch -= 32; break;
    case 3: what = "hiding value altered"; bit(x.tag == 1 ? x.r3 : x.r2); s = proof_text(q); break;
    case 4: { what = "tag altered"; int g = tags[i] == 1 ? -1 : tags[i] + 1; x = respond(vs[i], g); s = proof_text(q); break; }
    case 5: what = "curve in another model"; if (c.coin()) q.E0 = enc(random_model(from_mont(dec(q.E0)), r)); else q.E1 = enc(random_model(from_mont(dec(q.E1)), r)); s = proof_text(q); break;
    case 6: what = "curve invalid"; (c.coin() ? q.E0 : q.E1) = enc(c.coin() ? frand2(r) : fui(2)); s = proof_text(q); expect = 0; break;
    case 7: what = "kernel altered"; bit(x.x[c.below(x.x.size())]); s = proof_text(q); break;
    case 8: what = "truncated"; s = t.substr(0, c.coin() ? c.below(t.size() - 1) : t.size() - 2 - c.below(40)); expect = 0; break;
    case 9: what = "empty or junk"; { int m = (int) c.below(4); if (m == 1) s = "\n\n"; else if (m == 2) { s.resize(c.below(5000)); r.fill((uint8_t *) &s[0], s.size()); } else if (m == 3) s = el_text(p.E0) + el_text(p.E1); } expect = 0; break;
    case 10: what = "unreadable digit"; { s = t; size_t k; do k = c.below(s.size()); while (!isxdigit((unsigned char) s[k]) && c.pos < 4000); s[k] = 'g'; expect = 0; } break;
    case 11: what = "input missing"; im = 2 + (int) c.below(2); s = ""; expect = 0; break;
    default: what = "trailing text"; s = t + (c.coin() ? "\n \n" : "extra\n"); break;
    }
    Verdict rv = OK; if (expect < 0 && kind != 12) { rv = ref_verify(q, r); if (rv == AMBIGUOUS) return; }
    c.label(what); c.note("%s (rep %zu tag %d), input mode %d, stderr mode %d", what.c_str(), i, tags[i], im, em);
    Run u = run(exe, {}, s, c.coin(1, 3) ? FILEOUT : PIPE, 0, im, em);
    if (kind == 12) { if (ok(u)) CHECK(u.out == good, "verifier output is not the two curves (trailing text)"); else CHECK(u.out.empty(), "verifier output on failure"); return; }
    if (expect == 0 || rv != OK) want_fail(u, what.c_str());
    else { CHECK(ok(u), "verifier exits with %d/signal %d on a valid proof (%s)", u.code, u.sig, what.c_str()); CHECK(u.out == el_text(q.E0) + el_text(q.E1), "verifier output is not exactly the two curves of the proof (%s): %zu bytes", what.c_str(), u.out.size()); }
}
static void check_proof(const std::string &out, const F2 &start, Rng &r, const char *what) { Proof p; CHECK(parse_proof(out, REPS(), p), "prover exits 0 but its output (%zu bytes) is not a complete proof (%s)", out.size(), what); CHECK(p.E0 == enc(canonical(from_mont(start), r).A), "prover did not use the given curve (%s)", what); Verdict v = ref_verify(p, r); CHECK(v == OK || v == AMBIGUOUS, "prover exits 0 but its proof is invalid: %s (%s)", vname(v), what); }
PROPERTY(cli_prove, 240) {
    Rng r = c.fork(); std::string exe = pbt::opt("prove"); int kind = (int) c.strat(9); int im = (int) c.below(2), em = (int) c.below(3); std::string s, what; F2 A = f0(); std::vector<std::string> args; bool good = true; c.nontrivial = true;
    switch (kind) {
    case 0: case 1: case 2: { std::string k; A = gen_valid_curve(c, k); what = "curve " + k; s = el_text(enc(A)); if (c.coin()) s = spaced(c, s); if (c.coin(1, 4)) for (char &ch : s) if (ch >= 'a' && ch <= 'f') ch -= 32; break; }
    case 3: what = "--initial"; args = {"--initial"}; { int m = (int) c.below(4); s = m == 0 ? "" : m == 1 ? "junk" : m == 2 ? el_text(enc(fui(6))) : el_text(enc(frand2(r))); if (c.coin(1, 3)) im = 2; } break;
    case 4: { what = "invalid curve"; int m = (int) c.below(4); A = m == 0 ? fui(2) : m == 1 ? -fui(2) : m == 2 ? frand2(r) : mk(fp_rand(r), fp0()); good = valid_curve(A, r); s = el_text(enc(A)); break; }
    case 5: { what = "truncated curve"; s = el_text(enc(canonical(random_ss(r, 3), r).A)); s.resize(s.size() - 2 - c.below(s.size() - 2)); good = false; break; }
    case 6: { what = "malformed curve"; s = el_text(enc(canonical(random_ss(r, 3), r).A)); size_t k = c.below(s.size() - 1); s[k] = "gz.-"[c.below(4)]; good = false; break; }
    case 7: what = "missing curve"; im = (int) c.range(0, 3); s = im < 2 && c.coin() ? "\n" : ""; good = false; break;
    default: { what = "second of two curves ignored"; std::string k; A = gen_valid_curve(c, k); s = el_text(enc(A)) + el_text(enc(fui(6))); break; }
    }
    c.label(what); c.note("%s, input mode %d, stderr mode %d", what.c_str(), im, em); Run u = run(exe, args, s, c.coin(1, 3) ? FILEOUT : PIPE, 0, im, em);
    if (!good) want_fail(u, what.c_str()); else { CHECK(ok(u), "prover exits with %d/signal %d (%s)", u.code, u.sig, what.c_str()); check_proof(u.out, A, r, what.c_str()); c.evals++;
        Run v = run(pbt::opt("verify"), {}, u.out); Proof p; parse_proof(u.out, REPS(), p); CHECK(ok(v) && v.out == el_text(p.E0) + el_text(p.E1), "verifier tool (exit %d) does not accept the prover tool's output", v.code); }
}
// output cannot be written completely
PROPERTY(cli_fault, 240) {
    Rng r = c.fork(); bool prove = c.strat(2) == 1; Sink sk = (Sink) (1 + c.strat(NSINK - 1, 2)); std::string in, exe = pbt::opt(prove ? "prove" : "verify"); std::vector<std::string> args; F2 A = f0(); Proof p; size_t total, minlen; c.nontrivial = true;
    size_t el = el_text(Bytes(2 * G()->nb)).size(); size_t rep3 = 2 + 2 * G()->hide_bytes + 1 + 2 * G()->hash_bytes + 1 + HEIGHT * el, rep2 = 2 + 2 * (2 * G()->hide_bytes + 1) + (WIDTH + 1) * el;
    if (prove) { if (c.coin()) args = {"--initial"}; else { std::string k; A = gen_valid_curve(c, k); in = el_text(enc(A)); } minlen = 2 * el + REPS() * std::min(rep2, rep3); total = 2 * el + REPS() * rep3; }
    else { std::vector<Instance> vs = make_vs(c, base((int) c.below(3)), REPS(), r); p = assemble(vs); in = proof_text(p); minlen = total = 2 * el; }
    long lim = 0; if (sk == LIMIT || sk == LATE_CLOSE) { int m = (int) c.below(6); long hi = (long) (minlen - 1); lim = m == 0 ? hi : m == 1 ? 0 : m == 2 ? hi - (long) c.below(60) : m == 3 ? (long) (4096 * (1 + c.below(3))) : (long) c.below(hi + 1); if (lim > hi) lim = hi; if (lim < 1 && sk == LATE_CLOSE) lim = 1; } if (sk == NONBLOCK) lim = (long) c.below(3000); int mode = 0; if (sk == STREAM) { int m = (int) c.below(6); mode = m == 0 ? 0 : m == 1 ? 1 : m == 2 ? 16 + (int) c.below(500) : 2; size_t calls = mode == 2 ? total / 2 : mode == 1 ? total / el : mode > 2 ? total / mode + 1 : 2; bool sep = mode == 2 && c.coin(2, 3); if (sep) calls = total / 40; lim = (long) (c.coin() ? c.below(8) : c.below(calls + 1)); if (!prove && !sep && c.coin()) lim = (long) c.below(3); mode = 2 * mode + sep; }
    c.label(std::string(prove ? "prove: " : "verify: ") + sname[sk]); c.note("%s, %s, limit %ld of %zu, mode %d", prove ? "prove" : "verify", sname[sk], lim, total, mode);
    Run u = run(exe, args, in, sk, lim, 0, 0, mode);
    auto complete = [&] { if (prove) check_proof(u.out, A, r, sname[sk]); else CHECK(u.out == el_text(p.E0) + el_text(p.E1), "verifier exits 0 with incomplete output (%zu bytes, %s)", u.out.size(), sname[sk]); };
    if (sk == FILEOUT) { CHECK(ok(u), "tool fails on a good file"); complete(); }
    else if (sk == STREAM) { for (int t = 0;; t++) { if (ok(u)) complete(); else c.label("stream: failure reported"); c.evals++; if (t >= (prove ? 2 : 5)) break; lim = (long) c.below((size_t) lim + 8); u = run(exe, args, in, sk, lim, 0, 0, mode); } }
    else if (sk == NONBLOCK) { if (ok(u)) complete(); else c.label("non-blocking pipe: failure reported"); }
    else if (sk == LATE_CLOSE) { if (ok(u)) c.label("reader left, everything fitted the pipe"); }      // data handed to the pipe counts as written
    else CHECK(!ok(u), "%s exits 0 although its output could not be written (%s, limit %ld of at least %zu bytes)", prove ? "prover" : "verifier", sname[sk], lim, minlen);
}
