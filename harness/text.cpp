// C07: proof text. Built with address/undefined-behaviour sanitizers.
#include "poikh.hpp"
#include <errno.h>
#include <ctype.h>
using namespace poikh; using pbt::Case;
static Lib &LIB() { static Lib l("lib"); return l; }
static Bytes rb(Rng &r, size_t n, int style) { Bytes b(n); r.fill(b.data(), n); if (style == 1) for (auto &x : b) x = 0; if (style == 2) for (auto &x : b) x = 0xff; if (style == 3) for (auto &x : b) x &= 0x0f; if (style == 4) for (size_t i = 0; i < n; i++) b[i] = i % 2 ? 0 : b[i]; return b; }
static Proof random_proof(Case &c, size_t reps, Rng &r) {
    Proof p; size_t e = 2 * G()->nb; auto st = [&] { return (int) c.below(6); }; p.E0 = rb(r, e, st()); p.E1 = rb(r, e, st());
    for (size_t i = 0; i < reps; i++) { Resp q; q.tag = (int) c.below(3) - 1; int k = st(); if (q.tag == -1) { q.r2 = rb(r, G()->hide_bytes, k); q.h3 = rb(r, G()->hash_bytes, k); } else if (q.tag == 0) { q.r2 = rb(r, G()->hide_bytes, k); q.r3 = rb(r, G()->hide_bytes, st()); q.E2 = rb(r, e, k); } else { q.h2 = rb(r, G()->hash_bytes, k); q.r3 = rb(r, G()->hide_bytes, k); }
        q.x.resize(q.tag ? HEIGHT : WIDTH); for (auto &x : q.x) x = rb(r, e, st()); p.resp.push_back(q); }
    return p; }
static void put(Lib &l, Lib::Buf &b, const Proof &p) {
    l.put(b.p, -1, 0, 0, 0, p.E0.data()); l.put(b.p, -2, 0, 0, 0, p.E1.data());
    for (size_t i = 0; i < p.resp.size(); i++) { auto &q = p.resp[i]; if (q.tag == -1) { l.put(b.p, i, -1, 0, 0, q.r2.data()); l.put(b.p, i, -1, 1, 0, q.h3.data()); } else if (q.tag == 0) { l.put(b.p, i, 0, 0, 0, q.r2.data()); l.put(b.p, i, 0, 1, 0, q.r3.data()); l.put(b.p, i, 0, 3, 0, q.E2.data()); } else { l.put(b.p, i, 1, 0, 0, q.h2.data()); l.put(b.p, i, 1, 1, 0, q.r3.data()); } for (size_t k = 0; k < q.x.size(); k++) l.put(b.p, i, q.tag, 2, k, q.x[k].data()); }
}
PROPERTY(text_roundtrip, 120) {
    Lib &l = LIB(); Rng r = c.fork(); Proof p = random_proof(c, l.reps, r); Lib::Buf b(l.szp), d(l.szp); put(l, b, p); std::string t = l.dump(b.p), want = proof_text(p);
    CHECK(t == want, "written text differs from the documented layout at byte %zu: ...%s", (size_t) (std::mismatch(t.begin(), t.begin() + std::min(t.size(), want.size()), want.begin()).first - t.begin()), t.substr(0, 40).c_str());
    memset(d.p, 0xa5, l.szp); CHECK(l.parse(t, d), "own output is not readable"); CHECK(l.cmp(b.p, d.p) == 0, "reading back gives a different proof (field kind %d)", l.cmp(b.p, d.p)); CHECK(l.dump(d.p) == t, "text changes on the second round trip");
    // single elements
    Bytes e = p.E0; char *m = nullptr; size_t n = 0; FILE *f = open_memstream(&m, &n); bool ok = l.Dump_Fp2(f, e.data()); fclose(f); std::string et(m, n); free(m); CHECK(ok && et == el_text(e), "single element text is wrong"); Bytes e2(e.size(), 0x77); f = fmemopen((void *) et.data(), et.size(), "r"); ok = l.Parse_Fp2(f, e2.data()); fclose(f); CHECK(ok && e2 == e, "single element does not round-trip");
    c.nontrivial = true; std::string tg; for (auto &q : p.resp) tg += std::to_string(q.tag) + " "; c.note("tags %s", tg.c_str()); c.evals = 3;
}
// reference grammar. 0: must be refused, 1: must be read as p, 2: unspecified (no separator, odd tag spelling, trailing junk)
static int grammar(const std::string &t, size_t reps, Proof &p) {
    size_t i = 0; bool odd = false; auto ws = [&]() -> size_t { size_t k = i; while (i < t.size() && (t[i] == ' ' || (t[i] >= 9 && t[i] <= 13))) i++; return i - k; };
    auto hexn = [&](size_t n, Bytes &o) { if (i + 2 * n > t.size() || !parse_hex(t.substr(i, 2 * n), n, o)) return false; i += 2 * n; return true; };
    bool first = true; auto sep = [&] { if (!ws() && !first) odd = true; first = false; };
    auto el = [&](Bytes &o) { sep(); Bytes a, b; size_t n = G()->nb; if (t.compare(i, 2, "0x")) return false; i += 2; if (!hexn(n, a)) return false; ws(); if (i >= t.size() || t[i] != ',') return false; i++; ws(); if (t.compare(i, 2, "0x")) return false; i += 2; if (!hexn(n, b)) return false; std::reverse(a.begin(), a.end()); std::reverse(b.begin(), b.end()); o = cat({a, b}); return true; };
    auto by = [&](Bytes &o, size_t n) { sep(); return hexn(n, o); };
    if (!el(p.E0) || !el(p.E1)) return 0; p.resp.assign(reps, Resp());
    for (auto &q : p.resp) { sep(); size_t k = i; if (i < t.size() && (t[i] == '-' || t[i] == '+')) i++; size_t dg = i; while (i < t.size() && isdigit((unsigned char) t[i])) i++; if (i == dg) return 0; std::string s = t.substr(k, i - k);
        bool glued = i < t.size() && !(t[i] == ' ' || (t[i] >= 9 && t[i] <= 13)); if (s != "-1" && s != "0" && s != "1") { if (glued || i == t.size()) return 2; std::string z = s.substr(dg - k); bool neg = s[0] == '-'; while (z.size() > 1 && z[0] == '0') z.erase(0, 1); if (z == "0" || z == "1") { odd = true; s = z == "0" ? "0" : neg ? "-1" : "1"; } else return 0; }
        if (glued) odd = true; q.tag = atoi(s.c_str());
        if (glued) return 2;
        size_t hi = G()->hide_bytes, ha = G()->hash_bytes; if (q.tag == -1) { if (!by(q.r2, hi) || !by(q.h3, ha)) return 0; } else if (q.tag == 0) { if (!by(q.r2, hi) || !by(q.r3, hi) || !el(q.E2)) return 0; } else if (!by(q.h2, ha) || !by(q.r3, hi)) return 0;
        q.x.assign(q.tag ? HEIGHT : WIDTH, Bytes()); for (auto &x : q.x) if (!el(x)) return 0; }
    ws(); if (i < t.size()) odd = true; return odd ? 2 : 1; }
static std::string strip(const std::string &s) { std::string o; for (unsigned char ch : s) if (!isspace(ch)) o += tolower(ch); return o; }
static void judge(Lib &l, const std::string &t, const char *what) {
    Proof p; int g = grammar(t, l.reps, p); Lib::Buf b(l.szp); memset(b.p, 0xa5, l.szp); bool ok = l.parse(t, b);
    if (g == 0) CHECK(!ok, "malformed text is read as a proof (%s)", what);
    if (g == 1) { CHECK(ok, "well-formed text is refused (%s)", what); CHECK(l.dump(b.p) == proof_text(p), "text is read as a different proof (%s)", what); }
    if (g == 2 && ok) { std::string d = strip(l.dump(b.p)), s = strip(t); bool plain = s.find('+') == std::string::npos; if (plain && s.size() >= d.size()) { /* odd tag spellings aside, what was read is what was written */ if (s.compare(0, d.size(), d) != 0) { size_t k = 0; while (k < d.size() && s[k] == d[k]) k++; CHECK(isdigit((unsigned char) s[k]) || s[k] == '-', "text read differs from text given (%s) at %zu", what, k); } } }
}
PROPERTY(text_mutate, 120) {
    Lib &l = LIB(); Rng r = c.fork(); Proof p = random_proof(c, l.reps, r); std::string t = proof_text(p); std::vector<size_t> nl; for (size_t i = 0; i < t.size(); i++) if (t[i] == '\n') nl.push_back(i);
    int n = (int) c.range(1, 6); c.nontrivial = true;
    for (int k = 0; k < n; k++) { std::string s = t, what; size_t pos = c.coin(1, 3) ? nl[c.below(nl.size())] + (size_t) c.below(4) : c.below(t.size()); if (pos >= s.size()) pos = s.size() - 1;
        auto line_start = [&](size_t q) { size_t b = s.rfind('\n', q ? q - 1 : 0); return b == std::string::npos ? 0 : b + 1; };
        std::vector<size_t> tagl; { size_t b = 0; for (size_t e : nl) { if (e - b <= 3) tagl.push_back(b); b = e + 1; } }
        switch (k ? c.below(16) : c.strat(16)) {
        case 0: what = "truncated"; s.resize(pos); break;
        case 1: what = "truncated near end"; s.resize(s.size() - 1 - c.below(std::min<size_t>(s.size() - 1, 40))); break;
        case 2: what = "digit replaced by non-digit"; s[pos] = "ghxX.-+ \n\tz:/@`G\x7f\x80\xff"[c.below(20)]; break;
        case 3: what = "character deleted"; s.erase(pos, 1 + c.below(3)); break;
        case 4: what = "character inserted"; s.insert(pos, 1, "0f, x\n-1g"[c.below(9)]); break;
        case 5: { static const char *tg[] = {"2", "-2", "3", "127", "128", "255", "256", "-256", "-257", "257", "65536", "4294967295", "4294967296", "4294967297", "-4294967295", "18446744073709551616", "9223372036854775807", "18446744073709551615", "", "a", "0x1", "1.0", "--1", "- 1", "-"}; what = "tag replaced"; size_t b = tagl[c.below(tagl.size())]; size_t e = s.find('\n', b); s.replace(b, e - b, tg[c.below(sizeof tg / sizeof *tg)]); break; }
        case 6: what = "line deleted"; { size_t b = line_start(pos), e = s.find('\n', pos); s.erase(b, (e == std::string::npos ? s.size() : e + 1) - b); } break;
        case 7: what = "line duplicated"; { size_t b = line_start(pos), e = s.find('\n', pos); if (e != std::string::npos) s.insert(b, s.substr(b, e + 1 - b)); } break;
        case 8: what = "whitespace changed"; { std::string o; for (char ch : s) { if (ch == '\n') { int m = (int) c.range(1, 3); for (int q = 0; q < m; q++) o += " \n\t\r\v\f"[c.below(6)]; } else if (ch == ',') { if (c.coin()) o += " \n"; o += ','; if (c.coin()) o += "\t "; } else o += ch; } s = (c.coin() ? " \n" : "") + o; } break;
        case 9: what = "upper case digits"; for (char &ch : s) if (ch >= 'a' && ch <= 'f' && c.coin()) ch -= 32; break;
        case 10: what = "prefix changed"; { size_t q = s.find("0x", pos); if (q == std::string::npos) q = s.find("0x"); int m = (int) c.below(5); if (m == 0) s.erase(q, 2); else if (m == 1) s[q] = '1'; else if (m == 2) s[q + 1] = '0'; else if (m == 3) s[q + 1] = 'X'; else s.erase(q, 1); } break;
        case 11: what = "comma changed"; { size_t q = s.find(',', pos); if (q == std::string::npos) q = s.find(','); int m = (int) c.below(4); if (m == 0) s.erase(q, 1); else if (m == 1) s[q] = ';'; else if (m == 2) s[q] = ' '; else s.insert(q, 1, ','); } break;
        case 12: what = "value lengthened or shortened"; { size_t q = s.find("0x", pos); if (q == std::string::npos) q = s.find("0x"); if (c.coin()) s.erase(q + 2, 2 * (1 + c.below(3))); else s.insert(q + 2, std::string(2 * (1 + c.below(3)), '0')); } break;
        case 13: what = "trailing junk"; { int m = (int) c.range(1, 40); for (int q = 0; q < m; q++) s += (char) c.below(256); } break;
        case 14: what = "NUL or binary byte"; s[pos] = (char) (c.coin() ? 0 : c.below(256)); break;
        default: what = "spliced"; { Proof p2 = random_proof(c, l.reps, r); std::string t2 = proof_text(p2); s = t.substr(0, pos) + t2.substr(std::min(t2.size(), (size_t) c.below(t2.size()))); } break;
        }
        c.label(what); c.note("%s at %zu", what.c_str(), pos); c.evals++; judge(l, s, what.c_str()); }
}
// every truncation point of a proof
PROPERTY(text_truncate, 300) {
    Lib &l = LIB(); Rng r = c.fork(); Proof p = random_proof(c, l.reps, r); std::string t = proof_text(p); size_t step = 1 + t.size() / 600, off = c.below(step); Lib::Buf b(l.szp);
    for (size_t n = off; n < t.size() - 1; n += step) { c.evals++; CHECK(!l.parse(t.substr(0, n), b), "text cut after %zu of %zu characters is accepted", n, t.size()); }
    for (size_t n = t.size() > 60 ? t.size() - 60 : 0; n < t.size() - 1; n++) { c.evals++; CHECK(!l.parse(t.substr(0, n), b), "text cut after %zu of %zu characters is accepted", n, t.size()); }
    CHECK(l.parse(t.substr(0, t.size() - 1), b), "text without final newline is refused"); c.nontrivial = true; c.note("%zu characters", t.size());
}
// arbitrary bytes, grammar tokens in random order
PROPERTY(text_random, 120) {
    Lib &l = LIB(); Rng r = c.fork(); std::string s; int n = (int) c.range(0, 60); Proof p = random_proof(c, l.reps, r); for (int k = 0; k < n; k++) switch (c.below(9)) { case 0: s += el_text(p.E0); break; case 1: s += hex(rb(r, G()->hide_bytes, 0)) + "\n"; break; case 2: s += std::to_string((int) c.range(-3, 3)) + "\n"; break; case 3: s += (char) c.below(256); break; case 4: s += " 0x"; break; case 5: s += ","; break; case 6: s += std::string((size_t) c.below(3000), (char) c.below(256)); break; case 7: s += hex(rb(r, G()->hash_bytes, 0)); break; default: s += "\n"; }
    if (c.coin()) s = el_text(p.E0) + el_text(p.E1) + s; judge(l, s, "random tokens"); c.nontrivial = s.size() > 0; c.note("%zu bytes", s.size());
    Bytes e2(2 * G()->nb + 16, 0x77); FILE *f = fmemopen((void *) s.data(), s.size() ? s.size() : 1, "r"); if (s.empty()) { fclose(f); f = fopen("/dev/null", "r"); } l.Parse_Fp2(f, e2.data()); fclose(f); for (int i = 0; i < 16; i++) CHECK(e2[2 * G()->nb + i] == 0x77, "element reader writes past its buffer");
}
// writer status: the sink fails at the k-th write, for good or once
struct Sink { std::string got; long left_ok; bool once; bool failed; long calls, fail_call; std::vector<long> sep; };
static ssize_t sink_write(void *ck, const char *b, size_t n) { Sink *s = (Sink *) ck; long k = s->calls++; bool bad = s->fail_call >= 0 ? (s->once ? k == s->fail_call : k >= s->fail_call) : (long) s->got.size() + (long) n > s->left_ok; if (bad) { s->failed = true; errno = ENOSPC; return 0; } if (n < 2 || b[n - 1] == '\n' || b[1] == 'x') s->sep.push_back(k); s->got.append(b, n); return n; }
PROPERTY(text_write_fault, 120) {
    Lib &l = LIB(); Rng r = c.fork(); Proof p = random_proof(c, l.reps, r); Lib::Buf b(l.szp); put(l, b, p); std::string want = proof_text(p);
    for (int t = 0; t < 24; t++) { Sink s{"", 0, c.coin(), false, 0, -1, {}}; int mode = t < 16 ? 0 : (int) c.below(3); static char buf[1 << 16]; size_t bs = 16u << c.below(9); cookie_io_functions_t io = {nullptr, sink_write, nullptr, nullptr};
        // number of writes without a fault
        Sink d{"", 0, true, false, 0, 1L << 40, {}}; for (int pass = 0; pass < 2; pass++) { Sink &q = pass ? s : d; if (pass) { s.fail_call = t % 2 && !d.sep.empty() ? d.sep[c.below(d.sep.size())] : (long) c.below(d.calls); } FILE *f = fopencookie(&q, "w", io); setvbuf(f, buf, mode == 0 ? _IONBF : mode == 1 ? _IOLBF : _IOFBF, mode ? bs : 0); bool ok = l.Dump(f, b.p); bool fl = fflush(f) == 0; fclose(f); c.evals++;
            if (!pass) CHECK(ok && fl && q.got == want, "writing to a good stream fails or is incomplete"); else CHECK(!(ok && fl) || q.got == want, "writer and flush report success although write %ld of %ld failed (%s, %s failure)", s.fail_call, d.calls, mode == 0 ? "unbuffered" : mode == 1 ? "line buffered" : "fully buffered", s.once ? "one-off" : "permanent"); }
        if (t == 0) c.note("%ld writes, failure at %ld", d.calls, s.fail_call); }
    c.nontrivial = true;
}
