// C15: SHAKE128/SHAKE256 against an independent Keccak for generated lengths, contents, alignments and block splits.
#include "pbt.hpp"
#include <sys/mman.h>
#include <sys/syscall.h>
using namespace ref; using pbt::Case;
typedef unsigned long long ull;
struct H { void (*one)(unsigned char *, ull, const unsigned char *, ull); void (*absorb)(uint64_t *, const unsigned char *, unsigned); void (*squeeze)(unsigned char *, ull, uint64_t *); int rate; const char *name; };
static H &get(int k) { static H h[2]; static bool init = false; if (!init) { init = true; void *l = pbt::load("lib"); for (int i = 0; i < 2; i++) { std::string n = i ? "shake256" : "shake128"; h[i].one = pbt::sym<decltype(h[i].one)>(l, n); h[i].absorb = pbt::sym<decltype(h[i].absorb)>(l, n + "_absorb"); h[i].squeeze = pbt::sym<decltype(h[i].squeeze)>(l, n + "_squeezeblocks"); h[i].rate = i ? 136 : 168; h[i].name = i ? "shake256" : "shake128"; if (!h[i].one) { fprintf(stderr, "no %s\n", n.c_str()); exit(3); } } } return h[k]; }
static size_t pick_len(Case &c, int rate, size_t big) {
    switch (c.below(6)) { case 0: return c.below(40); case 1: return c.below(3 * rate + 2); case 2: { size_t m = c.below(6) * rate; long d = c.range(-9, 9); return (long) m + d < 0 ? 0 : m + d; }
    case 3: { static const size_t e[] = {7, 8, 9, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 4097}; return e[c.below(sizeof e / sizeof *e)]; } case 4: { static const size_t e[] = {65535, 65536, 65537, 65536 + 136, 131072 + 5}; return c.coin(1, 4) ? std::min(big, e[c.below(5)] + c.below(200)) : c.below(1500); } default: return c.below(big); } }
static Bytes content(Case &c, size_t n) { Bytes b(n); switch (c.below(4)) { case 0: { uint8_t v = (uint8_t) c.below(256); std::fill(b.begin(), b.end(), v); break; } case 1: for (size_t i = 0; i < n; i++) b[i] = (uint8_t) i; break; default: { Rng r = c.fork(); r.fill(b.data(), n); if (c.coin(1, 3) && n) { b[n - 1] = c.coin() ? 0 : 0x80; } } } return b; }
PROPERTY(shake_oneshot, 60) {
    H &h = get((int) c.strat(2)); size_t n = pick_len(c, h.rate, 9000), m = pick_len(c, h.rate, 3000); Bytes in = content(c, n); size_t ai = c.below(9), ao = c.below(9), G = 256;
    Bytes ib(n + 16, 0x77); std::copy(in.begin(), in.end(), ib.begin() + ai); Bytes ib0 = ib; Bytes ob(m + 2 * G + 16, 0xa7); h.one(&ob[G + ao], m, &ib[ai], n); Bytes want = shake(h.rate, in, m);
    CHECK(std::equal(want.begin(), want.end(), ob.begin() + G + ao), "%s of %zu bytes, %zu bytes of output: differs from the standard", h.name, n, m); CHECK(ib == ib0, "%s modifies its input (%zu bytes)", h.name, n);
    for (size_t i = 0; i < ob.size(); i++) if ((i < G + ao || i >= G + ao + m) && ob[i] != 0xa7) pbt::fail("%s writes outside its %zu byte output (offset %ld)", h.name, m, (long) i - (long) (G + ao));
    Bytes again(m + 1), in1 = in; in1.push_back(0); h.one(again.data(), m, in1.data(), n); again.pop_back(); CHECK(again == want, "%s gives a different result when called again", h.name);
    c.label(n % h.rate == 0 ? "input at a block boundary" : n % h.rate == (size_t) h.rate - 1 ? "input one short of a boundary" : n < (size_t) h.rate ? "short input" : "long input"); c.label(m % h.rate == 0 ? "whole-block output" : "partial-block output"); c.nontrivial = m > 0; c.note("%s in %zu out %zu", h.name, n, m);
}
PROPERTY(shake_blocks, 60) {
    H &h = get((int) c.strat(2)); if (!h.absorb || !h.squeeze) { c.label("no incremental interface exported"); return; } size_t n = pick_len(c, h.rate, 5000); Bytes in = content(c, n), in0 = in; uint64_t s[27]; memset(s, 0, sizeof s); s[25] = s[26] = 0x1234567890abcdefull; in.push_back(0); h.absorb(s, in.data(), (unsigned) n); in.pop_back(); CHECK(in == in0, "%s_absorb modifies its input", h.name);
    int parts = (int) c.range(1, 6); size_t total = 0; Bytes got; std::string sp; for (int k = 0; k < parts; k++) { size_t nb = c.coin(1, 6) ? 0 : c.coin(1, 8) ? (size_t) c.range(5, 40) : (size_t) c.range(1, 4); Bytes o(nb * h.rate + 128, 0x3b); size_t al = c.below(8); h.squeeze(&o[64 - 8 + al], nb, s); size_t st = 56 + al;
        for (size_t i = 0; i < o.size(); i++) if ((i < st || i >= st + nb * h.rate) && o[i] != 0x3b) pbt::fail("%s_squeezeblocks(%zu) writes outside its output", h.name, nb); got.insert(got.end(), o.begin() + st, o.begin() + st + nb * h.rate); total += nb; sp += std::to_string(nb) + " "; }
    CHECK(s[25] == 0x1234567890abcdefull && s[26] == s[25], "%s writes behind the 25-word state", h.name); Bytes want = shake(h.rate, in, total * h.rate); CHECK(got == want, "%s block stream for a %zu byte input, split as %s, differs from the standard", h.name, n, sp.c_str()); c.nontrivial = total > 0; c.label(parts > 1 ? "several requests" : "one request"); c.note("%s in %zu blocks %s", h.name, n, sp.c_str());
}
// every input length and every output length in a window (complete for the window)
PROPERTY(shake_every, 120) {
    int k = (int) c.strat(2); H &h = get(k); int base = (int) c.strat(8, 2) * 80; Rng r = c.fork(); Bytes in(1000); r.fill(in.data(), in.size()); int cnt = 0;
    for (int n = base; n < base + 80; n++) { Bytes x(in.begin(), in.begin() + n), o(300, 1); size_t m = 1 + r.below(200); h.one(o.data(), m, in.data(), n); CHECK(std::equal(o.begin(), o.begin() + m, shake(h.rate, x, m).begin()), "%s of %d bytes differs from the standard", h.name, n); CHECK(o[m] == 1, "%s writes more than %zu bytes", h.name, m); cnt++; }
    Bytes x(in.begin(), in.begin() + 1 + r.below(300)); for (int m = base; m < base + 80; m++) { Bytes o(m + 1, 0x5d); h.one(o.data(), m, x.data(), x.size()); Bytes w = shake(h.rate, x, m); CHECK(std::equal(w.begin(), w.end(), o.begin()), "%s: %d bytes of output differ from the standard", h.name, m); CHECK(o[m] == 0x5d, "%s writes more than %d bytes", h.name, m); cnt++; }
    c.evals = cnt; c.nontrivial = true; c.label(h.name); c.note("%s, every length %d..%d as input and output", h.name, base, base + 79);
}
// lengths beyond 2^32: the buffers are a small file mapped again and again
static unsigned char *ring(size_t total, size_t page, int &fd) { fd = (int) syscall(SYS_memfd_create, "ring", 0); if (fd < 0 || ftruncate(fd, page)) exit(3); unsigned char *b = (unsigned char *) mmap(0, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) exit(3); for (size_t o = 0; o < total; o += page) if (mmap(b + o, std::min(page, total - o), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) exit(3); return b; }
PROPERTY(shake_huge, 400) {
    int k = (int) c.strat(2); H &h = get(k); bool out = c.strat(2, 2); const size_t page = 1 << 24; ull n = (1ull << 32) + (ull) c.below(3 * h.rate); size_t total = ((n + 4095) / 4096 + 1) * 4096; int fd; unsigned char *b = ring(total, page, fd); uint64_t s[25] = {0};
    Rng r = c.fork(); r.fill(b, page);
    if (!out) { Bytes o(100), w(100); h.one(o.data(), 100, b, n); ull left = n, pos = 0; uint8_t blk[200]; while (left >= (ull) h.rate) { size_t q = pos % page; const uint8_t *p; if (q + h.rate <= page) p = b + q; else { memcpy(blk, b + q, page - q); memcpy(blk + (page - q), b, h.rate - (page - q)); p = blk; } for (int i = 0; i < h.rate / 8; i++) { uint64_t v; memcpy(&v, p + 8 * i, 8); s[i] ^= v; } keccakf(s); pos += h.rate; left -= h.rate; }
        memset(blk, 0, 200); for (ull i = 0; i < left; i++) blk[i] = b[(pos + i) % page]; blk[left] ^= 0x1f; blk[h.rate - 1] ^= 0x80; for (int i = 0; i < h.rate / 8; i++) { uint64_t v; memcpy(&v, blk + 8 * i, 8); s[i] ^= v; } keccakf(s); memcpy(w.data(), s, 100); CHECK(o == w, "%s of %llu bytes differs from the standard", h.name, n); }
    else { Bytes in(50); r.fill(in.data(), 50); Bytes blk(h.rate, 0); std::copy(in.begin(), in.end(), blk.begin()); blk[50] ^= 0x1f; blk[h.rate - 1] ^= 0x80; for (int i = 0; i < h.rate / 8; i++) { uint64_t v; memcpy(&v, &blk[8 * i], 8); s[i] ^= v; } std::vector<uint8_t> w(page); memcpy(w.data(), b, page); h.one(b, n, in.data(), 50);
        ull left = n, pos = 0; while (left) { keccakf(s); size_t m = left < (ull) h.rate ? (size_t) left : h.rate, q = pos % page; if (q + m <= page) memcpy(&w[q], s, m); else { memcpy(&w[q], s, page - q); memcpy(&w[0], (uint8_t *) s + (page - q), m - (page - q)); } pos += m; left -= m; } CHECK(!memcmp(w.data(), b, page), "%s: %llu bytes of output differ from the standard", h.name, n); }
    munmap(b, total); close(fd); c.nontrivial = true; c.label(std::string(h.name) + (out ? " output beyond 2^32 bytes" : " input beyond 2^32 bytes")); c.note("%s %s of %llu bytes", h.name, out ? "output" : "input", n);
}
