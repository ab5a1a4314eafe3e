// access to the SIDH/SIKE libraries (plain and compressed) through their public functions
#pragma once
#include "pbt.hpp"
namespace sikeh {
using namespace ref;
struct Lib {
    void *h; bool comp; int sk, pk, ss, ct, ska, skb, spk, sss, msg;
    typedef int (*f1_)(unsigned char *); typedef int (*f2_)(const unsigned char *, unsigned char *); typedef int (*f3_)(const unsigned char *, const unsigned char *, unsigned char *);
    f1_ rA, rB; f2_ kA, kB; f3_ sA, sB; int (*kp)(unsigned char *, unsigned char *); int (*en)(unsigned char *, unsigned char *, const unsigned char *); int (*de)(unsigned char *, const unsigned char *, const unsigned char *);
    Lib(const char *opt, bool compressed) { comp = compressed; h = pbt::load(opt); if (!h) { fprintf(stderr, "missing library option %s\n", opt); exit(3); }
        std::string n = std::to_string(pbt::SIZE), e = "SIDHp" + n, c = comp ? "_Compressed" : "", k = "SIKEp" + n + (comp ? "_compressed" : "");
        auto g = [&](const std::string &s) { void *p = dlsym(h, s.c_str()); if (!p) { fprintf(stderr, "missing symbol %s\n", s.c_str()); exit(3); } return p; };
        auto i = [&](const char *s) { return ((int (*)()) g(s))(); }; sk = i("vg_sk"); pk = i("vg_pk"); ss = i("vg_ss"); ct = i("vg_ct"); ska = i("vg_ska"); skb = i("vg_skb"); spk = i("vg_spk"); sss = i("vg_sss"); msg = G()->msg_bytes;
        rA = (f1_) g("random_mod_order_A_" + e); rB = (f1_) g("random_mod_order_B_" + e); kA = (f2_) g("EphemeralKeyGeneration_A_" + e + c); kB = (f2_) g("EphemeralKeyGeneration_B_" + e + c); sA = (f3_) g("EphemeralSecretAgreement_A_" + e + c); sB = (f3_) g("EphemeralSecretAgreement_B_" + e + c);
        kp = (decltype(kp)) g("crypto_kem_keypair_" + k); en = (decltype(en)) g("crypto_kem_enc_" + k); de = (decltype(de)) g("crypto_kem_dec_" + k); }
    // guarded calls: inputs must not change, nothing outside the output may be written
    struct Out { Bytes b; size_t n; explicit Out(size_t n_) : b(n_ + 64, 0xc3), n(n_) { for (size_t i = 0; i < n; i++) b[32 + i] = 0x5e; } uint8_t *p() { return &b[32]; } Bytes get(const char *f) { for (int i = 0; i < 32; i++) if (b[i] != 0xc3 || b[32 + n + i] != 0xc3) pbt::fail("%s writes outside its output buffer", f); return Bytes(b.begin() + 32, b.begin() + 32 + n); } };
    Bytes secretA() { Out o(ska); CHECK(rA(o.p()) == 0, "private key generation A reports failure"); return o.get("random_mod_order_A"); }
    Bytes secretB() { Out o(skb); CHECK(rB(o.p()) == 0, "private key generation B reports failure"); return o.get("random_mod_order_B"); }
    Bytes pubA(const Bytes &s) { Bytes t = s; Out o(spk); CHECK(kA(t.data(), o.p()) == 0, "key generation A reports failure"); CHECK(t == s, "key generation A modifies the private key"); return o.get("EphemeralKeyGeneration_A"); }
    Bytes pubB(const Bytes &s) { Bytes t = s; Out o(spk); CHECK(kB(t.data(), o.p()) == 0, "key generation B reports failure"); CHECK(t == s, "key generation B modifies the private key"); return o.get("EphemeralKeyGeneration_B"); }
    Bytes agreeA(const Bytes &s, const Bytes &p) { Bytes t = s, q = p; Out o(sss); CHECK(sA(t.data(), q.data(), o.p()) == 0, "secret agreement A reports failure"); CHECK(t == s && q == p, "secret agreement A modifies its inputs"); return o.get("EphemeralSecretAgreement_A"); }
    Bytes agreeB(const Bytes &s, const Bytes &p) { Bytes t = s, q = p; Out o(sss); CHECK(sB(t.data(), q.data(), o.p()) == 0, "secret agreement B reports failure"); CHECK(t == s && q == p, "secret agreement B modifies its inputs"); return o.get("EphemeralSecretAgreement_B"); }
    void keypair(Bytes &P, Bytes &S) { Out a(pk), b(sk); CHECK(kp(a.p(), b.p()) == 0, "KEM key generation reports failure"); P = a.get("crypto_kem_keypair"); S = b.get("crypto_kem_keypair"); }
    void enc(const Bytes &P, Bytes &C, Bytes &K) { Bytes q = P; Out a(ct), b(ss); CHECK(en(a.p(), b.p(), q.data()) == 0, "encapsulation reports failure"); CHECK(q == P, "encapsulation modifies the public key"); C = a.get("crypto_kem_enc"); K = b.get("crypto_kem_enc"); }
    Bytes dec(const Bytes &C, const Bytes &S) { Bytes q = C, t = S; Out o(ss); CHECK(de(o.p(), q.data(), t.data()) == 0, "decapsulation reports failure"); CHECK(q == C, "decapsulation modifies the ciphertext"); CHECK(t == S, "decapsulation modifies the private key"); return o.get("crypto_kem_dec"); }
};
inline std::string hexs(const Bytes &b, size_t n = 12) { return hex(Bytes(b.begin(), b.begin() + std::min(n, b.size()))) + (b.size() > n ? ".." : ""); }
}
