// compiled into the SIDH/SIKE libraries: sizes from the public API header only
#include VG_API_HEADER
int vg_sk(void) { return CRYPTO_SECRETKEYBYTES; }
int vg_pk(void) { return CRYPTO_PUBLICKEYBYTES; }
int vg_ss(void) { return CRYPTO_BYTES; }
int vg_ct(void) { return CRYPTO_CIPHERTEXTBYTES; }
int vg_ska(void) { return SIDH_SECRETKEYBYTES_A; }
int vg_skb(void) { return SIDH_SECRETKEYBYTES_B; }
int vg_spk(void) { return SIDH_PUBLICKEYBYTES; }
int vg_sss(void) { return SIDH_BYTES; }
