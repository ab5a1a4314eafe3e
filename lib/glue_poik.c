// compiled into the library under test together with its public header only
#include "poik.h"
#include <stdlib.h>
#include <string.h>
size_t vg_sizeof_proof(void) { return sizeof(struct proof); }
size_t vg_sizeof_secret(void) { return sizeof(struct secret); }
size_t vg_reps(void) { return POIK_REPS; }
size_t vg_fp2_bytes(void) { return sizeof(packed_fp2); }
size_t vg_hash_bytes(void) { return HASH_BYTES; }
size_t vg_hide_bytes(void) { return HIDE_BYTES; }
// flat access to the public secret structure
void vg_secret_E(struct secret const *s, size_t i, unsigned char *out) { memcpy(out, s->E[i].bytes, SIDH_BYTES); }
void vg_secret_P(struct secret const *s, size_t i, unsigned char *out) { memcpy(out, s->P[i].bytes, SIDH_BYTES); }
void vg_set_E(struct secret *s, size_t i, unsigned char const *in) { memcpy(s->E[i].bytes, in, SIDH_BYTES); }
void vg_set_P(struct secret *s, size_t i, unsigned char const *in) { memcpy(s->P[i].bytes, in, SIDH_BYTES); }
void vg_progress(FILE *f) { Progress_Indicator_File = f; }
// field-wise comparison of two proofs (unions make memcmp meaningless); returns 0 if equal
int vg_proof_cmp(struct proof const *a, struct proof const *b)
{
    if (memcmp(a->E0.bytes, b->E0.bytes, SIDH_BYTES) || memcmp(a->E1.bytes, b->E1.bytes, SIDH_BYTES)) return 1;
    for (size_t i = 0; i < POIK_REPS; i++) {
        struct response const *x = &a->resp[i], *y = &b->resp[i];
        if (x->tag != y->tag) return 2;
        if (x->tag == RESP_LEFT) { if (memcmp(&x->left, &y->left, sizeof x->left)) return 3; }
        else if (x->tag == RESP_BOTTOM) { if (memcmp(&x->bottom, &y->bottom, sizeof x->bottom)) return 4; }
        else if (x->tag == RESP_RIGHT) { if (memcmp(&x->right, &y->right, sizeof x->right)) return 5; }
        else return 6;
    }
    return 0;
}
// build a proof field by field (arbitrary bytes)
void vg_put(struct proof *p, long rep, int tag, int field, size_t k, unsigned char const *in)
{
    if (rep < 0) { memcpy(rep == -1 ? p->E0.bytes : p->E1.bytes, in, SIDH_BYTES); return; }
    struct response *r = &p->resp[rep];
    if (tag == RESP_LEFT) { r->tag = RESP_LEFT; if (field == 0) memcpy(r->left.r2, in, HIDE_BYTES); else if (field == 1) memcpy(r->left.h3, in, HASH_BYTES); else memcpy(r->left.chain.x[k].bytes, in, SIDH_BYTES); }
    else if (tag == RESP_BOTTOM) { r->tag = RESP_BOTTOM; if (field == 0) memcpy(r->bottom.r2, in, HIDE_BYTES); else if (field == 1) memcpy(r->bottom.r3, in, HIDE_BYTES); else if (field == 3) memcpy(r->bottom.E2.bytes, in, SIDH_BYTES); else memcpy(r->bottom.chain.x[k].bytes, in, SIDH_BYTES); }
    else { r->tag = RESP_RIGHT; if (field == 0) memcpy(r->right.h2, in, HASH_BYTES); else if (field == 1) memcpy(r->right.r3, in, HIDE_BYTES); else memcpy(r->right.chain.x[k].bytes, in, SIDH_BYTES); }
}
void vg_set_tag(struct proof *p, size_t rep, int tag) { memcpy(&p->resp[rep].tag, &tag, sizeof p->resp[rep].tag); }
