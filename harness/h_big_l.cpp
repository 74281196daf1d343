#include "big.h"
#include "BIN.h"
#include "HeapEntry.h"
#include "hash_mult_hw.h"
#include "mask_hash_mult.h"
#include "spa_mult.h"
#include "inner_mult.h"
#include "heap_mult_generic.h"
#include "big_run.inc"
RUN(mhash, false, MASK_PLAIN, mxm_hash_mask(A, B, C, M, mu, ad, t))
RUN(mhash_nobin, false, MASK_PLAIN, mxm_hash_mask_wobin(A, B, C, M, mu, ad, t))
RUN(mspa, false, MASK_PLAIN, MaskedSPASpGEMM(A, B, C, M, mu, ad, t))
RUN(gheap_v0, true, MASK_PLAIN, HeapSpGEMM<rowAlg::MaskedHeap_v0>(A, B, C, M, mu, ad, t))
RUN(gheap_v1, true, MASK_PLAIN, HeapSpGEMM<rowAlg::MaskedHeap_v1>(A, B, C, M, mu, ad, t))
RUN(gheap_v2, true, MASK_PLAIN, HeapSpGEMM<rowAlg::MaskedHeap_v2>(A, B, C, M, mu, ad, t))
RUN(gmca_v1, true, MASK_PLAIN, HeapSpGEMM<rowAlg::MCA_v1>(A, B, C, M, mu, ad, t))
RUN(gmca_v2, true, MASK_PLAIN, HeapSpGEMM<rowAlg::MCA_v2>(A, B, C, M, mu, ad, t))
RUN(gmca_v3, true, MASK_PLAIN, HeapSpGEMM<rowAlg::MCA_v3>(A, B, C, M, mu, ad, t))
RUN(gbasic, true, MASK_NONE, HeapSpGEMM<rowAlg::BasicHeap>(A, B, C, mu, ad, t))
RUN(glinear, true, MASK_NONE, HeapSpGEMM<rowAlg::HeapLinear<2>>(A, B, C, mu, ad, t))
RUN(glinear8, true, MASK_NONE, HeapSpGEMM<rowAlg::HeapLinear<8>>(A, B, C, mu, ad, t))
RUN(hash_u, false, MASK_NONE, HashSpGEMM<false>(A, B, C, mu, ad, t))
RUN(hash_s, true, MASK_NONE, HashSpGEMM<true>(A, B, C, mu, ad, t))
RUNC(minner, true, MASK_PLAIN, (innerSpGEMM_nohash<false, false>(A, B, C, M, mu, ad, t)))
