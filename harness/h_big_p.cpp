#include "big.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "spgemm-blocks/masked-spgemm-inner.h"
#include "spgemm-blocks/inner/MaskedInnerSpGEMM.h"
#include "spgemm-blocks/masked-spgemm-poly.h"
#include "big_run.inc"
RUN(poly, true, MASK_PLAIN, MaskedSpGEMM1p(A, B, C, M, mu, ad, t))
RUNC(inner1, true, MASK_PLAIN, MaskedSpGEMM1p<MaskedInner>(A, B, C, M, mu, ad, t))
RUNC(inner2, true, MASK_PLAIN, MaskedSpGEMM2p<MaskedInner>(A, B, C, M, mu, ad, t))
RUNC(innerprod1, true, MASK_PLAIN, MaskedSpGEMM1pInnerProduct(A, B, C, M, mu, ad, t))
RUNC(innerprod2, true, MASK_PLAIN, MaskedSpGEMM2pInnerProduct(A, B, C, M, mu, ad, t))
