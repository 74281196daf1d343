#include "masked_big.inc"
#undef E
#define E(n, alg, mode, sorted) extern "C" void n() { run<alg>(mode, sorted); }
E(msa1a_old, MSA1A_old, 0, false)
E(msa2a_old, MSA2A_old, 0, false)
E(heap_v0, MaskedHeap_v0, 0, true)
E(heap_v1, MaskedHeap_v1, 0, true)
E(heap_v2, MaskedHeap_v2, 0, true)
