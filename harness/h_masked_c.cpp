#include "masked.inc"
E(c_msa1a, P(MSA1A<true, false>), 1, false)
E(c_msa1a_s, P(MSA1A<true, true>), 1, true)
E(c_msa2a, P(MSA2A<true, false>), 1, false)
E(c_msa2a_s, P(MSA2A<true, true>), 1, true)
E(c_hash, P(MaskedHash<true, false>), 1, false)
E(c_hash_s, P(MaskedHash<true, true>), 1, true)
E(c_heap, P(MaskedHeap<true, true, 0>), 1, true)
