#include "masked.inc"
E(msa1a, P(MSA1A<false, false>), 0, false)
E(msa2a, P(MSA2A<false, false>), 0, false)
E(hash, P(MaskedHash<false, false>), 0, false)
E(mca, P(MCA<false, false>), 0, true)
