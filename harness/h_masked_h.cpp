#include "masked.inc"
E(heap0, P(MaskedHeap<false, true, 0>), 0, true)
E(heap1, P(MaskedHeap<false, true, 1>), 0, true)
E(heap2, P(MaskedHeap<false, true, 2>), 0, true)
E(heap8, P(MaskedHeap<false, true, 8>), 0, true)
E(heapdot, P(MaskedHeap<false, true, MaskedHeapDot>), 0, true)
