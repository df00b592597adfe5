// The generic unaligned access macros need C11.
#include "evfs/util/unaligned_access.h"
#define ONE(T, S) \
T vf_get_##S(void *p, int order) { T *d = (T *)p; return order == 0 ? get_unaligned(d) : order == 1 ? get_unaligned_be(d) : get_unaligned_le(d); } \
void vf_set_##S(T v, void *p, int order) { if (order == 0) set_unaligned(v, p); else if (order == 1) set_unaligned_be(v, p); else set_unaligned_le(v, p); }
ONE(uint16_t, u16) ONE(int16_t, s16) ONE(uint32_t, u32) ONE(int32_t, s32) ONE(uint64_t, u64) ONE(int64_t, s64)
