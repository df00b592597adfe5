#include <stddef.h>
#include <stdint.h>
#include "evfs/util/search.h"
int vf_bs_compare(const void *k, const void *e);
GEN_BSEARCH_FUNC(vf_bsearch, vf_bs_compare)
