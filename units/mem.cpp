// Accessors to the public options of the resources.
#include "vecmem/memory/pool_memory_resource.hpp"
#include <cstddef>

using O = vecmem::pool_memory_resource::options;
#define GET(N, F)                                       \
    extern "C" std::size_t vp_opt_##N(const O& o) {     \
        return static_cast<std::size_t>(o.F);           \
    }
GET(min_blocks, min_blocks_per_chunk)
GET(min_bytes, min_bytes_per_chunk)
GET(max_blocks, max_blocks_per_chunk)
GET(max_bytes, max_bytes_per_chunk)
GET(smallest, smallest_block_size)
GET(largest, largest_block_size)
GET(alignment, alignment)
GET(cache, cache_oversized)
GET(size_cut, cached_size_cutoff_factor)
GET(align_cut, cached_alignment_cutoff_factor)
