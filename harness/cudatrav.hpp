// emulation of kernel launches: every block and thread in turn
#ifndef VM_CUDATRAV_HPP
#define VM_CUDATRAV_HPP
#include "vmon.hpp"
#include "cooperative_groups.h"
#include <noarr/structures/interop/bag.hpp>
#include <noarr/structures/interop/cuda_traverser.cuh>
#include <noarr/structures/interop/cuda_step.cuh>

namespace vm {
template<class F>
void launch(dim3 g, dim3 b, const F &f) {
	gridDim = g, blockDim = b;
	for (blockIdx.z = 0; blockIdx.z < g.z; blockIdx.z++)
		for (blockIdx.y = 0; blockIdx.y < g.y; blockIdx.y++)
			for (blockIdx.x = 0; blockIdx.x < g.x; blockIdx.x++)
				for (threadIdx.z = 0; threadIdx.z < b.z; threadIdx.z++)
					for (threadIdx.y = 0; threadIdx.y < b.y; threadIdx.y++)
						for (threadIdx.x = 0; threadIdx.x < b.x; threadIdx.x++)
							f();
	blockIdx = threadIdx = {0, 0, 0};
	gridDim = blockDim = {};
}
inline std::string where() {
	char s[128];
	std::snprintf(s, sizeof s, "%u,%u,%u/%u,%u,%u", blockIdx.x, blockIdx.y, blockIdx.z, threadIdx.x, threadIdx.y, threadIdx.z);
	return s;
}
// a group of threads as an object
struct group {
	std::size_t r, n;
	std::size_t thread_rank() const { return r; }
	std::size_t num_threads() const { return n; }
};
} // namespace vm
#endif
