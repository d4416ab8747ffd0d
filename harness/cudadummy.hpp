// Stand-ins for the CUDA environment: the library's device code runs as host code, and the thread and block
// indices are variables that the monitors set.
#ifndef VM_CUDADUMMY_HPP
#define VM_CUDADUMMY_HPP
#define __device__
#define __host__
#define __global__
#include <sys/types.h>
struct dim3 {
	unsigned x = 1, y = 1, z = 1;
};
inline dim3 threadIdx{0, 0, 0}, blockIdx{0, 0, 0}, blockDim{}, gridDim{};

namespace cooperative_groups {
struct thread_block {
	static unsigned thread_rank() { return (threadIdx.z * blockDim.y + threadIdx.y) * blockDim.x + threadIdx.x; }
	static unsigned num_threads() { return blockDim.x * blockDim.y * blockDim.z; }
};
struct grid_group {
	static unsigned long long thread_rank() {
		return ((blockIdx.z * 1ull * gridDim.y + blockIdx.y) * gridDim.x + blockIdx.x) * thread_block::num_threads() + thread_block::thread_rank();
	}
	static unsigned long long num_threads() { return 1ull * gridDim.x * gridDim.y * gridDim.z * thread_block::num_threads(); }
};
} // namespace cooperative_groups
#endif
