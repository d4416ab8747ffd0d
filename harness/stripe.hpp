// cuda_striped: where every stripe keeps its elements
#ifndef VM_STRIPE_HPP
#define VM_STRIPE_HPP
#include "vmon.hpp"
#include "cudadummy.hpp"
#include <noarr/structures/interop/cuda_striped.cuh>
#include <cstdlib>

namespace vm {

template<class Tree, std::size_t N, bool Names, class B, class S>
void striped(const B &b, const S &s) {
	const std::size_t size = num(s | noarr::get_size()), bsize = num(b | noarr::get_size());
	ev("Z %zu %zu %zu", size, num(S::max_conflict_size), num(s.align(noarr::empty_state)));
	walk<Tree>(s, Names, [](auto, const std::string &) {});
	// offsets
	walk<Tree>(b, false, [&](auto st, const std::string &p) {
		std::string l;
		for (std::size_t k = 0; k < N; k++) {
			const auto st2 = st & noarr::cuda_stripe_idx(k);
			const std::size_t o = num(s | noarr::offset(st2));
			l += " " + std::to_string(o);
			for (std::size_t m : {std::size_t{0}, std::size_t{1}, std::size_t{5}}) {
				threadIdx.x = static_cast<unsigned>(k + m * N);
				const std::size_t a = num(s | noarr::offset(st));
				if (a != o)
					ev("A %s thread %zu: %zu, stripe %zu explicitly: %zu", p.c_str(), k + m * N, a, k, o);
			}
		}
		ev("O %s %zu%s", p.c_str(), num(b | noarr::offset(st)), l.c_str());
	});
	threadIdx.x = 0;
	// contents: write every element of every stripe, then read all
	void *mem = nullptr;
	if (posix_memalign(&mem, 256, bsize ? size : 1))
		std::abort();
	std::memset(mem, 0xA5, size);
	for (int pass = 0; pass < 2; pass++) {
		std::uint64_t id = 1;
		std::size_t bad = 0, tot = 0;
		for (std::size_t k = 0; k < N; k++)
			walk<Tree>(b, false, [&](auto st, const std::string &) {
				threadIdx.x = static_cast<unsigned>(k + N * (id % 3));
				auto &r = s | noarr::get_at(mem, st);
				using X = std::remove_reference_t<decltype(r)>;
				if (pass == 0)
					r = mk<X>(id);
				else if (!(r == mk<X>(id)))
					bad++;
				id++, tot++;
			});
		if (pass)
			ev("C %zu %zu", tot, bad);
	}
	std::free(mem);
	// the threads of a block among the stripes
	for (std::size_t bd : {std::size_t{1}, N > 1 ? N - 1 : N, N, N + 1, 2 * N, 3 * N + N / 2, std::size_t{96}}) {
		blockDim.x = static_cast<unsigned>(bd);
		std::string l;
		for (std::size_t t = 0; t < bd; t++) {
			threadIdx.x = static_cast<unsigned>(t);
			const auto cg = s.current_stripe_cg();
			l += " " + std::to_string(num(s.current_stripe_index())) + ":" + std::to_string(num(cg.thread_rank())) + "/" + std::to_string(num(cg.num_threads()));
		}
		ev("G %zu %zu%s", bd, num(s.num_stripes()), l.c_str());
	}
	threadIdx.x = 0, blockDim.x = 1;
}

} // namespace vm
#endif
