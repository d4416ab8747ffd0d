// Recorder for parallel traversals. It does not synchronise the observed threads with each other
// (only relaxed atomics), so it hides no data race from ThreadSanitizer.
#ifndef VMON_PAR_HPP
#define VMON_PAR_HPP
#ifdef VM_STUB
#	include "ompstub.hpp"
#endif
#include <atomic>
#include <chrono>
#include <map>
#include <mutex>
#include <thread>
#include <noarr/structures/interop/omp.hpp>
#include <noarr/structures/interop/tbb.hpp>
#ifndef VM_STUB
#	include <noarr/structures/interop/std_para.hpp>
#endif
#include "vmon.hpp"

namespace vmp {

inline std::atomic<std::size_t> next_tid{0};
inline std::size_t tid() {
	static thread_local std::size_t t = next_tid.fetch_add(1, std::memory_order_relaxed);
	return t;
}
inline unsigned &lcg() {
	static thread_local unsigned x = 12345u + 777u * (unsigned)tid();
	return x;
}
inline void delay() {
	unsigned &x = lcg();
	x = x * 1664525u + 1013904223u;
	switch ((x >> 24) % 8) {
	case 0: std::this_thread::yield(); break;
	case 1: std::this_thread::sleep_for(std::chrono::microseconds((x >> 16) % 40)); break;
	default: break;
	}
}

inline void setup(std::size_t seed, std::size_t threads) {
#ifdef VM_STUB
	vmtbb::seed = (unsigned)seed;
	vmtbb::threads = (unsigned)threads;
	vmomp::seed = (unsigned)seed;
	vmomp::threads = (unsigned)threads;
#else
	omp_set_num_threads((int)threads);
#endif
}

struct rec {
	std::size_t slot, thread, task;
};

struct log {
	std::map<std::string, std::size_t> ix;
	std::vector<std::string> names;
	std::vector<std::size_t> section;
	std::vector<unsigned> hits;    // plain: written by whoever handles the element
	std::vector<unsigned> sec_sum; // plain: written by whoever handles a section
	std::vector<rec> recs;
	std::atomic<std::size_t> n{0}, strange{0};
	std::atomic<bool> open{false};

	// known elements, from a sequential iteration
	void add(const std::string &p, std::size_t sec) {
		ix.emplace(p, names.size());
		names.push_back(p);
		section.push_back(sec);
	}
	void start() {
		hits.assign(names.size() + 1, 0);
		sec_sum.assign(names.size() + 1, 0);
		recs.assign(names.size() * 3 + 64, rec{});
		n.store(0);
		strange.store(0);
		open.store(true);
	}
	void hit(const std::string &p) {
		const auto it = ix.find(p);
		const std::size_t slot = it == ix.end() ? names.size() : it->second;
		if (slot == names.size() || !open.load(std::memory_order_relaxed))
			strange.fetch_add(1, std::memory_order_relaxed);
		else {
			hits[slot]++;
			const unsigned v = sec_sum[section[slot]];
			delay();
			sec_sum[section[slot]] = v + 1;
		}
		const std::size_t k = n.fetch_add(1, std::memory_order_relaxed);
		std::size_t task = 0;
#ifdef VM_STUB
		task = vmtbb::task;
#endif
		if (k < recs.size())
			recs[k] = rec{slot, tid(), task};
	}
	// called by the thread that started the parallel traversal, after it returned
	void stop(const char *what) {
		open.store(false);
		const std::size_t m = std::min(n.load(), recs.size());
		vm::ev("B %s %zu %zu", what, n.load(), strange.load());
		for (std::size_t k = 0; k < m; k++)
			vm::ev("V %s %s %zu %zu", what, recs[k].slot == names.size() ? "?" : names[recs[k].slot].c_str(), recs[k].thread, recs[k].task);
		for (std::size_t k = 0; k < names.size(); k++)
			if (hits[k] != 1)
				vm::ev("H %s %s %u", what, names[k].c_str(), hits[k]);
	}
};

} // namespace vmp
#endif
