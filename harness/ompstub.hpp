// A hostile stand-in for the OpenMP runtime behind g++ -fopenmp: plain threads with random delays,
// whose synchronisation ThreadSanitizer understands (it does not understand libgomp's).
#ifndef VMON_OMPSTUB
#define VMON_OMPSTUB
#include <omp.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstddef>
#include <mutex>
#include <random>
#include <thread>
#include <vector>

namespace vmomp {
struct team {
	unsigned n;
	std::mutex m;
	std::condition_variable cv;
	unsigned waiting = 0, phase = 0;
	bool loop = false;
	unsigned long long cur = 0, end = 0, incr = 1, chunk = 1;
	unsigned left = 0;
	bool single = false;
	void barrier() {
		std::unique_lock<std::mutex> lk(m);
		const unsigned ph = phase;
		if (++waiting == n) {
			waiting = 0;
			phase++;
			single = false;
			loop = false;
			cv.notify_all();
		} else {
			cv.wait(lk, [&] { return phase != ph; });
		}
	}
};
inline unsigned seed = 1, threads = 4;
inline std::atomic<std::size_t> n_regions{0};
inline thread_local team *cur = nullptr;
inline thread_local unsigned tid = 0;
inline thread_local std::mt19937 rng(1);
inline std::mutex critical;
inline void jitter() {
	switch (rng() % 6) {
	case 0: std::this_thread::yield(); break;
	case 1: std::this_thread::sleep_for(std::chrono::microseconds(rng() % 30)); break;
	default: break;
	}
}
// loops are kept as iteration counts
struct lp {
	bool up;
};
inline bool chunk_next(long *s, long *e) {
	team *t = cur;
	jitter();
	std::unique_lock<std::mutex> lk(t->m);
	if (t->left == 0)
		return false;
	const unsigned long long k = std::min<unsigned long long>(t->left, std::max<unsigned long long>(1, t->chunk));
	*s = (long)t->cur;
	*e = (long)(t->cur + k * t->incr);
	t->cur += k * t->incr;
	t->left -= (unsigned)k;
	return true;
}
inline void chunk_init(team *t, long start, long end, long incr, long chunk) {
	if (t->loop)
		return;
	t->loop = true;
	t->cur = (unsigned long long)start;
	t->incr = (unsigned long long)incr;
	t->chunk = chunk > 0 ? (unsigned long long)chunk : 1;
	t->left = incr > 0 ? (end > start ? (unsigned)((end - start + incr - 1) / incr) : 0) : (end < start ? (unsigned)((start - end - incr - 1) / -incr) : 0);
}
template<class Init>
inline void region(void (*fn)(void *), void *data, unsigned num, Init init) {
	n_regions.fetch_add(1, std::memory_order_relaxed);
	team t;
	t.n = num ? num : (cur ? 1 : threads);
	init(&t);
	auto body = [&](unsigned k) {
		team *oc = cur;
		const unsigned ot = tid;
		cur = &t;
		tid = k;
		rng.seed(seed * 31 + k);
		jitter();
		fn(data);
		jitter();
		cur = oc;
		tid = ot;
	};
	std::vector<std::thread> ts;
	for (unsigned k = 1; k < t.n; k++)
		ts.emplace_back(body, k);
	body(0);
	for (auto &x : ts)
		x.join();
}
} // namespace vmomp

extern "C" {
inline int vm_omp_dummy() { return 0; }
__attribute__((used)) void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) {
	vmomp::region(fn, data, n, [](vmomp::team *) {});
}
#define VM_PLOOP(name) \
	__attribute__((used)) void name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned) { \
		vmomp::region(fn, data, n, [&](vmomp::team *t) { vmomp::chunk_init(t, s, e, i, c); }); \
	}
#define VM_PLOOP_NC(name) \
	__attribute__((used)) void name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned) { \
		vmomp::region(fn, data, n, [&](vmomp::team *t) { vmomp::chunk_init(t, s, e, i, 1); }); \
	}
VM_PLOOP(GOMP_parallel_loop_static)
VM_PLOOP(GOMP_parallel_loop_dynamic)
VM_PLOOP(GOMP_parallel_loop_guided)
VM_PLOOP(GOMP_parallel_loop_nonmonotonic_dynamic)
VM_PLOOP(GOMP_parallel_loop_nonmonotonic_guided)
VM_PLOOP_NC(GOMP_parallel_loop_runtime)
VM_PLOOP_NC(GOMP_parallel_loop_nonmonotonic_runtime)
VM_PLOOP_NC(GOMP_parallel_loop_maybe_nonmonotonic_runtime)
#define VM_LOOP(kind) \
	__attribute__((used)) bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *a, long *b) { \
		{ std::unique_lock<std::mutex> lk(vmomp::cur->m); vmomp::chunk_init(vmomp::cur, s, e, i, c); } \
		return vmomp::chunk_next(a, b); \
	} \
	__attribute__((used)) bool GOMP_loop_##kind##_next(long *a, long *b) { return vmomp::chunk_next(a, b); }
VM_LOOP(static)
VM_LOOP(dynamic)
VM_LOOP(guided)
VM_LOOP(nonmonotonic_dynamic)
VM_LOOP(nonmonotonic_guided)
#define VM_ULOOP(kind) \
	__attribute__((used)) bool GOMP_loop_ull_##kind##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b) { \
		{ std::unique_lock<std::mutex> lk(vmomp::cur->m); vmomp::chunk_init(vmomp::cur, (long)s, (long)e, (long)i, (long)c); } \
		return vmomp::chunk_next((long *)a, (long *)b); \
	} \
	__attribute__((used)) bool GOMP_loop_ull_##kind##_next(unsigned long long *a, unsigned long long *b) { return vmomp::chunk_next((long *)a, (long *)b); }
VM_ULOOP(static)
VM_ULOOP(dynamic)
VM_ULOOP(guided)
VM_ULOOP(nonmonotonic_dynamic)
VM_ULOOP(nonmonotonic_guided)
__attribute__((used)) bool GOMP_loop_runtime_next(long *a, long *b) { return vmomp::chunk_next(a, b); }
__attribute__((used)) bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return vmomp::chunk_next(a, b); }
__attribute__((used)) void GOMP_loop_end() { vmomp::cur->barrier(); }
__attribute__((used)) void GOMP_loop_end_nowait() {}
__attribute__((used)) void GOMP_barrier() { if (vmomp::cur) vmomp::cur->barrier(); }
__attribute__((used)) void GOMP_critical_start() { vmomp::critical.lock(); }
__attribute__((used)) void GOMP_critical_end() { vmomp::critical.unlock(); }
__attribute__((used)) void GOMP_critical_name_start(void **) { vmomp::critical.lock(); }
__attribute__((used)) void GOMP_critical_name_end(void **) { vmomp::critical.unlock(); }
__attribute__((used)) void GOMP_atomic_start() { vmomp::critical.lock(); }
__attribute__((used)) void GOMP_atomic_end() { vmomp::critical.unlock(); }
__attribute__((used)) bool GOMP_single_start() {
	if (!vmomp::cur) return true;
	std::unique_lock<std::mutex> lk(vmomp::cur->m);
	const bool r = !vmomp::cur->single;
	vmomp::cur->single = true;
	return r;
}
__attribute__((used)) int omp_get_num_threads() noexcept { return vmomp::cur ? (int)vmomp::cur->n : 1; }
__attribute__((used)) int omp_get_thread_num() noexcept { return (int)vmomp::tid; }
__attribute__((used)) int omp_get_max_threads() noexcept { return (int)vmomp::threads; }
__attribute__((used)) int omp_in_parallel() noexcept { return vmomp::cur != nullptr; }
__attribute__((used)) int omp_get_num_procs() noexcept { return (int)vmomp::threads; }
__attribute__((used)) void omp_set_num_threads(int n) noexcept { vmomp::threads = (unsigned)n; }
}
#endif
