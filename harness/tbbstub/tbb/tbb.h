// A small, hostile stand-in for TBB: real threads, randomised splitting, randomised scheduling and delays.
// Everything it synchronises with is visible to ThreadSanitizer, so races of the code under test are reported
// and those of the stand-in do not exist.
#ifndef VMON_TBBSTUB
#define VMON_TBBSTUB

#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstddef>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <random>
#include <thread>
#include <vector>

namespace vmtbb {

inline unsigned seed = 1;
inline unsigned threads = 4;
inline bool always_split = false;
inline std::atomic<std::size_t> n_splits{0}, n_leaves{0}, n_runs{0};
inline thread_local std::size_t task = 0; // id of the leaf being executed
inline std::atomic<std::size_t> next_task{1};
inline thread_local int depth = 0;

inline std::mt19937 &rng() {
	static thread_local std::mt19937 r = [] {
		static std::atomic<unsigned> k{0};
		return std::mt19937(seed * 7919 + k.fetch_add(1, std::memory_order_relaxed));
	}();
	return r;
}

inline void jitter() {
	switch (rng()() % 6) {
	case 0: std::this_thread::yield(); break;
	case 1: std::this_thread::sleep_for(std::chrono::microseconds(rng()() % 30)); break;
	default: break;
	}
}

} // namespace vmtbb

namespace tbb {

struct split {};
struct auto_partitioner {};
struct simple_partitioner {};
struct static_partitioner {};
struct affinity_partitioner {};

template<class T>
struct blocked_range {
	using const_iterator = T;
	T b, e;
	std::size_t g;
	blocked_range(T b, T e, std::size_t g = 1) : b(b), e(e), g(g) {}
	blocked_range(blocked_range &o, split) : b(o.b + (o.e - o.b) / 2), e(o.e), g(o.g) { o.e = b; }
	T begin() const { return b; }
	T end() const { return e; }
	std::size_t size() const { return static_cast<std::size_t>(e - b); }
	bool empty() const { return !(b < e); }
	bool is_divisible() const { return size() > g; }
	std::size_t grainsize() const { return g; }
};

namespace vmdetail {

template<class Range, class Leaf>
inline void run(const Range &range, const Leaf &leaf) {
	vmtbb::n_runs.fetch_add(1, std::memory_order_relaxed);
	if (range.empty())
		return;
	std::mutex m;
	std::condition_variable cv;
	std::deque<std::unique_ptr<Range>> q;
	std::size_t pending = 1;
	std::exception_ptr err;
	q.push_back(std::make_unique<Range>(range));
	const unsigned stop = vmtbb::always_split ? 0 : vmtbb::rng()() % 5; // eagerness of splitting: 0 = always split to the end
	auto worker = [&] {
		for (;;) {
			std::unique_ptr<Range> r;
			{
				std::unique_lock<std::mutex> lk(m);
				cv.wait(lk, [&] { return !q.empty() || pending == 0; });
				if (q.empty())
					return;
				const std::size_t k = vmtbb::rng()() % q.size();
				std::swap(q[k], q.back());
				r = std::move(q.back());
				q.pop_back();
			}
			vmtbb::jitter();
			while (r->is_divisible() && (stop == 0 || vmtbb::rng()() % (4 + stop) != 0)) {
				auto right = std::make_unique<Range>(*r, split());
				vmtbb::n_splits.fetch_add(1, std::memory_order_relaxed);
				if (vmtbb::rng()() % 2)
					std::swap(r, right);
				std::unique_lock<std::mutex> lk(m);
				pending++;
				q.push_back(std::move(right));
				cv.notify_one();
			}
			if (!r->empty()) {
				vmtbb::n_leaves.fetch_add(1, std::memory_order_relaxed);
				const auto old = vmtbb::task;
				vmtbb::task = vmtbb::next_task.fetch_add(1, std::memory_order_relaxed);
				try {
					leaf(*r);
				} catch (...) {
					std::unique_lock<std::mutex> lk(m);
					if (!err)
						err = std::current_exception();
				}
				vmtbb::task = old;
			}
			vmtbb::jitter();
			std::unique_lock<std::mutex> lk(m);
			if (--pending == 0)
				cv.notify_all();
		}
	};
	std::vector<std::thread> ts;
	for (unsigned k = 1; k < std::max(1u, vmtbb::threads); k++)
		ts.emplace_back(worker);
	worker();
	for (auto &t : ts)
		t.join();
	if (err)
		std::rethrow_exception(err);
}

} // namespace vmdetail

template<class Range, class Body, class... Rest>
requires (!std::is_integral_v<Range>)
inline void parallel_for(const Range &range, const Body &body, const Rest &...) {
	vmdetail::run(range, [&](Range &r) { body(static_cast<const Range &>(r)); });
}
template<class I, class F>
requires std::is_integral_v<I>
inline void parallel_for(I a, I b, const F &f) {
	parallel_for(blocked_range<I>(a, b), [&](const blocked_range<I> &r) { for (I i = r.begin(); i != r.end(); ++i) f(i); });
}
template<class It, class F>
inline void parallel_for_each(It a, It b, const F &f) {
	std::vector<It> v;
	for (; a != b; ++a)
		v.push_back(a);
	parallel_for(std::size_t(0), v.size(), [&](std::size_t k) { f(*v[k]); });
}
template<class Range, class T, class F, class J>
inline T parallel_reduce(const Range &range, const T &id, const F &f, const J &join) {
	std::mutex m;
	std::optional<T> acc;
	vmdetail::run(range, [&](Range &r) {
		T x = f(static_cast<const Range &>(r), id);
		std::unique_lock<std::mutex> lk(m);
		acc = acc ? join(*acc, x) : x;
	});
	return acc ? *acc : id;
}

using mutex = std::mutex;
using spin_mutex = std::mutex;
using queuing_mutex = std::mutex;

template<class T>
class combinable {
	std::mutex m;
	std::map<std::thread::id, std::unique_ptr<T>> v;
	std::function<T()> init;

public:
	combinable() = default;
	template<class F>
	explicit combinable(F f) : init(f) {}
	T &local() {
		bool e;
		return local(e);
	}
	T &local(bool &exists) {
		std::unique_lock<std::mutex> lk(m);
		auto &p = v[std::this_thread::get_id()];
		exists = p != nullptr;
		if (!p) {
			if constexpr (std::is_copy_constructible_v<T>)
				p = init ? std::make_unique<T>(init()) : std::make_unique<T>();
			else
				p = std::make_unique<T>();
		}
		return *p;
	}
	void clear() { v.clear(); }
	template<class F>
	void combine_each(F f) {
		std::vector<T *> ps;
		for (auto &p : v)
			ps.push_back(p.second.get());
		std::shuffle(ps.begin(), ps.end(), vmtbb::rng());
		for (auto *p : ps)
			f(*p);
	}
	template<class F>
	T combine(F f) {
		std::optional<T> acc;
		combine_each([&](T &x) { acc = acc ? f(*acc, x) : x; });
		return acc ? *acc : T();
	}
};

template<class T>
class enumerable_thread_specific {
	std::mutex m;
	std::map<std::thread::id, std::size_t> ix;
	std::list<T> v;

public:
	using iterator = typename std::list<T>::iterator;
	enumerable_thread_specific() = default;
	T &local() {
		std::unique_lock<std::mutex> lk(m);
		auto it = ix.find(std::this_thread::get_id());
		if (it == ix.end()) {
			it = ix.emplace(std::this_thread::get_id(), v.size()).first;
			v.emplace_back();
		}
		return *std::next(v.begin(), it->second);
	}
	iterator begin() { return v.begin(); }
	iterator end() { return v.end(); }
	std::size_t size() const { return v.size(); }
	template<class F>
	void combine_each(F f) { for (auto &x : v) f(x); }
};

struct task_group {
	std::vector<std::thread> ts;
	template<class F>
	void run(F f) { ts.emplace_back(f); }
	void wait() { for (auto &t : ts) t.join(); ts.clear(); }
	~task_group() { wait(); }
};
struct task_arena {
	explicit task_arena(int = 0) {}
	template<class F>
	auto execute(F f) { return f(); }
};
namespace this_task_arena {
template<class F>
auto isolate(F f) { return f(); }
inline int max_concurrency() { return int(vmtbb::threads); }
} // namespace this_task_arena
template<class... F>
inline void parallel_invoke(F... f) {
	std::vector<std::function<void()>> v{f...};
	parallel_for(std::size_t(0), v.size(), [&](std::size_t k) { v[k](); });
}

} // namespace tbb
namespace oneapi { namespace tbb = ::tbb; }

#endif
