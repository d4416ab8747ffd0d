// bags: allocation tracking, element addresses, contents
#ifndef VM_BAGMON_HPP
#define VM_BAGMON_HPP
#include "vmon.hpp"
#include <new>
#include <noarr/structures/interop/bag.hpp>

namespace vm {
struct trk {
	static inline bool on = false;
	struct rec {
		void *p;
		std::size_t n;
		bool arr, live;
	};
	static inline rec recs[4096];
	static inline int nrec = 0;
	struct op {
		int id;
		char what; // '+' '-' or '!' (wrong form of delete)
	};
	static inline op ops[4096];
	static inline int nops = 0;

	static void *get(std::size_t n, bool arr) {
		void *p = std::malloc(n ? n : 1);
		if (!p)
			throw std::bad_alloc();
		if (on && nrec < 4096 && nops < 4096) {
			std::memset(p, 0xCD, n);
			recs[nrec] = {p, n, arr, true};
			ops[nops++] = {nrec++, '+'};
		}
		return p;
	}
	static void put(void *p, bool arr) {
		for (int i = nrec; p && i--;)
			if (recs[i].live && recs[i].p == p) {
				recs[i].live = false;
				if (nops < 4096)
					ops[nops++] = {i, recs[i].arr == arr ? '-' : '!'};
				break;
			}
		std::free(p);
	}
	static void start() {
		nops = 0;
		on = true;
	}
	static void stop(const char *label) {
		on = false;
		std::string s;
		for (int i = 0; i < nops; i++) {
			s += " ";
			s += ops[i].what;
			s += std::to_string(ops[i].id);
			if (ops[i].what == '+')
				s += ":" + std::to_string(recs[ops[i].id].n);
		}
		nops = 0;
		ev("N %s%s", label, s.c_str());
	}
	static void reset() { nrec = nops = 0; }
};
} // namespace vm

void *operator new(std::size_t n) { return vm::trk::get(n, false); }
void *operator new[](std::size_t n) { return vm::trk::get(n, true); }
void operator delete(void *p) noexcept { vm::trk::put(p, false); }
void operator delete(void *p, std::size_t) noexcept { vm::trk::put(p, false); }
void operator delete[](void *p) noexcept { vm::trk::put(p, true); }
void operator delete[](void *p, std::size_t) noexcept { vm::trk::put(p, true); }

namespace vm {

template<class B, class St, class X>
constexpr bool writable = requires(const B &b, St st, X x) { b[st] = x; };

// what a bag shows of itself
template<auto... Dims, class B>
inline void show(const char *v, const B &b) {
	ev("Z %s %zu %zu", v, num(b.size()), num(b | noarr::get_size()));
	const void *const d = (const void *)b.data();
	if (!d) {
		ev("D %s null", v);
		return;
	}
	if constexpr (!std::is_same_v<decltype(b.data()), std::nullptr_t>) {
		std::string s;
		for (std::size_t i = 0; i < num(b.size()); i++) {
			char h[3];
			std::snprintf(h, 3, "%02x", static_cast<const unsigned char *>(d)[i]);
			s += h;
		}
		ev("D %s %s", v, s.c_str());
		std::string o;
		std::size_t bad = 0, wr = 0, n = 0;
		noarr::traverser(b).for_each([&](auto st) {
			auto &r = b[st];
			using X = std::remove_cvref_t<decltype(r)>;
			const std::size_t off = (std::size_t)((const char *)&r - (const char *)d);
			o += " " + std::to_string(off);
			n++;
			bad += num(b | noarr::offset(st)) != off;
			bad += &(b | noarr::get_at(b.data(), st)) != &r;
			bad += &(b.structure() | noarr::get_at(b.data(), st)) != &r;
			if constexpr ((... && noarr::state_contains<decltype(st), noarr::index_in<Dims>>)) {
				bad += &b.template at<Dims...>(st.template get<noarr::index_in<Dims>>()...) != &r;
				bad += num(b.template offset<Dims...>(st.template get<noarr::index_in<Dims>>()...)) != off;
			}
			wr += writable<B, decltype(st), X>;
		});
		ev("O %s%s", v, o.c_str());
		ev("B %s %zu", v, bad);
		ev("W %s %d", v, n == 0 ? 2 : wr == n ? 1 : wr == 0 ? 0 : 9);
	}
	const auto len = [&]<auto Dim>(D<Dim, E>) {
		if constexpr (B::template has_length<Dim>())
			ev("L %s %s %zu %zu", v, dname<Dim>().c_str(), num(b.template length<Dim>()), num(b | noarr::get_length<Dim>()));
	};
	(..., len(D<Dims, E>{}));
}

template<class B>
inline void fill(const B &b, std::size_t salt) {
	std::size_t k = salt;
	noarr::traverser(b).for_each([&](auto st) {
		auto &r = b[st];
		r = mk<std::remove_cvref_t<decltype(r)>>(k++);
	});
}

template<class B, class P>
constexpr bool can_l = requires(B &b, P p) { b ^ p; };
template<class B, class P>
constexpr bool can_r = requires(B &&b, P p) { std::move(b) ^ p; };

// copy constructible, copy assignable, move constructible, applied to an lvalue, an rvalue, layout-changing proto refused
template<class P, class B>
inline void traits(const char *v, const B &) {
	ev("C %s %d %d %d %d %d %d", v, (int)std::is_copy_constructible_v<B>, (int)std::is_copy_assignable_v<B>,
	   (int)std::is_nothrow_move_constructible_v<B>, (int)can_l<B, P>, (int)can_r<B, P>,
	   (int)(can_l<B, noarr::vector_proto<'~'>> || can_r<B, noarr::vector_proto<'~'>>));
}

} // namespace vm
#endif
