// records what the introspection functions say
#ifndef VM_INTRO_HPP
#define VM_INTRO_HPP
#include "vmon.hpp"
#include <noarr/introspection.hpp>
#include <noarr/structures/introspection/offset_along.hpp>
#include <noarr/structures/introspection/uniform_along.hpp>

namespace vmi {

// everything known about dimension D; st fixes other dims (those the oracle is told about in path)
template<auto Dim, class S, class St>
inline void along(const S &s, St st, const char *where, const std::string &path) {
	const std::string d = vm::dname<Dim>();
	if constexpr (noarr::HasStrideAlong<S, Dim, St>)
		vm::ev("%s %s %s %lld", where, path.c_str(), d.c_str(), (long long)noarr::stride_along<Dim>(s, st));
}

template<auto... Dims>
struct DS {};

template<auto Dim, auto... TupleDims, class S, class St>
inline void at(DS<TupleDims...>, const S &s, St st, const std::string &path) {
	if constexpr (noarr::state_contains<St, noarr::index_in<Dim>>) {
		const std::string d = vm::dname<Dim>();
		if constexpr (noarr::HasOffsetAlong<S, Dim, St>)
			vm::ev("A %s %s %lld", path.c_str(), d.c_str(), (long long)noarr::offset_along<Dim>(s, st));
		const auto st1 = st.template remove<noarr::index_in<Dim>>();
		if constexpr (!(... || (Dim == TupleDims))) {
			along<Dim>(s, st1, "S", path);
			vm::ev("U %s %s %d %d", path.c_str(), d.c_str(), (int)noarr::IsUniformAlong<S, Dim, decltype(st1)>, (int)noarr::IsUniformAlong<S, Dim, St>);
		}
	}
}

template<class T, auto... Dims, class S, class St>
inline void all(const S &s, St st, const std::string &path) {
	(..., at<Dims>(T{}, s, st, path));
}

// dimensions the structure does not have
template<auto... Dims, class S, class St>
inline void none(const S &, St, const std::string &path) {
	(..., (noarr::HasStrideAlong<S, Dims, St> || noarr::HasOffsetAlong<S, Dims, St> || noarr::IsUniformAlong<S, Dims, St> ? vm::ev("!N %s %s", path.c_str(), vm::dname<Dims>().c_str()) : void()));
}

template<class S, class St>
inline void cont(const S &s, St st, const std::string &path) {
	vm::ev("C %s %d", path.c_str(), (int)noarr::is_contiguous(s, st));
}

// contiguity with the outer dimensions fixed one after another, down the tree
template<class S, class St>
inline void contp(vm::E, const S &s, St st, const std::string &p) {
	cont(s, st, p);
}
template<auto Dim, class C, class S, class St>
inline void contp(vm::D<Dim, C>, const S &s, St st, const std::string &p);
template<auto Dim, class... C, class S, class St>
inline void contp(vm::T<Dim, C...>, const S &s, St st, const std::string &p);


template<auto... Dims, class S>
inline void top(const S &s) {
	(..., along<Dims>(s, noarr::empty_state, "S0", "-"));
}

template<auto Dim, class S, class St>
inline void low1(const S &s, St st, const std::string &path) {
	if constexpr (noarr::state_contains<St, noarr::index_in<Dim>>) {
		const std::string d = vm::dname<Dim>();
		const auto st1 = st.template remove<noarr::index_in<Dim>>();
		if constexpr (noarr::HasLowerBoundAlong<S, Dim, decltype(st1)>) {
			vm::ev("B %s %s %lld %lld", path.c_str(), d.c_str(), (long long)noarr::lower_bound_along<Dim>(s, st1),
			       (long long)noarr::lower_bound_at<Dim>(s, st1));
			if constexpr (!vm::is_static_v<decltype(st.template get<noarr::index_in<Dim>>())>) {
				const std::size_t n = s.template length<Dim>(st1);
				const std::size_t k = st.template get<noarr::index_in<Dim>>();
				// ranges that start or end at this index
				for (const auto [a, b] : {std::pair<std::size_t, std::size_t>{k, n}, {0, k + 1}, {k, k + 1}, {k / 2, k + 1}})
					vm::ev("R %s %s %zu %zu %lld %lld", path.c_str(), d.c_str(), a, b,
					       (long long)noarr::lower_bound_along<Dim>(s, st1, a, b), (long long)noarr::lower_bound_at<Dim>(s, st1, a, b));
			}
		}
	}
}
template<auto... Dims, class S, class St>
inline void low(const S &s, St st, const std::string &path) {
	(..., low1<Dims>(s, st, path));
}

template<auto Dim, class C, class S, class St>
inline void contp(vm::D<Dim, C>, const S &s, St st, const std::string &p) {
	cont(s, st, p);
	const auto n = s.template length<Dim>(st);
	for (std::size_t i = 0; i < vm::num(n); i++)
		contp(C{}, s, st.template with<noarr::index_in<Dim>>(i), vm::cat(p, vm::dname<Dim>(), i));
}
template<auto Dim, class... C, class S, class St>
inline void contp(vm::T<Dim, C...>, const S &s, St st, const std::string &p) {
	cont(s, st, p);
	[&]<std::size_t... I>(std::index_sequence<I...>) {
		(..., contp(C{}, s, st.template with<noarr::index_in<Dim>>(noarr::lit<I>), vm::cat(p, vm::dname<Dim>(), I)));
	}(std::index_sequence_for<C...>());
}

} // namespace vmi
#endif
