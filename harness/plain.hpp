#ifndef VM_PLAIN_HPP
#define VM_PLAIN_HPP
#include <array>
#include <bit>
#include <tuple>
#include "vmon.hpp"
namespace {
// the promises of the manual: standard layout, trivial to copy and destroy, no space for what is known statically
template<class S>
void traits(const char *tag, const S &) {
	static_assert(std::is_same_v<S, std::remove_cvref_t<S>>);
	vm::ev("Q %s %d%d%d%d %d %zu", tag, int(std::is_standard_layout_v<S>), int(std::is_trivially_copyable_v<S>), int(std::is_trivially_destructible_v<S>),
		int(std::is_trivially_copy_constructible_v<S> && std::is_trivially_move_constructible_v<S>), int(std::is_empty_v<S>), sizeof(S));
}
template<class Tree, class S>
void tell(const char *tag, const S &s) {
	vm::ev("B %s", tag);
	vm::walk<Tree>(s, true, [&](auto st, const std::string &p) { vm::ev("O %s %zu %s", p.c_str(), vm::num(s | noarr::offset(st)), vm::elem(s, st)); });
	vm::ev("S %zu", vm::num(s | noarr::get_size()));
}
// the bytes of an object, taken to another place
template<class S>
struct carried {
	alignas(S) std::array<unsigned char, sizeof(S)> a{}, b{};
	explicit carried(const S &s) {
		S tmp(s);
		std::memcpy(a.data(), &tmp, sizeof(S));
		std::memset(static_cast<void *>(&tmp), 0x5a, sizeof(S));
		b = a;
		a.fill(0xa5);
	}
	S get() const { return std::bit_cast<S>(b); }
};
// the walk of vm::walk, evaluated by the compiler
template<class S, class St, class F>
constexpr void cwalk(vm::E, const S &, St st, F &leaf) {
	leaf(st);
}
template<auto Dim, class C, class S, class St, class F>
constexpr void cwalk(vm::D<Dim, C>, const S &s, St st, F &leaf);
template<auto Dim, class... C, class S, class St, class F>
constexpr void cwalk(vm::T<Dim, C...>, const S &s, St st, F &leaf);
template<auto Dim, class C, class S, class St, class F>
constexpr void cwalk(vm::D<Dim, C>, const S &s, St st, F &leaf) {
	const std::size_t n = s.template length<Dim>(st);
	for (std::size_t i = 0; i < n; i++)
		cwalk(C{}, s, st.template with<noarr::index_in<Dim>>(i), leaf);
}
template<auto Dim, class... C, class S, class St, class F>
constexpr void cwalk(vm::T<Dim, C...>, const S &s, St st, F &leaf) {
	[&]<std::size_t... I>(std::index_sequence<I...>) {
		(..., cwalk(C{}, s, st.template with<noarr::index_in<Dim>>(noarr::lit<I>), leaf));
	}(std::index_sequence_for<C...>());
}
template<class Tree, class S>
constexpr std::size_t ccount(const S &s) {
	std::size_t n = 0;
	auto leaf = [&](auto) { n++; };
	cwalk(Tree{}, s, noarr::empty_state, leaf);
	return n;
}
template<class Tree, std::size_t N, class S>
constexpr std::array<std::size_t, N + 1> coffsets(const S &s) {
	std::array<std::size_t, N + 1> a{};
	std::size_t n = 0;
	auto leaf = [&](auto st) { a[n++] = s | noarr::offset(st); };
	cwalk(Tree{}, s, noarr::empty_state, leaf);
	a[n] = s | noarr::get_size();
	return a;
}
template<std::size_t N>
struct nil {
	static constexpr std::size_t id = N;
};
} // namespace
#endif
