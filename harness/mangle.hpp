// mangled texts, and comparison of a structure with the one its text denotes
#ifndef VM_MANGLE_HPP
#define VM_MANGLE_HPP
#include "vmon.hpp"
#include <noarr/structures/extra/mangle.hpp>

namespace vm {

template<char... C>
inline std::string packstr(std::integer_sequence<char, C...>) {
	return {C...};
}

// only what mangle_expr is documented to need
struct sink {
	std::string s;
	void push_back(char c) { s.push_back(c); }
	void append(const char *p, std::size_t n) { s.append(p, n); }
};

template<class S>
inline void names(const S &s) {
	using str = noarr::mangle_to_str<S>;
	ev("A %s", packstr(noarr::mangle<S>()).c_str());
	ev("A %s", std::string(str::c_str, str::length).c_str());
	ev("A %s", str::c_str);
	ev("B %s", noarr::mangle_expr<std::string>(s).c_str());
	ev("B %s", noarr::mangle_expr<sink>(s).s.c_str());
}

template<bool Geometry, class Type, class S, class T>
inline void same(const S &s, const T &t) {
	ev("T %d %d", (int)std::is_same_v<S, Type>, (int)std::is_same_v<T, Type>);
	ev("E %s", noarr::mangle_expr<std::string>(t).c_str());
	if constexpr (Geometry) {
	ev("Z %zu %zu", num(s | noarr::get_size()), num(t | noarr::get_size()));
	std::vector<std::size_t> a, b;
	noarr::traverser(s).for_each([&](auto st) { a.push_back(num(s | noarr::offset(st))); });
	noarr::traverser(t).for_each([&](auto st) { b.push_back(num(t | noarr::offset(st))); });
	ev("G %zu %zu %d", a.size(), b.size(), (int)(a == b));
	}
}

} // namespace vm
#endif
