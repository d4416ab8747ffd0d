// Event recorder used by every generated monitor program.
// Only the public API of the library is used; all events go to a log that the Python oracles check.
#ifndef VMON_HPP
#define VMON_HPP

#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <iterator>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <noarr/structures_extended.hpp>
#include <noarr/traversers.hpp>
#include <noarr/structures/structs/zcurve.hpp>
#include <noarr/structures/structs/bcast.hpp>

namespace vm {

inline std::FILE *out = nullptr;
inline std::size_t n_events = 0;
inline std::size_t max_events = 3000000;

template<std::size_t N>
struct bytes {
	unsigned char v[N];
	friend bool operator==(const bytes &, const bytes &) = default;
};
template<std::size_t N>
struct words {
	std::uint32_t v[N];
	friend bool operator==(const words &, const words &) = default;
};

struct alignas(16) quad {
	std::uint32_t v[4];
	friend bool operator==(const quad &, const quad &) = default;
};

// enumeration trees given by the oracle
struct E {};
template<auto Dim, class C>
struct D {};
template<auto Dim, class... C>
struct T {};

inline void count() {
	if (++n_events > max_events) {
		std::fprintf(out, "!overflow\n");
		std::fflush(out);
		std::_Exit(77);
	}
}

template<class... A>
inline void ev(const char *fmt, A... a) {
	count();
	if constexpr (sizeof...(A) == 0)
		std::fputs(fmt, out);
	else
		std::fprintf(out, fmt, a...);
	std::fputc('\n', out);
}

// dimensions that are objects: noarr::dim<Tag>, the tag is (or carries) the letter the oracle uses
template<char C>
struct tg {};
template<char C>
constexpr char letter(tg<C>) { return C; }
constexpr char letter(int c) { return static_cast<char>(c); }

template<auto Dim>
inline std::string dname() {
	if constexpr (std::is_same_v<decltype(Dim), const char> || std::is_same_v<decltype(Dim), char>)
		return std::string(1, Dim);
	else if constexpr (requires { letter(Dim.tag); })
		return std::string(1, letter(Dim.tag));
	else
		return "#";
}

template<class X>
constexpr bool is_static_v = requires { std::integral_constant<std::size_t, X::value>{}; };

template<class X>
inline std::size_t num(X x) {
	return static_cast<std::size_t>(x);
}

// path of the indices in a state, in the order of the given dims, e.g. "i3,j2"; '?' if absent
template<auto Dim, class St>
inline void idx1(std::string &s, St st) {
	if constexpr (noarr::state_contains<St, noarr::index_in<Dim>>) {
		if (!s.empty())
			s += ',';
		s += dname<Dim>() + std::to_string(num(st.template get<noarr::index_in<Dim>>()));
	}
}
template<auto... Dims, class St>
inline std::string path(St st) {
	std::string s;
	(..., idx1<Dims>(s, st));
	return s.empty() ? "-" : s;
}

// ---- enumerate a structure along an oracle-given tree, recording lengths and calling leaf(state, path)
template<class S, class St, class F>
inline void walk(E, const S &, St st, const std::string &p, bool, const F &leaf) {
	leaf(st, p);
}
template<auto Dim, class C, class S, class St, class F>
inline void walk(D<Dim, C>, const S &s, St st, const std::string &p, bool lens, const F &leaf);
template<auto Dim, class... C, class S, class St, class F>
inline void walk(T<Dim, C...>, const S &s, St st, const std::string &p, bool lens, const F &leaf);

inline std::string cat(const std::string &p, const std::string &d, std::size_t i) {
	return (p == "-" ? std::string() : p + ",") + d + std::to_string(i);
}

template<auto Dim, class C, class S, class St, class F>
inline void walk(D<Dim, C>, const S &s, St st, const std::string &p, bool lens, const F &leaf) {
	const auto n = s.template length<Dim>(st);
	if (lens)
		ev("L %s %s %zu", p.c_str(), dname<Dim>().c_str(), num(n));
	for (std::size_t i = 0; i < num(n); i++)
		walk(C{}, s, st.template with<noarr::index_in<Dim>>(i), cat(p, dname<Dim>(), i), lens, leaf);
}
template<auto Dim, class... C, class S, class St, class F>
inline void walk(T<Dim, C...>, const S &s, St st, const std::string &p, bool lens, const F &leaf) {
	const auto n = s.template length<Dim>(st);
	if (lens)
		ev("L %s %s %zu", p.c_str(), dname<Dim>().c_str(), num(n));
	[&]<std::size_t... I>(std::index_sequence<I...>) {
		(..., walk(C{}, s, st.template with<noarr::index_in<Dim>>(noarr::lit<I>), cat(p, dname<Dim>(), I), lens, leaf));
	}(std::index_sequence_for<C...>());
}
template<class Tree, class S, class F>
inline void walk(const S &s, bool lens, const F &leaf) {
	walk(Tree{}, s, noarr::empty_state, "-", lens, leaf);
}

// value pattern unique per element: fill every byte from a running id
template<class X>
inline X mk(std::uint64_t id) {
	X x;
	if constexpr (std::is_arithmetic_v<X>) {
		return static_cast<X>(id);
	} else {
		unsigned char b[sizeof(X)];
		for (std::size_t i = 0; i < sizeof(X); i++)
			b[i] = static_cast<unsigned char>((id >> (8 * (i % 8))) ^ (i / 8 * 37));
		std::memcpy(&x, b, sizeof(X));
		return x;
	}
}

// name of an element type, as the oracle spells it
template<class X>
constexpr const char *tn() {
	if constexpr (std::is_same_v<X, char>) return "char";
	else if constexpr (std::is_same_v<X, short>) return "short";
	else if constexpr (std::is_same_v<X, int>) return "int";
	else if constexpr (std::is_same_v<X, float>) return "float";
	else if constexpr (std::is_same_v<X, double>) return "double";
	else if constexpr (std::is_same_v<X, long long>) return "ll";
	else if constexpr (std::is_same_v<X, bytes<3>>) return "b3";
	else if constexpr (std::is_same_v<X, words<3>>) return "b12";
	else if constexpr (std::is_same_v<X, quad>) return "q16";
	else if constexpr (std::is_same_v<X, unsigned char>) return "uchar";
	else if constexpr (std::is_same_v<X, unsigned>) return "u";
	else if constexpr (std::is_same_v<X, std::uint16_t>) return "u16";
	else if constexpr (std::is_same_v<X, std::uint64_t>) return "u64";
	else return "other";
}
template<class S, class St>
constexpr const char *elem(const S &s, St st) {
	return tn<std::remove_reference_t<decltype(s | noarr::get_at((void *)nullptr, st))>>();
}

template<class X>
inline std::string hex(const X &x) {
	unsigned char b[sizeof(X)];
	std::memcpy(b, &x, sizeof(X));
	std::string s;
	for (unsigned char c : b) {
		char h[3];
		std::snprintf(h, 3, "%02x", c);
		s += h;
	}
	return s;
}

struct entry {
	const char *name;
	void (*fn)(const std::size_t *p);
};

inline int run(int argc, char **argv, const entry *tab, std::size_t ntab) {
	if (argc < 3)
		return 64;
	std::FILE *in = std::fopen(argv[1], "r");
	out = std::fopen(argv[2], "w");
	if (!in || !out)
		return 65;
	static char obuf[1 << 20];
	std::setvbuf(out, obuf, _IOFBF, sizeof obuf);
	char name[256];
	std::size_t pset, np;
	while (std::fscanf(in, "%255s %zu %zu", name, &pset, &np) == 3) {
		std::vector<std::size_t> p(np + 1);
		for (std::size_t i = 0; i < np; i++)
			if (std::fscanf(in, "%zu", &p[i]) != 1)
				return 66;
		std::fprintf(out, "@ %s %zu\n", name, pset);
		std::fflush(out);
		n_events = 0;
		bool found = false;
		for (std::size_t i = 0; i < ntab; i++)
			if (!std::strcmp(tab[i].name, name)) {
				found = true;
				try {
					tab[i].fn(p.data());
				} catch (const std::exception &e) {
					std::fprintf(out, "X %s\n", e.what());
				} catch (...) {
					std::fprintf(out, "X unknown exception\n");
				}
			}
		if (!found)
			return 67;
		std::fprintf(out, ".\n");
	}
	std::fprintf(out, "@end\n");
	std::fclose(out);
	return 0;
}

} // namespace vm

#endif
