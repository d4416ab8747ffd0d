// serialization harness: element types with text forms, streams that fail, memory dumps
#ifndef VM_SER_HPP
#define VM_SER_HPP
#include "vmon.hpp"
#include <istream>
#include <ostream>
#include <sstream>
#include <streambuf>
#include <noarr/structures/interop/bag.hpp>
#include <noarr/structures/interop/serialize_data.hpp>

namespace vm {

inline void puthex(std::ostream &o, const void *d, std::size_t n) {
	static const char H[] = "0123456789abcdef";
	std::string s;
	for (std::size_t i = 0; i < n; i++) {
		const unsigned char c = static_cast<const unsigned char *>(d)[i];
		s += H[c >> 4];
		s += H[c & 15];
	}
	o << s;
}
inline bool gethex(std::istream &in, void *d, std::size_t n) {
	std::string s;
	if (!(in >> s))
		return false;
	bool ok = s.size() == 2 * n;
	for (char c : s)
		ok = ok && std::strchr("0123456789abcdef", c);
	if (!ok) {
		in.setstate(std::ios::failbit);
		return false;
	}
	for (std::size_t i = 0; i < n; i++)
		static_cast<unsigned char *>(d)[i] = static_cast<unsigned char>(std::stoul(s.substr(2 * i, 2), nullptr, 16));
	return true;
}
template<std::size_t N>
std::ostream &operator<<(std::ostream &o, const bytes<N> &b) {
	puthex(o, b.v, N);
	return o;
}
template<std::size_t N>
std::istream &operator>>(std::istream &i, bytes<N> &b) {
	gethex(i, b.v, N);
	return i;
}
template<std::size_t N>
std::ostream &operator<<(std::ostream &o, const words<N> &b) {
	puthex(o, b.v, 4 * N);
	return o;
}
template<std::size_t N>
std::istream &operator>>(std::istream &i, words<N> &b) {
	gethex(i, b.v, 4 * N);
	return i;
}

inline std::ostream &operator<<(std::ostream &o, const quad &b) {
	puthex(o, b.v, 16);
	return o;
}
inline std::istream &operator>>(std::istream &i, quad &b) {
	gethex(i, b.v, 16);
	return i;
}

// exactly sized heap block, so that ASan sees accesses outside of it
struct arena {
	std::unique_ptr<unsigned char[]> m;
	std::size_t n;
	explicit arena(std::size_t n, unsigned char fill = 0xA5) : m(new unsigned char[n]), n(n) { std::memset(m.get(), fill, n); }
	void *get() { return m.get(); }
};
inline void dump(const char *what, const void *d, std::size_t n) {
	std::ostringstream o;
	puthex(o, d, n);
	ev("%s %s", what, o.str().c_str());
}
inline void text(const char *what, std::string s) {
	for (char &c : s)
		if (c == '\n')
			c = '|';
	ev("%s %s", what, s.c_str());
}
// a sink that takes only `cap` characters
struct capbuf : std::streambuf {
	std::string s;
	std::size_t cap;
	explicit capbuf(std::size_t cap) : cap(cap) {}
	int overflow(int c) override {
		if (s.size() >= cap)
			return traits_type::eof();
		s += static_cast<char>(c);
		return c;
	}
};

// everything about one structure: text = valid input + " 777", part = an input that ends or is malformed in the middle
template<class S>
inline void serial(const S &s, std::size_t size, const char *good, const char *part, std::size_t cap) {
	arena a(size), b(size), c(size), d(size);
	{
		std::istringstream in(good);
		auto &r = noarr::deserialize_data(in, s, a.get());
		std::string rest;
		in >> rest;
		ev("I %d %s", (int)(&r == &in), rest.c_str());
		dump("M", a.get(), size);
	}
	{
		std::ostringstream o;
		auto &r = noarr::serialize_data(o, s, (const void *)a.get());
		ev("J %d", (int)(&r == &o));
		text("T", o.str());
	}
	{
		const auto bag = noarr::make_bag(s, b.get());
		std::istringstream in(good);
		noarr::deserialize_data(in, bag);
		dump("M", b.get(), size);
		std::ostringstream o;
		noarr::serialize_data(o, bag) << "end";
		text("U", o.str());
		const auto own = noarr::make_bag(s);
		std::istringstream in2(good);
		noarr::deserialize_data(in2, own);
		std::ostringstream o2;
		noarr::serialize_data(o2, noarr::make_bag(s, (const void *)own.data()));
		text("T", o2.str());
		dump("M", b.get(), size);
	}
	{
		std::istringstream in(part);
		noarr::deserialize_data(in, s, c.get());
		ev("F %d", (int)in.fail());
		dump("P", c.get(), size);
	}
	{
		std::istringstream in(part);
		in.exceptions(std::ios::failbit);
		int thrown = 0;
		try {
			noarr::deserialize_data(in, s, d.get());
		} catch (const std::ios::failure &) {
			thrown = 1;
		}
		ev("H %d", thrown);
		dump("P", d.get(), size);
	}
	for (int ex = 0; ex < 2; ex++) {
		capbuf cb(cap);
		std::ostream o(&cb);
		int thrown = 0;
		try {
			if (ex)
				o.exceptions(std::ios::badbit | std::ios::failbit);
			noarr::serialize_data(o, s, (const void *)a.get());
		} catch (const std::ios::failure &) {
			thrown = 1;
		}
		ev("Y %d %d", (int)!o, thrown);
		text("K", cb.s);
	}
}

// the same text read into another layout
template<class S1, class S2>
inline void relay(const S1 &s1, const S2 &s2, std::size_t n1, std::size_t n2) {
	arena a(n1), b(n2), c(n1);
	std::size_t k = 0;
	noarr::traverser(s1).for_each([&](auto st) { (s1 | noarr::get_at(a.get(), st)) = (int)(k++ * 37 - 50); });
	std::stringstream t1, t2;
	noarr::serialize_data(t1, s1, a.get());
	noarr::deserialize_data(t1, s2, b.get());
	k = 0;
	noarr::traverser(s2).for_each([&](auto st) { ev("E %d", (int)((s2 | noarr::get_at(b.get(), st)) - (int)(k++ * 37 - 50))); });
	noarr::serialize_data(t2, s2, b.get());
	noarr::deserialize_data(t2, s1, c.get());
	ev("Q %d", std::memcmp(a.get(), c.get(), n1));
}

} // namespace vm
#endif
