// what a signature says
#ifndef VM_SIGMON_HPP
#define VM_SIGMON_HPP
#include "vmon.hpp"
#include <noarr/structures/extra/struct_concepts.hpp>
#include <noarr/structures/extra/struct_traits.hpp>

namespace vm {

template<class S>
struct sigtext;
template<class V>
struct sigtext<noarr::scalar_sig<V>> {
	static std::string get() { return std::string("S ") + tn<V>(); }
};
template<auto D, class L, class R>
struct sigtext<noarr::function_sig<D, L, R>> {
	static std::string get() {
		std::string l = "?";
		if constexpr (L::is_static)
			l = std::to_string(L::value);
		return "F " + dname<D>() + " " + l + " " + sigtext<R>::get();
	}
};
template<auto D, class... R>
struct sigtext<noarr::dep_function_sig<D, R...>> {
	static std::string get() {
		std::string s = "D " + dname<D>() + " " + std::to_string(sizeof...(R));
		((s += " " + sigtext<R>::get()), ...);
		return s;
	}
};

template<class S>
struct mark;
template<auto D, class L, class R>
struct mark<noarr::function_sig<D, L, R>> {
	using type = noarr::function_sig<'~', L, R>;
};
template<auto D, class... R>
struct mark<noarr::dep_function_sig<D, R...>> {
	using type = noarr::dep_function_sig<'~', R...>;
};

template<class DS, auto D>
void dimtraits() {
	using S = typename DS::signature;
	ev("T %s %d %d %d", dname<D>().c_str(), int(S::template any_accept<D>), int(S::template all_accept<D>), int(noarr::HasDims<DS, D>));
	ev("R %s %s", dname<D>().c_str(), sigtext<typename S::template replace<mark, D>>::get().c_str());
}

template<class Tree, auto... Dims, class S>
void sigs(const S &s) {
	using Sig = typename S::signature;
	ev("G %s", sigtext<Sig>::get().c_str());
	ev("P %d %d %d %d", int(noarr::is_point<S>::value), int(noarr::is_cube<S>::value), int(noarr::sig_is_point<Sig>::value), int(noarr::sig_is_cube<Sig>::value));
	(dimtraits<S, Dims>(), ...);
	dimtraits<S, '~'>();
	ev("H %d", int(noarr::HasDims<S, Dims...>));
	walk<Tree>(s, true, [&](auto st, const std::string &p) {
		using St = decltype(st);
		ev("E %s %s %s", p.c_str(), tn<noarr::scalar_t<S, St>>(), tn<typename noarr::sig_get_scalar<Sig, St>::type>());
	});
}

} // namespace vm
#endif
