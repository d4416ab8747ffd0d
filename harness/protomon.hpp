#ifndef VM_PROTOMON_HPP
#define VM_PROTOMON_HPP
#include "vmon.hpp"
namespace {
// everything a structure says: lengths, offsets and types of all elements, size
template<class Tree, class S>
void tell(const char *tag, const S &s) {
	vm::ev("B %s", tag);
	vm::walk<Tree>(s, true, [&](auto st, const std::string &p) { vm::ev("O %s %zu %s", p.c_str(), vm::num(s | noarr::offset(st)), vm::elem(s, st)); });
	vm::ev("S %zu", vm::num(s | noarr::get_size()));
}
template<class A, class B>
void same(const char *tag, const A &, const B &) {
	vm::ev("T %s %d", tag, static_cast<int>(std::is_same_v<A, B>));
}
template<class A, class B>
void layout(const A &, const B &) {
	vm::ev("P %d", static_cast<int>((A::proto_preserves_layout && B::proto_preserves_layout) == std::remove_cvref_t<decltype(std::declval<A>() ^ std::declval<B>())>::proto_preserves_layout));
}
template<class P>
void trait(const P &) {
	vm::ev("P %d", static_cast<int>(P::proto_preserves_layout));
}
// may the proto be applied to the bag
template<class Bag, class P>
void accepts(const Bag &, const P &) {
	vm::ev("P %d %d", static_cast<int>(P::proto_preserves_layout), static_cast<int>(requires (const Bag &b, P p) { b ^ p; }));
}
} // namespace
#endif
