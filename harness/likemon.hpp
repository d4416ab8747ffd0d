#ifndef VM_LIKEMON_HPP
#define VM_LIKEMON_HPP
#include "vmon.hpp"
namespace {
// everything a structure says: offsets of all elements, size
template<class Tree, class S>
void show(const char *tag, const S &s) {
	vm::walk<Tree>(s, false, [&](auto st, const std::string &p) { vm::ev("E %s %s %zu", tag, p.c_str(), vm::num(s | noarr::offset(st))); });
	vm::ev("Z %s %zu", tag, vm::num(s | noarr::get_size()));
}
} // namespace
#endif
