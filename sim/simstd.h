// Force-included in front of the library.  shrink_to_fit of this standard library
// keeps any exception to itself, also the one that ends a thread, upon which the
// process is aborted.  That is not the library's doing: pass this one on.
#pragma once
#include <cxxabi.h>

#include <deque>
#include <vector>

namespace simrt {
template<class C>
bool shrink(C &c) {
  try {
    C(std::__make_move_if_noexcept_iterator(c.begin()), std::__make_move_if_noexcept_iterator(c.end()), c.get_allocator()).swap(c);
    return true;
  } catch (const abi::__forced_unwind &) {
    throw;
  } catch (...) {
    return false;
  }
}
}  // namespace simrt
namespace std {
template<class T, class A>
struct __shrink_to_fit_aux<vector<T, A>, true> {
  static bool _S_do_it(vector<T, A> &c) { return simrt::shrink(c); }
};
template<class T, class A>
struct __shrink_to_fit_aux<deque<T, A>, true> {
  static bool _S_do_it(deque<T, A> &c) { return simrt::shrink(c); }
};
}  // namespace std
