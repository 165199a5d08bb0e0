// A reduction runs its body on parts of the range, each starting from the identity, and joins the results.
#pragma once
#include <tbb/blocked_range.h>
namespace tbb {
template <typename R, typename V, typename F, typename J>
V parallel_reduce(const R& r, const V& identity, const F& body, const J& join) {
  auto mid = r.begin() + (r.end() - r.begin()) / 2;
  return join(body(R(r.begin(), mid), identity), body(R(mid, r.end()), identity));
}
}  // namespace tbb
