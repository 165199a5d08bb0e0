// Sequential model of the range type, for the analysis of reductions.
#pragma once
#include <cstddef>
namespace tbb {
template <typename T>
class blocked_range {
 public:
  using const_iterator = T;
  using size_type = std::size_t;
  blocked_range(T b, T e, std::size_t = 1) : b_(b), e_(e) {}
  T begin() const { return b_; }
  T end() const { return e_; }
  std::size_t size() const { return e_ - b_; }
  bool empty() const { return !(b_ < e_); }

 private:
  T b_, e_;
};
}  // namespace tbb
