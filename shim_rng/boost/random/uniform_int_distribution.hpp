// Random draws become free inputs: any value the distribution can return.
#pragma once
#include "sym.h"
namespace boost { namespace random {
template <class T = int> class uniform_int_distribution { T a_, b_;
  public: typedef T result_type; explicit uniform_int_distribution(T a = 0, T b = 2147483647) : a_(a), b_(b) {}
    template <class G> T operator()(G &&) { return a_ == b_ ? a_ : (T)sym_int("draw", a_, b_); } };
} using random::uniform_int_distribution; }
