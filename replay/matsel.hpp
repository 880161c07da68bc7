// random matrices and selections of rows and columns
#pragma once
#include "rt.hpp"
using namespace rt;
inline size_t axis() { return pick(8) ? 1 + pick(5) : std::min<size_t>(size(), 60); }
inline M<double> matrix_model(size_t nr, size_t nc) {
  M<double> m;
  for (size_t i = 0; i < nr * nc; i++) m.v.push_back(val<double>());
  m.im = true; m.nr = nr; m.nc = nc;
  return m;
}
// kinds: 0 TRUE, 1 int, 2 double, 3 vector of int, 4 of double, 5 of bool
constexpr bool plain(int k) { return k == 1 || k == 2; }
template <int K> struct ArgOf { using T = bool; };
template <> struct ArgOf<1> { using T = int; };
template <> struct ArgOf<2> { using T = double; };
template <> struct ArgOf<3> { using T = VI; };
template <> struct ArgOf<4> { using T = VD; };
template <> struct ArgOf<5> { using T = VB; };
inline double frac() { static const double f[] = {0.0, 0.0, 0.5, 0.25, 0.999}; return f[pick(5)]; }
template <int K> struct Sel {
  typename ArgOf<K>::T arg;
  std::vector<size_t> pos;
  std::string text;
  Sel(size_t n) {
    std::ostringstream o;
    if constexpr (K == 0) {
      arg = true;
      for (size_t i = 0; i < n; i++) pos.push_back(i);
      o << "TRUE";
    } else if constexpr (K == 1) {
      arg = 1 + pick(n);
      pos = {size_t(arg) - 1};
      o << "int " << arg;
    } else if constexpr (K == 2) {
      arg = 1 + pick(n) + frac();
      pos = {size_t(arg) - 1};
      o << "double " << arg;
    } else if constexpr (K == 5) {
      M<bool> m = random<bool>(n);
      m.v[pick(n)] = true;
      for (size_t i = 0; i < n; i++) if (m.v[i]) pos.push_back(i);
      put(arg, m);
      o << "bool " << str(m);
    } else {
      using E = std::conditional_t<K == 3, int, double>;
      M<E> m;
      size_t c = 1 + pick(2 * n + 1);
      for (size_t i = 0; i < c; i++) { size_t p = pick(n); pos.push_back(p); m.v.push_back(K == 3 ? E(p + 1) : E(p + 1 + frac())); }
      put(arg, m);
      o << (K == 3 ? "int " : "double ") << str(m);
    }
    text = o.str();
  }
};
