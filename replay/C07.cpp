// Native cross check of C07: at(v, i) and at(m, r, c), reading and writing, in and out of range.
#include "elementwise.hpp"
template <typename R> R toidx(long i) {
  if constexpr (std::is_floating_point_v<R>) { double f = pick(2) ? 0 : (pick(1000)) / 1001.0; return i >= 0 ? i + f : i - f; }
  else return R(i);
}
template <typename T> struct Mk { using V = Vec<T>; };
template <typename T, typename R> void one() {
  M<T> m = random<T>(size(), pick(2));
  Vec<T> v;
  put(v, m);
  long n = m.v.size(), i = long(pick(n + 4)) - 1;
  R x = toidx<R>(i);
  bool in = i >= 1 && i <= n;
  std::string w = "at(" + str(m) + ", " + std::to_string(x) + ")";
  T got{};
  if (threw([&] { got = at(v, x); }, w) == in) mismatch(w + (in ? " threw" : " did not throw"));
  else if (in && !same<T>(got, m.v[i - 1])) mismatch(w + ": wrong value");
  unchanged(w, v, m);
  T y = val<T>();
  if (threw([&] { at(v, x) = y; }, w) == in) mismatch(w + " = .." + (in ? " threw" : " did not throw"));
  else if (in) m.v[i - 1] = y;
  unchanged(w + " = ..", v, m);
}
template <typename T, typename R, typename C> void two() {
  M<T> m = random<T>(size(12), pick(8));
  Vec<T> v;
  put(v, m);
  long n = m.v.size(), i = long(pick((m.im ? m.nr : 3) + 4)) - 1, k = long(pick((m.im ? m.nc : 3) + 4)) - 1;
  R x = toidx<R>(i);
  C z = toidx<C>(k);
  bool in = m.im && i >= 1 && i <= long(m.nr) && k >= 1 && k <= long(m.nc);
  size_t q = in ? (k - 1) * m.nr + i - 1 : 0;
  std::string w = "at(" + str(m) + ", " + std::to_string(x) + ", " + std::to_string(z) + ")";
  T got{};
  if (threw([&] { got = at(v, x, z); }, w) == in) mismatch(w + (in ? " threw" : " did not throw"));
  else if (in && !same<T>(got, m.v[q])) mismatch(w + ": wrong value");
  unchanged(w, v, m);
  if constexpr (std::is_same_v<T, double> && !std::is_same_v<R, size_t>) {
    double g = 0;
    if (threw([&] { g = at(v + v, x, z); }, w) == in) mismatch(w + " of v + v" + (in ? " threw" : " did not throw"));
    else if (in && !same<double>(g, m.v[q] + m.v[q])) mismatch(w + " of v + v: wrong value");
    if (threw([&] { g = at(-v, x, z); }, w) == in) mismatch(w + " of -v" + (in ? " threw" : " did not throw"));
    else if (in && !same<double>(g, -m.v[q])) mismatch(w + " of -v: wrong value");
  }
  T y = val<T>();
  if (threw([&] { at(v, x, z) = y; }, w) == in) mismatch(w + " = .." + (in ? " threw" : " did not throw"));
  else if (in) m.v[q] = y;
  unchanged(w + " = ..", v, m);
  if constexpr (std::is_same_v<T, double>) {
    std::vector<double> mem = m.v;
    WD b(mem.data(), mem.size());
    b.d.setMatrix(m.im, m.nr, m.nc);
    if (threw([&] { got = at(b, x, z); }, w) == in) mismatch(w + " of a borrowed vector" + (in ? " threw" : " did not throw"));
    else if (in && !same<T>(got, m.v[q])) mismatch(w + " of a borrowed vector: wrong value");
  }
}
template <typename T> void all() {
  one<T, int>(); one<T, double>(); one<T, size_t>();
  two<T, int, int>(); two<T, double, int>(); two<T, int, double>(); two<T, double, double>(); two<T, size_t, size_t>();
}
int main() {
  init();
  while (!out_of_time()) { all<double>(); all<int>(); all<bool>(); }
  return finish();
}
