// Shared support of the native oracles: real headers of /repo, candidate inputs, reporting.
#pragma once
#include "common.hpp"
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <limits>
#include <random>
#include <sstream>
#include <vector>
namespace rt {
inline std::mt19937_64 &rng() {
  static std::mt19937_64 g(getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1);
  return g;
}
inline std::vector<long> xsizes, xints;
inline std::vector<double> xdbl;
inline double seconds = 60;
inline std::chrono::steady_clock::time_point t0;
inline bool out_of_time(double part = 1.0) {
  return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > seconds * part;
}
inline int bad = 0;
inline void mismatch(const std::string &what) {
  std::cout << "MISMATCH " << what << std::endl;
  if (++bad >= 3) {
    std::cout.flush();
    _Exit(3);
  }
}
inline void init() {
  std::cerr.rdbuf(nullptr);
  t0 = std::chrono::steady_clock::now();
  if (getenv("ETR_SECONDS"))
    seconds = atof(getenv("ETR_SECONDS"));
  if (getenv("ETR_DICT")) {
    std::ifstream f(getenv("ETR_DICT"));
    size_t n;
    if (f >> n)
      for (size_t i = 0; i < n; i++) { long v; f >> v; xsizes.push_back(v); }
    if (f >> n)
      for (size_t i = 0; i < n; i++) { long v; f >> v; xints.push_back(v); }
    if (f >> n)
      for (size_t i = 0; i < n; i++) { double v; f >> v; xdbl.push_back(v); }
  }
}
inline int finish() {
  std::cout << (bad ? "FAILED" : "no mismatch") << std::endl;
  return bad ? 3 : 0;
}
inline size_t pick(size_t n) { return rng()() % n; }
// a size: mostly small, sometimes from the dictionary or larger
inline size_t size(size_t small = 7, size_t cap = 5000) {
  size_t c = pick(20);
  if (c < 13) return 1 + pick(small);
  if (c < 15) return 1 + pick(40);
  if (c < 16) return 1 + pick(std::min<size_t>(cap, 400));
  if (c < 17) { size_t p = size_t(1) << pick(13); p = p + pick(3) - 1; return std::min(std::max<size_t>(p, 1), cap); }
  if (!xsizes.empty()) { size_t s = xsizes[pick(xsizes.size())]; if (s >= 1 && s <= cap) return s; }
  return 1 + pick(small);
}
inline double dval() {
  static const double sp[] = {0.0, -0.0, 1.0, -1.0, 0.5, 2.0, -2.0, 3.0, 1e-3, 0.0005, 1e300, -1e300, 1e-300, 123456789.0,
                              std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
  size_t c = pick(12);
  if (c < 2) return sp[pick(sizeof sp / sizeof *sp)];
  if (c < 5) return double(int(pick(21))) - 10;
  if (c < 6 && !xdbl.empty()) { double b = xdbl[pick(xdbl.size())]; size_t k = pick(4); return k == 0 ? b : k == 1 ? std::nextafter(b, 1e308) : k == 2 ? std::nextafter(b, -1e308) : -b; }
  if (c < 7 && !xints.empty()) return double(xints[pick(xints.size())]) + int(pick(3)) - 1;
  if (c < 8) return std::ldexp((double(pick(2000001)) - 1000000) / 1048576.0, int(pick(120)) - 40);
  return (double(pick(2000001)) - 1000000) / 1024.0;
}
// a value near x
inline double near(double x) {
  static const double ds[] = {0.0, 1e-3, 0.0005, 0.002, 0.1, 0.5, 1.0, 10.0, 1000.0};
  double d = pick(3) == 0 && !xdbl.empty() ? xdbl[pick(xdbl.size())] : ds[pick(sizeof ds / sizeof *ds)];
  switch (pick(5)) { case 0: return x + d; case 1: return x - d; case 2: return x * (1 + d); case 3: return std::nextafter(x, d); default: return std::nextafter(x + d, pick(2) ? x : 1e300); }
}
// finite moderate value
inline double fval() { double v; do v = dval(); while (!(std::fabs(v) < 1e8)); return v; }
inline int ival() {
  size_t c = pick(12);
  if (c < 1 && !xints.empty()) return int(xints[pick(xints.size())]) + int(pick(3)) - 1;
  if (c < 2) return int(pick(200001)) - 100000;
  return int(pick(41)) - 20;
}
template <typename T> struct M { // model of a vector
  std::vector<T> v;
  bool im = false;
  size_t nr = 0, nc = 0;
};
template <typename T> T val();
template <> inline double val<double>() { return dval(); }
template <> inline int val<int>() { return ival(); }
template <> inline bool val<bool>() { return pick(2); }
template <typename T> M<T> random(size_t n, bool mat = false) {
  M<T> m;
  for (size_t i = 0; i < n; i++) m.v.push_back(val<T>());
  if (mat && n) {
    std::vector<size_t> ds;
    for (size_t d = 1; d <= n; d++) if (n % d == 0) ds.push_back(d);
    m.nr = ds[pick(ds.size())];
    m.nc = n / m.nr;
    m.im = true;
  }
  return m;
}
// put a model into a real vector in one of several histories
template <typename V, typename T> void put(V &x, const M<T> &m, bool prior = true) {
  if (prior && pick(3) == 0) { x.resize(1 + pick(2 * m.v.size() + 2)); }
  if (prior && pick(3) == 0) { V y; y.resize(1 + pick(2 * m.v.size() + 2)); x = y; }
  x.resize(m.v.size());
  for (size_t i = 0; i < m.v.size(); i++) x.d.p[i] = m.v[i];
  x.d.setMatrix(m.im, m.im ? m.nr : 0, m.im ? m.nc : 0);
}
template <typename T> bool same(T a, T b) {
  if constexpr (std::is_floating_point_v<T>) {
    if (std::isnan(a) && std::isnan(b)) return true;
  }
  return a == b;
}
template <typename T> std::string str(const std::vector<T> &v) {
  std::ostringstream o;
  o.precision(17);
  o << "[" << v.size() << "]{";
  for (size_t i = 0; i < v.size() && i < 12; i++) o << (i ? "," : "") << v[i];
  o << (v.size() > 12 ? ",..}" : "}");
  return o.str();
}
template <typename T> std::string str(const M<T> &m) {
  std::ostringstream o;
  o << str(m.v);
  if (m.im) o << " " << m.nr << "x" << m.nc;
  return o.str();
}
template <typename V> auto got(const V &x) {
  using E = std::remove_reference_t<decltype(*x.d.p)>;
  M<E> m;
  for (size_t i = 0; i < x.d.sz; i++) m.v.push_back(x.d.p[i]);
  m.im = x.d.mp.ismatrix;
  m.nr = x.d.mp.rows;
  m.nc = x.d.mp.cols;
  return m;
}
template <typename V, typename T> bool expect(const std::string &what, const V &x, const std::vector<T> &e, bool invariant = true) {
  if (x.d.sz > x.d.capacity || (x.d.sz && (!x.d.p || !x.d.allocated))) {
    mismatch(what + ": broken vector, size " + std::to_string(x.d.sz) + " capacity " + std::to_string(x.d.capacity));
    return false;
  }
  if (x.size() != e.size()) {
    mismatch(what + ": size " + std::to_string(x.size()) + ", expected " + std::to_string(e.size()));
    return false;
  }
  for (size_t i = 0; i < e.size(); i++) {
    if (!same<T>(static_cast<T>(x.d.p[i]), e[i])) {
      std::ostringstream o;
      o.precision(17);
      o << what << ": element " << i + 1 << " is " << x.d.p[i] << ", expected " << e[i];
      mismatch(o.str());
      return false;
    }
  }
  return true;
}
template <typename V> void expect_shape(const std::string &what, const V &x, bool im, size_t nr, size_t nc) {
  if (bool(x.im()) != im || (im && (x.nr() != nr || x.nc() != nc)))
    mismatch(what + ": shape " + (x.im() ? std::to_string(x.nr()) + "x" + std::to_string(x.nc()) : std::string("vector")) + ", expected " +
             (im ? std::to_string(nr) + "x" + std::to_string(nc) : std::string("vector")));
}
template <typename V, typename T> void unchanged(const std::string &what, const V &x, const M<T> &m) {
  expect(what + ": operand changed", x, m.v);
  expect_shape(what + ": operand changed", x, m.im, m.nr, m.nc);
}
// run f; true when it threw
inline bool threw(const std::function<void()> &f, const std::string &what = "", bool allowed = true) {
  try {
    f();
    return false;
  } catch (const std::exception &e) {
    if (!allowed) mismatch(what + ": threw '" + e.what() + "'");
    return true;
  }
}
} // namespace rt
