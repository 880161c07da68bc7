// oracles for element-wise operations on random operands
#pragma once
#include "rt.hpp"
#include <cmath>
using namespace rt;
template <typename V> struct El;
template <> struct El<VD> { using T = double; };
template <> struct El<VI> { using T = int; };
template <> struct El<VB> { using T = bool; };
template <typename R, typename A, typename B, typename F, typename G> void bin(const char *nm, F f, G g) {
  using TA = typename El<A>::T; using TB = typename El<B>::T; using TR = typename El<R>::T;
  auto ma = random<TA>(size(), pick(4) == 0);
  auto mb = random<TB>(size(), pick(4) == 0);
  if constexpr (std::is_same_v<TB, double>)
    if (pick(3) == 0) for (size_t i = 0; i < mb.v.size(); i++) if (pick(2)) mb.v[i] = near(ma.v[i % ma.v.size()]);
  A a; B b; R r;
  put(a, ma); put(b, mb);
  if (pick(2)) put(r, random<TR>(size(), pick(2)));
  std::string w = std::string(nm) + " a=" + str(ma) + " b=" + str(mb);
  std::vector<TR> e;
  size_t n = std::max(ma.v.size(), mb.v.size());
  for (size_t i = 0; i < n; i++) e.push_back(g(ma.v[i % ma.v.size()], mb.v[i % mb.v.size()]));
  if (threw([&] { f(r, a, b); }, w, false)) return;
  expect(w, r, e); unchanged(w, a, ma); unchanged(w, b, mb);
}
template <typename R, typename A, typename S, typename F, typename G> void scax(const char *nm, F f, G g) {
  using TA = typename El<A>::T; using TR = typename El<R>::T;
  auto ma = random<TA>(size(), pick(4) == 0);
  S s = val<S>();
  A a; R r; put(a, ma);
  if (pick(2)) put(r, random<TR>(size(), pick(2)));
  std::ostringstream o;
  o.precision(17);
  o << nm << " a=" << str(ma) << " s=" << s;
  std::string w = o.str();
  std::vector<TR> e;
  for (TA x : ma.v) e.push_back(g(x, s));
  if (threw([&] { f(r, a, s); }, w, false)) return;
  expect(w, r, e); unchanged(w, a, ma);
}
template <typename F, typename G> void sca(const char *nm, F f, G g) { scax<VD, VD, double>(nm, f, g); }
template <typename F, typename G> void una(const char *nm, F f, G g) {
  auto ma = random<double>(size(), pick(2) == 0);
  VD a, r; put(a, ma);
  if (pick(2)) put(r, random<double>(size(), pick(2)));
  std::string w = std::string(nm) + " a=" + str(ma);
  std::vector<double> e;
  for (double x : ma.v) e.push_back(g(x));
  if (threw([&] { f(r, a); }, w, false)) return;
  expect(w, r, e); expect_shape(w, r, ma.im, ma.nr, ma.nc); unchanged(w, a, ma);
}
