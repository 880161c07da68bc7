#include "rt.hpp"
using namespace rt;
template <typename T> struct Arg { // a random argument and its model
  using E = T;
  M<T> m; Vec<T> v;
  Arg() { m = random<T>(size(7, 3000), pick(3) == 0); if constexpr (std::is_same_v<T, int>) for (T &x : m.v) if (pick(6) == 0) x = int(rng()()); put(v, m); }
  std::string text() { return str(m); }
};
template <typename T> struct Sc { using E = T; T v; M<T> m; Sc() : v(val<T>()) { if constexpr (std::is_same_v<T, int>) if (pick(4) == 0) v = int(rng()()); m.v = {v}; } std::string text() { std::ostringstream o; o.precision(17); o << v; return o.str(); } };
struct Bw { using E = double; M<double> m; std::vector<double> mem; WD v; Bw() : m(random<double>(size())), mem(m.v), v(mem.data(), mem.size()) {} std::string text() { return "borrowed " + str(m); } };
template <typename X> void check(const std::string &w, X &x) { if constexpr (requires { x.v.d; }) unchanged(w, x.v, x.m); }
template <typename R, typename... A, typename F> void cat(F f, A &&...a) {
  using C = std::common_type_t<typename std::remove_reference_t<A>::E...>;
  std::vector<R> e;
  std::string w = "coca(";
  ((w += a.text() + "; "), ...);
  auto one = [&](auto &x) { for (size_t z = 0; z < x.m.v.size(); z++) e.push_back(static_cast<R>(static_cast<C>(x.m.v[z]))); };
  (one(a), ...);
  Vec<R> r;
  if (pick(2)) put(r, random<R>(size(), pick(2)));
  if (threw([&] { f(r); }, w + ")", false)) return;
  expect(w + ")", r, e); expect_shape(w + ")", r, false, 0, 0);
  (check(w + ")", a), ...);
}
#define CAT(R, ...) cat<R>([&](Vec<R> &r) { r = coca(__VA_ARGS__); }
int main() {
  init();
  for (long it = 0; it < 60000 && !out_of_time(); it++) {
    Arg<double> a, b, d; Arg<int> i, j; Arg<bool> l, k; Sc<double> s, t; Sc<int> x, y, z; Sc<bool> p, q; Bw u;
    CAT(double, a.v), a); CAT(double, a.v, b.v), a, b); CAT(double, a.v, b.v, d.v), a, b, d); CAT(double, a.v, s.v), a, s); CAT(double, s.v, a.v), s, a);
    CAT(double, s.v, a.v, t.v, b.v), s, a, t, b); CAT(double, s.v, t.v), s, t); CAT(int, x.v, y.v, z.v), x, y, z); CAT(double, x.v, s.v), x, s);
    CAT(bool, p.v, q.v), p, q); CAT(double, p.v, x.v, s.v), p, x, s); CAT(int, i.v, j.v), i, j); CAT(bool, l.v, k.v), l, k); CAT(double, i.v, b.v), i, b); CAT(double, a.v, j.v), a, j);
    CAT(int, l.v, j.v), l, j); CAT(double, l.v, b.v), l, b); CAT(double, l.v, i.v, b.v), l, i, b); CAT(double, a.v, x.v), a, x); CAT(int, p.v, i.v), p, i); CAT(double, x.v, a.v), x, a);
    CAT(double, i.v, s.v), i, s); CAT(double, i.v, x.v), i, x); CAT(double, u.v, b.v), u, b); CAT(double, coca(a.v, b.v), d.v), a, b, d); CAT(double, a.v, coca(s.v, b.v)), a, s, b);
    CAT(double, coca(i.v, x.v), b.v), i, x, b);
    CAT(double, s.v, x.v), s, x);
    CAT(int, x.v, p.v), x, p);
    CAT(double, s.v, p.v), s, p);
    CAT(int, l.v, x.v), l, x);
    CAT(double, l.v, s.v), l, s);
    CAT(double, s.v, i.v), s, i);
    CAT(double, s.v, l.v), s, l);
    CAT(int, x.v, l.v), x, l);
    CAT(double, p.v, a.v), p, a);
    CAT(double, a.v, p.v), a, p);
    CAT(int, i.v, p.v), i, p);
    CAT(int, i.v, l.v), i, l);
    CAT(double, a.v, l.v), a, l);
    CAT(double, a.v, x.v, y.v), a, x, y);
    CAT(double, x.v, a.v, y.v), x, a, y);
    CAT(double, x.v, y.v, a.v), x, y, a);
    CAT(int, i.v, p.v, q.v), i, p, q);
    CAT(double, p.v, s.v, x.v), p, s, x);
    CAT(double, s.v, p.v, x.v), s, p, x);
    CAT(double, x.v, p.v, s.v), x, p, s);
    CAT(double, s.v, i.v, l.v), s, i, l);
    CAT(double, l.v, s.v, i.v), l, s, i);
    CAT(double, i.v, a.v, l.v), i, a, l);
    CAT(double, a.v, l.v, i.v), a, l, i);
    CAT(int, l.v, k.v, x.v), l, k, x);
    CAT(int, x.v, l.v, p.v), x, l, p);
    CAT(double, x.v, i.v, p.v, a.v), x, i, p, a);
    CAT(double, a.v, p.v, q.v, x.v), a, p, q, x);
    { VD g; put(g, a.m); auto e = a.m.v; e.push_back(s.v); std::string w = "a = coca(a, s) a=" + a.text(); if (!threw([&] { g = coca(g, s.v); }, w, false)) expect(w, g, e); }
    { VD g; put(g, a.m); auto e = a.m.v; e.insert(e.begin(), s.v); std::string w = "a = coca(s, a) a=" + a.text(); if (!threw([&] { g = coca(s.v, g); }, w, false)) expect(w, g, e); }
    { VD g; put(g, a.m); auto e = a.m.v; e.insert(e.end(), a.m.v.begin(), a.m.v.end()); std::string w = "a = coca(a, a) a=" + a.text(); if (!threw([&] { g = coca(g, g); }, w, false)) expect(w, g, e); }
    { std::vector<double> c = a.m.v, e; c.insert(c.end(), b.m.v.begin(), b.m.v.end()); size_t n = std::max(c.size(), d.m.v.size());
      for (size_t h = 0; h < n; h++) e.push_back(c[h % c.size()] + d.m.v[h % d.m.v.size()]);
      VD r; std::string w = "coca(a, b) + d a=" + a.text() + " b=" + b.text() + " d=" + d.text(); if (!threw([&] { r = coca(a.v, b.v) + d.v; }, w, false)) expect(w, r, e);
      c.push_back(s.v); threw([&] { VD o(coca(a.v, b.v, s.v)); expect("VD r(coca(a, b, s)) a=" + a.text() + " b=" + b.text(), o, c); }, "construction", false); }
    { VD g; put(g, a.m); std::vector<double> c = b.m.v, e = a.m.v; c.push_back(s.v); VI o; M<int> mo; for (size_t h = 0; h < c.size(); h++) mo.v.push_back(1 + pick(e.size())); put(o, mo);
      for (size_t h = 0; h < c.size(); h++) e[mo.v[h] - 1] = c[h];
      std::string w = "a[i] = coca(b, s) a=" + a.text() + " b=" + b.text(); if (!threw([&] { subset(g, o) = coca(b.v, s.v); }, w, false)) expect(w, g, e); }
  }
  return finish();
}
