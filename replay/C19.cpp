#include "rt.hpp"
using namespace rt;
struct Na { static bool f(double x) { return x != x; } template <typename T> static auto g(T &&x) { return isNA(std::forward<T>(x)); } static constexpr const char *n = "isNA"; };
struct In { static bool f(double x) { return x == INFINITY || x == -INFINITY; } template <typename T> static auto g(T &&x) { return isInf(std::forward<T>(x)); } static constexpr const char *n = "isInf"; };
static size_t len() { return pick(8) == 0 ? 0 : size(); }
template <typename F, typename T> void scalar() {
  T x = val<T>();
  if (std::is_same_v<T, double> && pick(2)) { static const double s[] = {NAN, -NAN, INFINITY, -INFINITY, 1.7976931348623157e308, -1.7976931348623157e308, 5e-324, 0.0}; x = T(s[pick(8)]); }
  if (F::g(T(x)) != F::f(double(x))) mismatch(std::string(F::n) + "(" + std::to_string(x) + ")");
}
template <typename F, typename T> void vec() {
  M<T> m = random<T>(size(), true);
  if (pick(2)) { m.im = false; m.nr = m.nc = 0; }
  if constexpr (std::is_same_v<T, double>) for (T &x : m.v) if (pick(5) == 0) { static const double s[] = {NAN, INFINITY, -INFINITY, 1.7976931348623157e308}; x = s[pick(4)]; }
  Vec<T> v; put(v, m);
  std::vector<bool> e;
  for (size_t i = 0; i < m.v.size(); i++) e.push_back(F::f(double(m.v[i])));
  std::string w = std::string(F::n) + "(" + str(m) + ")";
  VB r;
  if (pick(2)) put(r, random<bool>(size(), pick(2)));
  if (!threw([&] { r = F::g(v); }, w, false)) expect(w, r, e);
  unchanged(w, v, m);
  const Vec<T> &c = v;
  if (!threw([&] { r = F::g(c); }, w + " const", false)) expect(w + " const", r, e);
  VB q(F::g(v));
  expect(w + " constructed", q, e);
  if constexpr (std::is_same_v<T, bool>) { if (!threw([&] { v = F::g(v); }, w + " itself", false)) expect(w + " itself", v, e); }
  if constexpr (std::is_same_v<T, double>) {
    if (m.v.size()) {
    std::vector<double> p = m.v;
    WD b(p.data(), p.size());
    if (!threw([&] { r = F::g(b); }, w + " borrowed", false)) expect(w + " borrowed", r, e);
      VD d;
      std::vector<double> f;
      for (size_t i = 0; i < e.size(); i++) f.push_back(double(bool(e[i])) + 1.0);
      if (!threw([&] { d = F::g(v) + 1.0; }, w + " + 1", false)) expect(w + " + 1", d, f);
      M<double> n = random<double>(size());
      VD u; put(u, n);
      std::vector<bool> g;
      for (size_t i = 0; i < std::max(m.v.size(), n.v.size()); i++) g.push_back(F::f(m.v[i % m.v.size()] + n.v[i % n.v.size()]));
      std::string ws = w + " of a sum with " + str(n);
      if (!threw([&] { r = F::g(v + u); }, ws, false)) expect(ws, r, g);
    }
  }
}
template <typename T> void shape() {
  M<T> m = random<T>(len(), true);
  if (m.v.empty()) m = M<T>();
  if (m.v.size() && pick(3) == 0) { m.im = false; m.nr = m.nc = 0; }
  Vec<T> v;
  if (m.v.size()) put(v, m);
  const Vec<T> &c = v;
  std::string w = str(m);
  if (size_t(length(v)) != m.v.size() || size_t(length(c)) != m.v.size()) mismatch("length(" + w + ") is " + std::to_string(length(v)));
  std::vector<int> e{int(m.nr), int(m.nc)};
  VI r;
  if (pick(2)) put(r, random<int>(size(), pick(2)));
  auto try_ = [&](const std::string &what, auto f, bool im, const std::vector<int> &e) {
    M<int> old = got(r);
    if (threw([&] { r = f(); }) == im) { mismatch(what + (im ? " threw" : " did not throw")); return; }
    if (im) { expect(what, r, e); expect_shape(what, r, false, 0, 0); }
    else unchanged(what, r, old);
  };
  try_("dim(" + w + ")", [&] { return dim(v); }, m.im, e);
  try_("dim(const " + w + ")", [&] { return dim(c); }, m.im, e);
  if (m.im) { VI q(dim(v)); expect("VI(dim(" + w + "))", q, e); }
  double x = -1;
  if (threw([&] { x = dim(v)[0]; }) == m.im || (m.im && x != double(m.nr))) mismatch("dim(" + w + ")[0]");
  if constexpr (std::is_same_v<T, int>) {
    bool im = m.im;
    if (threw([&] { v = dim(v); }) == im) mismatch("v = dim(v) for " + w);
    else if (im) expect("v = dim(v) for " + w, v, e);
  } else
    unchanged("dim(" + w + ")", v, m);
  if constexpr (std::is_same_v<T, double>) {
    std::vector<double> p = m.v;
    if (p.size()) {
      WD b(p.data(), p.size());
      b.d.setMatrix(m.im, m.nr, m.nc);
      try_("dim(borrowed " + w + ")", [&] { return dim(b); }, m.im, e);
      if (size_t(length(b)) != p.size()) mismatch("length(borrowed " + w + ")");
      try_("dim(-" + w + ")", [&] { return dim(-v); }, m.im, e);
      M<double> n = random<double>(1 + pick(m.v.size()));
      if (m.im && pick(2)) { n = random<double>(m.v.size()); n.im = true; n.nr = m.nr; n.nc = m.nc; }
      VD u; put(u, n);
      bool left = pick(2);
      try_("dim(" + w + " + " + str(n) + ")", [&] { return dim(v + u); }, m.im || n.im, e);
      try_("dim(" + str(n) + " + " + w + ")", [&] { return dim(u + v); }, m.im || n.im, e);
      if (size_t(length(u + v)) != m.v.size()) mismatch("length(" + str(n) + " + " + w + ")");
    }
    if (m.im) {
      M<int> a, b;
      for (size_t i = 1 + pick(4); i; i--) a.v.push_back(1 + int(pick(m.nr)));
      for (size_t i = 1 + pick(4); i; i--) b.v.push_back(1 + int(pick(m.nc)));
      VI i, k; put(i, a); put(k, b);
      try_("dim(" + w + "[" + str(a) + ", " + str(b) + "])", [&] { return dim(subset(v, i, k)); }, true, {int(a.v.size()), int(b.v.size())});
      try_("dim(" + w + "[" + std::to_string(a.v[0]) + ", " + str(b) + "])", [&] { return dim(subset(v, a.v[0], k)); }, false, {});
    }
    int i = 1 + int(pick(30)), k = 1 + int(pick(30));
    try_("dim(matrix(2.5, " + std::to_string(i) + ", " + std::to_string(k) + "))", [&] { return dim(matrix(2.5, int(i), int(k))); }, true, {i, k});
  }
  T s = val<T>();
  if (length(s) != 1) mismatch("length of a scalar");
  if (!threw([&] { dim(s); })) mismatch("dim of a scalar did not throw");
}
int main() {
  init();
  for (long it = 0; it < 100000 && !out_of_time(); it++) {
    scalar<Na, double>(); scalar<Na, int>(); scalar<Na, bool>(); scalar<In, double>(); scalar<In, int>(); scalar<In, bool>();
    vec<Na, double>(); vec<Na, int>(); vec<Na, bool>(); vec<In, double>(); vec<In, int>(); vec<In, bool>();
    shape<double>(); shape<int>(); shape<bool>();
  }
  return finish();
}
