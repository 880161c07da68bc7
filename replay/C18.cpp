#include "rt.hpp"
using namespace rt;
static double gap() {
  switch (pick(6)) { case 0: return 1.0; case 1: return double(1 + pick(9)); case 2: return std::ldexp(1.0 + double(pick(1000)) / 1000, int(pick(20)) - 10); case 3: return 1e-9 * (1 + pick(100)); default: return (1 + double(pick(100000))) / 4096; }
}
struct K {
  M<double> t, y;
  size_t n;
  K(size_t n_) : n(n_) {
    double x = double(int(pick(41))) - 20;
    if (pick(4) == 0) x = (double(pick(20001)) - 10000) / 64;
    for (size_t i = 0; i < n; i++) {
      t.v.push_back(x);
      double z = x + gap();
      x = z > x ? z : x + 1;
      y.v.push_back(fval());
    }
    if (pick(4) == 0) for (double &v : y.v) v = double(int(pick(9))) - 4;
    if (pick(5) == 0) for (size_t i = 0; i < n; i++) y.v[i] = t.v[i];
    shape(t); shape(y);
  }
  static void shape(M<double> &m) {
    if (m.v.size() % 2 == 0 && !m.v.empty() && pick(4) == 0) { m.im = true; m.nr = 2; m.nc = m.v.size() / 2; }
  }
  double time() const {
    switch (pick(8)) {
    case 0: return t.v[0] - gap();
    case 1: return t.v[n - 1] + gap();
    case 2: return t.v[pick(n)];
    case 3: return std::nextafter(t.v[pick(n)], pick(2) ? 1e300 : -1e300);
    default: { size_t j = pick(n), k = std::min(j + 1, n - 1); return t.v[j] + (t.v[k] - t.v[j]) * (double(pick(4097)) / 4096); }
    }
  }
};
// expected value and a bound on the rounding error (infinite: not judged)
static void model(const K &k, const std::vector<double> &y, bool linear, double t, double &e, double &tol) {
  size_t n = k.n, last = n - 1;
  const auto &T = k.t.v;
  tol = 0;
  if (t < T[0]) { e = y[0]; return; }
  if (t > T[last]) { e = y[last]; return; }
  for (size_t j = 0; j < n; j++) if (t == T[j]) { e = y[j]; tol = 1e-12 * std::fabs(e); return; }
  size_t j = 0;
  while (!(T[j] < t && t < T[j + 1])) j++;
  long double h = (long double)T[j + 1] - T[j], x = ((long double)t - T[j]) / h;
  double ulp = std::max(std::fabs(T[j]), std::fabs(T[j + 1])) * 2.3e-16 / double(h);
  double cond = 1e-11 + 64 * ulp;
  if (linear) {
    e = double(y[j] + (y[j + 1] - (long double)y[j]) * x);
    tol = cond * (std::fabs(y[j]) + std::fabs(y[j + 1]));
    return;
  }
  size_t a = j == 0 ? last : j - 1, b = j == last - 1 ? 0 : j + 2;
  long double ta = T[a], tb = j == last - 1 ? (long double)T[0] + T[last] : T[b];
  long double m1 = ((long double)y[j + 1] - y[a]) / (T[j + 1] - ta), m2 = ((long double)y[b] - y[j]) / (tb - T[j]);
  e = double((2 * x * x * x - 3 * x * x + 1) * y[j] + (x * x * x - 2 * x * x + x) * h * m1 + (3 * x * x - 2 * x * x * x) * y[j + 1] + (x * x * x - x * x) * h * m2);
  double c1 = std::max(std::fabs((double)ta), std::fabs(T[j + 1])) / std::fabs(double(T[j + 1] - ta)), c2 = std::max(std::fabs((double)tb), std::fabs(T[j])) / std::fabs(double(tb - T[j]));
  double s1 = (std::fabs(y[j + 1]) + std::fabs(y[a])) / std::fabs(double(T[j + 1] - ta)), s2 = (std::fabs(y[b]) + std::fabs(y[j])) / std::fabs(double(tb - T[j]));
  tol = cond * (std::fabs(y[j]) + std::fabs(y[j + 1])) + double(h) * (s1 * (cond + c1 * 1e-15) + s2 * (cond + c2 * 1e-15));
  if (tb == T[j]) tol = INFINITY;
  if (!std::isfinite(e)) tol = INFINITY;
}
static void judge(const std::string &w, bool threw_, double r, bool ok, const K &k, const std::vector<double> &y, bool linear, double t) {
  if (threw_ == ok) { mismatch(w + (ok ? ": threw" : ": did not throw")); return; }
  if (!ok) return;
  if (!linear && k.t.v[0] + k.t.v[k.n - 1] == k.t.v[k.n - 2]) return; // outside the property
  double e, tol;
  model(k, y, linear, t, e, tol);
  if (tol == INFINITY) return;
  if (!(std::fabs(r - e) <= tol)) {
    std::ostringstream o;
    o.precision(17);
    o << w << " is " << r << ", expected " << e;
    mismatch(o.str());
  }
}
template <bool L, typename A, typename B, typename C> double call(const A &t, const B &k, const C &v) {
  if constexpr (L) return li(t, k, v); else return cmr(t, k, v);
}
template <bool L> void one() {
  size_t n = 1 + pick(9);
  if (pick(8) == 0) n = size(40, 200);
  K k(n);
  M<double> y = k.y;
  size_t least = L ? 1 : 4;
  if (pick(12) == 0) { size_t c = pick(3); if (c == 0) y.v.push_back(fval()); else if (c == 1 && n > 1) y.v.pop_back(); else y.v.resize(2 * n); y.im = false; }
  bool ok = n >= least && y.v.size() == n;
  VD vt, vy;
  put(vt, k.t); put(vy, y);
  double t = k.time(), r = 0;
  std::ostringstream o;
  o.precision(17);
  o << (L ? "li(" : "cmr(") << t << ", " << str(k.t) << ", " << str(y) << ")";
  std::string w = o.str();
  switch (pick(10)) {
  case 0: case 1: { bool x = threw([&] { r = call<L>(t, vt, vy); }); judge(w, x, r, ok, k, y.v, L, t); break; }
  case 2: { int ti = int(std::floor(t)) + int(pick(2)); bool x = threw([&] { r = call<L>(ti, vt, vy); }); judge(w + " int " + std::to_string(ti), x, r, ok, k, y.v, L, ti); break; }
  case 3: { bool tb = pick(2); bool x = threw([&] { r = call<L>(tb, vt, vy); }); judge(w + " logical " + std::to_string(tb), x, r, ok, k, y.v, L, tb); break; }
  case 4: {
    size_t m = L && pick(3) ? 1 : 1 + pick(3);
    M<double> tm = random<double>(m, pick(2)); tm.v[0] = t;
    VD tv; put(tv, tm);
    bool x = threw([&] { r = call<L>(tv, vt, vy); });
    judge(w + " time vector of length " + std::to_string(m), x, r, ok && (!L || m == 1), k, y.v, L, t);
    unchanged(w, tv, tm);
    break;
  }
  case 5: {
    size_t m = L && pick(3) ? 1 : 1 + pick(3), q = L && pick(3) ? 1 : 1 + pick(3);
    M<double> tm = random<double>(m), um = random<double>(q);
    tm.v[0] = std::floor(t); um.v[0] = t - std::floor(t);
    VD tv, uv; put(tv, tm); put(uv, um);
    double s = tm.v[0] + um.v[0];
    bool x = threw([&] { r = call<L>(tv + uv, vt, vy); });
    judge(w + " time as a sum", x, r, ok && (!L || std::max(m, q) == 1), k, y.v, L, s);
    break;
  }
  case 6: {
    std::vector<double> p = k.t.v, q = y.v;
    WD bt(p.data(), p.size()), by(q.data(), q.size());
    bool x = threw([&] { r = call<L>(t, bt, by); });
    judge(w + " borrowed", x, r, ok, k, y.v, L, t);
    if (p != k.t.v || q != y.v) mismatch(w + " borrowed: knots changed");
    break;
  }
  case 7: {
    size_t m = 1 + pick(n + 1);
    M<double> wm = random<double>(m);
    for (double &x : wm.v) x = double(int(pick(9))) - 4;
    VD wv; put(wv, wm);
    std::vector<double> p;
    size_t len = std::max(m, y.v.size());
    for (size_t i = 0; i < len; i++) p.push_back(y.v[i % y.v.size()] * wm.v[i % m]);
    bool x = threw([&] { r = call<L>(t, vt, vy * wv); });
    judge(w + " values times " + str(wm), x, r, n >= least && len == n, k, p, L, t);
    break;
  }
  case 8: { bool x = threw([&] { r = call<L>(t, vt, vt); }); judge(w + " values are the times", x, r, n >= least, k, k.t.v, L, t); break; }
  default: {
    VD z;
    if (pick(2)) put(z, random<double>(size(), pick(2)));
    bool x = threw([&] { z = call<L>(t, vt, vy); });
    if (!x && z.size() != 1) mismatch(w + ": assigned length " + std::to_string(z.size()));
    else judge(w + " assigned", x, x ? 0 : z.d.p[0], ok, k, y.v, L, t);
    if constexpr (!L) {
      size_t m = 1 + pick(4), i = 1 + pick(m);
      M<double> tm = random<double>(m); tm.v[i - 1] = t;
      VD tv; put(tv, tm);
      VI ix = coca(int(i), 1);
      x = threw([&] { r = call<L>(subset(tv, ix), vt, vy); });
      judge(w + " time as a subset", x, r, ok, k, y.v, L, t);
    }
  }
  }
  unchanged(w, vt, k.t);
  unchanged(w, vy, y);
}
int main() {
  init();
  for (long it = 0; it < 400000 && !out_of_time(); it++) { one<false>(); one<true>(); }
  return finish();
}
