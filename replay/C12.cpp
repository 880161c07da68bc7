// dimensions of results of operations over conformable operands
#include "rt.hpp"
using namespace rt;
struct Dim { bool im = false; size_t nr = 0, nc = 0, n = 0; };
template <typename T> void with(const Dim &d, M<T> &m, size_t n, bool im) {
  for (size_t i = 0; i < n; i++) m.v.push_back(val<T>());
  if (im) m.im = true, m.nr = d.nr, m.nc = d.nc;
}
template <typename T> std::string sh(const M<T> &m) { return std::to_string(m.v.size()) + (m.im ? " (" + std::to_string(m.nr) + "x" + std::to_string(m.nc) + ")" : ""); }
template <typename V> void look(const std::string &w, const V &r, bool im, const Dim &d, size_t n) {
  if (r.size() != n) { mismatch(w + ": length " + std::to_string(r.size()) + ", expected " + std::to_string(n)); return; }
  expect_shape(w, r, im, d.nr, d.nc);
  if (r.im() && r.nr() * r.nc() != r.size()) mismatch(w + ": " + std::to_string(r.nr()) + "x" + std::to_string(r.nc()) + " but length " + std::to_string(r.size()));
}
template <typename V, typename T, typename F> void one(const std::string &w, bool im, const Dim &d, size_t n, F f) {
  V r;
  if (pick(2)) { M<T> m = random<T>(size(), pick(2)); put(r, m); }
  if (!threw([&] { f(r); }, w, false)) look(w, r, im, d, n);
}
int main() {
  init();
  for (long it = 0; it < 40000 && !out_of_time(); it++) {
    Dim d; d.nr = 1 + pick(5); d.nc = 1 + pick(5); if (pick(10) == 0) d.nr = std::min<size_t>(size(), 80);
    size_t N = d.nr * d.nc;
    bool ims[3]; bool any = pick(4);
    size_t ns[3];
    for (int k = 0; k < 3; k++) { ims[k] = any && pick(2); ns[k] = ims[k] ? N : 1 + pick(N); }
    M<double> ma, mb, md; M<int> mi, mj; M<bool> ml;
    with(d, ma, ns[0], ims[0]); with(d, mb, ns[1], ims[1]); with(d, md, ns[2], ims[2]); with(d, mi, ns[0], ims[0]); with(d, mj, ns[1], ims[1]); with(d, ml, ns[0], ims[0]);
    for (int &x : mi.v) x = 1 + pick(50); for (int &x : mj.v) x = 1 + pick(50);
    VD a, b, q; VI i, j; VB l;
    put(a, ma); put(b, mb); put(q, md); put(i, mi); put(j, mj); put(l, ml);
    double s = dval();
    bool ab = ims[0] || ims[1], abq = ab || ims[2];
    size_t nab = std::max(ns[0], ns[1]), nq = std::max(nab, ns[2]);
    std::string w = " a=" + sh(ma) + " b=" + sh(mb), w3 = w + " d=" + sh(md);
#define OP(S, V, T) \
    one<V, T>("a " #S " b" + w, ab, d, nab, [&](V &r) { r = a S b; }); \
    one<V, T>("a " #S " s" + w, ims[0], d, ns[0], [&](V &r) { r = a S s; }); \
    one<V, T>("s " #S " a" + w, ims[0], d, ns[0], [&](V &r) { r = s S a; });
    OP(+, VD, double) OP(-, VD, double) OP(*, VD, double) OP(/, VD, double) OP(^, VD, double)
    OP(==, VB, bool) OP(!=, VB, bool) OP(<, VB, bool) OP(<=, VB, bool) OP(>, VB, bool) OP(>=, VB, bool)
    one<VD, double>("int * double" + w, ab, d, nab, [&](VD &r) { r = i * b; });
    one<VI, int>("int + int" + w, ab, d, nab, [&](VI &r) { r = i + j; });
    one<VD, double>("int / int" + w, ab, d, nab, [&](VD &r) { r = i / j; });
    one<VD, double>("(a + b) * d" + w3, abq, d, nq, [&](VD &r) { r = (a + b) * q; });
    one<VD, double>("a - (b / d)" + w3, abq, d, nq, [&](VD &r) { r = a - (b / q); });
    one<VD, double>("(a + d) * (b - d)" + w3, abq, d, nq, [&](VD &r) { r = (a + q) * (b - q); });
    one<VD, double>("s * a + b / s" + w, ab, d, nab, [&](VD &r) { r = s * a + b / s; });
    one<VD, double>("sinus(a) + b" + w, ab, d, nab, [&](VD &r) { r = sinus(a) + b; });
    one<VD, double>("-(a + b)" + w, ab, d, nab, [&](VD &r) { r = -(a + b); });
    one<VB, bool>("a + b > d" + w3, abq, d, nq, [&](VB &r) { r = a + b > q; });
    one<VD, double>("a = a + b" + w, ab, d, nab, [&](VD &r) { put(r, ma); r = r + b; });
    one<VD, double>("a = a + s" + w, ims[0], d, ns[0], [&](VD &r) { put(r, ma); r = r + s; });
    one<VD, double>("r = a" + w, ims[0], d, ns[0], [&](VD &r) { r = a; });
    one<VD, double>("r = int" + w, ims[0], d, ns[0], [&](VD &r) { r = i; });
    one<VI, int>("int r = logical" + w, ims[0], d, ns[0], [&](VI &r) { r = l; });
    one<VB, bool>("logical r = int" + w, ims[0], d, ns[0], [&](VB &r) { r = i; });
    one<VD, double>("r = s", false, d, 1, [&](VD &r) { r = s; });
    one<VD, double>("r = 3", false, d, 1, [&](VD &r) { r = 3; });
    one<VD, double>("r = coca(a, b)" + w, false, d, ns[0] + ns[1], [&](VD &r) { r = coca(a, b); });
    { VI k; M<int> mk; for (size_t z = 1 + pick(9); z; z--) mk.v.push_back(1 + pick(ns[0])); put(k, mk);
      one<VD, double>("r = a[i]" + w, false, d, mk.v.size(), [&](VD &r) { r = subset(a, k); });
      VD t; put(t, ma); M<double> mw = random<double>(mk.v.size(), pick(2)); VD u; put(u, mw);
      if (!threw([&] { subset(t, k) = u; }, "a[i] = w", false)) look("a[i] = w" + w, t, ims[0], d, ns[0]); }
    { std::vector<double> mem = ma.v; WD x(mem.data(), mem.size()); x.d.setMatrix(ma.im, ma.nr, ma.nc);
      one<VD, double>("r = borrowed a" + w, ims[0], d, ns[0], [&](VD &r) { r = x; });
      one<VD, double>("borrowed a + b" + w, ab, d, nab, [&](VD &r) { r = x + b; }); }
    { std::vector<double> mem(nab); WD x(mem.data(), nab); if (pick(2)) x.d.setMatrix(true, 1, nab);
      if (!threw([&] { x = a * b; }, "borrowed = a * b" + w, false)) look("borrowed = a * b" + w, x, ab, d, nab);
      x = s; look("borrowed = s", x, false, d, 1); }
    { VD r(a); look("VD r(a)" + w, r, ims[0], d, ns[0]); VD t(std::move(r)); look("VD r(move(a))" + w, t, ims[0], d, ns[0]);
      VD u(a + b); look("VD r(a + b)" + w, u, ab, d, nab); VD m(d.nr, d.nc); look("VD r(nr, nc)", m, true, d, N); }
    { Dim e; e.nr = 1 + pick(5); e.nc = 1 + pick(5); size_t k = e.nr * e.nc;
      auto eq = [&](const std::string &w, auto &r, auto &src) { look(w, r, true, e, k); for (size_t z = 0; z < k; z++) if (!same(double(r[z]), double(src.v[z]))) { mismatch(w + ": element " + std::to_string(z)); break; } };
      M<int> gi; M<double> gd; M<bool> gl; for (size_t z = 0; z < k; z++) { gi.v.push_back(val<int>()); gd.v.push_back(val<double>()); gl.v.push_back(val<bool>()); }
      VI xi; VD xd; VB xl; put(xi, gi); put(xd, gd); put(xl, gl);
      std::string t = "matrix " + std::to_string(e.nr) + "x" + std::to_string(e.nc);
      threw([&] { VD r(matrix(std::move(xi), size_t(e.nr), size_t(e.nc))); eq("VD r(int " + t + ")", r, gi); }, "VD r(int matrix)", false);
      threw([&] { VD r(matrix(std::move(xd), size_t(e.nr), size_t(e.nc))); eq("VD r(" + t + ")", r, gd); }, "VD r(matrix)", false);
      threw([&] { VI r(matrix(std::move(xl), size_t(e.nr), size_t(e.nc))); eq("VI r(logical " + t + ")", r, gl); }, "VI r(logical matrix)", false);
      threw([&] { VD r; if (pick(2)) { M<double> m = random<double>(size(), pick(2)); put(r, m); } r = matrix(std::move(xi), size_t(e.nr), size_t(e.nc)); eq("VD r = int " + t, r, gi); }, "r = int matrix", false);
      { std::vector<double> mem(k); WD x(mem.data(), k); threw([&] { x = matrix(std::move(xd), size_t(e.nr), size_t(e.nc)); eq("borrowed = " + t, x, gd); }, "borrowed = matrix", false); }
      threw([&] { VD r(i + j); look("VD r(i + j)" + w, r, ab, d, nab); VD o(coca(i, j)); look("VD r(coca(i, j))" + w, o, false, d, ns[0] + ns[1]); }, "construction from ints", false); }
    { VD m(d.nr, d.nc); int r = 1 + pick(d.nr); one<VD, double>("m[i, TRUE]", false, d, d.nc, [&](VD &x) { x = subset(m, r, true); });
      VI ri, ci; M<int> mr, mc; for (size_t z = 1 + pick(4); z; z--) mr.v.push_back(1 + pick(d.nr)); for (size_t z = 1 + pick(4); z; z--) mc.v.push_back(1 + pick(d.nc));
      put(ri, mr); put(ci, mc); Dim e; e.nr = mr.v.size(); e.nc = mc.v.size(); VD o(e.nr, e.nc);
      one<VD, double>("m[i, k] + o", true, e, e.nr * e.nc, [&](VD &x) { x = subset(m, ri, ci) + o; }); }
  }
  return finish();
}
