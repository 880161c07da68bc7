#include "rt.hpp"
using namespace rt;
// a start, and an end some steps away
static double dstart() { switch (pick(5)) { case 0: return fval(); case 1: return double(ival()); case 2: return ival() / 10.0; case 3: return std::ldexp(1.0, int(pick(52))) + pick(3); default: return (double(pick(4001)) - 2000) / 100.0; } }
static double dend(double a) {
  double n = double(size(12, 4000)) - 1;
  if (pick(2)) n += (pick(11)) / 10.0;
  double b = pick(2) ? a + n : a - n;
  if (pick(6) == 0) b = std::nextafter(b, pick(2) ? 1e300 : -1e300);
  return b;
}
static int istart() { size_t c = pick(12); if (c == 0) return std::numeric_limits<int>::max() - int(pick(20)); if (c == 1) return std::numeric_limits<int>::min() + int(pick(20)); return ival(); }
static int iend(int a) { long n = long(size(12, 4000)) - 1; long b = pick(2) ? a + n : a - n; return int(std::min<long>(std::max<long>(b, std::numeric_limits<int>::min()), std::numeric_limits<int>::max())); }
static std::vector<double> seq(double a, double b) {
  bool up = a < b;
  size_t n = size_t(up ? b - a + 1 : a - b + 1);
  std::vector<double> e;
  for (size_t k = 0; k < n; k++) e.push_back(up ? a + double(k) : a - double(k));
  return e;
}
static std::vector<int> seq(int a, int b) {
  std::vector<int> e;
  long la = a, lb = b;
  if (la < lb) for (long k = la; k <= lb; k++) e.push_back(int(k));
  else for (long k = la; k >= lb; k--) e.push_back(int(k));
  return e;
}
static bool fits(double a, double b) { return std::fabs(b - a) < 6000; }
template <typename R, typename E, typename F> void run(const std::string &w, const E &want, F f) {
  Vec<R> r;
  if (pick(2)) put(r, random<R>(size(), pick(2)));
  if (threw([&] { f(r); }, w, false)) return;
  std::vector<R> e(want.begin(), want.end());
  if (expect(w, r, e)) expect_shape(w, r, false, 0, 0);
}
template <typename A, typename B> std::string txt(A a, B b) { std::ostringstream o; o.precision(17); o << "colon(" << a << ", " << b << ")"; return o.str(); }
// a vector starting with x
template <typename T> void lead(Vec<T> &v, M<T> &m, T x) { m = random<T>(pick(2) ? 1 : size(5, 50), false); m.v[0] = x; put(v, m); }
int main() {
  init();
  for (long it = 0; it < 200000 && !out_of_time(); it++) {
    {
      int a = istart(), b = iend(a); std::string w = txt(a, b); auto e = seq(a, b);
      run<int>(w, e, [&](VI &r) { r = colon(a, b); });
      run<int>(w + " of coca", e, [&](VI &r) { r = colon(coca(a), coca(b)); });
      run<double>(w + " into double", e, [&](VD &r) { r = colon(a, b); });
      VI va, vb; M<int> ma, mb; lead(va, ma, a); lead(vb, mb, b);
      run<int>(w + " int vector, int", e, [&](VI &r) { r = colon(va, b); });
      run<int>(w + " int, int vector", e, [&](VI &r) { r = colon(a, vb); });
      run<int>(w + " int vectors", e, [&](VI &r) { r = colon(va, vb); });
      unchanged(w, va, ma); unchanged(w, vb, mb);
      VD v; M<double> mv = random<double>(size(), false); put(v, mv);
      std::vector<double> s; for (size_t k = 0; k < std::max(e.size(), mv.v.size()); k++) s.push_back(e[k % e.size()] + mv.v[k % mv.v.size()]);
      run<double>(w + " + v", s, [&](VD &r) { r = colon(a, b) + v; });
      int c = int(pick(40)) - 20; bool p = pick(2);
      run<int>("bool " + txt(int(p), c), seq(int(p), c), [&](VI &r) { r = colon(p, c); });
    }
    {
      double a = dstart(), b = dend(a); if (!fits(a, b)) continue;
      std::string w = txt(a, b); auto e = seq(a, b);
      run<double>(w, e, [&](VD &r) { r = colon(a, b); });
      VD va, vb; M<double> ma, mb; lead(va, ma, a); lead(vb, mb, b);
      run<double>(w + " vector, double", e, [&](VD &r) { r = colon(va, b); });
      run<double>(w + " double, vector", e, [&](VD &r) { r = colon(a, vb); });
      run<double>(w + " vectors", e, [&](VD &r) { r = colon(va, vb); });
      { std::vector<double> xa = ma.v, xb = mb.v; WD wa(xa.data(), xa.size()), wb(xb.data(), xb.size()); run<double>(w + " borrowed", e, [&](VD &r) { r = colon(wa, wb); }); }
      { VD g; put(g, ma); threw([&] { g = colon(g, b); expect(w + " own bound", g, e); }, w, false); }
      threw([&] { VD n(colon(a, b)); expect(w + " construction", n, e); }, w, false);
      unchanged(w, va, ma); unchanged(w, vb, mb);
      VD t; M<double> mt = random<double>(size(5, 50), false); mt.v[0] = fval(); if (pick(2)) mt.v[0] = ival(); put(t, mt);
      double h = mt.v[0], x = a + h, y = b + h, z = b - h;
      if (fits(x, b)) run<double>("a + v of " + txt(x, b), seq(x, b), [&](VD &r) { r = colon(va + t, b); });
      if (fits(x, b)) run<double>("a + v, vector of " + txt(x, b), seq(x, b), [&](VD &r) { r = colon(va + t, vb); });
      if (fits(a, y)) run<double>("b + v of " + txt(a, y), seq(a, y), [&](VD &r) { r = colon(a, vb + t); });
      if (fits(a, y)) run<double>("vector, b + v of " + txt(a, y), seq(a, y), [&](VD &r) { r = colon(va, vb + t); });
      if (fits(x, z)) run<double>("a + v, b - v of " + txt(x, z), seq(x, z), [&](VD &r) { r = colon(va + t, vb - t); });
    }
    {
      double a = dstart(); int b = ival(); if (std::fabs(a) < 1e6 && fits(a, b)) {
        std::string w = txt(a, b); VD va; VI vb; M<double> ma; M<int> mb; lead(va, ma, a); lead(vb, mb, b);
        auto e = seq(a, double(b)), f = seq(double(b), a);
        run<double>(w + " d,i", e, [&](VD &r) { r = colon(a, b); }); run<double>(w + " D,i", e, [&](VD &r) { r = colon(va, b); });
        run<double>(w + " d,I", e, [&](VD &r) { r = colon(a, vb); }); run<double>(w + " D,I", e, [&](VD &r) { r = colon(va, vb); });
        run<double>(w + " reversed i,d", f, [&](VD &r) { r = colon(b, a); }); run<double>(w + " reversed I,d", f, [&](VD &r) { r = colon(vb, a); });
        run<double>(w + " reversed i,D", f, [&](VD &r) { r = colon(b, va); }); run<double>(w + " reversed I,D", f, [&](VD &r) { r = colon(vb, va); });
      }
    }
    { // every combination of kinds of bounds; J and E are sums x + x
      int i = int(pick(60)) - 30, j = int(pick(60)) - 30; double x = pick(2) ? i : (double(pick(801)) - 400) / 16, y = pick(2) ? j : (double(pick(801)) - 400) / 16;
      VI a, b; M<int> ma, mb; lead(a, ma, i); lead(b, mb, j); VD u, v; M<double> mu, mv; lead(u, mu, x); lead(v, mv, y);
      #define RUN(S, T, L, R, A, B) run<T>(std::string("bounds " S " ") + txt(A, B), seq(A, B), [&](Vec<T> &r) { r = colon(L, R); })
      switch (pick(20)) {
      case 0: RUN("iJ", int, i, b + b, i, 2 * j); break; case 1: RUN("iE", double, i, v + v, double(i), 2 * y); break; case 2: RUN("dJ", double, x, b + b, x, 2.0 * j); break; case 3: RUN("dE", double, x, v + v, x, 2 * y); break;
      case 4: RUN("IJ", int, a, b + b, i, 2 * j); break; case 5: RUN("IE", double, a, v + v, double(i), 2 * y); break; case 6: RUN("DJ", double, u, b + b, x, 2.0 * j); break; case 7: RUN("DE", double, u, v + v, x, 2 * y); break;
      case 8: RUN("Ji", int, a + a, j, 2 * i, j); break; case 9: RUN("Jd", double, a + a, y, 2.0 * i, y); break; case 10: RUN("JI", int, a + a, b, 2 * i, j); break; case 11: RUN("JD", double, a + a, v, 2.0 * i, y); break;
      case 12: RUN("JJ", int, a + a, b + b, 2 * i, 2 * j); break; case 13: RUN("JE", double, a + a, v + v, 2.0 * i, 2 * y); break; case 14: RUN("Ei", double, u + u, j, 2 * x, double(j)); break; case 15: RUN("Ed", double, u + u, y, 2 * x, y); break;
      case 16: RUN("EI", double, u + u, b, 2 * x, double(j)); break; case 17: RUN("ED", double, u + u, v, 2 * x, y); break; case 18: RUN("EJ", double, u + u, b + b, 2 * x, 2.0 * j); break; default: RUN("EE", double, u + u, v + v, 2 * x, 2 * y);
      }
    }
  }
  return finish();
}
