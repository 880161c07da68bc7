#include "rt.hpp"
using namespace rt;
// lengths: mostly valid, sometimes zero, negative or fractional
static int isize(size_t cap = 60) { size_t c = pick(10); if (c == 0) return 0; if (c == 1) return -int(pick(5)) - 1; return int(size(5, cap)); }
static double dsize(size_t cap = 60) { double f[] = {0, 0.5, 0.1, 0.999}; double d = isize(cap) + f[pick(4)]; return pick(30) == 0 ? 0.5 : d; }
static bool ok(double d) { return d >= 1; }
static size_t len(double d) { return ok(d) ? size_t(d) : 0; }
struct Shape { bool m = false; size_t r = 0, c = 0; };
// f(r) gives e, or throws exactly when not valid
template <typename R, typename E, typename F> void run(const std::string &w, bool valid, const std::vector<E> &want, F f, Shape s = {}) {
  Vec<R> r;
  M<R> before;
  if (pick(2)) { before = random<R>(size(), pick(2)); put(r, before); }
  bool t = false;
  try { f(r); } catch (std::exception &x) { t = true; if (valid) { mismatch(w + ": threw '" + x.what() + "'"); return; } }
  if (!valid) { if (!t) mismatch(w + ": an invalid request did not throw"); else unchanged(w + " (after the exception)", r, before); return; }
  if (expect(w, r, std::vector<R>(want.begin(), want.end()))) expect_shape(w, r, s.m, s.r, s.c);
}
template <typename T> std::vector<T> times(const std::vector<T> &v, size_t n) { std::vector<T> e; for (size_t k = 0; k < n; k++) e.insert(e.end(), v.begin(), v.end()); return e; }
template <typename T> void lead(Vec<T> &v, M<T> &m, T x) { m = random<T>(pick(2) ? 1 : size(5, 50), false); m.v[0] = x; put(v, m); }
template <typename... A> std::string txt(A... a) { std::ostringstream o; o.precision(17); ((o << a << ", "), ...); return o.str(); }
template <typename T, typename F, typename G> void vec(const std::string &w, F f, G g) {
  std::vector<T> z;
  auto zero = [](size_t n) { return std::vector<T>(n); };
  size_t cap = pick(40) ? 60 : 3000;
  int i = isize(cap); double d = dsize(cap); bool b = pick(2); size_t s = pick(8) ? size(6, cap) : 0;
  run<T>(w + txt(i), ok(i), zero(len(i)), [&](Vec<T> &r) { r = f(i); }); run<T>(w + txt("temporary", i), ok(i), zero(len(i)), [&](Vec<T> &r) { r = g(int(i)); });
  run<T>(w + txt(d), ok(d), zero(len(d)), [&](Vec<T> &r) { r = f(d); }); run<T>(w + txt("temporary", d), ok(d), zero(len(d)), [&](Vec<T> &r) { r = g(double(d)); });
  run<T>(w + txt(b), b, zero(b), [&](Vec<T> &r) { r = f(b); }); run<T>(w + txt(s), ok(s), zero(s), [&](Vec<T> &r) { r = f(s); }); run<T>(w + txt("temporary", s), ok(s), zero(s), [&](Vec<T> &r) { r = g(size_t(s)); });
  VI vi; M<int> mi; lead(vi, mi, i); VD vd; M<double> md; lead(vd, md, d);
  bool vok = ok(i) && mi.v.size() == 1, wok = ok(d) && md.v.size() == 1;
  run<T>(w + str(mi), vok, zero(len(i)), [&](Vec<T> &r) { r = f(vi); }); run<T>(w + "coca" + str(mi), vok, zero(len(i)), [&](Vec<T> &r) { r = g(coca(vi)); });
  run<T>(w + str(md), wok, zero(len(d)), [&](Vec<T> &r) { r = f(vd); });
  VD ve; M<double> me; lead(ve, me, 2.25); double x = d + 2.25; run<T>(w + "sum" + str(md) + str(me), ok(x) && md.v.size() == 1 && me.v.size() == 1, zero(len(x)), [&](Vec<T> &r) { r = g(vd + ve); });
  run<double>(w + "into double " + txt(i), ok(i), std::vector<double>(len(i)), [&](VD &r) { r = f(i); });
  unchanged(w, vi, mi); unchanged(w, vd, md);
  try { Vec<T> n(f(i)); if (!ok(i)) mismatch(w + txt(i) + "construction: did not throw"); else expect(w + txt(i) + "construction", n, zero(len(i))); } catch (std::exception &) { if (ok(i)) mismatch(w + txt(i) + "construction: threw"); }
}
int main() {
  init();
  const double qn = std::numeric_limits<double>::quiet_NaN();
  for (long it = 0; it < 100000 && !out_of_time(); it++) {
    { // rep
      double x = dval(); int i = ival(); bool b = pick(2); int n = isize(); double d = pick(40) ? dsize() : qn; bool t = pick(2);
      std::string w = "rep(" + txt(x, i, b, n, d, t);
      run<double>(w + "x,n", ok(n), times<double>({x}, len(n)), [&](VD &r) { r = rep(x, n); }); run<double>(w + "x,n temporaries", ok(n), times<double>({x}, len(n)), [&](VD &r) { r = rep(double(x), int(n)); });
      run<int>(w + "i,n", ok(n), times<int>({i}, len(n)), [&](VI &r) { r = rep(i, n); }); run<bool>(w + "b,n", ok(n), times<bool>({b}, len(n)), [&](VB &r) { r = rep(b, n); });
      run<double>(w + "x,d", ok(d), times<double>({x}, len(d)), [&](VD &r) { r = rep(x, d); }); run<int>(w + "i,d", ok(d), times<int>({i}, len(d)), [&](VI &r) { r = rep(i, d); });
      run<double>(w + "x,t", t, times<double>({x}, t), [&](VD &r) { r = rep(x, t); });
      VI ni; M<int> mni; lead(ni, mni, n); VD nd; M<double> mnd; lead(nd, mnd, d); VB nb; M<bool> mnb; lead(nb, mnb, t); VD ne; M<double> mne; lead(ne, mne, -0.75);
      run<double>(w + "x,I", ok(n), times<double>({x}, len(n)), [&](VD &r) { r = rep(x, ni); }); run<double>(w + "x,D", ok(d), times<double>({x}, len(d)), [&](VD &r) { r = rep(x, nd); });
      run<int>(w + "i,I", ok(n), times<int>({i}, len(n)), [&](VI &r) { r = rep(i, ni); }); run<double>(w + "x,B", t, times<double>({x}, t), [&](VD &r) { r = rep(x, nb); });
      run<double>(w + "x,D+D", ok(d - 0.75), times<double>({x}, len(d - 0.75)), [&](VD &r) { r = rep(x, nd + ne); });
      size_t cap = pick(30) ? 12 : 400;
      M<double> ma = random<double>(size(6, cap), pick(3) == 0), mb = random<double>(size(6, cap), false); VD a, c; put(a, ma); put(c, mb);
      M<int> mi = random<int>(size(6, cap), pick(3) == 0); VI vi; put(vi, mi); M<bool> ml = random<bool>(size(6, cap), pick(3) == 0); VB vl; put(vl, ml);
      w += "a=" + str(ma) + " c=" + str(mb) + " i=" + str(mi);
      run<double>(w + "a,n", ok(n), times(ma.v, len(n)), [&](VD &r) { r = rep(a, n); }); run<double>(w + "coca(a),n", ok(n), times(ma.v, len(n)), [&](VD &r) { r = rep(coca(a), int(n)); });
      run<double>(w + "a,d", ok(d), times(ma.v, len(d)), [&](VD &r) { r = rep(a, d); }); run<int>(w + "I,n", ok(n), times(mi.v, len(n)), [&](VI &r) { r = rep(vi, n); });
      run<bool>(w + "B,n", ok(n), times(ml.v, len(n)), [&](VB &r) { r = rep(vl, n); });
      { std::vector<double> mem = ma.v; WD bw(mem.data(), mem.size()); run<double>(w + "borrowed,n", ok(n), times(ma.v, len(n)), [&](VD &r) { r = rep(bw, n); }); }
      run<double>(w + "a,I", ok(n), times(ma.v, len(n)), [&](VD &r) { r = rep(a, ni); }); run<double>(w + "a,D", ok(d), times(ma.v, len(d)), [&](VD &r) { r = rep(a, nd); }); run<int>(w + "I,D", ok(d), times(mi.v, len(d)), [&](VI &r) { r = rep(vi, nd); });
      std::vector<double> s, g; for (size_t k = 0; k < std::max(ma.v.size(), mb.v.size()); k++) s.push_back(ma.v[k % ma.v.size()] + mb.v[k % mb.v.size()]); for (double y : ma.v) g.push_back(-y);
      if (!(ma.im && mb.v.size() > ma.v.size())) { run<double>(w + "a+c,n", ok(n), times(s, len(n)), [&](VD &r) { r = rep(a + c, n); }); run<double>(w + "a+c,I", ok(n), times(s, len(n)), [&](VD &r) { r = rep(a + c, ni); }); }
      run<double>(w + "-a,n", ok(n), times(g, len(n)), [&](VD &r) { r = rep(-a, n); });
      { VD o; put(o, ma); try { o = rep(o, n); if (ok(n)) expect(w + "a = rep(a, n)", o, times(ma.v, len(n))); else mismatch(w + "a = rep(a, n): did not throw"); } catch (std::exception &) { if (ok(n)) mismatch(w + "a = rep(a, n): threw"); else unchanged(w + "a = rep(a, n)", o, ma); } }
      { VD o; put(o, mnd); try { o = rep(x, o); if (ok(d)) expect(w + "n = rep(x, n)", o, times<double>({x}, len(d))); else mismatch(w + "n = rep(x, n): did not throw"); } catch (std::exception &) { if (ok(d)) mismatch(w + "n = rep(x, n): threw"); else unchanged(w + "n = rep(x, n)", o, mnd); } }
      { std::vector<double> e; if (ok(n)) for (size_t k = 0; k < std::max(len(n), mb.v.size()); k++) e.push_back(x + mb.v[k % mb.v.size()]); run<double>(w + "rep(x, n) + c", ok(n), e, [&](VD &r) { r = rep(x, n) + c; }); }
      try { VD o(rep(a, n)); if (ok(n)) expect(w + "VD r(rep(a, n))", o, times(ma.v, len(n))); else mismatch(w + "VD r(rep(a, n)): did not throw"); } catch (std::exception &) { if (ok(n)) mismatch(w + "VD r(rep(a, n)): threw"); }
      unchanged(w, a, ma); unchanged(w, vi, mi); unchanged(w, ni, mni); unchanged(w, nd, mnd);
    }
    vec<double>("vector_numeric(", [](auto &n) { return vector_numeric(n); }, [](auto &&n) { return vector_numeric(std::forward<decltype(n)>(n)); });
    vec<int>("vector_integer(", [](auto &n) { return vector_integer(n); }, [](auto &&n) { return vector_integer(std::forward<decltype(n)>(n)); });
    vec<bool>("vector_logical(", [](auto &n) { return vector_logical(n); }, [](auto &&n) { return vector_logical(std::forward<decltype(n)>(n)); });
    { // matrix
      size_t cap = pick(40) ? 8 : 60;
      double x = dval(); int i = ival(); bool b = pick(2); int n = isize(cap), m = isize(cap); double dn = pick(40) ? dsize(cap) : qn, dm = dsize(cap); bool t = pick(2);
      std::string w = "matrix(" + txt(x, i, b) + "dims " + txt(n, m, dn, dm, t);
      auto sh = [](double r, double c) { return Shape{true, len(r), len(c)}; };
#define SC(T, K, X, N, NV, C, CV) run<T>(w + K, ok(NV) && ok(CV), times<T>({X}, len(NV) * len(CV)), [&](Vec<T> &r) { r = matrix(X + T(), N, C); }, sh(NV, CV));
#define SB(N, NV, C, CV) run<bool>(w + "b", ok(NV) && ok(CV), times<bool>({b}, len(NV) * len(CV)), [&](VB &r) { r = matrix(bool(b), N, C); }, sh(NV, CV));
      if (x == 0) x = 1.5;
      VI vn, vm; M<int> mn, mm; lead(vn, mn, n); lead(vm, mm, m); VD wn, wk; M<double> qn_, qk; lead(wn, qn_, dn); lead(wk, qk, 1.25);
      SC(double, "x n m", x, int(n), n, int(m), m) SC(int, "i n m", i, int(n), n, int(m), m) SB(int(n), n, int(m), m)
      SC(double, "x dn dm", x, double(dn), dn, double(dm), dm) SC(double, "x dn m", x, double(dn), dn, int(m), m) SC(double, "x t m", x, bool(t), t, int(m), m)
      SC(double, "x N m", x, coca(vn), n, int(m), m) SC(double, "x n M", x, int(n), n, coca(vm), m) SC(double, "x N M", x, coca(vn), n, coca(vm), m) SC(double, "x DN m", x, coca(wn), dn, int(m), m)
      SC(double, "x DN+k m", x, wn + wk, dn + 1.25, int(m), m)
      { VI kn(vn); VD kd(wn); run<double>(w + "x moved N, moved D", ok(n) && ok(dn), times<double>({x}, len(n) * len(dn)), [&](VD &r) { r = matrix(double(x), std::move(kn), std::move(kd)); }, sh(n, dn)); }
      run<double>(w + "int into double", ok(n) && ok(m), times<double>({double(i)}, len(n) * len(m)), [&](VD &r) { r = matrix(int(i), int(n), int(m)); }, sh(n, m));
      size_t l = len(n) * len(m); if (l == 0 || pick(5) == 0) l = size(6, 60);
      auto fresh = [&](auto tag) { using T = decltype(tag); return random<T>(pick(12) ? l : size(6, 60), pick(3) == 0); };
      M<double> ma = fresh(0.0), mb = random<double>(pick(2) ? ma.v.size() : 1, false); M<int> mi = fresh(0); M<bool> ml = fresh(false);
      VD a, c; VI vi; VB vl; put(a, ma); put(c, mb); put(vi, mi); put(vl, ml);
      bool nm = ok(n) && ok(m);
#define VE(T, K, MM, X, N, NV, C, CV) run<T>(w + K + str(MM), ok(NV) && ok(CV) && MM.v.size() == len(NV) * len(CV), MM.v, [&](Vec<T> &r) { r = matrix(X, N, C); }, sh(NV, CV));
      VE(double, "coca a,", ma, coca(a), int(n), n, int(m), m) VE(int, "coca i,", mi, coca(vi), int(n), n, int(m), m) VE(bool, "coca b,", ml, coca(vl), int(n), n, int(m), m)
      VE(double, "coca a, dn", ma, coca(a), double(dn), dn, int(m), m) VE(double, "coca a, N", ma, coca(a), coca(vn), n, int(m), m) VE(double, "coca a, n, M", ma, coca(a), int(n), n, coca(vm), m) VE(double, "coca a, N, M", ma, coca(a), coca(vn), n, coca(vm), m)
      std::vector<double> s, g; std::vector<bool> q; for (size_t k = 0; k < ma.v.size(); k++) { s.push_back(ma.v[k] + mb.v[k % mb.v.size()]); g.push_back(-ma.v[k]); q.push_back(ma.v[k] < mb.v[k % mb.v.size()]); }
      bool fit = nm && ma.v.size() == len(n) * len(m);
      run<double>(w + "a + c " + str(ma), fit, s, [&](VD &r) { r = matrix(a + c, int(n), int(m)); }, sh(n, m)); run<double>(w + "-a " + str(ma), fit, g, [&](VD &r) { r = matrix(-a, int(n), int(m)); }, sh(n, m));
      run<bool>(w + "a < c " + str(ma), fit, q, [&](VB &r) { r = matrix(a < c, int(n), int(m)); }, sh(n, m));
      { int k = pick(2) ? int(len(n) * len(m)) : isize(); run<double>(w + "rep(x, k)" + txt(k), nm && ok(k) && len(k) == len(n) * len(m), times<double>({x}, len(k)), [&](VD &r) { r = matrix(rep(x, k), int(n), int(m)); }, sh(n, m)); }
      { VD o; put(o, ma); try { o = matrix(coca(o), int(n), int(m)); if (!fit) mismatch(w + "a = matrix(coca(a), n, m): did not throw"); else if (expect(w + "a = matrix(coca(a), n, m)", o, ma.v)) expect_shape(w, o, true, len(n), len(m)); } catch (std::exception &) { if (fit) mismatch(w + "a = matrix(coca(a), n, m): threw"); else unchanged(w + "a = matrix(coca(a), n, m)", o, ma); } }
      { VD o; put(o, ma); run<double>(w + "moved a", fit, ma.v, [&](VD &r) { r = matrix(std::move(o), int(n), int(m)); }, sh(n, m)); }
      try { VD o(matrix(double(x), int(n), int(m))); if (!nm) mismatch(w + "construction: did not throw"); else { expect(w + "construction", o, times<double>({x}, len(n) * len(m))); expect_shape(w, o, true, len(n), len(m)); } } catch (std::exception &) { if (nm) mismatch(w + "construction: threw"); }
      unchanged(w, a, ma); unchanged(w, vi, mi); unchanged(w, vn, mn); unchanged(w, wn, qn_);
    }
  }
  return finish();
}
