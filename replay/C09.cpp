#include "elementwise.hpp"
// f assigns into a; pos: one-based positions selected; e: new values (recycled when scalar)
template <typename V, typename T> void ass_(const std::string &w, const M<T> &ma, const std::vector<long> &pos, const std::vector<T> &e, bool scalar, std::function<void(V &)> f) {
  V a; put(a, ma);
  bool in = !pos.empty(), len = scalar || e.size() == pos.size();
  for (long p : pos) if (p < 1 || p > (long)ma.v.size()) in = false;
  bool t = threw([&] { f(a); });
  if (t == (in && len)) { mismatch(w + (t ? ": threw for a valid assignment" : ": did not throw")); return; }
  std::vector<T> x = ma.v;
  if (!t) for (size_t k = 0; k < pos.size(); k++) x[pos[k] - 1] = scalar ? e[0] : e[k];
  if (t && !in) {
    if (a.size() != x.size()) mismatch(w + ": size changed by a failing assignment");
    std::vector<bool> s(x.size(), false);
    for (long p : pos) if (p >= 1 && p <= (long)x.size()) s[p - 1] = true;
    for (size_t k = 0; k < x.size(); k++) if (!s[k] && !same<T>(a.d.p[k], x[k])) { mismatch(w + ": changed an element that is not selected"); return; }
  } else expect(w, a, x);
  expect_shape(w, a, ma.im, ma.nr, ma.nc);
}
int main() {
  init();
  for (long it = 0; it < 40000 && !out_of_time(); it++) {
    auto ma = random<double>(size(), pick(3) == 0);
    long n = ma.v.size();
    M<int> mi = random<int>(size()); M<double> md = random<double>(size());
    bool wild = pick(4) == 0;
    std::vector<long> pi, pd;
    for (auto &x : mi.v) { x = 1 + pick(n); if (wild && pick(4) == 0) x = int(pick(2 * n + 4)) - 2; pi.push_back(x); }
    for (auto &x : md.v) { double z = 1 + pick(n); if (wild && pick(4) == 0) z = pick(2 * n + 4); if (pick(3) == 0) z += 0.5; x = z; pd.push_back((long)z); }
    VI vi; put(vi, mi); VD vd; put(vd, md);
    auto rhs = [&](size_t m) { return random<double>(pick(6) ? m : size(), pick(3) == 0); };
    double s = dval();
    { auto mw = rhs(pi.size()); VD w; put(w, mw); std::string t = "a[int vec] = w, a=" + str(ma) + " i=" + str(mi) + " w=" + str(mw);
      ass_<VD, double>(t, ma, pi, mw.v, false, [&](VD &a) { subset(a, vi) = w; }); unchanged(t, w, mw); unchanged(t, vi, mi);
      ass_<VD, double>("for (x : a[i]) x = s, " + t, ma, pi, {s}, true, [&](VD &a) { for (double &x : subset(a, vi)) x = s; });
      ass_<VD, double>("scalar " + t, ma, pi, {s}, true, [&](VD &a) { subset(a, vi) = s; });
      VD z; M<int> mj = random<int>(w.size()); for (auto &x : mj.v) x = 1 + pick(w.size()); VI vj; put(vj, mj); std::vector<double> e; for (int x : mj.v) e.push_back(mw.v[x - 1]);
      ass_<VD, double>("a[i] = w[j] " + t + " j=" + str(mj), ma, pi, e, false, [&](VD &a) { subset(a, vi) = subset(w, vj); });
      auto mv = random<double>(size()); VD v; put(v, mv); e.clear(); for (size_t k = 0; k < std::max(v.size(), w.size()); k++) e.push_back(mv.v[k % mv.v.size()] + mw.v[k % mw.v.size()]);
      ass_<VD, double>("a[i] = v + w " + t + " v=" + str(mv), ma, pi, e, false, [&](VD &a) { subset(a, vi) = v + w; });
      ass_<VD, double>("a[i] = a " + t, ma, pi, ma.v, false, [&](VD &a) { subset(a, vi) = a; }); }
    { auto mw = rhs(pd.size()); VD w; put(w, mw); std::string t = "a[double vec] = w, a=" + str(ma) + " i=" + str(md) + " w=" + str(mw);
      ass_<VD, double>(t, ma, pd, mw.v, false, [&](VD &a) { subset(a, vd) = w; });
      ass_<VD, double>("scalar " + t, ma, pd, {s}, true, [&](VD &a) { subset(a, vd) = s; }); }
    { int i = int(pick(n + 4)) - 1; auto mw = rhs(1); VD w; put(w, mw); std::string t = "a[int] = w, a=" + str(ma) + " i=" + std::to_string(i) + " w=" + str(mw);
      ass_<VD, double>(t, ma, {i}, mw.v, false, [&](VD &a) { subset(a, i) = w; });
      ass_<VD, double>("scalar " + t, ma, {i}, {s}, true, [&](VD &a) { subset(a, i) = s; });
      double d = pick(n + 3) + pick(4) / 4.0;
      ass_<VD, double>("a[double] = s, a=" + str(ma) + " i=" + std::to_string(d), ma, {(long)d}, {s}, true, [&](VD &a) { subset(a, d) = s; }); }
    { bool i = pick(3); std::vector<long> p; if (i) for (long k = 1; k <= n; k++) p.push_back(k); auto mw = rhs(n); VD w; put(w, mw); std::string t = "a[bool] = w, a=" + str(ma) + " w=" + str(mw);
      ass_<VD, double>(t, ma, p, mw.v, false, [&](VD &a) { subset(a, i) = w; });
      ass_<VD, double>("scalar " + t, ma, p, {s}, true, [&](VD &a) { subset(a, i) = s; }); }
    { M<bool> mb = random<bool>(size()); VB b; put(b, mb); std::vector<long> p; for (long k = 0; k < n; k++) if (mb.v[k % mb.v.size()]) p.push_back(k + 1);
      auto mw = rhs(std::max<size_t>(1, p.size())); VD w; put(w, mw); std::string t = "a[logical] = w, a=" + str(ma) + " i=" + str(mb) + " w=" + str(mw);
      ass_<VD, double>(t, ma, p, mw.v, false, [&](VD &a) { subset(a, b) = w; });
      ass_<VD, double>("scalar " + t, ma, p, {s}, true, [&](VD &a) { subset(a, b) = s; }); }
    { double q = ma.v[pick(n)]; std::vector<long> p; for (long k = 0; k < n; k++) if (ma.v[k] > q) p.push_back(k + 1);
      auto mw = rhs(std::max<size_t>(1, p.size())); VD w; put(w, mw); std::string t = "a[a > q] = w, a=" + str(ma) + " w=" + str(mw);
      ass_<VD, double>(t, ma, p, mw.v, false, [&](VD &a) { subset(a, a > q) = w; });
      ass_<VD, double>("scalar " + t, ma, p, {s}, true, [&](VD &a) { subset(a, a > q) = s; }); }
    { auto mj = random<int>(n); auto mw = random<int>(pick(5) ? pi.size() : size()); VI w; put(w, mw); std::string t = "int a[int vec] = w, a=" + str(mj) + " i=" + str(mi) + " w=" + str(mw);
      ass_<VI, int>(t, mj, pi, mw.v, false, [&](VI &a) { subset(a, vi) = w; });
      double f = ival() + pick(4) / 4.0; ass_<VI, int>("double scalar " + t, mj, pi, {int(f)}, true, [&](VI &a) { subset(a, vi) = f; });
      M<double> me; for (int x : mw.v) me.v.push_back(x); VD x; put(x, me);
      ass_<VI, int>("from double " + t, mj, pi, mw.v, false, [&](VI &a) { subset(a, vi) = x; }); }
    { std::vector<double> mem = ma.v; mem.push_back(77); WD a(mem.data(), n); auto mw = rhs(pi.size()); VD w; put(w, mw); bool in = mw.v.size() == pi.size();
      for (long p : pi) if (p < 1 || p > n) in = false;
      std::string t = "borrowed a[int vec] = w, a=" + str(ma) + " i=" + str(mi) + " w=" + str(mw);
      bool th = threw([&] { subset(a, vi) = w; });
      if (th == in) mismatch(t + (th ? ": threw" : ": did not throw"));
      std::vector<double> e = ma.v; if (in) for (size_t k = 0; k < pi.size(); k++) e[pi[k] - 1] = mw.v[k];
      if (in) for (long k = 0; k < n; k++) if (!same(mem[k], e[k])) { mismatch(t + ": wrong contents"); break; }
      if (mem[n] != 77 || (long)a.size() != n) mismatch(t + ": beyond the borrowed memory"); }
  }
  return finish();
}
