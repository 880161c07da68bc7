#include "elementwise.hpp"
static bool same_all(const std::vector<double> &a, const std::vector<double> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false; return true; }
template <typename V, typename T> void sel(const std::string &w, const V &a, const M<T> &ma, const std::vector<long> &pos, std::function<void(V &)> f) {
  V r;
  M<T> mr = random<T>(size(), pick(2));
  bool filled = pick(2);
  if (filled) put(r, mr);
  bool ok = !pos.empty();
  for (long p : pos) if (p < 1 || p > (long)ma.v.size()) ok = false;
  bool t = threw([&] { f(r); }, w, true);
  if (t == ok) { mismatch(w + (t ? ": threw for positions within the vector" : ": did not throw for a position outside the vector")); return; }
  if (t) { if (filled) unchanged(w, r, mr); }
  else { std::vector<T> e; for (long p : pos) e.push_back(ma.v[p - 1]); expect(w, r, e); }
  unchanged(w, a, ma);
}
int main() {
  init();
  for (long it = 0; it < 40000 && !out_of_time(); it++) {
    auto ma = random<double>(size(), pick(3) == 0);
    long n = ma.v.size();
    VD a; put(a, ma);
    M<int> mi = random<int>(size()); M<double> md = random<double>(size());
    bool wild = pick(3) == 0;
    std::vector<long> pi, pd;
    for (auto &x : mi.v) { x = 1 + pick(n); if (wild && pick(4) == 0) x = int(pick(2 * n + 4)) - 2; pi.push_back(x); }
    for (auto &x : md.v) { double z = 1 + pick(n); if (wild && pick(4) == 0) z = pick(2 * n + 4); if (pick(3) == 0) z += 0.5; x = z; pd.push_back((long)z); }
    VI vi; put(vi, mi); VD vd; put(vd, md);
    sel<VD, double>("a[int vec] a=" + str(ma) + " i=" + str(mi), a, ma, pi, [&](VD &r) { r = subset(a, vi); });
    { std::string w = "for (x : a[int vec]) a=" + str(ma) + " i=" + str(mi); std::vector<double> e, got; bool ok = true; for (long p : pi) if (p < 1 || p > n) ok = false; else e.push_back(ma.v[p - 1]);
      bool t = threw([&] { for (double x : subset(a, vi)) got.push_back(x); }); if (t == ok) mismatch(w + (t ? ": threw" : ": did not throw")); else if (!t && !same_all(got, e)) mismatch(w + ": other elements were visited"); unchanged(w, a, ma); }
    sel<VD, double>("a[double vec] a=" + str(ma) + " i=" + str(md), a, ma, pd, [&](VD &r) { r = subset(a, vd); });
    { int i = int(pick(n + 4)) - 1; sel<VD, double>("a[int] a=" + str(ma) + " i=" + std::to_string(i), a, ma, {i}, [&](VD &r) { r = subset(a, i); }); }
    { double i = pick(n + 3) + pick(4) / 4.0; sel<VD, double>("a[double] a=" + str(ma) + " i=" + std::to_string(i), a, ma, {(long)i}, [&](VD &r) { r = subset(a, i); }); }
    { bool i = pick(3); std::vector<long> p; if (i) for (long k = 1; k <= n; k++) p.push_back(k); sel<VD, double>("a[bool] a=" + str(ma), a, ma, p, [&](VD &r) { r = subset(a, i); }); }
    { M<bool> mb = random<bool>(size()); VB b; put(b, mb); std::vector<long> p; for (long k = 0; k < n; k++) if (mb.v[k % mb.v.size()]) p.push_back(k + 1);
      sel<VD, double>("a[logical] a=" + str(ma) + " i=" + str(mb), a, ma, p, [&](VD &r) { r = subset(a, b); }); }
    { double s = ma.v[pick(n)]; std::vector<long> p; for (long k = 0; k < n; k++) if (ma.v[k] > s) p.push_back(k + 1);
      sel<VD, double>("a[a > s] a=" + str(ma) + " s=" + std::to_string(s), a, ma, p, [&](VD &r) { r = subset(a, a > s); }); }
    { M<double> mb = random<double>(size()); VD b; put(b, mb); M<double> ms; size_t m = std::max<size_t>(n, mb.v.size()); for (size_t k = 0; k < m; k++) ms.v.push_back(ma.v[k % n] + mb.v[k % mb.v.size()]);
      std::vector<long> q = pi;
      VD r; bool ok = true; for (long p : q) if (p < 1 || p > (long)m) ok = false;
      std::string w = "(a+b)[int vec] a=" + str(ma) + " b=" + str(mb) + " i=" + str(mi);
      bool t = threw([&] { r = subset(a + b, vi); });
      if (t == ok) mismatch(w + (t ? ": threw" : ": did not throw for a position outside"));
      else if (ok) { std::vector<double> e; for (long p : q) e.push_back(ms.v[p - 1]); expect(w, r, e); }
      if (ok) { M<double> mo = random<double>(size()); VD o; put(o, mo); size_t l = std::max(mo.v.size(), q.size());
        bool in = true; for (long p : q) if (p > n) in = false;
        if (in) { std::vector<double> e; for (size_t k = 0; k < l; k++) e.push_back(ma.v[q[k % q.size()] - 1] + mo.v[k % mo.v.size()]);
          VD z; if (!threw([&] { z = subset(a, vi) + o; }, w, false)) expect("a[i]+o", z, e); } } }
    { M<int> mk = random<int>(size()); std::vector<double> e; bool in = true; for (long p : pi) if (p < 1 || p > n) in = false;
      for (auto &x : mk.v) { x = 1 + pick(mi.v.size()); } VI vk; put(vk, mk);
      if (in) { for (int x : mk.v) e.push_back(ma.v[mi.v[x - 1] - 1]); VD r; std::string w = "a[i][k] a=" + str(ma) + " i=" + str(mi) + " k=" + str(mk);
        if (!threw([&] { r = subset(subset(a, vi), vk); }, w, false)) expect(w, r, e); } }
    { M<int> mj = random<int>(n); VI j; put(j, mj); sel<VI, int>("int a[int vec] a=" + str(mj) + " i=" + str(mi), j, mj, pi, [&](VI &r) { r = subset(j, vi); }); }
    { M<bool> mj = random<bool>(n); VB j; put(j, mj); sel<VB, bool>("logical a[int vec] a=" + str(mj) + " i=" + str(mi), j, mj, pi, [&](VB &r) { r = subset(j, vi); }); }
  }
  return finish();
}
