#include "elementwise.hpp"
template <typename V, typename T> void upd(const std::string &w, const M<T> &ma, const std::vector<T> &e, bool ok, std::function<void(V &)> f) {
  V a; put(a, ma);
  bool t = threw([&] { f(a); });
  if (t == ok) { mismatch(w + (t ? ": threw" : ": did not throw")); return; }
  if (!t) expect(w, a, e); else expect(w + " after an exception", a, ma.v);
}
int main() {
  init();
  using D = std::vector<double>;
  for (long it = 0; it < 40000 && !out_of_time(); it++) {
    auto ma = random<double>(size(), pick(3) == 0), mb = random<double>(size(), pick(3) == 0);
    size_t n = ma.v.size(), m = mb.v.size(), l = std::max(n, m);
    VD b; put(b, mb);
    double s = dval();
    auto A = [&](size_t i) { return ma.v[i % n]; };
    auto Bv = [&](size_t i) { return mb.v[i % m]; };
    auto mk = [&](size_t k, std::function<double(size_t)> g) { D r; for (size_t i = 0; i < k; i++) r.push_back(g(i)); return r; };
    std::string w = " a=" + str(ma) + " b=" + str(mb);
    upd<VD, double>("a = a + b" + w, ma, mk(l, [&](size_t i) { return A(i) + Bv(i); }), true, [&](VD &a) { a = a + b; });
    upd<VD, double>("a = b + a" + w, ma, mk(l, [&](size_t i) { return Bv(i) + A(i); }), true, [&](VD &a) { a = b + a; });
    upd<VD, double>("a = a - s" + w, ma, mk(n, [&](size_t i) { return A(i) - s; }), true, [&](VD &a) { a = a - s; });
    upd<VD, double>("a = b * a" + w, ma, mk(l, [&](size_t i) { return Bv(i) * A(i); }), true, [&](VD &a) { a = b * a; });
    upd<VD, double>("a = -a" + w, ma, mk(n, [&](size_t i) { return -A(i); }), true, [&](VD &a) { a = -a; });
    upd<VD, double>("a = sinus(a)" + w, ma, mk(n, [&](size_t i) { return std::sin(A(i)); }), true, [&](VD &a) { a = sinus(a); });
    upd<VD, double>("a = a + a" + w, ma, mk(n, [&](size_t i) { return A(i) + A(i); }), true, [&](VD &a) { a = a + a; });
    upd<VD, double>("a = (a + b) * a" + w, ma, mk(l, [&](size_t i) { return (A(i) + Bv(i)) * A(i); }), true, [&](VD &a) { a = (a + b) * a; });
    upd<VD, double>("a = a" + w, ma, ma.v, true, [&](VD &a) { a = a; });
    upd<VD, double>("a = s" + w, ma, D{s}, true, [&](VD &a) { a = s; });
    upd<VD, double>("a = b" + w, ma, mb.v, true, [&](VD &a) { a = b; });
    unchanged("b" + w, b, mb);
    if (n > 1) upd<VD, double>("a = at(a, 2)" + w, ma, D{A(1)}, true, [&](VD &a) { a = at(a, 2); });
    M<int> mi = random<int>(size()), mk_ = random<int>(pick(2) ? mi.v.size() : size());
    for (auto &x : mi.v) x = 1 + pick(n);
    for (auto &x : mk_.v) x = 1 + pick(n);
    VI vi, vk; put(vi, mi); put(vk, mk_);
    VD vd; vd = vi;
    size_t q = mi.v.size();
    w += " i=" + str(mi) + " k=" + str(mk_);
    auto S = [&](size_t i) { return ma.v[mi.v[i % q] - 1]; };
    upd<VD, double>("a = a[i]" + w, ma, mk(q, S), true, [&](VD &a) { a = subset(a, vi); });
    upd<VD, double>("a = a[double i]" + w, ma, mk(q, S), true, [&](VD &a) { a = subset(a, vd); });
    upd<VD, double>("a = a[i] + a" + w, ma, mk(std::max(n, q), [&](size_t i) { return S(i) + A(i); }), true, [&](VD &a) { a = subset(a, vi) + a; });
    upd<VD, double>("a = a[scalar]" + w, ma, mk(1, S), true, [&](VD &a) { a = subset(a, mi.v[0]); });
    { double c = A(pick(n)); D e; for (double x : ma.v) if (x > c) e.push_back(x);
      upd<VD, double>("a = a[a > c]" + w, ma, e, !e.empty(), [&](VD &a) { a = subset(a, a > c); });
      M<bool> ml = random<bool>(size()); VB vb; put(vb, ml); e.clear(); for (size_t i = 0; i < n; i++) if (ml.v[i % ml.v.size()]) e.push_back(A(i));
      upd<VD, double>("a = a[logical]" + w, ma, e, !e.empty(), [&](VD &a) { a = subset(a, vb); });
      VD x; x = vb; D ex; for (size_t z = 0; z < ml.v.size(); z++) ex.push_back(ml.v[z]); expect("double = logical" + w, x, ex); }
    { D e = ma.v; bool ok = mk_.v.size() == q; if (ok) for (size_t k = 0; k < q; k++) e[mi.v[k] - 1] = ma.v[mk_.v[k] - 1];
      upd<VD, double>("a[i] = a[k]" + w, ma, e, ok, [&](VD &a) { subset(a, vi) = subset(a, vk); }); }
    { D e = ma.v; bool ok = l == q; if (ok) for (size_t k = 0; k < q; k++) e[mi.v[k] - 1] = A(k) + Bv(k);
      upd<VD, double>("a[i] = a + b" + w, ma, e, ok, [&](VD &a) { subset(a, vi) = a + b; }); }
    { D e = ma.v; bool ok = std::max(q, m) == q; if (ok) for (size_t k = 0; k < q; k++) e[mi.v[k] - 1] = S(k) + Bv(k);
      upd<VD, double>("a[i] = a[i] + b" + w, ma, e, ok, [&](VD &a) { subset(a, vi) = subset(a, vi) + b; }); }
    { auto mp = random<int>(n), mr = random<int>(size()); for (auto &x : mp.v) x = 1 + pick(n); std::vector<int> e; for (int x : mp.v) e.push_back(mp.v[x - 1]);
      upd<VI, int>("p = p[p] p=" + str(mp), mp, e, true, [&](VI &a) { a = subset(a, a); });
      VI r; put(r, mr); e.clear(); for (size_t i = 0; i < std::max(n, mr.v.size()); i++) e.push_back(mp.v[i % n] + mr.v[i % mr.v.size()]);
      upd<VI, int>("p = p + r p=" + str(mp) + " r=" + str(mr), mp, e, true, [&](VI &a) { a = a + r; });
      VD x; x = r; D ex(mr.v.begin(), mr.v.end()); expect("double = int", x, ex);
      M<double> mf = random<double>(size()); for (auto &z : mf.v) z = fval(); VD f; put(f, mf); e.clear(); for (double z : mf.v) e.push_back(int(z));
      upd<VI, int>("int = double " + str(mf), mp, e, true, [&](VI &a) { a = f; }); }
    { VD a, c, d; put(a, ma); put(c, mb); put(d, random<double>(size())); a = c = d; D e(d.d.p, d.d.p + d.d.sz); expect("a = c = d", a, e); expect("a = c = d", c, e);
      a.d.p[0] = 4711; d.d.p[0] = 815; if (c.d.p[0] == 4711 || c.d.p[0] == 815 || d.d.p[0] == 4711) mismatch("vectors share storage after a = c = d"); }
  }
  return finish();
}
