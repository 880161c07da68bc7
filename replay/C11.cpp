#include "matsel.hpp"
// f assigns e (one element: a scalar) into the positions at of a copy of mm
template <typename V, typename T, typename F>
void put_in(const std::string &w, const M<T> &mm, const std::vector<size_t> &at, const std::vector<T> &e, bool scalar, F f) {
  V m; put(m, mm);
  bool ok = scalar || e.size() == at.size();
  bool t = threw([&] { f(m); });
  if (t == ok) { mismatch(w + (t ? ": threw for a valid assignment" : ": did not throw")); return; }
  std::vector<T> x = mm.v;
  if (ok) for (size_t k = 0; k < at.size(); k++) x[at[k]] = scalar ? e[0] : e[k];
  expect(w, m, x);
  expect_shape(w, m, true, mm.nr, mm.nc);
}
template <int A, int B> void refuse() {
  if constexpr (A == 0 || B == 0) { // FALSE is refused
    size_t nr = axis(), nc = axis();
    auto mm = matrix_model(nr, nc);
    Sel<A> a(nr); Sel<B> b(nc);
    std::string w = "FALSE for TRUE in m[" + a.text + ", " + b.text + "] = w, m=" + str(mm);
    if constexpr (A == 0 && B == 0) { b.arg = pick(2); a.arg = !b.arg && pick(2); } else if constexpr (A == 0) a.arg = false; else b.arg = false;
    VD m, x; put(m, mm); auto mw = random<double>(size()); put(x, mw);
    if (!threw([&] { subset(m, a.arg, b.arg) = x; })) mismatch(w + ": did not throw");
    if (!threw([&] { subset(m, a.arg, b.arg) = 0.5; })) mismatch(w + " = 0.5: did not throw");
    unchanged(w, m, mm); unchanged(w, x, mw);
  }
}
template <int A, int B> void one() {
  size_t nr = axis(), nc = axis();
  auto mm = matrix_model(nr, nc);
  Sel<A> a(nr); Sel<B> b(nc);
  std::vector<size_t> at;
  for (size_t k : b.pos) for (size_t i : a.pos) at.push_back(k * nr + i);
  std::string t = "[" + a.text + ", " + b.text + "]";
  auto mw = random<double>(pick(6) ? at.size() : size(), pick(3) == 0);
  VD w; put(w, mw);
  double s = dval();
  put_in<VD, double>("m" + t + " = w, m=" + str(mm) + " w=" + str(mw), mm, at, mw.v, false, [&](VD &m) { subset(m, a.arg, b.arg) = w; });
  unchanged("m" + t + " = w", w, mw);
  put_in<VD, double>("m" + t + " = " + std::to_string(s) + ", m=" + str(mm), mm, at, {s}, true, [&](VD &m) { subset(m, a.arg, b.arg) = s; });
  if constexpr (A == 1 && B == 0) { int z = int(pick(9)) - 4; put_in<VD, double>("m" + t + " = int", mm, at, {double(z)}, true, [&](VD &m) { subset(m, a.arg, b.arg) = z; }); }
  refuse<A, B>();
  if constexpr (A == 3 && B == 3) {
    put_in<VD, double>("m" + t + " = m, m=" + str(mm), mm, at, mm.v, false, [&](VD &m) { subset(m, a.arg, b.arg) = m; });
    put_in<VD, double>("m(i, k) = s, m=" + str(mm), mm, at, {s}, true, [&](VD &m) { m(a.arg, b.arg) = s; });
    auto mv = random<double>(pick(3) ? std::max<size_t>(1, std::min(at.size(), 1 + pick(4))) : size());
    VD v; put(v, mv);
    std::vector<double> e;
    for (size_t k = 0; k < std::max(mv.v.size(), mw.v.size()); k++) e.push_back(mv.v[k % mv.v.size()] * mw.v[k % mw.v.size()]);
    put_in<VD, double>("m" + t + " = v * w, m=" + str(mm) + " v=" + str(mv) + " w=" + str(mw), mm, at, e, false, [&](VD &m) { subset(m, a.arg, b.arg) = v * w; });
    M<int> mi; for (double x : mm.v) mi.v.push_back(int(pick(100))), (void)x;
    mi.im = true; mi.nr = nr; mi.nc = nc;
    auto wi = random<int>(pick(6) ? at.size() : size());
    VI iw; put(iw, wi);
    put_in<VI, int>("int m" + t + " = w, m=" + str(mi) + " w=" + str(wi), mi, at, wi.v, false, [&](VI &m) { subset(m, a.arg, b.arg) = iw; });
    std::vector<double> mem = mm.v;
    { WD m(mem.data(), nr * nc);
      m.d.setMatrix(true, nr, nc);
      M<double> x; x.v = mem;
      bool ok = mw.v.size() == at.size();
      if (threw([&] { subset(m, a.arg, b.arg) = w; }) == ok) mismatch("borrowed m" + t + " = w: wrong outcome");
      else { if (ok) for (size_t k = 0; k < at.size(); k++) x.v[at[k]] = mw.v[k]; for (size_t k = 0; k < mem.size(); k++) if (!same<double>(mem[k], x.v[k])) { mismatch("borrowed m" + t + " = w, m=" + str(mm) + " w=" + str(mw)); break; } } }
  }
  if constexpr (A == 3 && B == 1) {
    int l = 1 + pick(nc);
    std::vector<double> e;
    for (size_t i : a.pos) e.push_back(mm.v[(l - 1) * nr + i]);
    put_in<VD, double>("m" + t + " = m[i, " + std::to_string(l) + "], m=" + str(mm), mm, at, e, false, [&](VD &m) { subset(m, a.arg, b.arg) = subset(m, a.arg, l); });
    M<bool> mb; for (size_t k = 0; k < nr * nc; k++) mb.v.push_back(pick(2));
    mb.im = true; mb.nr = nr; mb.nc = nc;
    bool z = pick(2);
    put_in<VB, bool>("logical m" + t + " = " + std::to_string(z) + ", m=" + str(mb), mb, at, {z}, true, [&](VB &m) { subset(m, a.arg, b.arg) = z; });
  }
}
template <int A> void row() { one<A, 0>(); one<A, 1>(); one<A, 2>(); one<A, 3>(); one<A, 4>(); one<A, 5>(); }
int main() {
  init();
  for (long it = 0; it < 20000 && !out_of_time(); it++) { row<0>(); row<1>(); row<2>(); row<3>(); row<4>(); row<5>(); }
  return finish();
}
