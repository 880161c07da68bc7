#include "matsel.hpp"
template <int A, int B> void one() {
  size_t nr = axis(), nc = axis();
  auto mm = matrix_model(nr, nc);
  Sel<A> a(nr); Sel<B> b(nc);
  VD m, r;
  put(m, mm);
  if (pick(2)) put(r, random<double>(size(), pick(2)));
  std::string w = "m[" + a.text + ", " + b.text + "] m=" + str(mm);
  std::vector<double> e;
  for (size_t k : b.pos) for (size_t i : a.pos) e.push_back(mm.v[k * nr + i]);
  bool ok = !threw([&] { r = subset(m, a.arg, b.arg); }, w, false);
  if (ok) {
    bool im = !plain(A) && !plain(B);
    expect(w, r, e);
    expect_shape(w, r, im, a.pos.size(), b.pos.size());
  }
  unchanged(w, m, mm);
  if constexpr (A == 0 || B == 0) { // FALSE is refused
    bool x = false;
    if constexpr (A == 0) { a.arg = false; x = B == 0; }
    if constexpr (B == 0) { if (x) { b.arg = pick(2); a.arg = b.arg && pick(2); if (a.arg) b.arg = false; } else b.arg = false; }
    auto mr = random<double>(size(), pick(2)); VD r2; put(r2, mr);
    std::string wf = "FALSE for TRUE in " + w;
    if (!threw([&] { r2 = subset(m, a.arg, b.arg); })) mismatch(wf + ": did not throw");
    unchanged(wf, m, mm); unchanged(wf, r2, mr);
  }
  if (A == 3 && B == 3) {
    VD q;
    double s = fval();
    for (double &x : e) x += s;
    if (!threw([&] { q = subset(m + s, a.arg, b.arg); }, w + " of m + s", false)) expect(w + " of m + s", q, e);
  }
}
template <int A> void row() { one<A, 0>(); one<A, 1>(); one<A, 2>(); one<A, 3>(); one<A, 4>(); one<A, 5>(); }
int main() {
  init();
  for (long it = 0; it < 20000 && !out_of_time(); it++) { row<0>(); row<1>(); row<2>(); row<3>(); row<4>(); row<5>(); }
  return finish();
}
