#include "rt.hpp"
#include <memory>
#include <utility>
using AV = AllVars<3, 1, 0, 2>;
template <int K> using A_ = Vec<double, VarPointer<AV, K, 0>, VariableTypeTrait>;
using W_ = Vec<double, VarPointer<AV, 0, 1>, VariableTypeTrait>;
template <int K> using K_ = Vec<double, VarPointer<AV, K, -1, ConstantTypeTrait>, ConstantTypeTrait>;
#define VARS A_<0> a(av); A_<1> b(av); A_<2> c(av); W_ w(av); K_<0> k(av); K_<1> l(av)
namespace model { // dual numbers; m bounds the rounding error of d
struct D { double v, d, m; };
struct E {
  std::vector<D> x;
  bool im = false;
  size_t nr = 0, nc = 0, cap = ~size_t(0);
  int kind = 0; // 0 expression, 1 variable, 2 constant
  bool indep = false;
  E() = default;
  E(const E &) = default;
  E &operator=(const E &e);
};
static bool skip, thrown; // the statement is outside the property; throws
E &E::operator=(const E &e) {
  if (e.x.size() > cap) { thrown = true; return *this; }
  std::vector<D> y = e.x;
  bool eim = e.im; size_t er = e.nr, ec = e.nc; int ek = e.kind;
  for (auto &q : y) {
    if (ek == 2) q.d = indep ? 1 : 0, q.m = 0;
    if (!(std::fabs(q.v) < 1e6) || !(q.m < 1e9)) skip = true;
  }
  x = y; im = eim; nr = er; nc = ec;
  return *this;
}
template <typename F> E zip(const E &l, const E &r, F f) {
  E e;
  size_t n = std::max(l.x.size(), r.x.size());
  if ((l.im && l.x.size() != n) || (r.im && r.x.size() != n) || (l.im && r.im && (l.nr != r.nr || l.nc != r.nc))) skip = true;
  for (size_t i = 0; i < n; i++) e.x.push_back(f(l.x[i % l.x.size()], r.x[i % r.x.size()]));
  const E &s = l.im ? l : r;
  e.im = l.im || r.im; e.nr = s.nr; e.nc = s.nc;
  if (!e.im) e.nr = e.nc = 0;
  return e;
}
E operator+(const E &l, const E &r) { return zip(l, r, [](D p, D q) { return D{p.v + q.v, p.d + q.d, p.m + q.m + std::fabs(p.d) + std::fabs(q.d)}; }); }
E operator-(const E &l, const E &r) { return zip(l, r, [](D p, D q) { return D{p.v - q.v, p.d - q.d, p.m + q.m + std::fabs(p.d) + std::fabs(q.d)}; }); }
E operator*(const E &l, const E &r) { return zip(l, r, [](D p, D q) { return D{p.v * q.v, p.d * q.v + p.v * q.d, (p.m + std::fabs(p.d)) * std::fabs(q.v) + std::fabs(p.v) * (q.m + std::fabs(q.d))}; }); }
E operator/(const E &l, const E &r) {
  return zip(l, r, [](D p, D q) {
    double a = std::fabs(q.v);
    if (a < 1e-3) { skip = true; return D{0, 0, 0}; }
    return D{p.v / q.v, (p.d * q.v - p.v * q.d) / (q.v * q.v), (p.m + std::fabs(p.d)) / a + std::fabs(p.v) * (q.m + std::fabs(q.d)) / a / a};
  });
}
#define CMP(OP, X) E operator OP(const E &l, const E &r) { return zip(l, r, [](D p, D q) { return D{double(X), 0, 0}; }); }
CMP(<, p.v < q.v) CMP(<=, p.v <= q.v) CMP(>, p.v > q.v) CMP(>=, p.v >= q.v)
CMP(==, std::fabs(p.v - q.v) < 1e-3) CMP(!=, std::fabs(p.v - q.v) > 1e-3)
E sinus(const E &s) { E e; e.im = s.im; e.nr = s.nr; e.nc = s.nc; for (auto q : s.x) e.x.push_back(D{std::sin(q.v), std::cos(q.v) * q.d, q.m + std::fabs(q.d)}); return e; }
E constant(const std::vector<double> &x) { E e; for (double v : x) e.x.push_back(D{v, 0, 0}); e.kind = 2; return e; }
#define AD(N, ...) static void m_##N(E &a, E &b, E &c, E &w, E &k, E &l) { __VA_ARGS__; }
#include "C17.inc"
AD(twice, c = a * b; c = c * a)
AD(chain, c = a * a; b = sinus(c))
AD(swap, c = a; a = b; b = c)
#undef AD
} // namespace model
using namespace rt;
using model::E;
#define AD(N, ...) static void r_##N(AV &av) { VARS; __VA_ARGS__; }
#include "C17.inc"
AD(twice, c = a * b; c = c * a)
AD(chain, c = a * a; b = sinus(c))
AD(swap, c = a; a = b; b = c)
#undef AD
struct Stmt { const char *text; void (*r)(AV &); void (*m)(E &, E &, E &, E &, E &, E &); };
#define AD(N, ...) {#__VA_ARGS__, r_##N, model::m_##N},
static const Stmt table[] = {
#include "C17.inc"
AD(twice, c = a * b; c = c * a)
AD(chain, c = a * a; b = sinus(c))
AD(swap, c = a; a = b; b = c)
};
static double small() { size_t q = pick(8); if (q == 0) { double d = dval(); if (std::fabs(d) < 100) return d; } if (q < 3) return double(int(pick(7))) - 3; return (double(pick(8001)) - 4000) / 1024.0; }
static std::vector<double> some(size_t n) { std::vector<double> v; for (size_t i = 0; i < n; i++) v.push_back(small()); return v; }
struct Set { // a variable set and its model
  AV av;
  std::unique_ptr<double[]> mem;
  E m[6]; // a b c w k l
  std::string log;
  Set(int i, int t) : av(i, t) { for (int q = 0; q < 4; q++) m[q].kind = 1, m[q].indep = q < 3 ? i == q && t == 0 : i == 0 && t == 1; m[4].kind = m[5].kind = 2; }
  void give(int q, const std::vector<double> &v, bool mat, size_t cap = 0) {
    static const char *nm[] = {"a", "b", "c", "w", "k", "l"};
    m[q].x.clear();
    for (double x : v) m[q].x.push_back({x, m[q].indep ? 1.0 : 0.0, 0});
    M<double> g; g.v = v;
    if (mat) { auto d = random<double>(v.size(), true); g.im = m[q].im = true; g.nr = m[q].nr = d.nr; g.nc = m[q].nc = d.nc; }
    if (q == 3) {
      mem.reset(new double[cap]()); auto &d = av.varBorrow[0].d; d.p = mem.get(); d.sz = v.size(); d.capacity = cap; d.allocated = true; m[3].cap = cap;
      for (size_t i = 0; i < v.size(); i++) mem[i] = v[i];
    } else put(q < 3 ? av.varBuffer[q] : av.varConstants[q - 4], g);
    log += std::string(nm[q]) + "=" + rt::str(g) + (q == 3 ? "/" + std::to_string(cap) : "") + " ";
  }
  bool check(const std::string &s, unsigned written) {
    static const char *nm[] = {"a", "b", "c", "w", "k", "l"};
    for (int q = 0; q < 6; q++) {
      auto one = [&](auto &v, Buffer<double> *g) {
        std::vector<double> e; for (auto &x : m[q].x) e.push_back(x.v);
        if (v.d.sz != e.size() && !v.d.allocated) return e.empty();
        std::string what = log + "; " + s + ": " + nm[q];
        if (!expect(what, v, e)) return false;
        if (bool(v.d.mp.ismatrix) != m[q].im || (m[q].im && (v.d.mp.rows != m[q].nr || v.d.mp.cols != m[q].nc))) { mismatch(what + ": dimensions"); return false; }
        if (!g || (!g->sz && !(written >> q & 1))) return true;
        if (g->sz != e.size() || g->sz > g->capacity) { mismatch(what + ": " + std::to_string(g->sz) + " derivatives for " + std::to_string(e.size()) + " values"); return false; }
        for (size_t i = 0; i < e.size(); i++) {
          auto &x = m[q].x[i];
          if (!(std::fabs(g->p[i] - x.d) <= 1e-10 * (1e-3 + x.m + std::fabs(x.d)))) {
            std::ostringstream o; o.precision(17); o << what << ": derivative " << i + 1 << " is " << g->p[i] << ", expected " << x.d; mismatch(o.str()); return false;
          }
        }
        return true;
      };
      if (!(q < 3 ? one(av.varBuffer[q], &av.varBufferDerivs[q]) : q == 3 ? one(av.varBorrow[0], &av.varBorrowDerivs[0]) : one(av.varConstants[q - 4], nullptr))) return false;
    }
    return true;
  }
};
int main() {
  init();
  for (long it = 0; it < 300000 && !out_of_time(); it++) {
    size_t cap = pick(40) ? 12 : 600, base = size(6, cap);
    Set s(int(pick(3)), int(pick(2)));
    bool mats = pick(3) == 0;
    auto len = [&]() -> size_t { return mats || pick(3) == 0 ? base : size(6, cap); };
    for (int q = 0; q < 6; q++) { size_t n = len(); s.give(q, some(n), mats && q < 3 && pick(2), q == 3 ? n + (pick(2) ? pick(6) : 0) : 0); }
    if (pick(4) == 0) { VD x, y; M<double> p, r; p.v = some(len()); r.v = some(len()); put(x, p); put(y, r); E e[2]; for (int q = 0; q < 2; q++) { s.m[q].x.clear(); s.m[q].im = false; for (double v : (q ? r : p).v) s.m[q].x.push_back({v, s.m[q].indep ? 1.0 : 0.0, 0}); } s.av.initBuffer(x, y); s.log += "initBuffer " + rt::str(p) + rt::str(r) + " "; if (!s.check("initBuffer", 0)) continue; }
    for (int step = 0, n = 1 + pick(4); step < n; step++) {
      AV &av = s.av;
      model::skip = model::thrown = false;
      E b[6]; for (int q = 0; q < 6; q++) b[q] = s.m[q], b[q].kind = s.m[q].kind, b[q].indep = s.m[q].indep, b[q].cap = s.m[q].cap;
      // E::operator= gives constants a derivative; take the originals
      for (int q = 0; q < 6; q++) b[q].x = s.m[q].x;
      std::string text; std::function<void()> real; unsigned w = 0;
      size_t z = pick(sizeof table / sizeof *table + 15), t = z - sizeof table / sizeof *table;
      double x = small(), y = small(); int i1 = ival() % 50, i2 = ival() % 50; VD v; M<double> mv; mv.v = some(len()); put(v, mv);
      A_<0> a(av); A_<2> c(av);
      auto konst = [&](int q, const std::vector<double> &e) { b[q] = model::constant(e); b[q].kind = 2; };
      if (z < sizeof table / sizeof *table) { text = table[z].text; table[z].m(b[0], b[1], b[2], b[3], b[4], b[5]); real = [&, z] { table[z].r(av); }; w = text[0] == 'c' ? 4 : text[0] == 'a' ? 1 : text[0] == 'w' ? 8 : 0; }
      else if (t == 0) { text = "c = coca<0>(av, x, y) * a"; real = [&] { c = coca<0>(av, x, y) * a; }; konst(4, {x, y}); b[2] = model::operator*(b[4], b[0]); w = 4; }
      else if (t == 1) { text = "c = coca<0>(av, v)"; real = [&] { c = coca<0>(av, v); }; konst(4, mv.v); b[2] = b[4]; w = 4; }
      else if (t == 2) { text = "a = coca<0>(av, i, j, i)"; real = [&] { a = coca<0>(av, i1, i2, i1); }; konst(4, {double(i1), double(i2), double(i1)}); b[0] = b[4]; w = 1; }
      else if (t == 3) { text = "c = a / scalarDeriv<1>(av, x)"; real = [&] { c = a / scalarDeriv<1>(av, x); }; konst(5, {x}); b[2] = model::operator/(b[0], b[5]); w = 4; }
      else if (t == 4) { text = "c = scalarDeriv<1>(av, x)"; real = [&] { c = scalarDeriv<1>(av, x); }; konst(5, {x}); b[2] = b[5]; w = 4; }
      else if (t == 5) { text = "c = colon<0>(av, i, j)"; real = [&] { c = colon<0>(av, i1, i2); }; std::vector<double> e; for (int q = i1;; q += i1 < i2 ? 1 : -1) { e.push_back(q); if (q == i2) break; } konst(4, e); b[2] = b[4]; w = 4; }
      else if (t == 6) { // bounds of every kind: number, vector, expression
        int ka = int(pick(6)), kb = int(pick(6)); text = std::string("c = colon<0>(av, ") + "idIDJE"[ka] + ", " + "idIDJE"[kb] + ")";
        auto bound = [](int k, int i, double d, VI &vi, VD &vd) { M<int> mi; mi.v.assign(1 + pick(3), 7); mi.v[0] = i; put(vi, mi); M<double> md; md.v.assign(1 + pick(3), 0.5); md.v[0] = d; put(vd, md); return k == 0 || k == 2 ? double(i) : k == 4 ? 2.0 * i : k == 5 ? 2 * d : d; };
        auto vi1 = std::make_shared<VI>(), vi2 = std::make_shared<VI>(); auto vd1 = std::make_shared<VD>(), vd2 = std::make_shared<VD>();
        double lo = bound(ka, i1, x, *vi1, *vd1), hi = bound(kb, i2, y, *vi2, *vd2);
        auto with = [](int k, int i, double d, VI &vi, VD &vd, auto f) { switch (k) { case 0: f(i); break; case 1: f(d); break; case 2: f(vi); break; case 3: f(vd); break; case 4: f(vi + vi); break; default: f(vd + vd); } };
        real = [&, ka, kb, vi1, vi2, vd1, vd2, with] { with(ka, i1, x, *vi1, *vd1, [&](auto &&l) { with(kb, i2, y, *vi2, *vd2, [&](auto &&r) { c = colon<0>(av, std::forward<decltype(l)>(l), std::forward<decltype(r)>(r)); }); }); };
        std::vector<double> e; size_t k = lo < hi ? size_t(hi - lo + 1) : size_t(lo - hi + 1); for (size_t q = 0; q < k; q++) e.push_back(lo < hi ? lo + double(q) : lo - double(q)); konst(4, e); b[2] = b[4]; w = 4; }
      else if (t <= 10) {
        bool bad = t == 10 ? x < 1 : i1 < 1; size_t k = bad ? 1 : t == 10 ? size_t(x) : size_t(i1);
        text = t == 7 ? "a = vector_numeric<0>(av, i)" : t == 8 ? "a = vector_integer<0>(av, i)" : t == 9 ? "a = vector_logical<0>(av, i)" : "a = vector_numeric<0>(av, x)";
        real = [&, t] { if (t == 7) a = vector_numeric<0>(av, i1); else if (t == 8) a = vector_integer<0>(av, i1); else if (t == 9) a = vector_logical<0>(av, std::size_t(i1 < 1 ? 0 : i1)); else a = vector_numeric<0>(av, x); };
        if (bad) model::thrown = true; else { konst(4, std::vector<double>(k, 0.0)); b[0] = b[4]; w = 1; }
      } else if (t <= 13) {
        text = t == 11 ? "c = x" : t == 12 ? "a = i" : "w = x";
        real = [&, t] { if (t == 11) c = x; else if (t == 12) a = i1; else { W_ u(av); u = x; } };
        int q = t == 11 ? 2 : t == 12 ? 0 : 3; b[q] = model::constant({t == 12 ? double(i1) : x}); w = 1u << q;
      } else { // reading
        int q = int(pick(2)); text = q ? "get_derivs(w)" : "get_derivs(a)"; VD r; W_ wv(av);
        if (threw([&] { if (q) r = get_derivs(wv); else r = get_derivs(a); }, s.log + text, false)) goto next;
        { auto &g = q ? av.varBorrowDerivs[0] : av.varBufferDerivs[0]; E &e = s.m[q ? 3 : 0];
          if (g.sz != e.x.size() || !expect(s.log + text, r, got(Vec<double>(g)).v)) { if (g.sz != e.x.size()) mismatch(s.log + text + ": derivatives not started"); goto next; }
          VD u = a.d.get(); std::vector<double> want; for (auto &p : s.m[0].x) want.push_back(p.v); if (!expect(s.log + "values of a", u, want)) goto next;
          size_t at = pick(want.size() + 2); double got1 = 0; bool th = false; try { got1 = a.d[at]; } catch (std::exception &) { th = true; }
          if (th != (at >= want.size()) || (!th && !same(got1, want[at])) || a.size() != want.size()) { mismatch(s.log + "element or length of a"); goto next; } }
        if (!s.check(text, 0)) goto next;
        continue;
      }
      text += " (x=" + std::to_string(x) + " y=" + std::to_string(y) + " i=" + std::to_string(i1) + " j=" + std::to_string(i2) + ")";
      if (model::skip) continue;
      { bool th = false; std::string msg;
        try { real(); } catch (std::exception &e) { th = true; msg = e.what(); }
        if (th != model::thrown) { mismatch(s.log + "; " + text + (th ? ": threw " + msg : ": did not throw")); goto next; } }
      if (!model::thrown) for (int q = 0; q < 6; q++) { s.m[q].x = b[q].x; s.m[q].im = b[q].im; s.m[q].nr = b[q].nr; s.m[q].nc = b[q].nc; }
      if (!s.check(text, model::thrown ? 0 : w)) goto next;
      s.log += "; " + text;
    }
  next:;
  }
  // a new set
  for (int i = 0; i < 3; i++) for (int t = 0; t < 2; t++) { AV av(i, t); bool ok = av.IndepVarIdx == i && av.IndepVarTypeIdx == t && !av.DerivInit; for (auto &v : av.varBuffer) ok = ok && !v.d.sz; for (auto &v : av.varBufferDerivs) ok = ok && !v.sz; for (auto &v : av.varConstants) ok = ok && !v.d.sz; if (!ok) mismatch("a new variable set is not empty"); }
  return finish();
}
