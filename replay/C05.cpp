#include "elementwise.hpp"
#include <new>
#include <utility>
template <typename B> struct El2;
template <> struct El2<BD> { using T = double; };
template <> struct El2<BI> { using T = int; };
template <> struct El2<BB> { using T = bool; };
struct W { // adapter so that expect() can be used on a bare buffer
};
template <typename B, typename T> bool same_store(const std::string &w, const B &b, const std::vector<T> &e) {
  if (b.size() != e.size()) { mismatch(w + ": size " + std::to_string(b.size()) + ", expected " + std::to_string(e.size())); return false; }
  if (b.sz > b.capacity || (b.sz && (!b.p || !b.allocated)) || (!b.p && (b.allocated || b.capacity))) { mismatch(w + ": invariant broken, size " + std::to_string(b.sz) + " capacity " + std::to_string(b.capacity)); return false; }
  // the block really has `capacity` elements: touch the last one (checked by the address sanitizer)
  if (b.p && b.capacity) { volatile unsigned char *q = (volatile unsigned char *)(b.p + b.capacity) - 1; *q = *q; }
  for (size_t i = 0; i < e.size(); i++) if (!same<T>(b.p[i], e[i])) { mismatch(w + ": element " + std::to_string(i) + " of " + std::to_string(e.size())); return false; }
  return true;
}
template <typename B> void history() {
  using T = typename El2<B>::T;
  std::vector<T> e;
  alignas(B) unsigned char mem[sizeof(B)];
  std::string w = "history:";
  B *b;
  switch (pick(4)) {
  case 0: b = new (mem) B(); break;
  case 1: { size_t n = size(); b = new (mem) B(n); e.assign(n, T()); w += " B(size " + std::to_string(n) + ")"; break; }
  case 2: { int n = size(); b = new (mem) B(n); e.assign(n, T()); w += " B(int " + std::to_string(n) + ")"; break; }
  default: { B o(size()); for (size_t i = 0; i < o.size(); i++) { o[i] = val<T>(); e.push_back(o[i]); }
    o.setMatrix(true, 1, o.size());
    if (pick(2)) { b = new (mem) B(o); w += " copy"; } else { b = new (mem) B(std::move(o)); w += " move"; }
    if (!b->im() || b->nc() != e.size()) mismatch(w + ": dimensions lost"); }
  }
  same_store(w, *b, e);
  for (int step = 0; step < 8; step++) {
    switch (pick(11)) {
    case 0: { size_t n = size(); w += " resize " + std::to_string(n); bool grow = n > b->capacity, fresh_ = !b->allocated; std::vector<T> o = e; b->resize(n); if (!fresh_) for (size_t q = grow ? 0 : o.size(); q < n; q++) b->p[q] = T(); e.assign(b->p, b->p + n);
        if (b->size() != n) mismatch(w + ": size");
        if (fresh_) for (size_t q = 0; q < e.size(); q++) if (!same<T>(e[q], T())) mismatch(w + ": not zero");
        if (!grow && !fresh_) for (size_t i = 0; i < std::min(n, o.size()); i++) if (!same<T>(o[i], e[i])) { mismatch(w + ": contents lost"); break; }
        break; }
    case 1: { size_t n = size(); w += " realloc " + std::to_string(n); b->realloc(n); e.resize(n, T()); break; }
    case 2: { int k = 1 + pick(5); w += " push x" + std::to_string(k); while (k--) { T x = val<T>(); b->push_back(x); e.push_back(x); } break; }
    case 3: if (b->allocated) { T x = val<T>(); w += " fill"; b->fill(x); e.assign(e.size(), x); } break;
    case 4: { B o(size()); std::vector<T> f; for (size_t i = 0; i < o.size(); i++) { o[i] = val<T>(); f.push_back(o[i]); } w += " assign " + std::to_string(f.size()); *b = o; e = f; same_store(w + " (source)", o, f); break; }
    case 5: { w += " self"; *b = *b; break; }
    case 6: { B o(size()); std::vector<T> f; for (size_t i = 0; i < o.size(); i++) { o[i] = val<T>(); f.push_back(o[i]); } w += " moveit"; b->moveit(o); same_store(w + " (other)", o, e); e = f; break; }
    case 7: { size_t i = pick(e.size() + 3); if (pick(8) == 0) i = size_t(-1) - pick(3); bool t = threw([&] { T x = val<T>(); (*b)[i] = x; e[i] = x; }); if (t == (i < e.size())) mismatch(w + " write at " + std::to_string(i)); break; }
    case 8: { size_t i = pick(e.size() + 3); T x{}; bool t = threw([&] { x = std::as_const(*b)[i]; }); if (t == (i < e.size())) mismatch(w + " read at " + std::to_string(i)); else if (!t && !same<T>(x, e[i])) mismatch(w + " read value"); break; }
    case 9: { size_t n = size(); w += " init " + std::to_string(n); b->init(n); for (size_t i = 0; i < n; i++) b->p[i] = T(); e.assign(n, T()); break; }
    case 10: if (!e.empty()) { if (!same<T>(b->back(), e.back())) mismatch(w + " back"); size_t q = 0; bool bad = false; for (T x : *b) { if (q >= e.size() || !same<T>(x, e[q])) { bad = true; break; } q++; } if (bad || q != e.size()) mismatch(w + ": range-for visits other elements"); } break;
    }
    if (!same_store(w, *b, e)) break;
  }
  b->~B();
}
int main() {
  init();
  for (long it = 0; it < 60000 && !out_of_time(); it++) {
    history<BD>(); history<BI>(); history<BB>();
    { bool t = threw([&] { VD a; a.resize(0); }), u = threw([&] { BD a(size_t(0)); }), v = threw([&] { BI a(-3); }); if (!t || !u || !v) mismatch("size zero accepted"); }
    auto ma = random<double>(size(), pick(3) == 0), mb = random<double>(size(), false);
    VD a, b; put(a, ma); put(b, mb);
    size_t n = ma.v.size(), m = mb.v.size();
    std::string w = " a=" + str(ma) + " b=" + str(mb);
    { VD r(a); expect("copy" + w, r, ma.v); expect_shape("copy" + w, r, ma.im, ma.nr, ma.nc); r.resize(r.d.capacity); r[r.size() - 1] = 1; }
    { VD r(std::move(a)); expect("move" + w, r, ma.v); expect_shape("move" + w, r, ma.im, ma.nr, ma.nc); }
    { auto mi = random<int>(size(), pick(2)); VI i; put(i, mi); VI j(i); expect("int copy" + str(mi), j, mi.v); expect_shape("int copy" + str(mi), j, mi.im, mi.nr, mi.nc);
      const VI &ci = i; VD r(std::move(ci)); std::vector<double> e(mi.v.begin(), mi.v.end()); expect("from int " + str(mi), r, e); expect_shape("from int" + str(mi), r, mi.im, mi.nr, mi.nc);
      VD q(coca(i, i)); e.insert(e.end(), mi.v.begin(), mi.v.end()); expect("from int coca", q, e); }
    { VD r(a + b); std::vector<double> e; for (size_t i = 0; i < std::max(n, m); i++) e.push_back(ma.v[i % n] + mb.v[i % m]); expect("from sum" + w, r, e); }
    { VD r(coca(a, b)); std::vector<double> e = ma.v; e.insert(e.end(), mb.v.begin(), mb.v.end()); expect("from coca" + w, r, e); r.resize(r.d.capacity); r[r.size() - 1] = 1; r.resize(1); r.resize(2 * (n + m)); r[2 * (n + m) - 1] = 2; }
    { auto md = random<double>(size()); for (auto &x : md.v) x = fval(); VD d; put(d, md); const VD &cd = d; VI r(std::move(cd)); std::vector<int> e; for (double x : md.v) e.push_back(int(x)); expect("int from double" + str(md), r, e); }
    { double s = dval(); int i = ival(); bool l = pick(2); VD x(s), y(i), z(l); using D1 = std::vector<double>; expect("scalar", x, D1{s}); expect("int scalar", y, D1{double(i)}); expect("bool scalar", z, D1{double(l)}); }
    { VD x(ma.v.data(), n), y(ma.v.data(), n, size_t(1)); expect("from memory" + w, x, ma.v); expect("from memory" + w, y, ma.v); expect_shape("from memory" + w, y, true, n, 1); }
    { size_t r = 1 + pick(6), c = 1 + pick(6); double s = dval(); VD x(r, c), y(r, c, s); expect("rows, cols", x, std::vector<double>(r * c, 0.0)); expect_shape("rows, cols", x, true, r, c); expect("rows, cols, value", y, std::vector<double>(r * c, s)); expect_shape("rows, cols, value", y, true, r, c);
      VD z{SI(r)}; expect("sized", z, std::vector<double>(r, 0.0)); }
    { VD x; x.resize(size()); VD y; y.resize(x.size()); M<double> q = random<double>(x.size()); put(y, q, false); size_t big = x.size() + 20; if (pick(2)) { x.resize(big); x.resize(y.size()); }
      x.d.fill(y); expect("fill from vector", x, q.v); x.d.fill(coca(y)); expect("fill from temporary", x, q.v); x.resize(x.d.capacity); for (size_t k = 0; k < x.size(); k++) x[k] = 1;
      if (!threw([&] { VD v; v.resize(x.size() + 1); x.d.fill(v); })) mismatch("fill from a vector of another length"); }
  }
  return finish();
}
