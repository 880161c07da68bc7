#include "rt.hpp"
#include <new>
#include <utility>
using namespace rt;
using RD = Borrow<double>;
struct Mem { // memory of the caller: a heap block of exactly this size (the sanitizer guards its ends)
  size_t n; double *p; std::vector<double> v;
  Mem(size_t n) : n(n), p(new double[n]), v(n) { for (size_t i = 0; i < n; i++) p[i] = v[i] = dval(); }
  ~Mem() { delete[] p; }
  bool check(const std::string &w, const std::vector<double> &e) {
    for (size_t i = 0; i < n; i++) if (!same(p[i], e[i])) { std::ostringstream o; o.precision(17); o << w << ": element " << i << " of the memory of " << n << " is " << p[i] << ", expected " << e[i]; mismatch(o.str()); return false; }
    return true;
  }
};
struct View { size_t off, cap, sz; bool im = false; size_t nr = 0, nc = 0; };
static std::string str(const View &v) { std::ostringstream o; o << " over [" << v.off << "," << v.off + v.cap << ") with " << v.sz; if (v.im) o << " as " << v.nr << "x" << v.nc; return o.str(); }
static View some(const Mem &m) {
  View v; v.cap = 1 + pick(m.n); v.off = pick(m.n - v.cap + 1); v.sz = pick(2) ? v.cap : 1 + pick(v.cap);
  if (pick(3) == 0) { auto t = random<double>(v.sz, true); v.im = true; v.nr = t.nr; v.nc = t.nc; }
  return v;
}
template <typename A> static void shrink(A &a, const View &v) { if (v.sz != v.cap) { if constexpr (requires { a.d; }) { a.d.sz = v.sz; } else a.sz = v.sz; } if constexpr (requires { a.d; }) a.d.setMatrix(v.im, v.nr, v.nc); else a.setMatrix(v.im, v.nr, v.nc); }
static bool place(const std::string &w, const RD &d, const Mem &m, const View &v, size_t sz) {
  if (d.p != m.p + v.off || d.capacity != v.cap || d.sz != sz || !d.allocated) { mismatch(w + ": refers to another block, or length " + std::to_string(d.sz) + ", expected " + std::to_string(sz)); return false; }
  return true;
}
static void dims(const std::string &w, const RD &d, bool im, size_t nr, size_t nc) { if (bool(d.mp.ismatrix) != im || (im && (d.mp.rows != nr || d.mp.cols != nc))) mismatch(w + ": dimensions"); }
// assignment f(a); e: the right side before the assignment
template <typename F> static void run(std::string w, Mem &m, const View &v, const std::vector<double> &e, F f, bool im = false, size_t nr = 0, size_t nc = 0, bool whole = true, std::vector<double> want = {}) {
  std::vector<double> before = m.v;
  { WD a(m.p + v.off, v.cap); shrink(a, v);
    w += str(v) + " of " + std::to_string(m.n) + ", right side " + rt::str(e);
    bool t = false;
    try { f(a); } catch (std::exception &x) { t = true; }
    if (t) {
      if (e.size() >= v.sz && e.size() <= v.cap) mismatch(w + ": threw");
      if (m.check(w + " (after the exception)", before) && place(w + " (after the exception)", a.d, m, v, v.sz)) dims(w + " (after the exception)", a.d, v.im, v.nr, v.nc);
    } else {
      if (e.size() > v.cap) { mismatch(w + ": longer than the borrowed block, did not throw"); return; }
      for (size_t i = 0; i < e.size(); i++) m.v[v.off + i] = e[i];
      if (m.check(w, m.v) && place(w, a.d, m, v, e.size())) dims(w, a.d, im, nr, nc);
    }
  }
  m.check(w + " (after destruction)", m.v);
}
static std::vector<double> part(const Mem &m, const View &v) { const double *q = m.v.data(); return std::vector<double>(q + v.off, q + v.off + v.sz); }
template <typename A, typename B, typename F> auto zip(const A &a, const B &b, F f) { std::vector<double> e; size_t n = std::max(a.size(), b.size()); for (size_t i = 0; i < n; i++) e.push_back(f(a[i % a.size()], b[i % b.size()])); return e; }
template <typename A> std::vector<double> wide(const A &a) { std::vector<double> e; for (size_t i = 0; i < a.size(); i++) e.push_back(double(a[i])); return e; }
int main() {
  init();
  for (long it = 0; it < 100000 && !out_of_time(); it++) {
    size_t cap = pick(30) ? 12 : 3000;
    Mem m(size(8, cap));
    View v = some(m), u = some(m);
    auto len = [&] { return pick(3) == 0 ? v.sz : pick(3) == 0 ? v.cap : pick(4) == 0 ? v.cap + 1 : size(8, cap); };
    M<double> mx = random<double>(len(), pick(3) == 0), my = random<double>(pick(2) ? mx.v.size() : size(8, cap)); VD x, y; put(x, mx); put(y, my);
    M<int> mi = random<int>(len(), pick(3) == 0); VI i; put(i, mi); M<bool> mb = random<bool>(len(), pick(3) == 0); VB b; put(b, mb);
    double s = dval(); int n = ival(); bool t = pick(2);
    View p = v; p.im = false; p.nr = p.nc = 0; M<double> px = mx; px.im = false; VD xp; put(xp, px);
    switch (pick(16)) { // assignment
    case 0: run("a = x + y", m, v, zip(px.v, my.v, [](double q, double r) { return q + r; }), [&](WD &a) { a = xp + y; }); break;
    case 1: run("a = x + a", m, p, zip(px.v, part(m, p), [](double q, double r) { return q + r; }), [&](WD &a) { a = xp + a; }); break;
    case 2: { auto e = part(m, v); for (auto &q : e) q *= s; run("a = a * s", m, v, e, [&](WD &a) { a = a * s; }, v.im, v.nr, v.nc); break; }
    case 3: { auto e = part(m, v); for (auto &q : e) q = -q; run("a = -a", m, v, e, [&](WD &a) { a = -a; }, v.im, v.nr, v.nc); break; }
    case 4: { auto e = mx.v; for (auto &q : e) q = std::sin(q); run("a = sinus(x)", m, v, e, [&](WD &a) { a = sinus(x); }, mx.im, mx.nr, mx.nc); break; }
    case 5: run("a = x", m, v, mx.v, [&](WD &a) { a = x; }, mx.im, mx.nr, mx.nc); break;
    case 6: run("a = i", m, v, wide(mi.v), [&](WD &a) { a = i; }, mi.im, mi.nr, mi.nc); break;
    case 7: run("a = b", m, v, wide(mb.v), [&](WD &a) { a = b; }, mb.im, mb.nr, mb.nc); break;
    case 8: run("a = x < y", m, v, zip(px.v, my.v, [](double q, double r) { return double(q < r); }), [&](WD &a) { a = xp < y; }); break;
    case 9: { auto e = mx.v; e.insert(e.end(), my.v.begin(), my.v.end()); run("a = coca(x, y)", m, v, e, [&](WD &a) { a = coca(x, y); }); break; }
    case 10: { WD w(m.p + u.off, u.cap); shrink(w, u); run("a = other borrowed" + str(u), m, v, part(m, u), [&](WD &a) { a = w; }, u.im, u.nr, u.nc); break; }
    case 11: { u.im = false; u.nr = u.nc = 0; WD w(m.p + u.off, u.cap); shrink(w, u); run("a = other borrowed + x" + str(u), m, v, zip(part(m, u), px.v, [](double q, double r) { return q + r; }), [&](WD &a) { a = w + xp; }); break; }
    case 12: { for (auto &q : mi.v) q = 1 + pick(mx.v.size()); put(i, mi); std::vector<double> e; for (int q : mi.v) e.push_back(mx.v[q - 1]); run("a = subset(x, i)", m, v, e, [&](WD &a) { a = subset(x, i); }); break; }
    case 13: { for (auto &q : mi.v) q = 1 + pick(v.sz); put(i, mi); auto o = part(m, v); std::vector<double> e; for (int q : mi.v) e.push_back(o[q - 1]); run("a = subset(a, i)", m, v, e, [&](WD &a) { a = subset(a, i); }); break; }
    case 14: run("a = a", m, v, part(m, v), [&](WD &a) { a = a; }, v.im, v.nr, v.nc); break;
    default: { // scalars: length one whatever the length was
      View z = v; if (pick(4) == 0) z = View{pick(m.n), 0, 0};
      int k = pick(3); double e = k == 0 ? s : k == 1 ? double(n) : double(t); std::string w = "a = scalar" + str(z); WD a(m.p + z.off, z.cap); shrink(a, z); bool th = false;
      try { if (k == 0) a = s; else if (k == 1) a = n; else a = t; } catch (std::exception &) { th = true; }
      if (th != (z.cap == 0)) mismatch(w + (th ? ": threw" : ": did not throw for an empty block"));
      if (!th && z.cap) m.v[z.off] = e;
      if (m.check(w, m.v) && place(w, a.d, m, z, z.cap ? 1 : 0)) dims(w, a.d, false, 0, 0);
    } }
    { // reading
      std::string w = "reading" + str(v); WD a(m.p + v.off, v.cap); shrink(a, v); auto e = part(m, v);
      VD r; put(r, random<double>(size(8, cap))); r = a; if (expect(w, r, e)) expect_shape(w, r, v.im, v.nr, v.nc);
      VI ri; for (auto &q : e) if (!(std::fabs(q) < 2e9)) goto skip;
      ri = a; expect(w + " as integers", ri, std::vector<int>(e.begin(), e.end()));
    skip:
      VD rn(a + 0.0); auto e0 = e; for (auto &q : e0) q += 0.0; if (expect(w, rn, e0)) expect_shape(w, rn, v.im, v.nr, v.nc);
      WD c(m.p + p.off, p.cap); shrink(c, p); r = c + xp; expect(w + " + x", r, zip(e, px.v, [](double q, double r) { return q + r; }));
      m.check(w, m.v);
    }
    { // elements
      WD a(m.p + v.off, v.cap); shrink(a, v); long q = pick(2) ? long(pick(v.sz)) + 1 : long(pick(v.sz + 6)) - 2; bool ok = q >= 1 && q <= long(v.sz); double z = dval(), f = q + (q >= 0 ? 0.75 : -0.75); bool fok = long(f) >= 1 && long(f) <= long(v.sz), th = false, good = ok; size_t pos = v.off + q - 1; int k = pick(9);
      std::string w = "element " + std::to_string(q) + " by form " + std::to_string(k) + str(v); double got = 0; bool rd = false;
      try {
        if (k == 0) at(a, int(q)) = z; else if (k == 1) { good = fok; pos = v.off + long(f) - 1; at(a, f) = z; } else if (k == 2) { got = at(a, int(q)); rd = true; }
        else if (k == 3) { int g = int(q); subset(a, g) = z; } else if (k == 4) { a[size_t(q - 1)] = z; } else if (k == 5) { const WD &ca = a; got = ca[size_t(q - 1)]; rd = true; } else if (k == 6) { a.d.set(size_t(q - 1), z); } else if (k == 7) { const RD &ca = a.d; got = ca[size_t(q - 1)]; rd = true; }
        else if (v.im) { long r = long(pick(v.nr + 3)) - 0, c = long(pick(v.nc + 3)) - 0; good = r >= 1 && c >= 1 && r <= long(v.nr) && c <= long(v.nc); pos = v.off + (c - 1) * v.nr + r - 1; at(a, int(r), int(c)) = z; }
        else { good = true; a.d[0] = z; pos = v.off; }
      } catch (std::exception &) { th = true; }
      if (th == good) mismatch(w + (th ? ": threw" : ": did not throw"));
      else if (good && rd) { if (!same(got, m.v[pos])) mismatch(w + ": wrong value read"); }
      else if (good) m.v[pos] = z;
      if (m.check(w, m.v)) place(w, a.d, m, v, v.sz);
    }
    { // subsets
      WD a(m.p + v.off, v.cap); shrink(a, v); for (auto &q : mi.v) q = 1 + pick(v.sz); put(i, mi); int k = pick(3); std::string w = "subset(a, i) = ..." + str(v) + " i=" + rt::str(mi); bool th = false, bad = k == 0 && mx.v.size() != mi.v.size();
      try { if (k == 0) subset(a, i) = x; else if (k == 1) subset(a, i) = s; else subset(a, true) = s; } catch (std::exception &) { th = true; }
      if (th != bad) mismatch(w + (th ? ": threw" : ": did not throw"));
      else if (!bad) { if (k == 2) for (size_t q = 0; q < v.sz; q++) m.v[v.off + q] = s; else for (size_t q = 0; q < mi.v.size(); q++) m.v[v.off + mi.v[q] - 1] = k ? s : mx.v[q]; }
      if (m.check(w, m.v) && place(w, a.d, m, v, v.sz)) dims(w, a.d, v.im, v.nr, v.nc);
    }
    { // construction and destruction
      std::string w = "construction" + str(v);
      { WD a(m.p + v.off, v.cap); place(w, a.d, m, v, v.cap); dims(w, a.d, false, 0, 0); auto g = random<double>(v.cap, true); WD q(m.p + v.off, g.nr, g.nc); place(w + " as matrix", q.d, m, v, v.cap); dims(w + " as matrix", q.d, true, g.nr, g.nc);
        shrink(a, v); WD c(a); place(w + " copy", c.d, m, v, v.sz); dims(w + " copy", c.d, v.im, v.nr, v.nc); WD e(a.d); place(w + " of the container", e.d, m, v, v.sz);
        auto back = [](WD z) { return z; }; WD f(back(a)); place(w + " returned", f.d, m, v, v.sz); dims(w + " returned", f.d, v.im, v.nr, v.nc); WD h(std::move(c)); if (c.size() && (c.size() != v.sz || c.d.p != m.p + v.off)) mismatch(w + ": what was moved from refers to nothing"); place(w + " moved", h.d, m, v, v.sz); dims(w + " moved", h.d, v.im, v.nr, v.nc);
        RD r(m.p + v.off, v.cap); shrink(r, v); RD r2(r); place(w + " container copy", r2, m, v, v.sz); dims(w, r2, v.im, v.nr, v.nc); RD r3(std::move(r2)); if (r2.size() && (r2.size() != v.sz || r2.p != m.p + v.off)) mismatch(w + ": the container moved from refers to nothing"); place(w + " container moved", r3, m, v, v.sz); dims(w, r3, v.im, v.nr, v.nc);
        RD r5(size_t(pick(9))); if (r5.sz || r5.capacity || r5.allocated || r5.size()) mismatch("a container that was given no memory has elements"); RD r4; if (r4.sz || r4.capacity || r4.allocated) mismatch("an empty container"); r4 = r; place(w + " container assigned", r4, m, v, v.sz); dims(w, r4, v.im, v.nr, v.nc); r4.init(m.p + u.off, u.cap); place(w + " container redirected", r4, m, u, u.cap);
        { size_t q = 0; bool bad = false; WD k(a); for (double x : k) if (q >= v.sz || !same(x, m.v[v.off + q++])) { bad = true; break; } if (bad || q != v.sz) mismatch(w + ": range-for visits other elements"); q = 0; for (double x : r) if (q >= v.sz || !same(x, m.v[v.off + q++])) { bad = true; break; } if (bad || q != v.sz) mismatch(w + ": range-for over the container visits other elements"); }
        if (!same(r.back(), m.v[v.off + v.sz - 1])) mismatch(w + ": back"); }
      { WD a(m.p + v.off, v.cap); a = a * s; } for (size_t q = 0; q < v.cap; q++) m.v[v.off + q] *= s;
      m.check(w + " and destruction", m.v);
    }
    { // nothing to put the elements of another vector into
      int k = pick(5); std::string w = "borrowed vector from values, form " + std::to_string(k) + rt::str(mx) + rt::str(mi); VD p; put(p, mx); VI g; put(g, mi);
      if (!threw([&] { if (k == 0) WD z(std::move(p)); else if (k == 1) WD z(std::move(g)); else if (k == 2) WD z(coca(p, p)); else if (k == 3) WD z(coca(g, g)); else WD z(p + p); })) mismatch(w + ": did not throw");
      unchanged(w, p, mx); unchanged(w, g, mi);
    }
    { // length and fill
      RD r(m.p + v.off, v.cap); shrink(r, v); size_t q = pick(9) == 0 ? ~size_t(0) - pick(3) : pick(v.cap + 3); bool th = false; std::string w = "resize to " + std::to_string(q) + str(v);
      try { r.resize(q); } catch (std::exception &) { th = true; }
      if (th != (q == 0 || q > v.cap)) mismatch(w + (th ? ": threw" : ": did not throw")); else if (m.check(w, m.v)) place(w, r, m, v, th ? v.sz : q);
      RD f(m.p + v.off, v.cap); shrink(f, v); int k = pick(5); w = "fill" + str(v) + rt::str(mx) + rt::str(mi); std::vector<double> e(v.sz); th = false;
      if (k == 0) std::fill(e.begin(), e.end(), s); else if (k == 1) std::fill(e.begin(), e.end(), n); else if (k == 2) e = mx.v; else if (k == 3) e = wide(mi.v); else { e = mx.v; e.insert(e.end(), my.v.begin(), my.v.end()); }
      try { if (k == 0) f.fill(s); else if (k == 1) f.fill(n); else if (k == 2) f.fill(x); else if (k == 3) f.fill(i); else f.fill(coca(x, y)); } catch (std::exception &) { th = true; }
      if (th != (e.size() != v.sz)) mismatch(w + (th ? ": threw" : ": did not throw")); else if (!th) for (size_t z = 0; z < v.sz; z++) m.v[v.off + z] = e[z];
      if (m.check(w, m.v)) place(w, f, m, v, v.sz);
    }
    unchanged("right side", x, mx); unchanged("right side", y, my); unchanged("right side", b, mb);
  }
  return finish();
}
