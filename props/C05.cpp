#include "common.hpp"
#include <new>
#include <utility>
// operations of one container type B with elements T
#define STORE(B, N, T)                                                         \
  DRV N##_resize(B &a, std::size_t n) { a.resize(n); }                         \
  DRV N##_realloc(B &a, std::size_t n) { a.realloc(n); }                       \
  DRV N##_push(B &a, T x) { a.push_back(x); }                                  \
  DRV N##_init(B &a, std::size_t n) { a.init(n); }                             \
  DRV N##_fill(B &a, T x) { a.fill(x); }                                       \
  DRV N##_get(const B &a, std::size_t i, T &out) { out = a[i]; }               \
  DRV N##_set(B &a, std::size_t i, T x) { a[i] = x; }                          \
  DRV N##_back(B &a, T &out) { out = a.back(); }                               \
  DRV N##_assign(B &a, const B &b) { a = b; }                                  \
  DRV N##_self(B &a) { a = a; }                                                \
  DRV N##_copy(B *r, const B &b) { new (r) B(b); }                             \
  DRV N##_move(B *r, B &b) { new (r) B(std::move(b)); }                        \
  DRV N##_moveit(B &a, B &b) { a.moveit(b); }
STORE(BD, bd, double)
STORE(BI, bi, int)
STORE(BB, bb, bool)
DRV bs_resize(BS &a, std::size_t n) { a.resize(n); }
DRV bs_push(BS &a, std::size_t x) { a.push_back(x); }
DRV bs_get(const BS &a, std::size_t i, std::size_t &out) { out = a[i]; }
DRV bs_set(BS &a, std::size_t i, std::size_t x) { a[i] = x; }
DRV bs_assign(BS &a, const BS &b) { a = b; }
#define CTOR(B, N)                                                             \
  DRV N##_size(B *r, std::size_t n) { new (r) B(n); }                          \
  DRV N##_isize(B *r, int n) { new (r) B(n); }                                 \
  DRV N##_default(B *r) { new (r) B(); }
CTOR(BD, bd)
CTOR(BI, bi)
CTOR(BB, bb)
DRV bd_fill_int(BD &a, int x) { a.fill(x); }
DRV bi_fill_double(BI &a, double x) { a.fill(x); }
DRV bd_fill_vec(BD &a, VD &x) { a.fill(x); }
DRV bd_fill_ivec(BD &a, VI &x) { a.fill(x); }
DRV bd_fill_coca(BD &a, VD &x, VD &y) { a.fill(coca(x, y)); }
// vectors
DRV v_copy(VD *r, VD &a) { new (r) VD(a); }
DRV v_icopy(VI *r, VI &a) { new (r) VI(a); }
DRV v_move(VD *r, VD &a) { new (r) VD(std::move(a)); }
DRV v_from_int(VD *r, const VI &a) { new (r) VD(std::move(a)); }
DRV v_from_double(VI *r, const VD &a) { new (r) VI(std::move(a)); }
DRV v_from_sum(VD *r, VD &a, VD &b) { new (r) VD(a + b); }
DRV v_from_coca(VD *r, VD &a, VD &b) { new (r) VD(coca(a, b)); }
DRV v_from_icoca(VD *r, VI &a, VI &b) { new (r) VD(coca(a, b)); }
DRV v_scalar(VD *r, double s) { new (r) VD(s); }
DRV v_int(VD *r, int s) { new (r) VD(s); }
DRV v_bool(VD *r, bool s) { new (r) VD(s); }
DRV v_ptr(VD *r, double *p, std::size_t n) { new (r) VD(p, n); }
DRV v_ptr_mat(VD *r, double *p, std::size_t n, std::size_t m) { new (r) VD(p, n, m); }
DRV v_mat(VD *r, std::size_t n, std::size_t m) { new (r) VD(n, m); }
DRV v_mat_value(VD *r, std::size_t n, std::size_t m, double x) { new (r) VD(n, m, x); }
DRV v_empty(VD *r) { new (r) VD(); }
DRV v_si(VD *r, std::size_t n) { new (r) VD(SI(n)); }
DRV v_resize(VD &a, std::size_t n) { a.resize(n); }
DRV v_fill(VD &a, double x) { a.fill(x); }
DRV v_get(const VD &a, std::size_t i, double &out) { out = a[i]; }
DRV v_set(VD &a, std::size_t i, double x) { a[i] = x; }
DRV v_back(VD &a, double &out) { out = a.back(); }

// range-for
DRV it_D(double *out, VD &a) { for (double x : a) *out++ = x; }
DRV it_I(double *out, VI &a) { for (int x : a) *out++ = x; }
DRV it_B(double *out, VB &a) { for (bool x : a) *out++ = x; }
DRV it_bD(double *out, BD &a) { for (double x : a) *out++ = x; }
