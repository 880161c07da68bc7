#include "common.hpp"
#include <new>
#include <utility>
using RD = Borrow<double>;
LAYB(RD, RD)
// assignment to a borrowed vector
DRV drv_sum(WD &a, VD &x, VD &y) { a = x + y; }
DRV drv_self_sum(WD &a, VD &x) { a = x + a; }
DRV drv_scaled(WD &a, double s) { a = a * s; }
DRV drv_neg(WD &a) { a = -a; }
DRV drv_sin(WD &a, VD &x) { a = sinus(x); }
DRV drv_copy(WD &a, VD &x) { a = x; }
DRV drv_int(WD &a, VI &x) { a = x; }
DRV drv_bool(WD &a, VB &x) { a = x; }
DRV drv_cmp(WD &a, VD &x, VD &y) { a = x < y; }
DRV drv_coca(WD &a, VD &x, VD &y) { a = coca(x, y); }
DRV drv_borrow(WD &a, WD &b) { a = b; }
DRV drv_borrow_sum(WD &a, WD &b, VD &x) { a = b + x; }
DRV drv_subset(WD &a, VD &x, VI &i) { a = subset(x, i); }
DRV drv_own_subset(WD &a, VI &i) { a = subset(a, i); }
DRV drv_self(WD &a) { a = a; }
DRV drv_scalar(WD &a, double s) { a = s; }
DRV drv_scalar_i(WD &a, int s) { a = s; }
DRV drv_scalar_b(WD &a, bool s) { a = s; }
// reading
DRV drv_read(VD &r, WD &a) { r = a; }
DRV drv_read_sum(VD &r, WD &a, VD &x) { r = a + x; }
DRV drv_read_int(VI &r, WD &a) { r = a; }
DRV drv_read_new(VD *r, WD &a) { new (r) VD(a + 0.0); }
// elements
DRV drv_at(WD &a, int i, double x) { at(a, i) = x; }
DRV drv_at_d(WD &a, double i, double x) { at(a, i) = x; }
DRV drv_at_mat(WD &a, int i, int k, double x) { at(a, i, k) = x; }
DRV drv_at_get(WD &a, int i, double &out) { out = at(a, i); }
DRV drv_sub(WD &a, VI &i, VD &x) { subset(a, i) = x; }
DRV drv_sub_s(WD &a, VI &i, double x) { subset(a, i) = x; }
DRV drv_sub_i(WD &a, int i, double x) { subset(a, i) = x; }
DRV drv_sub_TRUE(WD &a, double x) { subset(a, true) = x; }
DRV drv_get(const WD &a, std::size_t i, double &out) { out = a[i]; }
DRV drv_set(WD &a, std::size_t i, double x) { a[i] = x; }
// construction and destruction
DRV drv_new(WD *r, double *p, std::size_t n) { new (r) WD(p, n); }
DRV drv_new_mat(WD *r, double *p, std::size_t n, std::size_t m) { new (r) WD(p, n, m); }
DRV drv_new_copy(WD *r, WD &a) { new (r) WD(a); }
DRV drv_new_move(WD *r, WD &a) { new (r) WD(std::move(a)); }
DRV drv_new_b(WD *r, RD &a) { new (r) WD(a); }
DRV drv_del(WD &a) { a.~WD(); }
DRV drv_scope(double *p, std::size_t n, double s) {
  WD a(p, n);
  a = a * s;
}
static inline WD back(WD a) { return a; }
DRV drv_return(WD *r, WD &a) { new (r) WD(back(a)); }
// the container itself
DRV rd_resize(RD &a, std::size_t n) { a.resize(n); }
DRV wd_resize(WD &a, std::size_t n) { a.resize(n); }
DRV rd_set(RD &a, std::size_t i, double x) { a.set(i, x); }
DRV rd_put(RD &a, std::size_t i, double x) { a[i] = x; }
DRV rd_get(const RD &a, std::size_t i, double &out) { out = a[i]; }
DRV rd_fill(RD &a, double x) { a.fill(x); }
DRV rd_fill_int(RD &a, int x) { a.fill(x); }
DRV rd_fill_vec(RD &a, VD &x) { a.fill(x); }
DRV rd_fill_ivec(RD &a, VI &x) { a.fill(x); }
DRV rd_fill_coca(RD &a, VD &x, VD &y) { a.fill(coca(x, y)); }
DRV rd_init(RD &a, double *p, std::size_t n) { a.init(p, n); }
DRV rd_new(RD *r, double *p, std::size_t n) { new (r) RD(p, n); }
DRV rd_empty(RD *r) { new (r) RD(); }
// without memory of its own there is nowhere to put the elements of another vector
DRV wd_of_D(WD *r, VD &a) { new (r) WD(std::move(a)); }
DRV wd_of_I(WD *r, VI &a) { new (r) WD(std::move(a)); }
DRV wd_of_coca_D(WD *r, VD &a) { new (r) WD(coca(a, a)); }
DRV wd_of_coca_I(WD *r, VI &a) { new (r) WD(coca(a, a)); }
DRV wd_of_sum(WD *r, VD &a) { new (r) WD(a + a); }
DRV rd_sized(RD *r, std::size_t n) { new (r) RD(n); }
DRV rd_copy(RD *r, RD &a) { new (r) RD(a); }
DRV rd_move(RD *r, RD &a) { new (r) RD(std::move(a)); }
DRV rd_assign(RD &r, RD &a) { r = a; }
DRV rd_back(RD &a, double &out) { out = a.back(); }
DRV rd_del(RD &a) { a.~RD(); }

DRV it_wd(double *out, WD &a) { for (double x : a) *out++ = x; }
DRV it_rd(double *out, RD &a) { for (double x : a) *out++ = x; }
