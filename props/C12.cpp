#include "common.hpp"
#include <new>
#include <utility>
#define OP(N, S, R) \
  DRV drv_##N(R &r, VD &a, VD &b) { r = a S b; } \
  DRV drv_##N##_s(R &r, VD &a, double s) { r = a S s; } \
  DRV drv_##N##_l(R &r, VD &a, double s) { r = s S a; }
OP(add, +, VD)
OP(sub, -, VD)
OP(mul, *, VD)
OP(div, /, VD)
OP(pow, ^, VD)
OP(eq, ==, VB)
OP(ne, !=, VB)
OP(lt, <, VB)
OP(le, <=, VB)
OP(gt, >, VB)
OP(ge, >=, VB)
DRV drv_mixed(VD &r, VI &a, VD &b) { r = a * b; }
DRV drv_ints(VI &r, VI &a, VI &b) { r = a + b; }
DRV drv_intdiv(VD &r, VI &a, VI &b) { r = a / b; }
DRV drv_left(VD &r, VD &a, VD &b, VD &d) { r = (a + b) * d; }
DRV drv_right(VD &r, VD &a, VD &b, VD &d) { r = a - (b / d); }
DRV drv_both(VD &r, VD &a, VD &b, VD &d) { r = (a + d) * (b - d); }
DRV drv_scalars(VD &r, VD &a, VD &b, double s) { r = s * a + b / s; }
DRV drv_unary(VD &r, VD &a, VD &b) { r = sinus(a) + b; }
DRV drv_neg(VD &r, VD &a, VD &b) { r = -(a + b); }
DRV drv_cmp(VB &r, VD &a, VD &b, VD &d) { r = a + b > d; }
DRV drv_self(VD &a, VD &b) { a = a + b; }
DRV drv_own(VD &a, double s) { a = a + s; }
DRV drv_copy(VD &r, VD &a) { r = a; }
DRV drv_from_int(VD &r, VI &a) { r = a; }
DRV drv_from_double(VI &r, VD &a) { r = a; }
DRV drv_from_logical(VI &r, VB &a) { r = a; }
DRV drv_to_logical(VB &r, VI &a) { r = a; }
DRV drv_from_borrow(VD &r, WD &a) { r = a; }
DRV drv_borrow_sum(VD &r, WD &a, VD &b) { r = a + b; }
DRV drv_to_borrow(WD &r, VD &a) { r = a; }
DRV drv_sum_to_borrow(WD &r, VD &a, VD &b) { r = a * b; }
DRV drv_borrow_to_borrow(WD &r, WD &a) { r = a; }
DRV drv_scalar(VD &r, double s) { r = s; }
DRV drv_scalar_int(VD &r, int s) { r = s; }
DRV drv_scalar_borrow(WD &r, double s) { r = s; }
DRV drv_concat(VD &r, VD &a, VD &b) { r = coca(a, b); }
DRV drv_elements(VD &r, VD &a, VI &i) { r = subset(a, i); }
DRV drv_all(VD &r, VD &a) { r = subset(a, true); }
DRV drv_row(VD &r, VD &a, int i) { r = subset(a, i, true); }
DRV drv_into(VD &a, VI &i, VD &w) { subset(a, i) = w; }
DRV drv_block_plus(VD &r, VD &m, VI &i, VI &k, VD &b) { r = subset(m, i, k) + b; }
DRV c_copy(VD *r, VD &a) { new (r) VD(a); }
DRV c_move(VD *r, VD &a) { new (r) VD(std::move(a)); }
DRV c_sum(VD *r, VD &a, VD &b) { new (r) VD(a + b); }
DRV c_int(VD *r, const VI &a) { new (r) VD(std::move(a)); }
DRV c_mat(VD *r, std::size_t n, std::size_t m) { new (r) VD(n, m); }
DRV c_conv_matrix(VD *r, VI &a, std::size_t n, std::size_t m) { new (r) VD(matrix(std::move(a), std::move(n), std::move(m))); }
DRV c_conv_matrix_l(VI *r, VB &a, std::size_t n, std::size_t m) { new (r) VI(matrix(std::move(a), std::move(n), std::move(m))); }
DRV c_matrix(VD *r, VD &a, std::size_t n, std::size_t m) { new (r) VD(matrix(std::move(a), std::move(n), std::move(m))); }
DRV c_conv_sum(VD *r, VI &a, VI &b) { new (r) VD(a + b); }
DRV c_concat(VD *r, VD &a, VD &b) { new (r) VD(coca(a, b)); }
DRV c_conv_concat(VD *r, VI &a, VI &b) { new (r) VD(coca(a, b)); }
DRV drv_conv_matrix(VD &r, VI &a, std::size_t n, std::size_t m) { r = matrix(std::move(a), std::move(n), std::move(m)); }
DRV drv_borrow_matrix(WD &r, VD &a, std::size_t n, std::size_t m) { r = matrix(std::move(a), std::move(n), std::move(m)); }
