#include "common.hpp"
#include <utility>
// construction and destruction of locals around an operation, and operations on vectors that live on
DRV l_size(std::size_t n) { VD b(SI{n}); }
DRV l_scalar(double s) { VD b = s; }
DRV l_mat(std::size_t n, std::size_t m) { VD b(n, m, 1.5); }
DRV l_ptr(double *p, std::size_t n) { VD b(p, n); }
DRV l_copy(VD &a) { VD b = a; }
DRV l_copy_i(VI &a) { VI b = a; }
DRV l_copy_b(VB &a) { VB b = a; }
DRV l_move(VD &a) { VD b(std::move(a)); }
DRV l_conv(VI &a) { VD b(std::move(a)); }
DRV l_expr(VD &a, VD &b) { VD r; r = a + b; }
DRV l_expr2(VD &a, VD &b) { VD r = a; r = (r - b) * a; VD s; s = r; }
DRV l_chain(VD &a, VD &b) { VD r, s; r = s = a; s = b; s = 1.0; r = s; }
DRV l_cmp(VD &a, VD &b) { VB r; r = a < b; }
DRV l_un(VD &a) { VD r; r = sinus(-a); }
DRV l_coca(VD &a, VI &i) { VD r; r = coca(a, 1, i, 2.5); }
DRV l_coca_init(VD &a, VD &b) { VD r = coca(a, b); }
DRV l_coca_conv(VI &a, VI &b) { VD r = coca(a, b); }
DRV l_coca_nest(VD &a, VD &b) { VD r; r = coca(coca(a, 1.0), coca(b, a)); }
DRV l_colon(int i, int k) { VI r; r = colon(i, k); }
DRV l_rep(VD &a, int i) { VD r; r = rep(a, i); }
DRV l_rep_s(double s, int i) { VD r = rep(s, i); }
DRV l_matrix(VD &a, int i, int k) { VD r; r = matrix(a + 1.0, +i, +k); }
DRV l_matrix_s(double s, int i, int k) { VD r = matrix(+s, +i, +k); }
DRV l_vector(int i) { VD r; r = vector_numeric(i); }
DRV l_isna(VD &a) { VB r; r = isNA(a); }
DRV l_dim(VD &a) { VI r; r = dim(a); }
DRV l_subset(VD &a, VI &i) { VD r; r = subset(a, i); }
DRV l_subset_d(VD &a, VD &i) { VD r; r = subset(a, i); }
DRV l_subset_b(VD &a, VB &i) { VD r; r = subset(a, i); }
DRV l_subset_s(VD &a, int i) { VD r; r = subset(a, i); }
DRV l_subset_t(VD &a) { VD r; r = subset(a, true); }
DRV l_subset_x(VD &a, VD &b) { VD r; r = subset(a, b > 0.0); }
DRV l_subset_e(VD &a, VI &i) { VD r; r = subset(a + a, i); }
DRV l_subset_c(VD &a, int i, int k) { VD r; r = subset(a, coca(i, k)); }
DRV l_subset_n(VD &a, VI &i, VI &k) { VD r; r = subset(subset(a, i), k); }
DRV l_assign_sub(VD &a, VI &i, VD &b) { VD r = b; subset(a, i) = r; }
DRV l_assign_subs(VD &a, VI &i, double s) { VD r = a; subset(r, i) = s; a = r; }
DRV l_at(VD &a, int i, double s) { VD r = a; at(r, i) = s; }
DRV l_at_d(VD &a, double i, double s) { VD r = a; at(r, i) = s; }
DRV l_index(VD &a, std::size_t n) { VD r = a; r[n] = 1.0; }
DRV l_resize(VD &a, std::size_t n) { VD r = a; r.resize(n); r = a; }
DRV l_if(VD &a, int i) { VD r = a; if (i > 3) { VD s = r + 1.0; r = s; } at(r, i) = 2.0; }
DRV l_loop(VD &a, int n) { for (int i = 0; i < n; i++) { VD r = a; at(r, i) = 2.0; } }
DRV l_passby(VD &a) { auto f = [](VD x) { at(x, 2) = 1.0; }; f(a); }
DRV l_borrow(double *p, std::size_t n, VD &a) { WD w(p, n); w = a; }
DRV l_borrow_s(double *p, std::size_t n) { WD w(p, n); w = 1.0; VD b; b = w + w; }
DRV l_ret(VD &r, VD &a, int i) { auto f = [](VD &x, int k) { VD y = x; at(y, k) = 1.0; return y; }; r = f(a, i); }
// operations on live objects
DRV o_assign(VD &r, VD &a) { r = a; }
DRV o_assign_i(VD &r, VI &a) { r = a; }
DRV o_expr(VD &r, VD &a, VD &b) { r = a * b; }
DRV o_self(VD &r, VD &a) { r = r + a; }
DRV o_scalar(VD &r, double s) { r = s; }
DRV o_int(VD &r, int s) { r = s; }
DRV o_sub(VD &r, VD &a, VI &i) { r = subset(a, i); }
DRV o_sub_cmp(VD &r, double s) { r = subset(r, r > s); }
DRV o_into(VD &r, VI &i, VD &a) { subset(r, i) = a; }
DRV o_into_s(VD &r, VI &i, double s) { subset(r, i) = s; }
DRV o_into_e(VD &r, VI &i, VD &a) { subset(r, i) = a + r; }
DRV o_into_d(VD &r, VD &i, double s) { subset(r, i) = s; }
DRV o_into_b(VD &r, VB &i, double s) { subset(r, i) = s; }
DRV o_into_sub(VD &r, VI &i, VD &a, VI &k) { subset(r, i) = subset(a, k); }
DRV o_coca(VD &r, VD &a) { r = coca(r, a, r); }
DRV o_rep(VD &r, int i) { r = rep(r, i); }
DRV o_colon(VI &r, VI &a, VI &b) { r = colon(a, b); }
DRV o_matrix(VD &r, int i, int k) { r = matrix(coca(r), +i, +k); }
DRV o_isinf(VB &r, VD &a) { r = isInf(a); }
DRV o_destroy(VD &r) { r.~VD(); }
DRV o_destroy_i(VI &r) { r.~VI(); }
DRV o_destroy_b(VB &r) { r.~VB(); }
DRV o_destroy_w(WD &r) { r.~WD(); }
DRV b_destroy(BD &r) { r.~BD(); }
DRV b_destroy_s(BS &r) { r.~BS(); }
DRV b_resize(BD &r, std::size_t n) { r.resize(n); }
DRV b_init(BD &r, std::size_t n) { r.init(n); }
DRV b_realloc(BD &r, int n) { r.realloc(n); }
DRV b_push(BD &r, double s) { r.push_back(s); }
DRV b_assign(BD &r, BD &a) { r = a; }
DRV b_moveit(BD &r, BD &a) { r.moveit(a); }
DRV b_fill(BD &r, VD &a) { r.fill(a); }
DRV b_fill_c(BD &r, VD &a, VD &b) { r.fill(coca(a, b)); }
DRV bs_push(BS &r, std::size_t s) { r.push_back(s); }
DRV bs_resize(BS &r, std::size_t n) { r.resize(n); }
DRV bs_assign(BS &r, BS &a) { r = a; }
DRV c_copy(VD *r, VD &a) { new (r) VD(a); }
DRV c_size(VD *r, std::size_t n) { new (r) VD(SI{n}); }
DRV c_mat(VD *r, std::size_t n, std::size_t m) { new (r) VD(n, m); }
DRV c_coca(VD *r, VD &a, VD &b) { new (r) VD(coca(a, b)); }
DRV c_conv(VD *r, VI &a) { new (r) VD(std::move(a)); }
DRV c_bcopy(BD *r, BD &a) { new (r) BD(a); }
DRV c_bmove(BD *r, BD &a) { new (r) BD(std::move(a)); }
