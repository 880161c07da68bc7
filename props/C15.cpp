#include "common.hpp"
#include <new>
// rep
DRV drv_rep_di(VD &r, double x, int n) { r = rep(x, n); }
DRV drv_rep_di_temp(VD &r, double x, int n) { r = rep(double(x), int(n)); }
DRV drv_rep_ii(VI &r, int x, int n) { r = rep(x, n); }
DRV drv_rep_bi(VB &r, bool x, int n) { r = rep(x, n); }
DRV drv_rep_dd(VD &r, double x, double n) { r = rep(x, n); }
DRV drv_rep_id(VI &r, int x, double n) { r = rep(x, n); }
DRV drv_rep_db(VD &r, double x, bool n) { r = rep(x, n); }
DRV drv_rep_dI(VD &r, double x, VI &n) { r = rep(x, n); }
DRV drv_rep_dD(VD &r, double x, VD &n) { r = rep(x, n); }
DRV drv_rep_iI(VI &r, int x, VI &n) { r = rep(x, n); }
DRV drv_rep_dB(VD &r, double x, VB &n) { r = rep(x, n); }
DRV drv_rep_d_sum(VD &r, double x, VD &n, VD &m) { r = rep(x, n + m); }
DRV drv_rep_Di(VD &r, VD &x, int n) { r = rep(x, n); }
DRV drv_rep_Di_temp(VD &r, VD &x, int n) { r = rep(coca(x), int(n)); }
DRV drv_rep_Dd(VD &r, VD &x, double n) { r = rep(x, n); }
DRV drv_rep_Ii(VI &r, VI &x, int n) { r = rep(x, n); }
DRV drv_rep_Bi(VB &r, VB &x, int n) { r = rep(x, n); }
DRV drv_rep_Wi(VD &r, WD &x, int n) { r = rep(x, n); }
DRV drv_rep_DI(VD &r, VD &x, VI &n) { r = rep(x, n); }
DRV drv_rep_DD(VD &r, VD &x, VD &n) { r = rep(x, n); }
DRV drv_rep_ID(VI &r, VI &x, VD &n) { r = rep(x, n); }
DRV drv_rep_sum_i(VD &r, VD &x, VD &y, int n) { r = rep(x + y, n); }
DRV drv_rep_sum_I(VD &r, VD &x, VD &y, VI &n) { r = rep(x + y, n); }
DRV drv_rep_neg_i(VD &r, VD &x, int n) { r = rep(-x, n); }
DRV drv_rep_own(VD &x, int n) { x = rep(x, n); }
DRV drv_rep_own_times(VD &x, double s) { x = rep(s, x); }
DRV drv_rep_plus(VD &r, double x, int n, VD &y) { r = rep(x, n) + y; }
DRV drv_rep_new(VD *r, VD &x, int n) { new (r) VD(rep(x, n)); }
DRV drv_rep_new_s(VD *r, double x, int n) { new (r) VD(rep(x, n)); }
// vector
#define VECS(N, R, F)                                                          \
  DRV drv_##N##_i(R &r, int n) { r = F(n); }                                   \
  DRV drv_##N##_i_temp(R &r, int n) { r = F(int(n)); }                         \
  DRV drv_##N##_d(R &r, double n) { r = F(n); }                                \
  DRV drv_##N##_d_temp(R &r, double n) { r = F(double(n)); }                   \
  DRV drv_##N##_b(R &r, bool n) { r = F(n); }                                  \
  DRV drv_##N##_S(R &r, std::size_t n) { r = F(n); }                           \
  DRV drv_##N##_S_temp(R &r, std::size_t n) { r = F(std::size_t(n)); }         \
  DRV drv_##N##_I(R &r, VI &n) { r = F(n); }                                   \
  DRV drv_##N##_D(R &r, VD &n) { r = F(n); }                                   \
  DRV drv_##N##_I_temp(R &r, VI &n) { r = F(coca(n)); }                        \
  DRV drv_##N##_sum(R &r, VD &n, VD &m) { r = F(n + m); }                      \
  DRV drv_##N##_new(R *r, int n) { new (r) R(F(n)); }
VECS(num, VD, vector_numeric)
VECS(int, VI, vector_integer)
VECS(log, VB, vector_logical)
DRV drv_int_to_d(VD &r, int n) { r = vector_integer(n); }
DRV drv_log_to_d(VD &r, int n) { r = vector_logical(n); }
// matrix
DRV drv_mat_dii(VD &r, double x, int n, int m) { r = matrix(double(x), int(n), int(m)); }
DRV drv_mat_iii(VI &r, int x, int n, int m) { r = matrix(int(x), int(n), int(m)); }
DRV drv_mat_bii(VB &r, bool x, int n, int m) { r = matrix(bool(x), int(n), int(m)); }
DRV drv_mat_ddd(VD &r, double x, double n, double m) { r = matrix(double(x), double(n), double(m)); }
DRV drv_mat_ddi(VD &r, double x, double n, int m) { r = matrix(double(x), double(n), int(m)); }
DRV drv_mat_dbi(VD &r, double x, bool n, int m) { r = matrix(double(x), bool(n), int(m)); }
DRV drv_mat_dIi(VD &r, double x, VI &n, int m) { r = matrix(double(x), coca(n), int(m)); }
DRV drv_mat_diI(VD &r, double x, int n, VI &m) { r = matrix(double(x), int(n), coca(m)); }
DRV drv_mat_dII(VD &r, double x, VI &n, VI &m) { r = matrix(double(x), coca(n), coca(m)); }
DRV drv_mat_dDi(VD &r, double x, VD &n, int m) { r = matrix(double(x), coca(n), int(m)); }
DRV drv_mat_Dii(VD &r, VD &x, int n, int m) { r = matrix(coca(x), int(n), int(m)); }
DRV drv_mat_Iii(VI &r, VI &x, int n, int m) { r = matrix(coca(x), int(n), int(m)); }
DRV drv_mat_Bii(VB &r, VB &x, int n, int m) { r = matrix(coca(x), int(n), int(m)); }
DRV drv_mat_Ddi(VD &r, VD &x, double n, int m) { r = matrix(coca(x), double(n), int(m)); }
DRV drv_mat_DIi(VD &r, VD &x, VI &n, int m) { r = matrix(coca(x), coca(n), int(m)); }
DRV drv_mat_DiI(VD &r, VD &x, int n, VI &m) { r = matrix(coca(x), int(n), coca(m)); }
DRV drv_mat_DII(VD &r, VD &x, VI &n, VI &m) { r = matrix(coca(x), coca(n), coca(m)); }
DRV drv_mat_moved(VD &r, VD &x, int n, int m) { r = matrix(std::move(x), int(n), int(m)); }
DRV drv_mat_moved_dims(VD &r, double x, VI &n, VD &m) { r = matrix(double(x), std::move(n), std::move(m)); }
DRV drv_mat_sum(VD &r, VD &x, VD &y, int n, int m) { r = matrix(x + y, int(n), int(m)); }
DRV drv_mat_neg(VD &r, VD &x, int n, int m) { r = matrix(-x, int(n), int(m)); }
DRV drv_mat_eq(VB &r, VD &x, VD &y, int n, int m) { r = matrix(x < y, int(n), int(m)); }
DRV drv_mat_sum_dim(VD &r, double x, VD &n, VD &k, int m) { r = matrix(double(x), n + k, int(m)); }
DRV drv_mat_rep(VD &r, double x, int k, int n, int m) { r = matrix(rep(x, k), int(n), int(m)); }
DRV drv_mat_own(VD &x, int n, int m) { x = matrix(coca(x), int(n), int(m)); }
DRV drv_mat_new(VD *r, double x, int n, int m) { new (r) VD(matrix(double(x), int(n), int(m))); }
DRV drv_mat_new_D(VD *r, VD &x, int n, int m) { new (r) VD(matrix(coca(x), int(n), int(m))); }
DRV drv_mat_to_d(VD &r, int x, int n, int m) { r = matrix(int(x), int(n), int(m)); }
