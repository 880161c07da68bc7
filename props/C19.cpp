#include "common.hpp"
using CD = const VD;
// scalars
DRV drv_na_d(bool &x, double t) { x = isNA(t); }
DRV drv_na_i(bool &x, int t) { x = isNA(t); }
DRV drv_na_b(bool &x, bool t) { x = isNA(t); }
DRV drv_inf_d(bool &x, double t) { x = isInf(t); }
DRV drv_inf_i(bool &x, int t) { x = isInf(t); }
DRV drv_inf_b(bool &x, bool t) { x = isInf(t); }
DRV drv_len_d(size_t &x, double t) { x = length(t); }
DRV drv_len_i(size_t &x, int t) { x = length(t); }
DRV drv_len_b(size_t &x, bool t) { x = length(t); }
DRV drv_dim_d(double t) { dim(t); }
DRV drv_dim_i(int t) { dim(t); }
DRV drv_dim_b(bool t) { dim(t); }
// vectors
#define VECTORS(N, F)                                                          \
  DRV drv_##N##_VD(VB &r, VD &a) { r = F(a); }                                 \
  DRV drv_##N##_VI(VB &r, VI &a) { r = F(a); }                                 \
  DRV drv_##N##_VB(VB &r, VB &a) { r = F(a); }                                 \
  DRV drv_##N##_WD(VB &r, WD &a) { r = F(a); }                                 \
  DRV drv_##N##_const(VB &r, CD &a) { r = F(a); }                              \
  DRV drv_##N##_self(VB &r) { r = F(r); }                                      \
  DRV drv_##N##_sum(VB &r, VD &a, VD &b) { r = F(a + b); }                     \
  DRV drv_##N##_new(void *r, VD &a) { new (r) VB(F(a)); }                      \
  DRV drv_##N##_dbl(VD &r, VD &a) { r = F(a) + 1.0; }
VECTORS(na, isNA)
VECTORS(inf, isInf)
DRV drv_len_VD(size_t &x, VD &a) { x = length(a); }
DRV drv_len_VI(size_t &x, VI &a) { x = length(a); }
DRV drv_len_VB(size_t &x, VB &a) { x = length(a); }
DRV drv_len_WD(size_t &x, WD &a) { x = length(a); }
DRV drv_len_const(size_t &x, CD &a) { x = length(a); }
DRV drv_len_sum(size_t &x, VD &a, VD &b) { x = length(a + b); }
DRV drv_dim_VD(VI &r, VD &a) { r = dim(a); }
DRV drv_dim_VI(VI &r, VI &a) { r = dim(a); }
DRV drv_dim_VB(VI &r, VB &a) { r = dim(a); }
DRV drv_dim_WD(VI &r, WD &a) { r = dim(a); }
DRV drv_dim_const(VI &r, CD &a) { r = dim(a); }
DRV drv_dim_self(VI &r) { r = dim(r); }
DRV drv_dim_sum(VI &r, VD &a, VD &b) { r = dim(a + b); }
DRV drv_dim_neg(VI &r, VD &a) { r = dim(-a); }
DRV drv_dim_new(void *r, VD &a) { new (r) VI(dim(a)); }
DRV drv_dim_rows(double &x, VD &a) { x = dim(a)[0]; }
DRV drv_dim_subset(VI &r, VD &a, VI &i, VI &j) { r = dim(subset(a, i, j)); }
DRV drv_dim_row(VI &r, VD &a, int i, VI &j) { r = dim(subset(a, i, j)); }
DRV drv_dim_matrix(VI &r, int i, int j) { r = dim(matrix(2.5, int(i), int(j))); }
