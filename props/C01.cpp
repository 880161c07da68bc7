#include "common.hpp"
#define BIN(N, OP)                                                             \
  DRV drv_##N##_dd(VD &r, VD &a, VD &b) { r = a OP b; }                        \
  DRV drv_##N##_ds(VD &r, VD &a, double s) { r = a OP s; }                     \
  DRV drv_##N##_sd(VD &r, VD &a, double s) { r = s OP a; }                     \
  DRV drv_##N##_di(VD &r, VD &a, VI &b) { r = a OP b; }                        \
  DRV drv_##N##_id(VD &r, VI &a, VD &b) { r = a OP b; }
BIN(add, +)
BIN(sub, -)
BIN(mul, *)
BIN(div, /)
BIN(pow, ^)
DRV drv_add_ii(VI &r, VI &a, VI &b) { r = a + b; }
DRV drv_sub_ii(VI &r, VI &a, VI &b) { r = a - b; }
DRV drv_mul_ii(VI &r, VI &a, VI &b) { r = a * b; }
DRV drv_div_ii(VD &r, VI &a, VI &b) { r = a / b; }
DRV drv_nest(VD &r, VD &a, VD &b, VD &c) { r = (a + b) * c; }
DRV drv_nest2(VD &r, VD &a, VD &b, double s) { r = a - s * b / a; }
