#include "common.hpp"
#define CMP(N, OP)                                                             \
  DRV drv_##N##_dd(VB &r, VD &a, VD &b) { r = a OP b; }                        \
  DRV drv_##N##_ds(VB &r, VD &a, double s) { r = a OP s; }                     \
  DRV drv_##N##_sd(VB &r, VD &a, double s) { r = s OP a; }                     \
  DRV drv_##N##_di(VB &r, VD &a, VI &b) { r = a OP b; }                        \
  DRV drv_##N##_id(VB &r, VI &a, VD &b) { r = a OP b; }                        \
  DRV drv_##N##_ii(VB &r, VI &a, VI &b) { r = a OP b; }                        \
  DRV drv_##N##_is(VB &r, VI &a, int s) { r = a OP s; }
CMP(eq, ==)
CMP(ne, !=)
CMP(lt, <)
CMP(le, <=)
CMP(gt, >)
CMP(ge, >=)
DRV drv_nest(VB &r, VD &a, VD &b, VD &c) { r = (a + b) < c; }
