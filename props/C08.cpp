#include "common.hpp"
DRV drv_b(VD &r, VD &a, bool i) { r = subset(a, i); }
DRV drv_i(VD &r, VD &a, int i) { r = subset(a, i); }
DRV drv_d(VD &r, VD &a, double i) { r = subset(a, i); }
DRV drv_VI(VD &r, VD &a, VI &i) { r = subset(a, i); }
DRV drv_VD(VD &r, VD &a, VD &i) { r = subset(a, i); }
DRV drv_VB(VD &r, VD &a, VB &i) { r = subset(a, i); }
DRV drv_int_VI(VI &r, VI &a, VI &i) { r = subset(a, i); }
DRV drv_bool_VI(VB &r, VB &a, VI &i) { r = subset(a, i); }
DRV drv_cmp(VD &r, VD &a, double s) { r = subset(a, a > s); }
DRV drv_expr(VD &r, VD &a, VD &i) { r = subset(a, i + 1.0); }
DRV drv_op_VI(VD &r, VD &a, VD &b, VI &i) { r = subset(a + b, i); }
DRV drv_op_i(VD &r, VD &a, VD &b, int i) { r = subset(a + b, i); }
DRV drv_sub_VI(VD &r, VD &a, VI &i, VI &k) { r = subset(subset(a, i), k); }
DRV drv_in_op(VD &r, VD &a, VI &i, VD &b) { r = subset(a, i) + b; }
DRV drv_borrow_VI(VD &r, WD &a, VI &i) { r = subset(a, i); }

// range-for over a selection
DRV it_VI(double *out, VD &a, VI &i) { for (double x : subset(a, i)) *out++ = x; }
DRV it_VD(double *out, VD &a, VD &i) { for (double x : subset(a, i)) *out++ = x; }
DRV it_VB(double *out, VD &a, VB &i) { for (double x : subset(a, i)) *out++ = x; }
DRV it_i(double *out, VD &a, int i) { for (double x : subset(a, i)) *out++ = x; }
DRV it_TRUE(double *out, VD &a) { for (double x : subset(a, true)) *out++ = x; }
DRV it_borrow(double *out, WD &a, VI &i) { for (double x : subset(a, i)) *out++ = x; }
