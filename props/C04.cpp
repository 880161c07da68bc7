#include "common.hpp"
DRV drv_add(VD &a, VD &b) { a = a + b; }
DRV drv_add_r(VD &a, VD &b) { a = b + a; }
DRV drv_sub_s(VD &a, double s) { a = a - s; }
DRV drv_mul(VD &a, VD &b) { a = b * a; }
DRV drv_neg(VD &a) { a = -a; }
DRV drv_sin(VD &a) { a = sinus(a); }
DRV drv_twice(VD &a) { a = a + a; }
DRV drv_nest(VD &a, VD &b) { a = (a + b) * a; }
DRV drv_VI(VD &a, VI &i) { a = subset(a, i); }
DRV drv_VD(VD &a, VD &i) { a = subset(a, i); }
DRV drv_VB(VD &a, VB &i) { a = subset(a, i); }
DRV drv_cmp(VD &a, double s) { a = subset(a, a > s); }
DRV drv_i(VD &a, int i) { a = subset(a, i); }
DRV drv_own(VI &a) { a = subset(a, a); }
DRV drv_sub_add(VD &a, VI &i) { a = subset(a, i) + a; }
DRV drv_self(VD &a) { a = a; }
DRV drv_copy(VD &a, VD &b) { a = b; }
DRV drv_chain(VD &a, VD &b, VD &d) { a = b = d; }
DRV drv_int(VI &a, VI &b) { a = a + b; }
DRV drv_conv(VD &a, VI &b) { a = b; }
DRV drv_conv2(VI &a, VD &b) { a = b; }
DRV drv_conv3(VD &a, VB &b) { a = b; }
DRV drv_ss(VD &a, VI &i, VI &k) { subset(a, i) = subset(a, k); }
DRV drv_s_add(VD &a, VI &i, VD &b) { subset(a, i) = a + b; }
DRV drv_s_sadd(VD &a, VI &i, VD &b) { subset(a, i) = subset(a, i) + b; }
DRV drv_s(VD &a, double s) { a = s; }
DRV drv_elem(VD &a) { a = at(a, 2); }
