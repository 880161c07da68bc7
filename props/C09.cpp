#include "common.hpp"
DRV drv_VI(VD &a, VI &i, VD &w) { subset(a, i) = w; }
DRV drv_VD(VD &a, VD &i, VD &w) { subset(a, i) = w; }
DRV drv_VB(VD &a, VB &i, VD &w) { subset(a, i) = w; }
DRV drv_cmp(VD &a, VD &w, double s) { subset(a, a > s) = w; }
DRV drv_i(VD &a, VD &w, int i) { subset(a, i) = w; }
DRV drv_b(VD &a, VD &w, bool i) { subset(a, i) = w; }
DRV drv_VI_s(VD &a, VI &i, double w) { subset(a, i) = w; }
DRV drv_VD_s(VD &a, VD &i, double w) { subset(a, i) = w; }
DRV drv_VB_s(VD &a, VB &i, double w) { subset(a, i) = w; }
DRV drv_cmp_s(VD &a, double s, double w) { subset(a, a > s) = w; }
DRV drv_i_s(VD &a, int i, double w) { subset(a, i) = w; }
DRV drv_d_s(VD &a, double i, double w) { subset(a, i) = w; }
DRV drv_b_s(VD &a, bool i, double w) { subset(a, i) = w; }
DRV drv_int(VI &a, VI &i, VI &w) { subset(a, i) = w; }
DRV drv_int_d(VI &a, VI &i, VD &w) { subset(a, i) = w; }
DRV drv_int_sd(VI &a, VI &i, double w) { subset(a, i) = w; }
DRV drv_expr(VD &a, VI &i, VD &v, VD &w) { subset(a, i) = v + w; }
DRV drv_sub(VD &a, VI &i, VD &w, VI &k) { subset(a, i) = subset(w, k); }
DRV drv_alias(VD &a, VI &i) { subset(a, i) = a; }
DRV drv_borrow(WD &a, VI &i, VD &w) { subset(a, i) = w; }

// range-for over a selection, storing
DRV it_VI(VD &a, VI &i, double w) { for (double &x : subset(a, i)) x = w; }
DRV it_VD(VD &a, VD &i, double w) { for (double &x : subset(a, i)) x = w; }
