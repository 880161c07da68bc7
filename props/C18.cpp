#include "common.hpp"
// cmr(time, knot times, knot values)
DRV drv_d(double &x, double t, VD &k, VD &v) { x = cmr(t, k, v); }
DRV drv_i(double &x, int t, VD &k, VD &v) { x = cmr(t, k, v); }
DRV drv_b(double &x, bool t, VD &k, VD &v) { x = cmr(t, k, v); }
DRV drv_vec(double &x, VD &t, VD &k, VD &v) { x = cmr(t, k, v); }
DRV drv_sum(double &x, VD &t, VD &u, VD &k, VD &v) { x = cmr(t + u, k, v); }
DRV drv_borrow(double &x, double t, WD &k, WD &v) { x = cmr(t, k, v); }
DRV drv_values(double &x, double t, VD &k, VD &v, VD &w) { x = cmr(t, k, v * w); }
DRV drv_same(double &x, double t, VD &k) { x = cmr(t, k, k); }
DRV drv_set(VD &r, double t, VD &k, VD &v) { r = cmr(t, k, v); }
DRV drv_elt(double &x, VD &t, VI &i, VD &k, VD &v) { x = cmr(subset(t, i), k, v); }
// linear interpolation
DRV drv_li_d(double &x, double t, VD &k, VD &v) { x = li(t, k, v); }
DRV drv_li_i(double &x, int t, VD &k, VD &v) { x = li(t, k, v); }
DRV drv_li_b(double &x, bool t, VD &k, VD &v) { x = li(t, k, v); }
DRV drv_li_vec(double &x, VD &t, VD &k, VD &v) { x = li(t, k, v); }
DRV drv_li_sum(double &x, VD &t, VD &u, VD &k, VD &v) { x = li(t + u, k, v); }
DRV drv_li_borrow(double &x, double t, WD &k, WD &v) { x = li(t, k, v); }
DRV drv_li_values(double &x, double t, VD &k, VD &v, VD &w) { x = li(t, k, v * w); }
DRV drv_li_set(VD &r, double t, VD &k, VD &v) { r = li(t, k, v); }
