#include "common.hpp"
#include <new>
DRV drv_ii(VI &r, int a, int b) { r = colon(a, b); }
DRV drv_dd(VD &r, double a, double b) { r = colon(a, b); }
DRV drv_id(VD &r, int a, double b) { r = colon(a, b); }
DRV drv_di(VD &r, double a, int b) { r = colon(a, b); }
DRV drv_bi(VI &r, bool a, int b) { r = colon(a, b); }
DRV drv_ii_d(VD &r, int a, int b) { r = colon(a, b); }
DRV drv_Dd(VD &r, VD &a, double b) { r = colon(a, b); }
DRV drv_Di(VD &r, VD &a, int b) { r = colon(a, b); }
DRV drv_Id(VD &r, VI &a, double b) { r = colon(a, b); }
DRV drv_Ii(VI &r, VI &a, int b) { r = colon(a, b); }
DRV drv_dD(VD &r, double a, VD &b) { r = colon(a, b); }
DRV drv_iD(VD &r, int a, VD &b) { r = colon(a, b); }
DRV drv_dI(VD &r, double a, VI &b) { r = colon(a, b); }
DRV drv_iI(VI &r, int a, VI &b) { r = colon(a, b); }
DRV drv_DD(VD &r, VD &a, VD &b) { r = colon(a, b); }
DRV drv_II(VI &r, VI &a, VI &b) { r = colon(a, b); }
DRV drv_ID(VD &r, VI &a, VD &b) { r = colon(a, b); }
DRV drv_DI(VD &r, VD &a, VI &b) { r = colon(a, b); }
DRV drv_Dd_sum(VD &r, VD &a, VD &v, double b) { r = colon(a + v, b); }
DRV drv_dD_sum(VD &r, double a, VD &b, VD &v) { r = colon(a, b + v); }
DRV drv_DD_sums(VD &r, VD &a, VD &v, VD &b) { r = colon(a + v, b - v); }
DRV drv_DD_lsum(VD &r, VD &a, VD &v, VD &b) { r = colon(a + v, b); }
DRV drv_DD_rsum(VD &r, VD &a, VD &b, VD &v) { r = colon(a, b + v); }
DRV drv_temp(VI &r, int a, int b) { r = colon(coca(a), coca(b)); }
DRV drv_own(VD &a, double b) { a = colon(a, b); }
DRV drv_plus(VD &r, int a, int b, VD &v) { r = colon(a, b) + v; }
DRV drv_new(VD *r, double a, double b) { new (r) VD(colon(a, b)); }
DRV drv_borrow(VD &r, WD &a, WD &b) { r = colon(a, b); }
// bounds which are expressions, of every combination of types
DRV drv_iJ(VI &r, int x, VI &y) { r = colon(x, y + y); }
DRV drv_iE(VD &r, int x, VD &y) { r = colon(x, y + y); }
DRV drv_dJ(VD &r, double x, VI &y) { r = colon(x, y + y); }
DRV drv_dE(VD &r, double x, VD &y) { r = colon(x, y + y); }
DRV drv_IJ(VI &r, VI &x, VI &y) { r = colon(x, y + y); }
DRV drv_IE(VD &r, VI &x, VD &y) { r = colon(x, y + y); }
DRV drv_DJ(VD &r, VD &x, VI &y) { r = colon(x, y + y); }
DRV drv_DE(VD &r, VD &x, VD &y) { r = colon(x, y + y); }
DRV drv_Ji(VI &r, VI &x, int y) { r = colon(x + x, y); }
DRV drv_Jd(VD &r, VI &x, double y) { r = colon(x + x, y); }
DRV drv_JI(VI &r, VI &x, VI &y) { r = colon(x + x, y); }
DRV drv_JD(VD &r, VI &x, VD &y) { r = colon(x + x, y); }
DRV drv_JJ(VI &r, VI &x, VI &y) { r = colon(x + x, y + y); }
DRV drv_JE(VD &r, VI &x, VD &y) { r = colon(x + x, y + y); }
DRV drv_Ei(VD &r, VD &x, int y) { r = colon(x + x, y); }
DRV drv_Ed(VD &r, VD &x, double y) { r = colon(x + x, y); }
DRV drv_EI(VD &r, VD &x, VI &y) { r = colon(x + x, y); }
DRV drv_ED(VD &r, VD &x, VD &y) { r = colon(x + x, y); }
DRV drv_EJ(VD &r, VD &x, VI &y) { r = colon(x + x, y + y); }
DRV drv_EE(VD &r, VD &x, VD &y) { r = colon(x + x, y + y); }
