#include "common.hpp"
#include <new>
DRV drv_d(VD &r, VD &a) { r = coca(a); }
DRV drv_dd(VD &r, VD &a, VD &b) { r = coca(a, b); }
DRV drv_ddd(VD &r, VD &a, VD &b, VD &d) { r = coca(a, b, d); }
DRV drv_ds(VD &r, VD &a, double s) { r = coca(a, s); }
DRV drv_sd(VD &r, double s, VD &a) { r = coca(s, a); }
DRV drv_sdsd(VD &r, double s, VD &a, double t, VD &b) { r = coca(s, a, t, b); }
DRV drv_ss(VD &r, double s, double t) { r = coca(s, t); }
DRV drv_iii(VI &r, int s, int t, int u) { r = coca(s, t, u); }
DRV drv_is(VD &r, int s, double t) { r = coca(s, t); }
DRV drv_bb(VB &r, bool s, bool t) { r = coca(s, t); }
DRV drv_bis(VD &r, bool s, int t, double u) { r = coca(s, t, u); }
DRV drv_II(VI &r, VI &a, VI &b) { r = coca(a, b); }
DRV drv_BB(VB &r, VB &a, VB &b) { r = coca(a, b); }
DRV drv_ID(VD &r, VI &a, VD &b) { r = coca(a, b); }
DRV drv_DI(VD &r, VD &a, VI &b) { r = coca(a, b); }
DRV drv_BI(VI &r, VB &a, VI &b) { r = coca(a, b); }
DRV drv_BD(VD &r, VB &a, VD &b) { r = coca(a, b); }
DRV drv_BID(VD &r, VB &a, VI &b, VD &d) { r = coca(a, b, d); }
DRV drv_Di(VD &r, VD &a, int s) { r = coca(a, s); }
DRV drv_bI(VI &r, bool s, VI &a) { r = coca(s, a); }
DRV drv_iD(VD &r, int s, VD &a) { r = coca(s, a); }
DRV drv_Is(VD &r, VI &a, double s) { r = coca(a, s); }
DRV drv_Ii_to_D(VD &r, VI &a, int s) { r = coca(a, s); }
DRV drv_WD(VD &r, WD &a, VD &b) { r = coca(a, b); }
DRV drv_nested(VD &r, VD &a, VD &b, VD &d) { r = coca(coca(a, b), d); }
DRV drv_nested_last(VD &r, VD &a, double s, VD &d) { r = coca(a, coca(s, d)); }
DRV drv_nested_int(VD &r, VI &a, int s, VD &d) { r = coca(coca(a, s), d); }
DRV drv_append(VD &a, double s) { a = coca(a, s); }
DRV drv_prepend(VD &a, double s) { a = coca(s, a); }
DRV drv_double(VD &a) { a = coca(a, a); }
DRV drv_into(VD &a, VI &i, VD &b, double s) { subset(a, i) = coca(b, s); }
DRV drv_plus(VD &r, VD &a, VD &b, VD &d) { r = coca(a, b) + d; }
DRV drv_new(VD *r, VD &a, VD &b, double s) { new (r) VD(coca(a, b, s)); }
DRV drv_si(VD &r, double a, int b) { r = coca(a, b); }
DRV drv_ib(VI &r, int a, bool b) { r = coca(a, b); }
DRV drv_sb(VD &r, double a, bool b) { r = coca(a, b); }
DRV drv_Bi(VI &r, VB &a, int b) { r = coca(a, b); }
DRV drv_Bs(VD &r, VB &a, double b) { r = coca(a, b); }
DRV drv_sI(VD &r, double a, VI &b) { r = coca(a, b); }
DRV drv_sB(VD &r, double a, VB &b) { r = coca(a, b); }
DRV drv_iB(VI &r, int a, VB &b) { r = coca(a, b); }
DRV drv_bD(VD &r, bool a, VD &b) { r = coca(a, b); }
DRV drv_Db(VD &r, VD &a, bool b) { r = coca(a, b); }
DRV drv_Ib(VI &r, VI &a, bool b) { r = coca(a, b); }
DRV drv_IB(VI &r, VI &a, VB &b) { r = coca(a, b); }
DRV drv_DB(VD &r, VD &a, VB &b) { r = coca(a, b); }
DRV drv_Dii(VD &r, VD &a, int b, int d) { r = coca(a, b, d); }
DRV drv_iDi(VD &r, int a, VD &b, int d) { r = coca(a, b, d); }
DRV drv_iiD(VD &r, int a, int b, VD &d) { r = coca(a, b, d); }
DRV drv_Ibb(VI &r, VI &a, bool b, bool d) { r = coca(a, b, d); }
DRV drv_bsi(VD &r, bool a, double b, int d) { r = coca(a, b, d); }
DRV drv_sbi(VD &r, double a, bool b, int d) { r = coca(a, b, d); }
DRV drv_ibs(VD &r, int a, bool b, double d) { r = coca(a, b, d); }
DRV drv_sIB(VD &r, double a, VI &b, VB &d) { r = coca(a, b, d); }
DRV drv_BsI(VD &r, VB &a, double b, VI &d) { r = coca(a, b, d); }
DRV drv_IDB(VD &r, VI &a, VD &b, VB &d) { r = coca(a, b, d); }
DRV drv_DBI(VD &r, VD &a, VB &b, VI &d) { r = coca(a, b, d); }
DRV drv_BBi(VI &r, VB &a, VB &b, int d) { r = coca(a, b, d); }
DRV drv_iBb(VI &r, int a, VB &b, bool d) { r = coca(a, b, d); }
DRV drv_iIbD(VD &r, int a, VI &b, bool d, VD &e) { r = coca(a, b, d, e); }
DRV drv_Dbbi(VD &r, VD &a, bool b, bool d, int e) { r = coca(a, b, d, e); }
