#include "common.hpp"
#include <new>
using AV = AllVars<3, 1, 0, 2>;
template <int K> using A_ = Vec<double, VarPointer<AV, K, 0>, VariableTypeTrait>;
using W_ = Vec<double, VarPointer<AV, 0, 1>, VariableTypeTrait>;
template <int K> using K_ = Vec<double, VarPointer<AV, K, -1, ConstantTypeTrait>, ConstantTypeTrait>;
extern "C" const unsigned long lay_AV[] = {sizeof(AV), offsetof(AV, varBuffer), offsetof(AV, varBorrow), offsetof(AV, varConstants), offsetof(AV, varBufferDerivs), offsetof(AV, varBorrowDerivs),
                                           offsetof(AV, IndepVarIdx), offsetof(AV, IndepVarTypeIdx), offsetof(AV, DerivInit), sizeof(VD), sizeof(WD), sizeof(BD)};
#define VARS A_<0> a(av); A_<1> b(av); A_<2> c(av); W_ w(av); K_<0> k(av); K_<1> l(av)
#define AD(N, ...) DRV drv_##N(AV &av) { VARS; __VA_ARGS__; }
#include "C17.inc"
// making constants
DRV drv_coca(AV &av, double x, double y) { A_<0> a(av); A_<2> c(av); c = coca<0>(av, x, y) * a; }
DRV drv_coca_vec(AV &av, VD &x) { A_<2> c(av); c = coca<0>(av, x); }
DRV drv_coca_int(AV &av, int x, int y, int z) { A_<0> a(av); a = coca<0>(av, x, y, z); }
DRV drv_scalar(AV &av, double x) { A_<0> a(av); A_<2> c(av); c = a / scalarDeriv<1>(av, x); }
DRV drv_scalar_set(AV &av, double x) { A_<2> c(av); c = scalarDeriv<1>(av, x); }
DRV drv_num(AV &av, double x) { A_<2> c(av); c = x; }
DRV drv_num_int(AV &av, int x) { A_<0> a(av); a = x; }
DRV drv_num_w(AV &av, double x) { W_ w(av); w = x; }
// sequences of assignments
DRV drv_twice(AV &av) { VARS; c = a * b; c = c * a; }
DRV drv_chain(AV &av) { VARS; c = a * a; b = sinus(c); }
DRV drv_swap(AV &av) { VARS; c = a; a = b; b = c; }
// reading the derivative and the value
DRV drv_derivs(VD *r, AV &av) { A_<0> a(av); new (r) VD(get_derivs(a)); }
DRV drv_derivs_w(VD *r, AV &av) { W_ w(av); new (r) VD(get_derivs(w)); }
DRV drv_get(VD *r, AV &av) { A_<0> a(av); new (r) VD(a.d.get()); }
DRV drv_size(AV &av, std::size_t &n) { A_<0> a(av); n = a.size(); }
DRV drv_elem(AV &av, std::size_t i, double &x) { A_<0> a(av); x = a.d[i]; }
DRV drv_init(AV &av, VD &x, VD &y) { av.initBuffer(x, y); }
DRV drv_new(AV *r, int i, int t) { new (r) AV(i, t); }
DRV drv_del(AV &av) { av.~AV(); }
// constants from other constructors
DRV drv_colon(AV &av, int from, int to) { A_<2> c(av); c = colon<0>(av, from, to); }
DRV drv_colon_d(AV &av, double from, double to) { A_<2> c(av); c = colon<0>(av, from, to); }
DRV drv_vector(AV &av, int n) { A_<0> a(av); a = vector_numeric<0>(av, n); }
DRV drv_vector_i(AV &av, int n) { A_<0> a(av); a = vector_integer<0>(av, n); }
DRV drv_vector_l(AV &av, std::size_t n) { A_<0> a(av); a = vector_logical<0>(av, n); }
DRV drv_vector_d(AV &av, double n) { A_<0> a(av); a = vector_numeric<0>(av, n); }
// AD sequences whose bounds are vectors or expressions
DRV drv_colon_id(AV &av, int x, double y) { A_<2> c(av); c = colon<0>(av, x, y); }
DRV drv_colon_iI(AV &av, int x, VI &y) { A_<2> c(av); c = colon<0>(av, x, y); }
DRV drv_colon_iD(AV &av, int x, VD &y) { A_<2> c(av); c = colon<0>(av, x, y); }
DRV drv_colon_iJ(AV &av, int x, VI &y) { A_<2> c(av); c = colon<0>(av, x, y + y); }
DRV drv_colon_iE(AV &av, int x, VD &y) { A_<2> c(av); c = colon<0>(av, x, y + y); }
DRV drv_colon_di(AV &av, double x, int y) { A_<2> c(av); c = colon<0>(av, x, y); }
DRV drv_colon_dI(AV &av, double x, VI &y) { A_<2> c(av); c = colon<0>(av, x, y); }
DRV drv_colon_dD(AV &av, double x, VD &y) { A_<2> c(av); c = colon<0>(av, x, y); }
DRV drv_colon_dJ(AV &av, double x, VI &y) { A_<2> c(av); c = colon<0>(av, x, y + y); }
DRV drv_colon_dE(AV &av, double x, VD &y) { A_<2> c(av); c = colon<0>(av, x, y + y); }
DRV drv_colon_Ii(AV &av, VI &x, int y) { A_<2> c(av); c = colon<0>(av, x, y); }
DRV drv_colon_Id(AV &av, VI &x, double y) { A_<2> c(av); c = colon<0>(av, x, y); }
DRV drv_colon_II(AV &av, VI &x, VI &y) { A_<2> c(av); c = colon<0>(av, x, y); }
DRV drv_colon_ID(AV &av, VI &x, VD &y) { A_<2> c(av); c = colon<0>(av, x, y); }
DRV drv_colon_IJ(AV &av, VI &x, VI &y) { A_<2> c(av); c = colon<0>(av, x, y + y); }
DRV drv_colon_IE(AV &av, VI &x, VD &y) { A_<2> c(av); c = colon<0>(av, x, y + y); }
DRV drv_colon_Di(AV &av, VD &x, int y) { A_<2> c(av); c = colon<0>(av, x, y); }
DRV drv_colon_Dd(AV &av, VD &x, double y) { A_<2> c(av); c = colon<0>(av, x, y); }
DRV drv_colon_DI(AV &av, VD &x, VI &y) { A_<2> c(av); c = colon<0>(av, x, y); }
DRV drv_colon_DD(AV &av, VD &x, VD &y) { A_<2> c(av); c = colon<0>(av, x, y); }
DRV drv_colon_DJ(AV &av, VD &x, VI &y) { A_<2> c(av); c = colon<0>(av, x, y + y); }
DRV drv_colon_DE(AV &av, VD &x, VD &y) { A_<2> c(av); c = colon<0>(av, x, y + y); }
DRV drv_colon_Ji(AV &av, VI &x, int y) { A_<2> c(av); c = colon<0>(av, x + x, y); }
DRV drv_colon_Jd(AV &av, VI &x, double y) { A_<2> c(av); c = colon<0>(av, x + x, y); }
DRV drv_colon_JI(AV &av, VI &x, VI &y) { A_<2> c(av); c = colon<0>(av, x + x, y); }
DRV drv_colon_JD(AV &av, VI &x, VD &y) { A_<2> c(av); c = colon<0>(av, x + x, y); }
DRV drv_colon_JJ(AV &av, VI &x, VI &y) { A_<2> c(av); c = colon<0>(av, x + x, y + y); }
DRV drv_colon_JE(AV &av, VI &x, VD &y) { A_<2> c(av); c = colon<0>(av, x + x, y + y); }
DRV drv_colon_Ei(AV &av, VD &x, int y) { A_<2> c(av); c = colon<0>(av, x + x, y); }
DRV drv_colon_Ed(AV &av, VD &x, double y) { A_<2> c(av); c = colon<0>(av, x + x, y); }
DRV drv_colon_EI(AV &av, VD &x, VI &y) { A_<2> c(av); c = colon<0>(av, x + x, y); }
DRV drv_colon_ED(AV &av, VD &x, VD &y) { A_<2> c(av); c = colon<0>(av, x + x, y); }
DRV drv_colon_EJ(AV &av, VD &x, VI &y) { A_<2> c(av); c = colon<0>(av, x + x, y + y); }
DRV drv_colon_EE(AV &av, VD &x, VD &y) { A_<2> c(av); c = colon<0>(av, x + x, y + y); }
DRV drv_vector_D(AV &av, VD &n) { A_<0> a(av); a = vector_numeric<0>(av, n); }
DRV drv_vector_E(AV &av, VD &n) { A_<0> a(av); a = vector_numeric<0>(av, n + n); }
DRV drv_vector_s(AV &av, std::size_t n) { A_<0> a(av); a = vector_numeric<0>(av, n); }
DRV drv_vector_iI(AV &av, VI &n) { A_<0> a(av); a = vector_integer<0>(av, n); }
DRV drv_vector_iJ(AV &av, VI &n) { A_<0> a(av); a = vector_integer<0>(av, n + n); }
DRV drv_vector_id(AV &av, double n) { A_<0> a(av); a = vector_integer<0>(av, n); }
DRV drv_vector_is(AV &av, std::size_t n) { A_<0> a(av); a = vector_integer<0>(av, n); }
DRV drv_vector_lD(AV &av, VD &n) { A_<0> a(av); a = vector_logical<0>(av, n); }
DRV drv_vector_lE(AV &av, VD &n) { A_<0> a(av); a = vector_logical<0>(av, n + n); }
DRV drv_vector_li(AV &av, int n) { A_<0> a(av); a = vector_logical<0>(av, n); }
DRV drv_vector_ld(AV &av, double n) { A_<0> a(av); a = vector_logical<0>(av, n); }
DRV drv_coca_mixed(AV &av, double x, int y, VI &v) { A_<2> c(av); c = coca<0>(av, x, y, v); }
DRV drv_coca_ints(AV &av, VI &v, int y) { A_<2> c(av); c = coca<0>(av, v, y); }
