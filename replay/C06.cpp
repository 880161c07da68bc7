// Native cross check of C06: every operation of the driver unit runs on random objects, with an
// allocation failing at a random point; afterwards the survivors must be usable and every block released.
#include <new>
#include <cstdlib>
static long live, countdown = -1;
static void *grab(std::size_t n) {
  if (countdown >= 0 && countdown-- == 0) throw std::bad_alloc();
  void *p = n > (std::size_t(1) << 40) ? nullptr : std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  live++;
  return p;
}
void *operator new[](std::size_t n) { return grab(n); }
void operator delete[](void *p) noexcept { if (p) { live--; std::free(p); } }
void operator delete[](void *p, std::size_t) noexcept { if (p) { live--; std::free(p); } }
#include "elementwise.hpp"
#include "../props/C06.cpp"
struct State {
  VD D[4];
  VI I[3];
  VB B[2];
  BD bd[3];
  BS bs[2];
  double mem[64];
  size_t msz = 1;
  State() {
    for (auto &v : D) { size_t n = size(6, 40); put(v, random<double>(n, pick(3) == 0)); }
    for (auto &v : I) { size_t n = size(6, 40); M<int> m = random<int>(n); if (pick(4)) for (auto &x : m.v) x = 1 + pick(4); put(v, m); }
    for (auto &v : B) { size_t n = size(6, 40); put(v, random<bool>(n)); }
    for (auto &b : bd) { size_t n = pick(10); for (size_t i = 0; i < n; i++) b.push_back(fval()); }
    for (auto &b : bs) { size_t n = pick(10); for (size_t i = 0; i < n; i++) b.push_back(i); }
    for (auto &x : mem) x = fval();
    msz = 1 + pick(64);
  }
  double s() { return fval(); }
  int i() { return int(pick(12)) - 2; }
  size_t n() { return pick(40) == 0 ? size_t(-1) - pick(3) : pick(12); }
  size_t m() { return msz; }
};
template <typename S> void usable(const std::string &w, const S &d) {
  if (d.sz > d.capacity || (d.sz && !(d.p && d.allocated)) || (!d.p && d.capacity)) { mismatch(w + ": broken object left behind, size " + std::to_string(d.sz) + " capacity " + std::to_string(d.capacity)); return; }
  if (d.p && d.allocated) { volatile unsigned char *q = (volatile unsigned char *)d.p, x = 0; for (size_t i = 0; i < d.capacity * sizeof(*d.p); i++) x = x ^ q[i]; }
}
struct Op { const char *name; void (*f)(State &); };
int main() {
  init();
  static const Op ops[] = {
    {"l_size", [](State &S) { l_size(S.n()); }},
    {"l_scalar", [](State &S) { l_scalar(S.s()); }},
    {"l_mat", [](State &S) { l_mat(S.n(), S.n()); }},
    {"l_ptr", [](State &S) { l_ptr(S.mem, S.m()); }},
    {"l_copy", [](State &S) { l_copy(S.D[0]); }},
    {"l_copy_i", [](State &S) { l_copy_i(S.I[0]); }},
    {"l_copy_b", [](State &S) { l_copy_b(S.B[0]); }},
    {"l_move", [](State &S) { l_move(S.D[0]); }},
    {"l_conv", [](State &S) { l_conv(S.I[0]); }},
    {"l_expr", [](State &S) { l_expr(S.D[0], S.D[1]); }},
    {"l_expr2", [](State &S) { l_expr2(S.D[0], S.D[1]); }},
    {"l_chain", [](State &S) { l_chain(S.D[0], S.D[1]); }},
    {"l_cmp", [](State &S) { l_cmp(S.D[0], S.D[1]); }},
    {"l_un", [](State &S) { l_un(S.D[0]); }},
    {"l_coca", [](State &S) { l_coca(S.D[0], S.I[0]); }},
    {"l_coca_init", [](State &S) { l_coca_init(S.D[0], S.D[1]); }},
    {"l_coca_conv", [](State &S) { l_coca_conv(S.I[0], S.I[1]); }},
    {"l_coca_nest", [](State &S) { l_coca_nest(S.D[0], S.D[1]); }},
    {"l_colon", [](State &S) { l_colon(S.i(), S.i()); }},
    {"l_rep", [](State &S) { l_rep(S.D[0], S.i()); }},
    {"l_rep_s", [](State &S) { l_rep_s(S.s(), S.i()); }},
    {"l_matrix", [](State &S) { l_matrix(S.D[0], S.i(), S.i()); }},
    {"l_matrix_s", [](State &S) { l_matrix_s(S.s(), S.i(), S.i()); }},
    {"l_vector", [](State &S) { l_vector(S.i()); }},
    {"l_isna", [](State &S) { l_isna(S.D[0]); }},
    {"l_dim", [](State &S) { l_dim(S.D[0]); }},
    {"l_subset", [](State &S) { l_subset(S.D[0], S.I[0]); }},
    {"l_subset_d", [](State &S) { l_subset_d(S.D[0], S.D[1]); }},
    {"l_subset_b", [](State &S) { l_subset_b(S.D[0], S.B[0]); }},
    {"l_subset_s", [](State &S) { l_subset_s(S.D[0], S.i()); }},
    {"l_subset_t", [](State &S) { l_subset_t(S.D[0]); }},
    {"l_subset_x", [](State &S) { l_subset_x(S.D[0], S.D[1]); }},
    {"l_subset_e", [](State &S) { l_subset_e(S.D[0], S.I[0]); }},
    {"l_subset_c", [](State &S) { l_subset_c(S.D[0], S.i(), S.i()); }},
    {"l_subset_n", [](State &S) { l_subset_n(S.D[0], S.I[0], S.I[1]); }},
    {"l_assign_sub", [](State &S) { l_assign_sub(S.D[0], S.I[0], S.D[1]); }},
    {"l_assign_subs", [](State &S) { l_assign_subs(S.D[0], S.I[0], S.s()); }},
    {"l_at", [](State &S) { l_at(S.D[0], S.i(), S.s()); }},
    {"l_at_d", [](State &S) { l_at_d(S.D[0], S.s(), S.s()); }},
    {"l_index", [](State &S) { l_index(S.D[0], S.n()); }},
    {"l_resize", [](State &S) { l_resize(S.D[0], S.n()); }},
    {"l_if", [](State &S) { l_if(S.D[0], S.i()); }},
    {"l_passby", [](State &S) { l_passby(S.D[0]); }},
    {"l_borrow", [](State &S) { l_borrow(S.mem, S.m(), S.D[0]); }},
    {"l_borrow_s", [](State &S) { l_borrow_s(S.mem, S.m()); }},
    {"l_ret", [](State &S) { l_ret(S.D[0], S.D[1], S.i()); }},
    {"o_assign", [](State &S) { o_assign(S.D[0], S.D[1]); }},
    {"o_assign_i", [](State &S) { o_assign_i(S.D[0], S.I[0]); }},
    {"o_expr", [](State &S) { o_expr(S.D[0], S.D[1], S.D[2]); }},
    {"o_self", [](State &S) { o_self(S.D[0], S.D[1]); }},
    {"o_scalar", [](State &S) { o_scalar(S.D[0], S.s()); }},
    {"o_int", [](State &S) { o_int(S.D[0], S.i()); }},
    {"o_sub", [](State &S) { o_sub(S.D[0], S.D[1], S.I[0]); }},
    {"o_sub_cmp", [](State &S) { o_sub_cmp(S.D[0], S.s()); }},
    {"o_into", [](State &S) { o_into(S.D[0], S.I[0], S.D[1]); }},
    {"o_into_s", [](State &S) { o_into_s(S.D[0], S.I[0], S.s()); }},
    {"o_into_e", [](State &S) { o_into_e(S.D[0], S.I[0], S.D[1]); }},
    {"o_into_d", [](State &S) { o_into_d(S.D[0], S.D[1], S.s()); }},
    {"o_into_b", [](State &S) { o_into_b(S.D[0], S.B[0], S.s()); }},
    {"o_into_sub", [](State &S) { o_into_sub(S.D[0], S.I[0], S.D[1], S.I[1]); }},
    {"o_coca", [](State &S) { o_coca(S.D[0], S.D[1]); }},
    {"o_rep", [](State &S) { o_rep(S.D[0], S.i()); }},
    {"o_colon", [](State &S) { o_colon(S.I[0], S.I[1], S.I[2]); }},
    {"o_matrix", [](State &S) { o_matrix(S.D[0], S.i(), S.i()); }},
    {"o_isinf", [](State &S) { o_isinf(S.B[0], S.D[0]); }},
    {"b_resize", [](State &S) { b_resize(S.bd[0], S.n()); }},
    {"b_init", [](State &S) { b_init(S.bd[0], S.n()); }},
    {"b_realloc", [](State &S) { b_realloc(S.bd[0], S.i()); }},
    {"b_push", [](State &S) { b_push(S.bd[0], S.s()); }},
    {"b_assign", [](State &S) { b_assign(S.bd[0], S.bd[1]); }},
    {"b_moveit", [](State &S) { b_moveit(S.bd[0], S.bd[1]); }},
    {"b_fill", [](State &S) { b_fill(S.bd[0], S.D[0]); }},
    {"b_fill_c", [](State &S) { b_fill_c(S.bd[0], S.D[0], S.D[1]); }},
    {"bs_push", [](State &S) { bs_push(S.bs[0], S.n()); }},
    {"bs_resize", [](State &S) { bs_resize(S.bs[0], S.n()); }},
    {"bs_assign", [](State &S) { bs_assign(S.bs[0], S.bs[1]); }},
  };
  while (!out_of_time()) {
    const Op &op = ops[pick(sizeof ops / sizeof *ops)];
    long before = live, k = pick(3) == 0 ? -1 : long(pick(9));
    {
      State S;
      countdown = k;
      std::string w = std::string(op.name) + " (allocation " + (k < 0 ? "never fails" : std::to_string(k) + " fails") + ")";
      try { op.f(S); } catch (const std::exception &) {}
      countdown = -1;
      for (auto &v : S.D) usable(w, v.d), usable(w + " temp", v.temp);
      for (auto &v : S.I) usable(w, v.d), usable(w + " temp", v.temp);
      for (auto &v : S.B) usable(w, v.d), usable(w + " temp", v.temp);
      for (auto &b : S.bd) usable(w, b);
      for (auto &b : S.bs) usable(w, b);
      if (bad) return finish();
    }
    if (live != before) { mismatch(std::string(op.name) + " (allocation " + std::to_string(k) + " fails): " + std::to_string(live - before) + " blocks not released (negative: released twice)"); }
  }
  return finish();
}
