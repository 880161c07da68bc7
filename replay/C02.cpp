#include "elementwise.hpp"
#define CMP(N, OP, EX)                                                                                       \
  bin<VB, VD, VD>(N " dd", [](VB &r, VD &a, VD &b) { r = a OP b; }, [](double x, double y) { return EX; });  \
  bin<VB, VD, VI>(N " di", [](VB &r, VD &a, VI &b) { r = a OP b; }, [](double x, double y) { return EX; });  \
  bin<VB, VI, VD>(N " id", [](VB &r, VI &a, VD &b) { r = a OP b; }, [](double x, double y) { return EX; });  \
  bin<VB, VI, VI>(N " ii", [](VB &r, VI &a, VI &b) { r = a OP b; }, [](double x, double y) { return EX; });  \
  scax<VB, VD, double>(N " ds", [](VB &r, VD &a, double s) { r = a OP s; }, [](double x, double y) { return EX; }); \
  scax<VB, VD, double>(N " sd", [](VB &r, VD &a, double s) { r = s OP a; }, [](double y, double x) { return EX; }); \
  scax<VB, VI, int>(N " is", [](VB &r, VI &a, int s) { r = a OP s; }, [](double x, double y) { return EX; });
int main() {
  init();
  for (double d : {0.0, 1.0, 2.0, 2.001, 1.999, 1.0011, 1.0009, 0.001, -0.001, 0.00099, 0.0011}) xdbl.push_back(d);
  for (long it = 0; it < 20000 && !out_of_time(); it++) {
    CMP("==", ==, std::fabs(x - y) < 1e-3)
    CMP("!=", !=, std::fabs(x - y) > 1e-3)
    CMP("<", <, x < y)
    CMP("<=", <=, x <= y)
    CMP(">", >, x > y)
    CMP(">=", >=, x >= y)
    {
      auto ma = random<double>(size()), mb = random<double>(size()), mc = random<double>(size());
      VD a, b, c; VB r; put(a, ma); put(b, mb); put(c, mc);
      std::string w = "(a+b)<c a=" + str(ma) + " b=" + str(mb) + " c=" + str(mc);
      size_t n1 = std::max(ma.v.size(), mb.v.size()), n = std::max(n1, mc.v.size());
      std::vector<bool> e;
      for (size_t i = 0; i < n; i++) { size_t k = i % n1; e.push_back(ma.v[k % ma.v.size()] + mb.v[k % mb.v.size()] < mc.v[i % mc.v.size()]); }
      if (!threw([&] { r = (a + b) < c; }, w, false)) expect(w, r, e);
    }
  }
  return finish();
}
