#include "elementwise.hpp"
#define OPS(N, OP, EX)                                                                                           \
  bin<VD, VD, VD>(N " dd", [](VD &r, VD &a, VD &b) { r = a OP b; }, [](double x, double y) { return EX; });       \
  bin<VD, VD, VI>(N " di", [](VD &r, VD &a, VI &b) { r = a OP b; }, [](double x, double y) { return EX; });       \
  bin<VD, VI, VD>(N " id", [](VD &r, VI &a, VD &b) { r = a OP b; }, [](double x, double y) { return EX; });       \
  sca(N " ds", [](VD &r, VD &a, double s) { r = a OP s; }, [](double x, double y) { return EX; });                \
  sca(N " sd", [](VD &r, VD &a, double s) { r = s OP a; }, [](double y, double x) { return EX; });
int main() {
  init();
  for (long it = 0; it < 20000 && !out_of_time(); it++) {
    OPS("+", +, x + y)
    OPS("-", -, x - y)
    OPS("*", *, x *y)
    OPS("/", /, x / y)
    OPS("^", ^, std::pow(x, y))
    bin<VI, VI, VI>("+ ii", [](VI &r, VI &a, VI &b) { r = a + b; }, [](int x, int y) { return int(unsigned(x) + unsigned(y)); });
    bin<VI, VI, VI>("- ii", [](VI &r, VI &a, VI &b) { r = a - b; }, [](int x, int y) { return int(unsigned(x) - unsigned(y)); });
    bin<VI, VI, VI>("* ii", [](VI &r, VI &a, VI &b) { r = a * b; }, [](int x, int y) { return int(unsigned(x) * unsigned(y)); });
    bin<VD, VI, VI>("/ ii", [](VD &r, VI &a, VI &b) { r = a / b; }, [](int x, int y) { return double(x) / double(y); });
    {
      auto ma = random<double>(size()), mb = random<double>(size()), mc = random<double>(size());
      VD a, b, c, r; put(a, ma); put(b, mb); put(c, mc);
      std::string w = "(a+b)*c a=" + str(ma) + " b=" + str(mb) + " c=" + str(mc);
      size_t n1 = std::max(ma.v.size(), mb.v.size()), n = std::max(n1, mc.v.size());
      std::vector<double> e;
      for (size_t i = 0; i < n; i++) { size_t k = i % n1; e.push_back((ma.v[k % ma.v.size()] + mb.v[k % mb.v.size()]) * mc.v[i % mc.v.size()]); }
      if (!threw([&] { r = (a + b) * c; }, w, false)) expect(w, r, e);
    }
    {
      auto ma = random<double>(size()), mb = random<double>(size());
      double s = dval();
      VD a, b, r; put(a, ma); put(b, mb);
      std::string w = "a-s*b/a a=" + str(ma) + " b=" + str(mb) + " s=" + std::to_string(s);
      size_t n = std::max(ma.v.size(), mb.v.size());
      std::vector<double> e;
      for (size_t i = 0; i < n; i++) e.push_back(ma.v[i % ma.v.size()] - s * mb.v[i % mb.v.size()] / ma.v[i % ma.v.size()]);
      if (!threw([&] { r = a - s * b / a; }, w, false)) expect(w, r, e);
    }
  }
  return finish();
}
