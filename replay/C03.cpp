#include "elementwise.hpp"
int main() {
  init();
  for (long it = 0; it < 20000 && !out_of_time(); it++) {
    una("-", [](VD &r, VD &a) { r = -a; }, [](double x) { return -x; });
    una("sinus", [](VD &r, VD &a) { r = sinus(a); }, [](double x) { return std::sin(x); });
    una("asinus", [](VD &r, VD &a) { r = asinus(a); }, [](double x) { return std::asin(x); });
    una("sinush", [](VD &r, VD &a) { r = sinush(a); }, [](double x) { return std::sinh(x); });
    una("cosinus", [](VD &r, VD &a) { r = cosinus(a); }, [](double x) { return std::cos(x); });
    una("acosinus", [](VD &r, VD &a) { r = acosinus(a); }, [](double x) { return std::acos(x); });
    una("cosinush", [](VD &r, VD &a) { r = cosinush(a); }, [](double x) { return std::cosh(x); });
    una("tangens", [](VD &r, VD &a) { r = tangens(a); }, [](double x) { return std::tan(x); });
    una("atangens", [](VD &r, VD &a) { r = atangens(a); }, [](double x) { return std::atan(x); });
    una("tangensh", [](VD &r, VD &a) { r = tangensh(a); }, [](double x) { return std::tanh(x); });
    una("exp", [](VD &r, VD &a) { r = etr::exp(a); }, [](double x) { return std::exp(x); });
    una("ln", [](VD &r, VD &a) { r = ln(a); }, [](double x) { return std::log(x); });
    una("sqroot", [](VD &r, VD &a) { r = sqroot(a); }, [](double x) { return std::sqrt(x); });
    una("exp(sinus)", [](VD &r, VD &a) { r = etr::exp(sinus(a)); }, [](double x) { return std::exp(std::sin(x)); });
    bin<VD, VD, VD>("sinus(a+b)", [](VD &r, VD &a, VD &b) { r = sinus(a + b); }, [](double x, double y) { return std::sin(x + y); });
    bin<VD, VD, VD>("-(a*b)", [](VD &r, VD &a, VD &b) { r = -(a * b); }, [](double x, double y) { return -(x * y); });
    bin<VD, VD, VD>("a+sqroot(b)", [](VD &r, VD &a, VD &b) { r = a + sqroot(b); }, [](double x, double y) { return x + std::sqrt(y); });
    bin<VI, VI, VI>("-int", [](VI &r, VI &a, VI &b) { r = -a; VI t; t = b - b; r = r + t; }, [](int x, int y) { return int(-unsigned(x)); });
    bin<VD, VI, VI>("sinus int", [](VD &r, VI &a, VI &b) { r = sinus(a + (b - b)); }, [](int x, int y) { return std::sin(double(x)); });
  }
  return finish();
}
