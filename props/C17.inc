// the statements under contract (shared with the native oracle): AD(name, statement)
// one operation
AD(add, c = a + b)
AD(sub, c = a - b)
AD(mul, c = a * b)
AD(div, c = a / b)
AD(sin, c = sinus(a))
AD(mul_const, c = a * k)
AD(const_mul, c = k * a)
AD(add_const, c = a + k)
AD(const_sub, c = k - a)
AD(div_const, c = a / k)
AD(const_div, c = k / a)
AD(const_const, c = k * l)
AD(lt, c = a < b)
AD(le, c = a <= b)
AD(gt, c = a > b)
AD(ge, c = a >= b)
AD(eq, c = a == b)
AD(ne, c = a != b)
// nesting
AD(sum3, c = a + b + k)
AD(poly, c = a * b + a)
AD(prod3, c = a * (b * k))
AD(sin_mul, c = sinus(a * b))
AD(sin_sin, c = sinus(sinus(a)))
AD(mul_sin, c = a * sinus(b))
AD(div_sum, c = a / (b + k))
AD(sum_div, c = (a - b) / b)
AD(div_mul, c = a / b * a)
AD(sin_div, c = sinus(a / k))
AD(mask, c = a * (a < b))
// the target on the right side
AD(self_mul, a = a * b)
AD(self_sq, a = a * a)
AD(self_sin, a = sinus(a))
AD(self_div, a = b / a)
AD(self_nest, a = a + a * b)
// variables, constants
AD(copy, c = a)
AD(const, c = k)
AD(const_a, a = k)
// borrowed variables
AD(w_mul, c = a * w)
AD(to_w, w = a * b)
AD(w_self, w = w * a)
AD(w_copy, w = a)
AD(from_w, c = w)
AD(w_const, w = k)
