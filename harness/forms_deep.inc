// generated by tools/gen_forms.py
F(a * b + c * a - b / (s + c * c))
F((a + b) * (b + c) * (c + a))
F(exp(sin(a) * b) + log(s * s + a * a + T(1)))
F(sqrt(a * a + b * b + T(1)) / (s * s + T(1)))
F(sin(a * sin(b * sin(c))))
F(((a + s) * (b - s)) / (c * c + T(1)) - a * a * a)
F(a * a)
F(a * a * a * a)
F(a - a)
F((a * b) - (a * b))
F(a + a * a + a * a * a)
F(tanh(a + b) * tanh(a - b) + T(s) * c)
F(max(a, b) * min(a, b))
F(fabs(a - b) + fabs(b - c))
F(pow(a * a + T(1), b))
F(atan2(a + T(s), b - c) * hypot(a, b))
F(-((-a) * (-(b - (-c)))))
F(1 / (1 / (a * a + 2) + 1 / (b * b + 3)))
F((a * 2 + b * 3 - c * 4) / 5)
F(exp(-a * a) * erf(b) + erfc(c))
F(a > b ? T(a * c) : T(b * c))
F(s + (s - (s * (s / (a * a + T(2))))))
F(2 * a - a * 2)
F(a / b / c)
F(a - b - c)
F(a - (b - c))
F(a / (b / c))
F(fmod(a * 3, b * b + T(1)) * c)
F(cbrt(a * a + 1) * exp2(b / 4) * log2(c * c + 2))
F(log1p(a * a) + expm1(b / 3) * log10(c * c + 1.5f))
F(asinh(a) * acosh(b * b + 2) * atanh(sin(c) / 2))
F(asin(sin(a) / 2) + acos(cos(b) / 2) - atan(c))
F(sinh(a / 3) + cosh(b / 3) * tan(c / 4))
F(hypot(a * b, c) / hypot(b, T(3)))
F(pow(a * a + T(1), s) + pow(T(2), b))
F(X::smooth_max(a, b * c) - X::smooth_min(a * b, c))
