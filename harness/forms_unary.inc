// generated by tools/gen_forms.py
F(cos(a))
F(cos(-a))
F(cos(a * b))
F(cos(a + s))
F(s * cos(a - b * c) + a)
F(sin(a))
F(sin(-a))
F(sin(a * b))
F(sin(a + s))
F(s * sin(a - b * c) + a)
F(log(a))
F(log(-a))
F(log(a * b))
F(log(a + s))
F(s * log(a - b * c) + a)
F(log10(a))
F(log10(-a))
F(log10(a * b))
F(log10(a + s))
F(s * log10(a - b * c) + a)
F(log2(a))
F(log2(-a))
F(log2(a * b))
F(log2(a + s))
F(s * log2(a - b * c) + a)
F(asin(a))
F(asin(-a))
F(asin(a * b))
F(asin(a + s))
F(s * asin(a - b * c) + a)
F(acos(a))
F(acos(-a))
F(acos(a * b))
F(acos(a + s))
F(s * acos(a - b * c) + a)
F(atan(a))
F(atan(-a))
F(atan(a * b))
F(atan(a + s))
F(s * atan(a - b * c) + a)
F(sinh(a))
F(sinh(-a))
F(sinh(a * b))
F(sinh(a + s))
F(s * sinh(a - b * c) + a)
F(cosh(a))
F(cosh(-a))
F(cosh(a * b))
F(cosh(a + s))
F(s * cosh(a - b * c) + a)
F(expm1(a))
F(expm1(-a))
F(expm1(a * b))
F(expm1(a + s))
F(s * expm1(a - b * c) + a)
F(exp2(a))
F(exp2(-a))
F(exp2(a * b))
F(exp2(a + s))
F(s * exp2(a - b * c) + a)
F(log1p(a))
F(log1p(-a))
F(log1p(a * b))
F(log1p(a + s))
F(s * log1p(a - b * c) + a)
F(asinh(a))
F(asinh(-a))
F(asinh(a * b))
F(asinh(a + s))
F(s * asinh(a - b * c) + a)
F(acosh(a))
F(acosh(-a))
F(acosh(a * b))
F(acosh(a + s))
F(s * acosh(a - b * c) + a)
F(atanh(a))
F(atanh(-a))
F(atanh(a * b))
F(atanh(a + s))
F(s * atanh(a - b * c) + a)
F(abs(a))
F(abs(-a))
F(abs(a * b))
F(abs(a + s))
F(s * abs(a - b * c) + a)
F(fabs(a))
F(fabs(-a))
F(fabs(a * b))
F(fabs(a + s))
F(s * fabs(a - b * c) + a)
F(floor(a))
F(floor(-a))
F(floor(a * b))
F(floor(a + s))
F(s * floor(a - b * c) + a)
F(ceil(a))
F(ceil(-a))
F(ceil(a * b))
F(ceil(a + s))
F(s * ceil(a - b * c) + a)
F(trunc(a))
F(trunc(-a))
F(trunc(a * b))
F(trunc(a + s))
F(s * trunc(a - b * c) + a)
F(round(a))
F(round(-a))
F(round(a * b))
F(round(a + s))
F(s * round(a - b * c) + a)
F(exp(a))
F(exp(-a))
F(exp(a * b))
F(exp(a + s))
F(s * exp(a - b * c) + a)
F(tanh(a))
F(tanh(-a))
F(tanh(a * b))
F(tanh(a + s))
F(s * tanh(a - b * c) + a)
F(sqrt(a))
F(sqrt(-a))
F(sqrt(a * b))
F(sqrt(a + s))
F(s * sqrt(a - b * c) + a)
F(cbrt(a))
F(cbrt(-a))
F(cbrt(a * b))
F(cbrt(a + s))
F(s * cbrt(a - b * c) + a)
F(tan(a))
F(tan(-a))
F(tan(a * b))
F(tan(a + s))
F(s * tan(a - b * c) + a)
F(erf(a))
F(erf(-a))
F(erf(a * b))
F(erf(a + s))
F(s * erf(a - b * c) + a)
F(erfc(a))
F(erfc(-a))
F(erfc(a * b))
F(erfc(a + s))
F(s * erfc(a - b * c) + a)
F(X::degrees(a))
F(X::degrees(a * b))
F(X::radians(a))
F(X::radians(a * b))
F(X::smooth_abs(a))
F(X::smooth_abs(a * b))
F(X::smooth_abs(a - b))
F(-a)
F(+a)
F(-(a * b))
F(+(a * b))
F(-(-a))
F(pown_(a, i))
F(pown_(a * b, i))
F(ldexp(a, i))
F(ldexp(a * b, i))
F(frexp(a, io))
F(frexp(a * b, io))
F(modf(a, fo))
F(modf(a + b, fo))
F(scalbn(a, i))
F(scalbn(a * b, i))
F(frexp(a, io) + frexp(b, io))
F(frexp(a * b, io) - frexp(c, io) * modf(b, fo))
