// generated by tools/gen_forms.py
F(a + b)
F(a + a)
F(a + s)
F(s + a)
F(a + i)
F(i + a)
F((a * b) + c)
F(a + (b + c))
F((a - b) + (c * a))
F((a * b) + s)
F(s + (a * b))
F((a + b) + i)
F(i + (a + b))
F(a + T(s))
F(T(s) + a)
F((a * b) + T(s))
F(T(s) + (a * b))
F(sin(a) + cos(b))
F((-a) + (-b))
F(a + (long)(i))
F((unsigned)(7) + a)
F(a - b)
F(a - a)
F(a - s)
F(s - a)
F(a - i)
F(i - a)
F((a * b) - c)
F(a - (b + c))
F((a - b) - (c * a))
F((a * b) - s)
F(s - (a * b))
F((a + b) - i)
F(i - (a + b))
F(a - T(s))
F(T(s) - a)
F((a * b) - T(s))
F(T(s) - (a * b))
F(sin(a) - cos(b))
F((-a) - (-b))
F(a - (long)(i))
F((unsigned)(7) - a)
F(a * b)
F(a * a)
F(a * s)
F(s * a)
F(a * i)
F(i * a)
F((a * b) * c)
F(a * (b + c))
F((a - b) * (c * a))
F((a * b) * s)
F(s * (a * b))
F((a + b) * i)
F(i * (a + b))
F(a * T(s))
F(T(s) * a)
F((a * b) * T(s))
F(T(s) * (a * b))
F(sin(a) * cos(b))
F((-a) * (-b))
F(a * (long)(i))
F((unsigned)(7) * a)
F(a / b)
F(a / a)
F(a / s)
F(s / a)
F(a / i)
F(i / a)
F((a * b) / c)
F(a / (b + c))
F((a - b) / (c * a))
F((a * b) / s)
F(s / (a * b))
F((a + b) / i)
F(i / (a + b))
F(a / T(s))
F(T(s) / a)
F((a * b) / T(s))
F(T(s) / (a * b))
F(sin(a) / cos(b))
F((-a) / (-b))
F(a / (long)(i))
F((unsigned)(7) / a)
