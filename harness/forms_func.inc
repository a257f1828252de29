// generated by tools/gen_forms.py
F(pow(a, b))
F(pow(a * b, c))
F(pow(a, b + s))
F(pow(a - s, b * c))
F(pow(a, s))
F(pow(s, a))
F(pow(a * b, s))
F(pow(s, a * b))
F(pow(a, T(s)))
F(pow(T(s), a))
F(pow(a * b, T(s)))
F(pow(T(s), a + b))
F(pow(-a, +b))
F(pow(-a, s))
F(pow(s, -a))
F(pow(a, -b))
F(pow(-a, i))
F(pow(i, -a))
F(pow(a, i))
F(pow(i, a))
F(pow(a * b, i))
F(pow(i, a + b))
F(fmod(a, b))
F(fmod(a * b, c))
F(fmod(a, b + s))
F(fmod(a - s, b * c))
F(fmod(a, s))
F(fmod(s, a))
F(fmod(a * b, s))
F(fmod(s, a * b))
F(fmod(a, T(s)))
F(fmod(T(s), a))
F(fmod(a * b, T(s)))
F(fmod(T(s), a + b))
F(fmod(-a, +b))
F(fmod(-a, s))
F(fmod(s, -a))
F(fmod(a, -b))
F(fmod(-a, i))
F(fmod(i, -a))
F(fmod(a, i))
F(fmod(i, a))
F(fmod(a * b, i))
F(fmod(i, a + b))
F(atan2(a, b))
F(atan2(a * b, c))
F(atan2(a, b + s))
F(atan2(a - s, b * c))
F(atan2(a, s))
F(atan2(s, a))
F(atan2(a * b, s))
F(atan2(s, a * b))
F(atan2(a, T(s)))
F(atan2(T(s), a))
F(atan2(a * b, T(s)))
F(atan2(T(s), a + b))
F(atan2(-a, +b))
F(atan2(-a, s))
F(atan2(s, -a))
F(atan2(a, -b))
F(atan2(-a, i))
F(atan2(i, -a))
F(atan2(a, i))
F(atan2(i, a))
F(atan2(a * b, i))
F(atan2(i, a + b))
F(hypot(a, b))
F(hypot(a * b, c))
F(hypot(a, b + s))
F(hypot(a - s, b * c))
F(hypot(a, s))
F(hypot(s, a))
F(hypot(a * b, s))
F(hypot(s, a * b))
F(hypot(a, T(s)))
F(hypot(T(s), a))
F(hypot(a * b, T(s)))
F(hypot(T(s), a + b))
F(hypot(-a, +b))
F(hypot(-a, s))
F(hypot(s, -a))
F(hypot(a, -b))
F(hypot(-a, i))
F(hypot(i, -a))
F(hypot(a, i))
F(hypot(i, a))
F(hypot(a * b, i))
F(hypot(i, a + b))
F(X::smooth_abs(a, b))
F(X::smooth_abs(a * b, c))
F(X::smooth_abs(a, b + s))
F(X::smooth_abs(a - s, b * c))
F(X::smooth_abs(a, s))
F(X::smooth_abs(s, a))
F(X::smooth_abs(a * b, s))
F(X::smooth_abs(s, a * b))
F(X::smooth_abs(a, T(s)))
F(X::smooth_abs(T(s), a))
F(X::smooth_abs(a * b, T(s)))
F(X::smooth_abs(T(s), a + b))
F(X::smooth_abs(-a, +b))
F(X::smooth_abs(-a, s))
F(X::smooth_abs(s, -a))
F(X::smooth_abs(a, -b))
F(X::smooth_abs(-a, i))
F(X::smooth_abs(i, -a))
F(X::smooth_abs(a, i))
F(X::smooth_abs(i, a))
F(X::smooth_abs(a * b, i))
F(X::smooth_abs(i, a + b))
F(remainder(a, b))
F(remainder(a * b, c))
F(remainder(a, b + s))
F(remainder(a - s, b * c))
F(remainder(a, s))
F(remainder(s, a))
F(remainder(a * b, s))
F(remainder(s, a * b))
F(remainder(a, T(s)))
F(remainder(T(s), a))
F(remainder(a * b, T(s)))
F(remainder(T(s), a + b))
F(remainder(-a, +b))
F(remainder(-a, s))
F(remainder(s, -a))
F(remainder(a, -b))
F(remainder(-a, i))
F(remainder(i, -a))
F(remainder(a, i))
F(remainder(i, a))
F(remainder(a * b, i))
F(remainder(i, a + b))
F(nextafter(a, b))
F(nextafter(a * b, c))
F(nextafter(a, b + s))
F(nextafter(a - s, b * c))
F(nextafter(a, s))
F(nextafter(s, a))
F(nextafter(a * b, s))
F(nextafter(s, a * b))
F(nextafter(a, T(s)))
F(nextafter(T(s), a))
F(nextafter(a * b, T(s)))
F(nextafter(T(s), a + b))
F(nextafter(-a, +b))
F(nextafter(-a, s))
F(nextafter(s, -a))
F(nextafter(a, -b))
F(fmax(a, b))
F(fmax(a * b, c))
F(fmax(a, b + s))
F(fmax(a - s, b * c))
F(fmax(a, s))
F(fmax(s, a))
F(fmax(a * b, s))
F(fmax(s, a * b))
F(fmax(a, i))
F(fmax(i, a * b))
F(fmin(a, b))
F(fmin(a * b, c))
F(fmin(a, b + s))
F(fmin(a - s, b * c))
F(fmin(a, s))
F(fmin(s, a))
F(fmin(a * b, s))
F(fmin(s, a * b))
F(fmin(a, i))
F(fmin(i, a * b))
F(max(a, b))
F(max(a * b, b + c))
F(max(a, b + s))
F(max(a - s, b))
F(max(a, s))
F(max(s, a))
F(max(a * b, s))
F(max(s, a * b))
F(min(a, b))
F(min(a * b, b + c))
F(min(a, b + s))
F(min(a - s, b))
F(min(a, s))
F(min(s, a))
F(min(a * b, s))
F(min(s, a * b))
F(remquo(a, b, io))
F(remquo(a * b, c + s, io))
F(remquo(a, s, io))
F(remquo(s, a, io))
F(remquo(a * b, s, io))
F(remquo(s, a * b, io))
F(remquo(a, T(s), io))
F(remquo(T(s), a * b, io))
F(remquo(a * b, T(s), io))
F(remquo(a, i, io))
F(remquo(i, a, io))
F(X::smooth_max(a, b))
F(X::smooth_max(a, b, s))
F(X::smooth_max(a * b, c, s))
F(X::smooth_max(a, s, s))
F(X::smooth_min(a, b))
F(X::smooth_min(a, b, s))
F(X::smooth_min(a * b, c, s))
F(X::smooth_min(a, s, s))
F(remquo(-a, +b, io))
F(remquo(-a, s, io))
F(remquo(s, -a, io))
F(fmax(-a, b))
F(fmin(-a, b))
F(max(-a, -b))
F(min(-a, -b))
F(fmax(-a, s))
F(fmin(s, -a))
F(max(s, -a))
F(min(-a, s))
F(copysign(-a, b))
F(copysign(a, s))
F(copysign(s, a))
F(copysign(a, -b))
F(X::smooth_max(a, b, T(s)))
F(X::smooth_min(-a, b, s))
F(copysign(a, b))
F(copysign(a * b, s))
F(copysign(a, b * c))
