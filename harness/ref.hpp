// Reference arithmetic, independent of XAD: multi-dual numbers with three nilpotent directions
// in long double (value, first, second and third mixed derivatives), with a majorant for the
// rounding-error scale and a record of the distance to the nearest non-differentiable point.
#pragma once
#include <cmath>
#include <complex>
#include <limits>
#include <type_traits>

namespace ref
{
typedef long double LD;

// smallest relative distance to a kink / domain boundary seen since reset()
inline LD& kink()
{
    static thread_local LD k = 1e300L;
    return k;
}
// largest magnitude of a value or a local derivative since reset
inline LD& big()
{
    static thread_local LD k = 0;
    return k;
}
inline void reset() { kink() = 1e300L; big() = 0; }
inline void near(LD d)
{
    d = d < 0 ? -d : d;
    if (!(d >= kink())) kink() = d;
}

// univariate Taylor polynomial of degree 3, used to get f', f'', f''' of a function
struct J
{
    LD a[4];
    J(LD v = 0, LD d = 0) : a{v, d, 0, 0} {}
    static J var(LD v) { return J(v, 1); }
};
inline J operator+(J x, const J& y) { for (int i = 0; i < 4; ++i) x.a[i] += y.a[i]; return x; }
inline J operator-(J x, const J& y) { for (int i = 0; i < 4; ++i) x.a[i] -= y.a[i]; return x; }
inline J operator-(J x) { for (int i = 0; i < 4; ++i) x.a[i] = -x.a[i]; return x; }
inline J operator*(const J& x, const J& y)
{
    J r;
    for (int i = 0; i < 4; ++i) { r.a[i] = 0; for (int j = 0; j <= i; ++j) r.a[i] += x.a[j] * y.a[i - j]; }
    return r;
}
inline J operator/(const J& x, const J& y)
{
    J r;
    for (int i = 0; i < 4; ++i)
    {
        LD s = x.a[i];
        for (int j = 0; j < i; ++j) s -= r.a[j] * y.a[i - j];
        r.a[i] = s / y.a[0];
    }
    return r;
}
inline J sqrtJ(const J& x)
{
    J r;
    r.a[0] = sqrtl(x.a[0]);
    for (int i = 1; i < 4; ++i)
    {
        LD s = x.a[i];
        for (int j = 1; j < i; ++j) s -= r.a[j] * r.a[i - j];
        r.a[i] = s / (2 * r.a[0]);
    }
    return r;
}
inline J expJ(const J& x)
{
    J r;
    r.a[0] = expl(x.a[0]);
    for (int i = 1; i < 4; ++i)
    {
        LD s = 0;
        for (int j = 1; j <= i; ++j) s += j * x.a[j] * r.a[i - j];
        r.a[i] = s / i;
    }
    return r;
}

template <bool Maj>
struct Coef
{
};

// value-and-derivatives: c[mask], mask bits = nilpotent directions; m = majorant
struct R
{
    LD c[8];
    LD m[8];
    R() { for (int i = 0; i < 8; ++i) c[i] = m[i] = 0; }
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
    R(T v) : R() { c[0] = LD(v); m[0] = fabsl(c[0]); note(); }
    void note() const
    {
        LD v = fabsl(c[0]);
        if (!(v <= big())) big() = v;
    }
    explicit operator double() const { return double(c[0]); }
    R& operator+=(const R& o);
    R& operator-=(const R& o);
    R& operator*=(const R& o);
    R& operator/=(const R& o);
    R& operator++();
    R operator++(int);
    R& operator--();
    R operator--(int);
};
inline void mulc(const LD* x, const LD* y, LD* r)
{
    for (int i = 0; i < 8; ++i)
    {
        LD s = 0;
        for (int j = i;; j = (j - 1) & i) { s += x[j] * y[i ^ j]; if (!j) break; }
        r[i] = s;
    }
}
inline R lin(const R& x, LD fx, const R& y, LD fy)
{
    R r;
    for (int i = 0; i < 8; ++i) { r.c[i] = fx * x.c[i] + fy * y.c[i]; r.m[i] = fabsl(fx) * x.m[i] + fabsl(fy) * y.m[i]; }
    r.note();
    return r;
}
inline R mul(const R& x, const R& y)
{
    R r;
    mulc(x.c, y.c, r.c);
    mulc(x.m, y.m, r.m);
    r.note();
    return r;
}
// f applied to x given f(x0) and f', f'', f''' at x0
inline R apply(const R& x, LD d0, LD d1, LD d2, LD d3)
{
    R r;
    LD e[8], e2[8], e3[8];
    for (int pass = 0; pass < 2; ++pass)
    {
        const LD* s = pass ? x.m : x.c;
        for (int i = 0; i < 8; ++i) e[i] = s[i];
        e[0] = 0;
        mulc(e, e, e2);
        mulc(e2, e, e3);
        LD D1 = d1, D2 = d2, D3 = d3;
        if (pass) { D1 = fabsl(d1); D2 = fabsl(d2); D3 = fabsl(d3); }
        LD* o = pass ? r.m : r.c;
        for (int i = 0; i < 8; ++i) o[i] = D1 * e[i] + D2 * e2[i] / 2 + D3 * e3[i] / 6;
        o[0] = pass ? fabsl(d0) : d0;
    }
    // the majorants also cover the amplified error of the argument's value (e is |x'| ... here)
    for (int i = 1; i < 8; ++i) r.m[i] += x.m[0] * (fabsl(d2) * e[i] + fabsl(d3) * e2[i] / 2);
    r.m[0] += fabsl(d1) * x.m[0];
    r.note();
    LD b = fmaxl(fabsl(d1), fmaxl(fabsl(d2), fabsl(d3)));
    if (!(b <= big())) big() = b;
    return r;
}
// from f(x0) and Taylor polynomial g of f'
inline R applyD(const R& x, LD d0, const J& g) { return apply(x, d0, g.a[0], g.a[1], 2 * g.a[2]); }

#define REF_BIN(op)                                                                                                    \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>                           \
    inline R operator op(const R& a, T b) { return a op R(b); }                                                       \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>                           \
    inline R operator op(T a, const R& b) { return R(a) op b; }
inline R operator+(const R& a, const R& b) { return lin(a, 1, b, 1); }
inline R operator-(const R& a, const R& b) { return lin(a, 1, b, -1); }
inline R operator*(const R& a, const R& b) { return mul(a, b); }
inline R recip(const R& x)
{
    near(x.c[0]);
    LD i = 1 / x.c[0];
    return apply(x, i, -i * i, 2 * i * i * i, -6 * i * i * i * i);
}
inline R operator/(const R& a, const R& b)
{
    R r = mul(a, recip(b));
    r.c[0] = a.c[0] / b.c[0];
    return r;
}
REF_BIN(+) REF_BIN(-) REF_BIN(*) REF_BIN(/)
inline R operator-(const R& a) { return lin(a, -1, a, 0); }
inline R operator+(const R& a) { return a; }
inline R& R::operator+=(const R& o) { return *this = *this + o; }
inline R& R::operator-=(const R& o) { return *this = *this - o; }
inline R& R::operator*=(const R& o) { return *this = *this * o; }
inline R& R::operator/=(const R& o) { return *this = *this / o; }
inline R& R::operator++() { return *this = *this + 1; }
inline R& R::operator--() { return *this = *this - 1; }
inline R R::operator++(int) { R t = *this; ++*this; return t; }
inline R R::operator--(int) { R t = *this; --*this; return t; }
#define REF_CMP(op)                                                                                                    \
    inline bool operator op(const R& a, const R& b) { near(a.c[0] - b.c[0]); return a.c[0] op b.c[0]; }                \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>                           \
    inline bool operator op(const R& a, T b) { return a op R(b); }                                                    \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>                           \
    inline bool operator op(T a, const R& b) { return R(a) op b; }
REF_CMP(<) REF_CMP(>) REF_CMP(<=) REF_CMP(>=) REF_CMP(==) REF_CMP(!=)

inline R exp(const R& x) { LD e = expl(x.c[0]); return apply(x, e, e, e, e); }
inline R exp2(const R& x) { LD l = logl(2.0L), e = exp2l(x.c[0]); return apply(x, e, l * e, l * l * e, l * l * l * e); }
inline R expm1(const R& x) { LD e = expl(x.c[0]); return apply(x, expm1l(x.c[0]), e, e, e); }
inline R logScaled(const R& x, LD v, LD k) { near(x.c[0]); LD i = 1 / x.c[0]; return apply(x, v, k * i, -k * i * i, 2 * k * i * i * i); }
inline R log(const R& x) { return logScaled(x, logl(x.c[0]), 1); }
inline R log10(const R& x) { return logScaled(x, log10l(x.c[0]), 1 / logl(10.0L)); }
inline R log2(const R& x) { return logScaled(x, log2l(x.c[0]), 1 / logl(2.0L)); }
inline R log1p(const R& x) { near(1 + x.c[0]); LD i = 1 / (1 + x.c[0]); return apply(x, log1pl(x.c[0]), i, -i * i, 2 * i * i * i); }
inline R sin(const R& x) { LD s = sinl(x.c[0]), c = cosl(x.c[0]); return apply(x, s, c, -s, -c); }
inline R cos(const R& x) { LD s = sinl(x.c[0]), c = cosl(x.c[0]); return apply(x, c, -s, -c, s); }
inline R tan(const R& x)
{
    near(cosl(x.c[0]));
    LD t = tanl(x.c[0]), q = 1 + t * t;
    return apply(x, t, q, 2 * t * q, 2 * q * (1 + 3 * t * t));
}
inline R asin(const R& x) { near(1 - x.c[0]); near(1 + x.c[0]); J t = J::var(x.c[0]); return applyD(x, asinl(x.c[0]), J(1) / sqrtJ((J(1) - t) * (J(1) + t))); }
inline R acos(const R& x) { near(1 - x.c[0]); near(1 + x.c[0]); J t = J::var(x.c[0]); return applyD(x, acosl(x.c[0]), -(J(1) / sqrtJ((J(1) - t) * (J(1) + t)))); }
inline R atan(const R& x) { J t = J::var(x.c[0]); return applyD(x, atanl(x.c[0]), J(1) / (J(1) + t * t)); }
inline R sinh(const R& x) { LD s = sinhl(x.c[0]), c = coshl(x.c[0]); return apply(x, s, c, s, c); }
inline R cosh(const R& x) { LD s = sinhl(x.c[0]), c = coshl(x.c[0]); return apply(x, c, s, c, s); }
inline R tanh(const R& x)
{
    LD t = tanhl(x.c[0]), ch = coshl(x.c[0]), q = 1 / (ch * ch);
    return apply(x, t, q, -2 * t * q, q * (6 * t * t - 2));
}
inline R asinh(const R& x) { J t = J::var(x.c[0]); return applyD(x, asinhl(x.c[0]), J(1) / sqrtJ(t * t + J(1))); }
inline R acosh(const R& x) { near(x.c[0] - 1); J t = J::var(x.c[0]); return applyD(x, acoshl(x.c[0]), J(1) / sqrtJ((t - J(1)) * (t + J(1)))); }
inline R atanh(const R& x) { near(1 - x.c[0]); near(1 + x.c[0]); J t = J::var(x.c[0]); return applyD(x, atanhl(x.c[0]), J(1) / ((J(1) - t) * (J(1) + t))); }
inline R erf(const R& x) { J t = J::var(x.c[0]); return applyD(x, erfl(x.c[0]), J(2 / sqrtl(acosl(-1.0L))) * expJ(-(t * t))); }
inline R erfc(const R& x) { J t = J::var(x.c[0]); return applyD(x, erfcl(x.c[0]), J(-2 / sqrtl(acosl(-1.0L))) * expJ(-(t * t))); }
inline R sqrt(const R& x) { near(x.c[0]); LD s = sqrtl(x.c[0]), X = x.c[0]; return apply(x, s, 0.5L / s, -0.25L / (s * X), 0.375L / (s * X * X)); }
inline R cbrt(const R& x) { near(x.c[0]); LD s = cbrtl(x.c[0]), X = x.c[0]; return apply(x, s, s / (3 * X), -2 * s / (9 * X * X), 10 * s / (27 * X * X * X)); }
inline R degrees(const R& x) { LD k = 180 / acosl(-1.0L); return apply(x, k * x.c[0], k, 0, 0); }
inline R radians(const R& x) { LD k = acosl(-1.0L) / 180; return apply(x, k * x.c[0], k, 0, 0); }
inline R abs(const R& x) { near(x.c[0]); LD s = x.c[0] > 0 ? 1 : x.c[0] < 0 ? -1 : 0; return apply(x, fabsl(x.c[0]), s, 0, 0); }
inline R fabs(const R& x) { return abs(x); }
inline void nearInt(LD v, LD off = 0) { LD f = v - off; near(f - nearbyintl(f)); }
inline R floor(const R& x) { nearInt(x.c[0]); return apply(x, floorl(x.c[0]), 0, 0, 0); }
inline R ceil(const R& x) { nearInt(x.c[0]); return apply(x, ceill(x.c[0]), 0, 0, 0); }
inline R trunc(const R& x) { nearInt(x.c[0]); return apply(x, truncl(x.c[0]), 0, 0, 0); }
inline R round(const R& x) { nearInt(x.c[0], 0.5L); return apply(x, roundl(x.c[0]), 0, 0, 0); }

inline bool isConst(const R& x) { for (int i = 1; i < 8; ++i) if (x.c[i] != 0 || x.m[i] != 0) return false; return true; }
inline R powc(const R& x, LD p)  // constant exponent
{
    LD X = x.c[0];
    bool integral = p == truncl(p);
    if (!(integral && p >= 0)) near(X);
    if (!integral && X < 0) near(0);
    auto term = [&](LD coef, LD q) { return coef == 0 ? LD(0) : coef * powl(X, q); };
    return apply(x, powl(X, p), term(p, p - 1), term(p * (p - 1), p - 2), term(p * (p - 1) * (p - 2), p - 3));
}
inline R pow(const R& a, const R& b)
{
    near(a.c[0]);
    if (!(a.c[0] > 0)) { near(0); return powc(a, b.c[0]); }
    R r = exp(b * log(a));
    r.c[0] = powl(a.c[0], b.c[0]);
    return r;
}
inline R pown(const R& a, int p) { return powc(a, p); }
template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
inline R pow(const R& a, T b) { return powc(a, b); }
template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
inline R pow(T a, const R& b) { return pow(R(a), b); }
inline R max(const R& a, const R& b) { near(a.c[0] - b.c[0]); return a.c[0] < b.c[0] ? b : a; }
inline R min(const R& a, const R& b) { near(a.c[0] - b.c[0]); return b.c[0] < a.c[0] ? b : a; }
inline R fmax(const R& a, const R& b) { return max(a, b); }
inline R fmin(const R& a, const R& b) { return min(a, b); }
inline R fmod(const R& a, const R& b)
{
    near(b.c[0]);
    LD q = a.c[0] / b.c[0];
    nearInt(q);
    R r = lin(a, 1, b, -truncl(q));
    r.c[0] = fmodl(a.c[0], b.c[0]);
    return r;
}
inline R remainder(const R& a, const R& b)
{
    near(b.c[0]);
    LD q = a.c[0] / b.c[0];
    nearInt(q, 0.5L);
    R r = lin(a, 1, b, -nearbyintl(q));
    r.c[0] = remainderl(a.c[0], b.c[0]);
    return r;
}
inline R remquo(const R& a, const R& b, int* quo)
{
    R r = remainder(a, b);
    r.c[0] = remquol(a.c[0], b.c[0], quo);
    return r;
}
inline R hypot(const R& a, const R& b)
{
    near(hypotl(a.c[0], b.c[0]));
    R r = sqrt(a * a + b * b);
    r.c[0] = hypotl(a.c[0], b.c[0]);
    return r;
}
inline R atan2(const R& y, const R& x)
{
    near(hypotl(x.c[0], y.c[0]));
    if (x.c[0] < 0) near(y.c[0]);
    R r = fabsl(x.c[0]) > fabsl(y.c[0]) ? atan(y / x) : -atan(x / y);
    r.c[0] = atan2l(y.c[0], x.c[0]);
    return r;
}
inline R nextafter(const R& a, const R&) { return a; }
inline R smooth_abs(const R& x, const R& c)
{
    LD X = x.c[0], C = c.c[0];
    near(fabsl(X) - C);
    near(X);
    if (!(C > 0)) near(0);  // the smoothing region needs a positive width
    if (fabsl(X) > C) return X < 0 ? -x : x;
    return X < 0 ? x * x * (2.0L / c + x / (c * c)) : x * x * (2.0L / c - x / (c * c));
}
inline R smooth_abs(const R& x) { return smooth_abs(x, R(0.001)); }
inline R smooth_max(const R& x, const R& y, const R& c) { return 0.5L * (x + y + smooth_abs(x - y, c)); }
inline R smooth_min(const R& x, const R& y, const R& c) { return 0.5L * (x + y - smooth_abs(x - y, c)); }
inline R smooth_max(const R& x, const R& y) { return smooth_max(x, y, R(0.001)); }
inline R smooth_min(const R& x, const R& y) { return smooth_min(x, y, R(0.001)); }
inline R ldexp(const R& x, int e) { LD k = ldexpl(1, e); return apply(x, ldexpl(x.c[0], e), k, 0, 0); }
inline R scalbn(const R& x, int e) { return ldexp(x, e); }
inline R frexp(const R& x, int* e)
{
    LD v = frexpl(x.c[0], e);
    near(x.c[0]);
    near(fabsl(v) - 0.5L);
    near(fabsl(v) - 1);
    return apply(x, v, ldexpl(1, -*e), 0, 0);
}
inline R modf(const R& x, LD* ip) { nearInt(x.c[0]); LD v = modfl(x.c[0], ip); return apply(x, v, 1, 0, 0); }
inline R modf(const R& x, double* ip) { LD t; R r = modf(x, &t); *ip = double(t); return r; }
inline R modf(const R& x, float* ip) { LD t; R r = modf(x, &t); *ip = float(t); return r; }
inline R copysign(const R& x, const R& y)
{
    near(x.c[0]);
    near(y.c[0]);
    return std::signbit(x.c[0]) == std::signbit(y.c[0]) ? x : -x;
}
inline bool signbit(const R& x) { near(x.c[0]); return std::signbit(x.c[0]); }
inline bool isnan(const R& x) { return std::isnan(x.c[0]); }
inline bool isinf(const R& x) { return std::isinf(x.c[0]); }
inline bool isfinite(const R& x) { return std::isfinite(x.c[0]); }
template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
inline R fmod(const R& a, T b) { return fmod(a, R(b)); }
#define REF_MIX(f)                                                                                                     \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>                           \
    inline R f(const R& a, T b) { return f(a, R(b)); }                                                                \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>                           \
    inline R f(T a, const R& b) { return f(R(a), b); }
REF_MIX(max) REF_MIX(min) REF_MIX(fmax) REF_MIX(fmin) REF_MIX(remainder) REF_MIX(hypot) REF_MIX(atan2)
REF_MIX(nextafter) REF_MIX(smooth_abs) REF_MIX(copysign)
template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
inline R fmod(T a, const R& b) { return fmod(R(a), b); }
}  // namespace ref
