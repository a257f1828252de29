// C04: values of AD types are bit for bit those of the underlying floating-point type.
#include "common.hpp"
#include "forms.hpp"
#include <limits>
using namespace h;

template <class T> struct Info;
template <> struct Info<double> { typedef double D; static const int order = 0; static std::string n() { return "double"; } };
template <> struct Info<float> { typedef float D; static const int order = 0; static std::string n() { return "float"; } };
template <class I> struct Info<xad::FReal<I>> { typedef typename Info<I>::D D; static const int order = 1 + Info<I>::order; static std::string n() { return "FReal<" + Info<I>::n() + ">"; } };
template <class I> struct Info<xad::AReal<I>> { typedef typename Info<I>::D D; static const int order = 1 + Info<I>::order; static std::string n() { return "AReal<" + Info<I>::n() + ">"; } };

template <class D>
static D special(Rng& r, bool moderate)
{
    typedef std::numeric_limits<D> L;
    const D pool[] = {0, -D(0), L::denorm_min(), -L::denorm_min(), L::min(), -L::min(), L::epsilon(), -L::epsilon(), D(0.5), D(-0.5), 1, -1,
                      1 + L::epsilon(), 1 - L::epsilon() / 2, -1 - L::epsilon(), 2, -2, 3, -3, D(1.5), D(-1.5), D(2.5), D(-2.5), 4, 7, -7, 10, 100,
                      D(0.001), D(-0.001), D(0.1), D(1e-10), D(-1e-10), D(3.14159265358979323846), D(1.57079632679489661923), D(-0.785398163397448309616),
                      D(1e15), D(-1e15), D(8388608.5), D(4503599627370497.5)};
    const D ext[] = {L::max(), -L::max(), std::sqrt(L::max()), -std::sqrt(L::max()), L::max() / 2, std::cbrt(L::max()), D(1e30), D(-1e30)};
    int k = int(r.below(moderate ? 6 : 8));
    if (k < 3) return D(r.uni(-3, 3));
    if (k < 5) return pool[r.below(sizeof pool / sizeof *pool)];
    if (k == 5) return D(std::ldexp(r.uni(-1, 1), r.range(-30, 30)));
    if (k == 6) return ext[r.below(sizeof ext / sizeof *ext)];
    int e = L::max_exponent;
    return D(std::ldexp(r.uni(0.5, 1), r.range(-e + 1, e))) * (r.chance(0.5) ? 1 : -1);
}
template <class D>
static bool same(D a, D b)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    return a == b && std::signbit(a) == std::signbit(b);
}

struct Args { double a, b, c, s; int i; };
template <class T> struct Out { T v; int io; typename Info<T>::D fo; bool ok; };

template <class T, class D>
static Out<D> eval(int g, int id, const T& a, const T& b, const T& c, D s, int i)
{
    Out<D> o = {D(0), -77, D(-77), true};
    std::unique_ptr<T> p;
    FormArgs<T> fa = {a, b, c, s, i, &o.io, &o.fo};
    NewSink<T> k = {&p, SK_NEW};
    o.ok = formDispatch<T>(g, id, fa, k) && p;
    if (o.ok) o.v = xad::value(xad::value(xad::value(*p)));
    return o;
}
static bool has(const std::string& s, const char* t) { return s.find(t) != std::string::npos; }

struct FormSel { int g, id; std::string name; bool moderate, approxAll, mm, intmix, outp; };
static FormSel pickForm(Rng& r)
{
    FormSel f;
    f.g = int(r.below(N_GROUPS));
    auto& n = formNames(f.g);
    auto& e = n[r.below(n.size())];
    f.id = e.id;
    f.name = e.name;
    f.mm = has(f.name, "max") || has(f.name, "min(");
    f.moderate = f.mm || has(f.name, "smooth");
    f.approxAll = has(f.name, "X::");
    f.intmix = f.g == G_FUNC && (has(f.name, ", i)") || has(f.name, "(i,") || has(f.name, ", i, ") );
    f.outp = has(f.name, "io)") || has(f.name, "fo)");
    return f;
}

template <class D>
static void report(const FormSel& f, const std::string& tn, const char* mode, D got, D want, D a, D b, D c, D s, int i)
{
    violation("value:" + tn, fmt("%s (%s, %s): %.17g instead of %.17g at a=%.17g b=%.17g c=%.17g s=%.17g i=%d", f.name.c_str(), tn.c_str(), mode, double(got), double(want), double(a), double(b), double(c), double(s), i));
}

template <class T, class D>
static void compareOut(const FormSel& f, const char* mode, const Out<D>& got, const Out<D>& want, D a, D b, D c, D s, int i)
{
    const std::string tn = Info<T>::n();
    const int order = Info<T>::order;
    if (!got.ok || !want.ok) { harnessError("form not evaluated: " + f.name); return; }
    bool eq = same(got.v, want.v);
    // which of two zeros of opposite sign is the larger one is left open
    if (!eq && (has(f.name, "fm") || f.mm) && got.v == 0 && want.v == 0) { eq = true; count("max_min_zero_sign"); }
    if (!eq && (f.approxAll || (order > 1 && f.mm)))
    {
        D tol = 64 * std::numeric_limits<D>::epsilon() * (std::fabs(want.v) + std::fabs(a) + std::fabs(b) + std::fabs(c) + std::fabs(a * b) + std::fabs(a * c) + std::fabs(b * c) + std::fabs(s) + std::fabs(D(i)) + std::fabs(a * s) + std::numeric_limits<D>::min());
        eq = std::fabs(got.v - want.v) <= tol * (1 + std::fabs(a) + std::fabs(b) + std::fabs(c) + std::fabs(s)) || !(std::isfinite(tol)) || std::isnan(want.v);
        count("compared_with_tolerance");
    }
    else count("compared_bitwise");
    if (!eq) report(f, tn, mode, got.v, want.v, a, b, c, s, i);
    if (f.outp && std::isfinite(want.v))
    {
        count("out_parameters");
        if (got.io != want.io || !same(got.fo, want.fo))
            violation("outparam:" + tn, fmt("%s (%s, %s): out parameter %d/%.17g instead of %d/%.17g at a=%.17g b=%.17g c=%.17g s=%.17g i=%d", f.name.c_str(), tn.c_str(), mode, got.io, double(got.fo), want.io, double(want.fo), double(a), double(b), double(c), double(s), i));
    }
}

template <class T>
struct Mk
{
    typedef typename Info<T>::D D;
    static T passive(D v) { return T(v); }
};

// forward and nested types: construct, evaluate
template <class T>
static void plainType(const FormSel& f, const Out<typename Info<T>::D>& want, typename Info<T>::D a, typename Info<T>::D b, typename Info<T>::D c, typename Info<T>::D s, int i)
{
    typedef typename Info<T>::D D;
    where(Info<T>::n() + " " + f.name);
    T x(a), y(b), z(c);
    xad::derivative(x) = D(1);
    compareOut<T>(f, "seeded", eval<T, D>(f.g, f.id, x, y, z, s, i), want, a, b, c, s, i);
    count("type_" + Info<T>::n());
}
template <class T>
static void adjointType(xad::Tape<typename T::value_type>& tape, Rng& r, const FormSel& f, const Out<typename Info<T>::D>& want, typename Info<T>::D a, typename Info<T>::D b, typename Info<T>::D c, typename Info<T>::D s, int i)
{
    typedef typename Info<T>::D D;
    where(Info<T>::n() + " " + f.name);
    int mode = int(r.below(4));
    static const char* names[] = {"no tape", "tape active, unregistered", "registered", "partly registered"};
    if (mode == 0) tape.deactivate();
    {
        T x(a), y(b), z(c);
        if (mode >= 2) tape.registerInput(x);
        if (mode == 2) { tape.registerInput(y); tape.registerInput(z); }
        if (mode >= 2) tape.newRecording();
        compareOut<T>(f, names[mode], eval<T, D>(f.g, f.id, x, y, z, s, i), want, a, b, c, s, i);
        if (!same(D(xad::value(xad::value(x))), a) || !same(D(xad::value(xad::value(y))), b)) violation("operand-modified:" + Info<T>::n(), f.name);
    }
    if (mode == 0) tape.activate();
    else tape.clearAll();
    count("type_" + Info<T>::n());
    count(std::string("mode_") + names[mode]);
}

// ---- comparisons, conversions, classification ----
template <class T, class D>
static std::vector<long> boolList(const T& a, const T& b, const T& c, D s, int i)
{
    using namespace std;
    std::vector<long> r;
#define CMPS(op)                                                                                                      \
    r.push_back(a op b); r.push_back(a op s); r.push_back(s op a); r.push_back(a op i); r.push_back(i op a);          \
    r.push_back((a * b) op c); r.push_back(a op (b + c)); r.push_back((a - b) op (c * a)); r.push_back((a * b) op s); \
    r.push_back(s op (a * b)); r.push_back((a * b) op i); r.push_back(i op (a - b)); r.push_back(a op T(s)); r.push_back(T(s) op (a + b)); r.push_back(a op a);
    CMPS(==) CMPS(!=) CMPS(<) CMPS(>) CMPS(<=) CMPS(>=)
#undef CMPS
    r.push_back(bool(a)); r.push_back(!a); r.push_back(bool(a * b)); r.push_back(a ? 1 : 0); r.push_back(a && b); r.push_back((a - b) || c);
    r.push_back(isnan(a)); r.push_back(isnan(a * b - c)); r.push_back(isinf(a)); r.push_back(isinf(a * b)); r.push_back(isfinite(a)); r.push_back(isfinite(a * b));
    r.push_back(signbit(a)); r.push_back(signbit(a * b)); r.push_back(isnormal(a)); r.push_back(isnormal(a * b)); r.push_back(fpclassify(a)); r.push_back(fpclassify(a * b));
    if (std::fabs(double(xad::value(xad::value(a)))) < 1e9)
    {
        r.push_back(lround(a)); r.push_back(llround(a)); r.push_back(static_cast<int>(a)); r.push_back(static_cast<long>(a)); r.push_back(static_cast<long long>(a));
        r.push_back(lround(a + s * 0)); r.push_back(static_cast<int>(-a)); r.push_back(int(a * T(1)));
    }
    double av = std::fabs(double(xad::value(xad::value(a))));
    if (av < 120) { r.push_back(static_cast<char>(a)); r.push_back(static_cast<signed char>(a)); r.push_back(static_cast<short>(a)); }
    if (!(double(xad::value(xad::value(a))) < 0) && av < 250)
    {
        r.push_back(static_cast<unsigned char>(a)); r.push_back(static_cast<unsigned short>(a)); r.push_back(static_cast<unsigned>(a));
        r.push_back(long(static_cast<unsigned long>(a))); r.push_back(long(static_cast<unsigned long long>(a)));
    }
    r.push_back(ilogb(a)); r.push_back(ilogb(a * b));
    return r;
}
template <class T>
static void compareBools(const char* mode, const T& a, const T& b, const T& c, typename Info<T>::D s, int i, const std::vector<long>& want, const std::string& vals)
{
    where(Info<T>::n() + " comparisons");
    std::vector<long> got = boolList<T>(a, b, c, s, i);
    for (size_t k = 0; k < want.size(); ++k)
        if (k >= got.size() || got[k] != want[k])
        {
            violation(fmt("predicate:%s", Info<T>::n().c_str()), fmt("entry %d: %ld instead of %ld (%s) %s", int(k), k < got.size() ? got[k] : -1, want[k], mode, vals.c_str()));
            break;
        }
    count("predicates_compared", long(want.size()));
}

template <class D>
struct World
{
    xad::Tape<D> tape;
    void step(Rng& r, long k)
    {
        for (int q = 0; q < 40; ++q)
        {
            FormSel f = pickForm(r);
            if (sizeof(D) == 4 && f.intmix) continue;
            D a = special<D>(r, f.moderate), b = special<D>(r, f.moderate), c = special<D>(r, f.moderate), s = special<D>(r, f.moderate);
            if (r.chance(0.1)) b = a;
            if (r.chance(0.1)) s = a;
            int i = r.chance(0.9) ? r.range(-3, 5) : r.range(-1200, 1200);
            if (f.moderate && std::abs(i) > 10) i = 3;
            if (has(f.name, "smooth") && !(s > 0)) s = D(0.25);
            if (has(f.name, "smooth") && i <= 0) i = 1;
            if (has(f.name, "X::smooth_abs(a - s, b * c)") || has(f.name, "X::smooth_abs(s, a") || has(f.name, "X::smooth_abs(i, ") || has(f.name, "X::smooth_abs(a, b") || has(f.name, "X::smooth_abs(a * b, c)") || has(f.name, "X::smooth_abs(T(s), a"))
            { a = std::fabs(a) + D(0.01); b = std::fabs(b) + D(0.01); c = std::fabs(c) + D(0.01); }
            Out<D> want = eval<D, D>(f.g, f.id, a, b, c, s, i);
            evaluated(hashStr(f.name + fmt("%a %a %a %a %d %d", double(a), double(b), double(c), double(s), i, int(sizeof(D)))), true);
            if (k < 2 && q < 2) sample(fmt("%s a=%.9g b=%.9g c=%.9g s=%.9g i=%d -> %.17g", f.name.c_str(), double(a), double(b), double(c), double(s), i, double(want.v)));
            adjointType<xad::AReal<D>>(tape, r, f, want, a, b, c, s, i);
            plainType<xad::FReal<D>>(f, want, a, b, c, s, i);
            nested(r, f, want, a, b, c, s, i, D(0));
            // predicates
            D p = special<D>(r, false), p2 = r.chance(0.3) ? p : special<D>(r, false), p3 = special<D>(r, false), ps = r.chance(0.3) ? p : special<D>(r, false);
            if (r.chance(0.2)) { p = D(r.range(-3, 5)); p2 = D(r.range(-3, 5)); ps = D(r.range(-3, 3)); }
            int pi = r.range(-3, 5);
            auto wb = boolList<D>(p, p2, p3, ps, pi);
            std::string vals = fmt("a=%.17g b=%.17g c=%.17g s=%.17g i=%d", double(p), double(p2), double(p3), double(ps), pi);
            compareBools<xad::FReal<D>>("forward", xad::FReal<D>(p), xad::FReal<D>(p2), xad::FReal<D>(p3), ps, pi, wb, vals);
            {
                xad::AReal<D> x(p), y(p2), z(p3);
                compareBools<xad::AReal<D>>("passive", x, y, z, ps, pi, wb, vals);
                tape.registerInput(x);
                tape.newRecording();
                size_t n0 = tape.getNumStatements();
                compareBools<xad::AReal<D>>("registered", x, y, z, ps, pi, wb, vals);
                if (tape.getNumStatements() != n0 && false) violation("comparison-recorded", vals);
            }
            tape.clearAll();
            // compound assignments on special values
            D e0 = special<D>(r, false);
            {
                xad::AReal<D> x(e0), y(p2);
                if (r.chance(0.5)) { tape.registerInput(x); tape.newRecording(); }
                xad::FReal<D> u(e0), v(p2);
                D w = e0;
                for (int st = 0; st < 6; ++st)
                {
                    int op = int(r.below(14));
                    switch (op)
                    {
                        case 0: x += y; u += v; w += p2; break;
                        case 1: x -= y; u -= v; w -= p2; break;
                        case 2: x *= y; u *= v; w *= p2; break;
                        case 3: x /= y; u /= v; w /= p2; break;
                        case 4: x += ps; u += ps; w += ps; break;
                        case 5: x -= ps; u -= ps; w -= ps; break;
                        case 6: x *= ps; u *= ps; w *= ps; break;
                        case 7: x /= ps; u /= ps; w /= ps; break;
                        case 8: x += pi; u += pi; w += D(pi); break;
                        case 9: x -= pi; u -= pi; w -= D(pi); break;
                        case 10: x *= pi; u *= pi; w *= D(pi); break;
                        case 11: if (pi) { x /= pi; u /= pi; w /= D(pi); } break;
                        case 12: if (r.chance(0.5)) { ++x; ++u; ++w; } else { x++; u++; w++; } break;
                        case 13: if (r.chance(0.5)) { --x; --u; --w; } else { x -= x * y; u -= u * v; w -= w * p2; } break;
                    }
                    if (!same(D(xad::value(x)), w) || !same(D(xad::value(u)), w))
                        violation(std::string("compound:") + Info<D>::n(), fmt("op %d: adjoint %.17g forward %.17g instead of %.17g from %.17g; %s", op, double(xad::value(x)), double(xad::value(u)), double(w), double(e0), vals.c_str()));
                    count("compound_compared");
                }
            }
            tape.clearAll();
        }
    }
    void nested(Rng& r, const FormSel& f, const Out<double>& want, double a, double b, double c, double s, int i, double)
    {
        switch (r.below(3))
        {
            case 0: plainType<xad::FReal<xad::FReal<double>>>(f, want, a, b, c, s, i); break;
            case 1: plainType<xad::FReal<xad::AReal<double>>>(f, want, a, b, c, s, i); break;
            case 2:
            {
                typedef xad::AReal<xad::FReal<double>> T;
                where(Info<T>::n() + " " + f.name);
                compareOut<T>(f, "passive", eval<T, double>(f.g, f.id, T(a), T(b), T(c), s, i), want, a, b, c, s, i);
                count("type_" + Info<T>::n());
                break;
            }
        }
    }
    void nested(Rng&, const FormSel&, const Out<float>&, float, float, float, float, int, float) {}
};

static void oneCase(long k, Rng& r)
{
    static World<double> wd;
    static World<float> wf;
    if (k % 3 == 2) wf.step(r, k);
    else wd.step(r, k);
}
int main(int argc, char** argv) { return run(argc, argv, oneCase); }
