// C05: partial derivatives of every single function/operator overload over its whole domain.
#include "common.hpp"
#include "forms.hpp"
#include <limits>
#include <map>
using namespace h;

struct Form { int g, id; std::string name, fn; bool exact; };
static std::vector<Form> forms;

static void collect()
{
    for (int g = 0; g < N_GROUPS; ++g)
        for (auto& n : formNames(g))
        {
            std::string s = n.name;
            if (g == G_DEEP) continue;
            Form f = {g, n.id, s, "", true};
            std::string t = s;
            size_t p;
            while ((p = t.find("T(s)")) != std::string::npos) t.replace(p, 4, "s");
            while ((p = t.find("(long)(i)")) != std::string::npos) t.replace(p, 9, "i");
            while ((p = t.find("(unsigned)(7)")) != std::string::npos) t.replace(p, 13, "i");
            if (g == G_ARITH)
            {
                // exact: one operator between simple operands
                f.fn = t.find('/') != std::string::npos ? "div" : t.find('*') != std::string::npos ? "mul" : "addsub";
                f.exact = t.size() <= 5;
            }
            else
            {
                f.exact = t.find(" * ") == std::string::npos && t.find(" + ") == std::string::npos && t.find(" - ") == std::string::npos;
                f.fn = t.substr(0, t.find('('));
                if (f.fn.compare(0, 4, "s * ") == 0) f.fn = f.fn.substr(4);
            }
            forms.push_back(f);
        }
}

template <class D> struct P { static std::string n(); static D lo(), hi(); };
template <> struct P<double> { static const char* n() { return "double"; } static int e() { return 1015; } };
template <> struct P<float> { static const char* n() { return "float"; } static int e() { return 124; } };

// magnitude sampler
template <class D>
static D pick(Rng& r)
{
    const D eps = std::numeric_limits<D>::epsilon();
    switch (r.below(9))
    {
        case 0: case 1: return D(r.uni(-3, 3));
        case 2: return D(r.uni(-1, 1));
        case 3: return D(r.uni(-30, 30));
        case 4: return D((r.chance(0.5) ? 1 : -1) * std::ldexp(r.uni(0.5, 1), r.range(-P<D>::e(), P<D>::e())));
        case 5: return D((r.chance(0.5) ? 1 : -1) * (1 + std::ldexp(r.uni(-1, 1), -r.range(1, sizeof(D) == 8 ? 50 : 22))));
        case 6: return D(r.range(-20, 20)) + D(r.chance(0.5) ? 0 : 0.5);
        case 7: return D(r.range(-20, 20)) + D(0.5) * D(r.range(-1, 1)) + D(std::ldexp(r.uni(-1, 1), -r.range(2, sizeof(D) == 8 ? 40 : 18)));
        default: return D((r.chance(0.5) ? 1 : -1) * std::ldexp(r.uni(0.5, 1), r.range(-20, 20))) + eps;
    }
}

static std::map<std::string, double> worst;
static std::map<std::string, long> hits;

template <class D>
static void check(const Form& f, const char* mode, int var, D got, long double exL, long double m, D a, D b, D c, D s, int i)
{
    typedef std::numeric_limits<D> L;
    // outside of the representable range of derivative values (with a margin)
    long double big = std::ldexp(1.0L, L::max_exponent - 6), small = std::ldexp(1.0L, L::min_exponent + 4);
    if (fabsl(exL) > big) { count("skipped_unrepresentable"); return; }
    long double unit = L::epsilon() * m + small;
    // rounding of (1 - y*y) style formulas is relative to one, not to the small difference
    if (f.fn == "tanh" || f.fn == "erf" || f.fn == "erfc") unit += L::epsilon();
    long double err = fabsl((long double)got - exL) / unit;
    const long double limit = f.fn == "pow" ? 500 : 64;
    if (!(err <= limit))
        violation("partial:" + f.fn + ":" + P<D>::n(), fmt("%s (%s, %s) partial wrt %c: %.17g, exact %.17Lg (err %.3Lg units) at a=%.17g b=%.17g c=%.17g s=%.17g i=%d", f.name.c_str(), P<D>::n(), mode, "abc"[var], double(got), exL, err, double(a), double(b), double(c), double(s), i));
    else
    {
        auto& w = worst[f.fn];
        if (double(err) > w) w = double(err);
    }
    if (exL != 0) ++hits[f.name];
    count("partials_compared");
}

template <class D>
struct World
{
    xad::Tape<D> tape;
    long n = 0;
    void step(const Form& f, Rng& r, bool show)
    {
        D a = pick<D>(r), b = pick<D>(r), c = pick<D>(r), s = pick<D>(r);
        int i = r.chance(0.8) ? r.range(-6, 9) : r.range(-90, 90);
        const bool intArg = f.name.find("ldexp") != std::string::npos || f.name.find("scalbn") != std::string::npos;
        if (intArg && r.chance(0.3)) i = r.range(-P<D>::e() / 2, P<D>::e() / 2);
        if (!f.exact) { a = D(r.uni(-4, 4)); b = D(r.uni(-4, 4)); c = D(r.uni(-4, 4)); s = D(r.uni(-4, 4)); i = r.range(-6, 9); }
        else if (f.fn.compare(0, 9, "X::smooth") == 0)
        {
            // bring the operands near the smoothing region half of the time
            if (r.chance(0.5)) { b = a + D(r.uni(-2, 2)) * D(std::fabs(s) + 0.001); if (f.fn == "X::smooth_abs") { a = D(r.uni(-1.5, 1.5)) * D(0.001); } }
            if (f.fn == "X::smooth_abs" && r.chance(0.5)) { b = D(r.uni(0.1, 4)); s = D(r.uni(0.1, 4)); a = D(r.uni(-5, 5)); }
        }
        // formulas with squares and cubes of the operands: magnitudes for which those are representable
        const bool squares = f.fn.compare(0, 9, "X::smooth") == 0 || f.fn == "div" || f.fn == "atan2" || f.fn == "asinh" || f.fn == "acosh";
        const double lim = sizeof(D) == 8 ? 1e95 : 1e11;
        bool trig = f.fn == "sin" || f.fn == "cos" || f.fn == "tan";
        for (D* p : {&a, &b, &c, &s})
        {
            if (trig && std::fabs(*p) > (sizeof(D) == 8 ? 1e10 : 1e4)) *p = D(r.uni(-1, 1) * 1e3);
            if (!squares) continue;
            if (std::fabs(*p) > lim) *p = D(lim * r.uni(-1, 1));
            if (*p != 0 && std::fabs(*p) < 1 / lim) *p = D(1 / lim) * (*p < 0 ? -1 : 1);
        }
        // exact reference
        int ioR = 0;
        double foR = 0;
        ref::R ra((long double)a), rb((long double)b), rc((long double)c);
        ra.c[1] = rb.c[2] = rc.c[4] = ra.m[1] = rb.m[2] = rc.m[4] = 1;
        ref::reset();
        std::unique_ptr<ref::R> rp;
        FormArgs<ref::R> fr = {ra, rb, rc, double(s), i, &ioR, &foR};
        NewSink<ref::R> kr = {&rp, SK_NEW};
        if (!formDispatch<ref::R>(f.g, f.id, fr, kr)) { harnessError("form"); return; }
        // domain: not at a kink (exact operands), resp. not near one
        long double kink = ref::kink();
        if (f.exact ? !(kink > 0) : !(kink > 1e-3L)) { count("skipped_kink"); return; }
        if (f.exact && kink < 1e-18L && (f.fn == "X::smooth_max" || f.fn == "X::smooth_min")) { count("skipped_kink"); return; }
        typedef std::numeric_limits<D> L;
        for (int q = 0; q < 3; ++q)
            if (!(fabsl(rp->c[1 << q]) < std::ldexp(1.0L, L::max_exponent - 6))) { count("skipped_domain"); return; }
        if (!(fabsl(rp->c[0]) < std::ldexp(1.0L, L::max_exponent - 4))) { count("skipped_domain"); return; }
        if (f.fn == "pow" || f.fn == "pown_")  // the partial wrt a constant operand of AD type must be representable as well
        {
            long double lo = 1, hi = 1 + std::abs(i);
            for (D v : {a, b, s}) { if (v != 0) lo = fminl(lo, fabsl(v)); hi = fmaxl(hi, fabsl(v)); }
            if (!(fabsl(rp->c[0]) / lo * hi * 800 < std::ldexp(1.0L, L::max_exponent - 6))) { count("skipped_unrepresentable"); return; }
        }
        if (!f.exact && (rp->m[1] > 1e9L || rp->m[2] > 1e9L || rp->m[4] > 1e9L)) { count("skipped_conditioning"); return; }
        ++n;
        evaluated(hashStr(f.name + fmt("%a %a %a %a %d", double(a), double(b), double(c), double(s), i)), rp->c[1] != 0 || rp->c[2] != 0);
        if (show) sample(fmt("%s at a=%.17g b=%.17g s=%.17g i=%d: d/da=%.17Lg d/db=%.17Lg", f.name.c_str(), double(a), double(b), double(s), i, rp->c[1], rp->c[2]));
        int io = 0;
        D fo = 0;
        where("forward " + f.name);
        long double mm[3];
        for (int q = 0; q < 3; ++q) mm[q] = rp->m[1 << q] + fabsl(rp->c[1 << q]);
        for (int q = 0; q < 3; ++q)
        {
            typedef xad::FReal<D> T;
            T x(a), y(b), z(c);
            xad::derivative(q == 0 ? x : q == 1 ? y : z) = D(1);
            std::unique_ptr<T> p;
            FormArgs<T> fa = {x, y, z, s, i, &io, &fo};
            NewSink<T> k = {&p, SK_NEW};
            formDispatch<T>(f.g, f.id, fa, k);
            check<D>(f, "forward", q, xad::derivative(*p), rp->c[1 << q], mm[q], a, b, c, s, i);
        }
        where("adjoint " + f.name);
        {
            typedef xad::AReal<D> T;
            T x(a), y(b), z(c);
            int regs = r.chance(0.7) ? 7 : 1 + int(r.below(7));
            if (regs & 1) tape.registerInput(x);
            if (regs & 2) tape.registerInput(y);
            if (regs & 4) tape.registerInput(z);
            tape.newRecording();
            std::unique_ptr<T> p;
            FormArgs<T> fa = {x, y, z, s, i, &io, &fo};
            NewSink<T> k = {&p, SK_NEW};
            formDispatch<T>(f.g, f.id, fa, k);
            tape.registerOutput(*p);
            D seed = r.chance(0.5) ? D(1) : D(-2);
            xad::derivative(*p) = seed;
            tape.computeAdjoints();
            if (regs & 1) check<D>(f, "adjoint", 0, xad::derivative(x) / seed, rp->c[1], mm[0], a, b, c, s, i);
            if (regs & 2) check<D>(f, "adjoint", 1, xad::derivative(y) / seed, rp->c[2], mm[1], a, b, c, s, i);
            if (regs & 4) check<D>(f, "adjoint", 2, xad::derivative(z) / seed, rp->c[4], mm[2], a, b, c, s, i);
            p.reset();
        }
        tape.clearAll();
    }
};

// ---- documented conventions and special points, given as explicit expectations ------------------
template <class T> struct Grad;
template <class D> struct Grad<xad::FReal<D>>
{
    typedef xad::FReal<D> T;
    template <class Fn> static void go(Fn fn, D a, D b, D& da, D& db)
    {
        { T x(a, D(1)), y(b); T z = fn(x, y); da = xad::derivative(z); }
        { T x(a), y(b, D(1)); T z = fn(x, y); db = xad::derivative(z); }
    }
};
template <class D> struct Grad<xad::AReal<D>>
{
    typedef xad::AReal<D> T;
    template <class Fn> static void go(Fn fn, D a, D b, D& da, D& db)
    {
        xad::Tape<D>* tape = xad::Tape<D>::getActive();
        {
            T x(a), y(b);
            tape->registerInput(x);
            tape->registerInput(y);
            tape->newRecording();
            T z = fn(x, y);
            tape->registerOutput(z);
            xad::derivative(z) = D(1);
            tape->computeAdjoints();
            da = xad::derivative(x);
            db = xad::derivative(y);
        }
        tape->clearAll();
    }
};
template <class T>
static void conventions(const char* tn)
{
    using namespace std;
    typedef typename NestedF<T>::type D;
    const D NA = std::numeric_limits<D>::quiet_NaN();  // not checked
    auto ck = [&](const char* name, D a, D b, D ea, D eb, T (*fn)(const T&, const T&)) {
        where(std::string("convention ") + name + " " + tn);
        D da, db;
        Grad<T>::go(fn, a, b, da, db);
        bool ok = true;
        if (!std::isnan(ea) && !(std::fabs(da - ea) <= 8 * std::numeric_limits<D>::epsilon() * std::fabs(ea))) ok = false;
        if (!std::isnan(eb) && !(std::fabs(db - eb) <= 8 * std::numeric_limits<D>::epsilon() * std::fabs(eb))) ok = false;
        if (!ok) violation(fmt("convention:%s:%s", name, tn), fmt("%s at (%.9g, %.9g): partials %.9g, %.9g, expected %.9g, %.9g", name, double(a), double(b), double(da), double(db), double(ea), double(eb)));
        count("conventions_checked");
    };
#define CK(A, B, EA, EB, EXPR) ck(#EXPR, D(A), D(B), D(EA), D(EB), [](const T& a, const T& b) -> T { (void)a; (void)b; return EXPR; })
    CK(0, 0, 0, NA, abs(a)); CK(0, 0, 0, NA, fabs(a)); CK(-0.0, 0, 0, NA, abs(a)); CK(0, 0, 0, NA, abs(-a)); CK(0, 0, 0, NA, fabs(a * 2 - a));
    for (double v : {0.0, 1.0, -2.5, 1e10})
    {
        CK(v, v, 0.5, 0.5, max(a, b)); CK(v, v, 0.5, 0.5, min(a, b)); CK(v, v, 0.5, 0.5, fmax(a, b)); CK(v, v, 0.5, 0.5, fmin(a, b));
        CK(v, v, 0.5, 0.5, max(a, T(b))); CK(v, v, 0.5, 0.5, fmin(a + 0, b + 0));
    }
    CK(1.5, 0, 0.5, NA, max(a, D(1.5))); CK(1.5, 0, 0.5, NA, max(D(1.5), a)); CK(1.5, 0, 0.5, NA, min(a, D(1.5))); CK(1.5, 0, 0.5, NA, min(D(1.5), a));
    CK(1.5, 0, 0.5, NA, fmax(a, D(1.5))); CK(1.5, 0, 0.5, NA, fmax(D(1.5), a)); CK(1.5, 0, 0.5, NA, fmin(a, D(1.5))); CK(1.5, 0, 0.5, NA, fmin(D(1.5), a));
    CK(2, 0, 0.5, NA, fmax(a, 2)); CK(2, 0, 0.5, NA, fmin(2, a)); CK(-2, 0, -0.5, NA, max(-a, D(2)));
    for (double v : {0.0, 1.0, -1.0, 3.0, 0.5, -0.5, 2.5, -7.25, 1e9, 0.999})
    {
        CK(v, 0, 0, NA, floor(a)); CK(v, 0, 0, NA, ceil(a)); CK(v, 0, 0, NA, trunc(a)); CK(v, 0, 0, NA, round(a));
        CK(v, 0, 0, NA, floor(a * 1)); CK(v, 0, 0, NA, round(-a));
    }
    // powers at the edge of the domain
    CK(0, 0, 0, NA, pow(a, 2)); CK(0, 0, 1, NA, pow(a, 1)); CK(0, 0, 0, NA, pow(a, 3)); CK(0, 0, 0, NA, pow(a, 0)); CK(0, 0, 0, NA, pow(a, D(2))); CK(0, 0, 1, NA, pow(a, D(1)));
    CK(0, 0, 0, NA, pow(a, D(0))); CK(0, 0, 0, NA, pow(a, D(1.5))); CK(0, 0, 0, NA, pown_(a, 2)); CK(0, 0, 1, NA, pown_(a, 1)); CK(0, 0, 0, NA, pown_(a, 0));
    CK(0, 2, 0, 0, pow(a, b)); CK(0, 1, 1, 0, pow(a, b)); CK(0, 3.5, 0, 0, pow(a, b)); CK(0, 2, 0, 0, pow(a * 1, b)); CK(0, 2, 0, 0, pow(a, b + 0));
    CK(0, 2, 0, 0, pow(D(0), b) + a * 0);
    CK(-2, 0, -4, NA, pow(a, 2)); CK(-2, 0, 12, NA, pow(a, D(3))); CK(-2, 0, 0, NA, pow(a, 0)); CK(-2, 0, -0.25, NA, pow(a, -1)); CK(-2, 0, 12, NA, pown_(a, 3)); CK(-0.5, 0, 16, NA, pow(a, D(-2)));
    CK(3, 0, 0, NA, pow(a, D(0))); CK(3, 0, 0, NA, pow(a, 0)); CK(3, 0, 0, std::log(3.0), pow(a, b)); CK(1, 5, 5, 0, pow(a, b));
    // remainders with negative operands
    CK(-7, 3, 1, 2, fmod(a, b)); CK(7, -3, 1, 2, fmod(a, b)); CK(-7, -3, 1, -2, fmod(a, b)); CK(7, 3, 1, -2, fmod(a, b));
    CK(-7, 3, 1, 2, remainder(a, b)); CK(7, -3, 1, 2, remainder(a, b)); CK(8, 3, 1, -3, remainder(a, b)); CK(-8, 3, 1, 3, remainder(a, b)); CK(1e5 + 0.25, 0.125 * 3, 1, NA, remainder(a, b));
    // all quadrants of atan2, axes included
    CK(1, 0, 0, -1, atan2(a, b)); CK(-1, 0, 0, 1, atan2(a, b)); CK(0, 1, 1, 0, atan2(a, b)); CK(0, 2, 0.5, 0, atan2(a, b)); CK(0, -1, -1, NA, atan2(a, b)); CK(2, -2, -0.25, -0.25, atan2(a, b)); CK(-2, -2, -0.25, 0.25, atan2(a, b));
    CK(1, 0, 0, NA, atan2(a, D(0))); CK(0, 2, NA, 0, atan2(D(0), b)); CK(0, 0, 0.5, NA, atan2(a, 2)); CK(0, 4, NA, -0.25, atan2(100000, b) * (10000000016.0 / 400000)); CK(3, 0, -1. / 30, NA, atan2(1, a) * (1. / 3));
    CK(3, 4, 0.6, 0.8, hypot(a, b)); CK(-3, 4, -0.6, 0.8, hypot(a, b)); CK(0, 5, 0, 1, hypot(a, b)); CK(0, -5, 0, -1, hypot(a, b)); CK(3, 0, 0.6, NA, hypot(a, D(4))); CK(3, 0, 0.6, NA, hypot(D(-4), a));
    // powers of two beyond the width of an int
    CK(3, 0, std::ldexp(1.0, 40), NA, ldexp(a, 40)); CK(3, 0, std::ldexp(1.0, -40), NA, ldexp(a, -40)); CK(3, 0, std::ldexp(1.0, 31), NA, ldexp(a, 31)); CK(3, 0, std::ldexp(1.0, 32), NA, ldexp(a, 32)); CK(3, 0, 1, NA, ldexp(a, 0)); CK(3, 0, 0.5, NA, ldexp(a, -1));
    CK(3, 0, std::ldexp(1.0, 40), NA, scalbn(a, 40)); CK(3, 0, std::ldexp(1.0, -40), NA, scalbn(a, -40));
    { int e; (void)e; }
    CK(std::ldexp(0.75, 50), 0, std::ldexp(1.0, -50), NA, [&]() { int e; return T(frexp(a, &e)); }()); CK(std::ldexp(0.75, -50), 0, std::ldexp(1.0, 50), NA, [&]() { int e; return T(frexp(a, &e)); }());
    CK(0.75, 0, 1, NA, [&]() { int e; return T(frexp(a, &e)); }()); CK(-3, 0, 0.25, NA, [&]() { int e; return T(frexp(a, &e)); }());
    CK(2.75, 0, 1, NA, [&]() { D e; return T(modf(a, &e)); }()); CK(-2.75, 0, 1, NA, [&]() { D e; return T(modf(a, &e)); }());
    // smoothed functions on both sides of their branches
    CK(0, 0, 0, NA, X::smooth_abs(a)); CK(0.0005, 0, 2 * 0.0005 * 2 / 0.001 - 3 * 0.0005 * 0.0005 / 1e-6, NA, X::smooth_abs(a)); CK(-0.0005, 0, -(2 * 0.0005 * 2 / 0.001 - 3 * 0.0005 * 0.0005 / 1e-6), NA, X::smooth_abs(a));
    CK(2, 0, 1, NA, X::smooth_abs(a)); CK(-2, 0, -1, NA, X::smooth_abs(a)); CK(1, 2, 1.25, -0.25, X::smooth_abs(a, b)); CK(-1, 2, -1.25, -0.25, X::smooth_abs(a, b)); CK(3, 2, 1, 0, X::smooth_abs(a, b)); CK(-3, 2, -1, 0, X::smooth_abs(a, b));
    CK(2, 1, 1, 0, X::smooth_max(a, b)); CK(1, 2, 0, 1, X::smooth_max(a, b)); CK(2, 1, 0, 1, X::smooth_min(a, b)); CK(1, 2, 1, 0, X::smooth_min(a, b)); CK(1, 1, 0.5, 0.5, X::smooth_max(a, b)); CK(1, 1, 0.5, 0.5, X::smooth_min(a, b));
    CK(2, -1, 1, NA, copysign(a, D(3))); CK(2, -1, -1, NA, copysign(a, D(-3))); CK(-2, -1, 1, NA, copysign(a, D(-3))); CK(-2, -1, -1, NA, copysign(a, D(3))); CK(2, -1, -1, 0, copysign(a, b)); CK(-2, 5, -1, 0, copysign(a, b));
    CK(2, 3, 1, 0, nextafter(a, b)); CK(2, -3, 1, 0, nextafter(a, b));
    // two or more occurrences of the same variable
    CK(3, 2, 6, NA, a * a); CK(3, 2, 0, NA, a - a); CK(3, 2, 0, NA, a / a); CK(3, 2, 27 * (1 + std::log(3.0)), NA, pow(a, a)); CK(3, 0, 0, NA, atan2(a, a)); CK(3, 0, 1, NA, max(a, a)); CK(3, 0, std::sqrt(2.0), NA, hypot(a, a)); CK(3, 0, 1, NA, min(a, a));
#undef CK
}

static void oneCase(long k, Rng& r)
{
    static World<double> wd;
    static World<float> wf;
    if (k == 0)
    {
        conventions<xad::FReal<double>>("FReal<double>");
        conventions<xad::AReal<double>>("AReal<double>");
        conventions<xad::FReal<float>>("FReal<float>");
        conventions<xad::AReal<float>>("AReal<float>");
    }
    for (int q = 0; q < 60; ++q)
    {
        const Form& f = forms[(k * 61 + q) % forms.size()];
        if (r.chance(0.3)) wf.step(f, r, k < 3 && q == 0);
        else wd.step(f, r, k < 3 && q == 0);
    }
}
static void atEnd()
{
    for (auto& w : worst) maxi("max_err_units_" + w.first, w.second);
    count("forms_with_nonzero_partials", long(hits.size()));
}
int main(int argc, char** argv) { return run(argc, argv, oneCase, collect, atEnd); }
